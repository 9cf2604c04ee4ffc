"""Model evaluators on an arbitrary fit."""
import z3

from ded import arr, core, seq, sym
from ded.arr import Arr
from ded.contract import Stub, contract
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t

ME = "diffpy.srmise.modelevaluators."
BASE = ME + "base.ModelEvaluator."
KINDS = {"AIC": ME + "aic.AIC.", "AICc": ME + "aicc.AICc."}


def evaluator(kind):
    from diffpy.srmise.modelevaluators.aic import AIC
    from diffpy.srmise.modelevaluators.aicc import AICc
    return {"AIC": AIC, "AICc": AICc}[kind]


class Fit(Stub):
    """Any model cluster: n points, a model with some free and fixed parameters."""

    def __init__(self, v):
        self.size = v.int("n", 0)
        self.nfree, nfix = v.int("nfree", 0), v.int("nfixed", 0)
        self.nall = self.nfree + nfix
        self.y_cluster, self.error_cluster, self.fitted = v.array("y", self.size), v.array("err", self.size), v.array("model", self.size)
        v.assume(forall(1, lambda i: Implies(And(0 <= i, i < self.size), self.error_cluster.at(i) > 0)))
        fit = self

        class Model(Stub):
            def npars(self, count_fixed=True):
                return fit.nall if count_fixed else fit.nfree
        self.model = Model()

    def value(self):
        return self.fitted

    def chisq(self):
        f, y, e = self.fitted, self.y_cluster, self.error_cluster
        with sym.spec_mode():
            return arr.register_sum(self.size, lambda i: (f.at(i) - y.at(i)) * (f.at(i) - y.at(i)) / (e.at(i) * e.at(i)))

    def unchanged(self):
        return all(a.store.ver == 0 for a in (self.y_cluster, self.error_cluster, self.fitted))


def need(kind, k):
    return num(1) if kind == "AIC" else num(k) + 2


def penalty(kind, k, n):
    k, n = num(k), num(n)
    p = 2 * k
    if kind == "AICc":
        with sym.spec_mode():
            p = p + SNum(sym.real((2 * k * (k + 1)).t)) / (n - k - 1)
    return p
