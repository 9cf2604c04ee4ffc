from .ev import *  # noqa: F401,F403
from .ev import BASE, KINDS, evaluator
from ded.vcrt import LoopSpec

OPS = [BASE + "__%s__" % o for o in ("lt", "le", "eq", "ne", "gt", "ge")]
ASSUMPTIONS = ["lemma: a finite sum of terms divided by a constant is the sum divided by it"]


def two(v, higher=False):
    from diffpy.srmise.modelevaluators.base import ModelEvaluator
    if bool(v.bool("concrete criterion")):
        kind = "AIC" if bool(v.bool("plain")) else "AICc"
        a, b, h = evaluator(kind)(), evaluator(kind)(), False
    else:
        h = bool(v.bool("higher is better"))
        a, b = ModelEvaluator("M", h), ModelEvaluator("M", h)
    a.stat, b.stat = v.real("s"), v.real("u")
    return a, b, h


@contract("C13", "comparison operators", functions=OPS + [BASE + "__init__"])
def compare(v):
    a, b, h = two(v)
    s, u = a.stat, b.stat
    res = {o: v.must("compare", getattr(a, "__%s__" % o), b) for o in ("lt", "le", "eq", "ne", "gt", "ge")}
    R = {o: SBool(sym.bt(x)) for o, x in res.items()}
    better = (s > u) if h else (s < u)
    v.prove("a better fit compares as greater", And(Implies(better, R["gt"]), Implies(R["gt"], better)))
    v.prove("the operators agree with the statistics", And(SBool(R["eq"].t == sym.bt(s == u)), SBool(R["ne"].t == z3.Not(R["eq"].t)), SBool(R["ge"].t == z3.Or(R["gt"].t, R["eq"].t)),
                                                          SBool(R["lt"].t == z3.Not(R["ge"].t)), SBool(R["le"].t == z3.Not(R["gt"].t))))
    v.prove("comparison changes nothing", a.stat is s and b.stat is u)


@contract("C13", "total order", functions=OPS)
def order(v):
    from diffpy.srmise.modelevaluators.base import ModelEvaluator
    h = bool(v.bool("higher is better"))
    es = []
    for nm in "abc":
        e = ModelEvaluator("M", h)
        e.stat = v.real(nm)
        es.append(e)
    a, b, c = es
    B = lambda x: SBool(sym.bt(x))
    v.prove("transitive", Implies(And(B(a.__le__(b)), B(b.__le__(c))), B(a.__le__(c))))
    v.prove("total", Or(B(a.__le__(b)), B(b.__le__(a))))
    v.prove("antisymmetric", Implies(And(B(a.__le__(b)), B(b.__le__(a))), B(a.__eq__(b))))
    v.prove("reflections agree", And(SBool(B(a.__lt__(b)).t == B(b.__gt__(a)).t), SBool(B(a.__le__(b)).t == B(b.__ge__(a)).t)))


@contract("C13", "refused comparisons", functions=OPS)
def refuse(v):
    from diffpy.srmise.modelevaluators.base import ModelEvaluator
    for op in ("lt", "le", "eq", "ne", "gt", "ge"):
        a, b = evaluator("AIC")(), evaluator("AICc")()
        a.stat, b.stat = v.real("s"), v.real("u")
        v.refuses("different criteria", AssertionError, getattr(a, "__%s__" % op), b)
        for x, y in ((None, v.real("u")), (v.real("s"), None), (None, None)):
            c, d = evaluator("AIC")(), evaluator("AIC")()
            c.stat, d.stat = x, y
            v.refuses("unevaluated fits", AssertionError, getattr(c, "__%s__" % op), d)


class Aic(Stub):
    def __init__(self, s):
        self.stat = s


def weights(v, kind):
    M = v.int("M", 1)
    f = z3.Function(v.p.name("stat"), sym.I, sym.R)
    st = lambda k: SNum(f(t(k)))
    aics = seq.SymList(M, lambda k: Aic(st(k)))
    cls = evaluator(kind)
    w = arr.asarr(v.must("weights", cls.akaikeweights, aics))
    i, j = v.int("i", 0, M), v.int("j", 0, M)
    v.prove("one weight per model", num(w.shape_[0]) == M)
    best = v.int("best", 0, M)
    v.assume(forall(1, lambda k: Implies(And(0 <= k, k < M), st(best) <= st(k)), patterns=lambda k: [st(k)]))
    v.prove("the weight is exp(-(stat - best)/2)", w.at(i) == SNum(sym.EXP((-(st(i) - st(best)) / 2).t)))
    v.prove("the best has weight one", w.at(best) == 1)
    v.prove("none exceeds it", And(w.at(i) <= 1, w.at(i) > 0))
    return cls, M, st, aics, i, j, best, w


def probs(v, kind):
    cls, M, st, aics, i, j, best, w = weights(v, kind)
    p = arr.asarr(v.must("probabilities", cls.akaikeprobs, aics))
    v.prove("one probability per model", num(p.shape_[0]) == M)
    with sym.spec_mode():
        W = arr.register_sum(M, lambda k: w.at(k))
    v.prove("the weights' sum is positive", W > 0)
    v.prove("the probability is the weight's share", p.at(i) == w.at(i) / W)
    v.prove("non-negative", p.at(i) >= 0)
    with sym.spec_mode():
        S = arr.register_sum(M, lambda k: p.at(k))
        Q = arr.register_sum(M, lambda k: w.at(k) / W)
    v.assume(Q == W / W)  # linearity lemma
    v.prove("the sums agree term by term", S == Q)
    v.prove_from("they sum to one", [S == Q, Q == W / W, W > 0], S == 1)
    wi, wj, pi, pj, W1 = v.real("wi"), v.real("wj"), v.real("pi"), v.real("pj"), v.real("W")
    v.assume(And(wi == w.at(i), wj == w.at(j), pi == p.at(i), pj == p.at(j), W1 == W))
    v.prove("weights are ordered like the statistics", And(Implies(st(i) < st(j), wi > wj), Implies(st(i) == st(j), wi == wj)))
    v.prove("shares", And(pi == wi / W1, pj == wj / W1))
    v.prove_from("ordered like the statistics", [W1 > 0, Implies(st(i) < st(j), wi > wj), Implies(st(i) == st(j), wi == wj), pi == wi / W1, pj == wj / W1],
                 And(Implies(st(i) < st(j), pi > pj), Implies(st(i) == st(j), pi == pj)))


for _k, _q in KINDS.items():
    contract("C13", "%s weights and probabilities" % _k, functions=[_q + "akaikeweights", _q + "akaikeprobs"])(lambda v, k=_k: probs(v, k))
