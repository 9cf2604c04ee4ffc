"""The built-in functions with arbitrary defining values, and arbitrary parameters in their domain."""
import z3

from ded import arr, core, deriv, seq, sym
from ded.arr import Arr, asarr
from ded.contract import Stub, contract
from ded.sym import And, Implies, Not, Or, SBool, SNum, bt, forall, num, t
from ded.vcrt import LoopSpec

PK = "diffpy.srmise.peaks."
BL = "diffpy.srmise.baselines."
G = PK + "gaussian.Gaussian."
GR = PK + "gaussianoverr.GaussianOverR."
PEAKS = {"gaussian": G, "gaussianoverr": GR}


def peak_function(v, kind):
    from diffpy.srmise.peaks.gaussian import Gaussian
    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
    W = v.real("maxwidth")
    v.assume(W > 0)
    return (Gaussian if kind == "gaussian" else GaussianOverR)(W)


def vec(v, names):
    """(array, its elements)."""
    e = [v.real(n) for n in names]
    return Arr((len(e),), lambda i: arr.pick(e, i) if isinstance(i, SNum) else e[int(i)]), e


def peak_pars(v, domain=True):
    a, e = vec(v, ["position", "width", "area"])
    if domain:
        v.assume(SNum(sym.SIN(e[1].t)) + 1 > 0)
    return a, e


def flags(v, n, each=True):
    """Fixed/free flags: every combination, decided."""
    fs = [bool(v.bool("free%d" % i)) for i in range(n)]
    return Arr((n,), lambda i: arr.pick([SBool(z3.BoolVal(f)) for f in fs], i) if isinstance(i, SNum) else SBool(z3.BoolVal(fs[int(i)])), "b"), fs


def prove_partial(v, what, reported, value, x):
    """reported == d value / d x (all at the current, arbitrary point)."""
    d, side = deriv.diff(sym.t(num(value)), x.t)
    for nm, c in side:
        v.prove("%s: %s" % (what, nm), SBool(c))
    v.prove("%s is the partial derivative of the value" % what, SBool(sym.real(t(num(reported))) == d), via=deriv.via_ring)


def root_lemma(v, x, y, num_, den):
    """sqrt x == (num/den) * sqrt y, if that can be shown (num, den > 0): by squaring, in the ring.

    Returns a back end that rewrites x accordingly before the ring decides, or None.
    """
    with sym.spec_mode():
        sq = SBool((x * x * den * den).t == (y * y * num_ * num_).t).t
        pos = bt(And(x > 0, y > 0, num_ > 0, den > 0))
        new = (num_ * y / den).t
    if deriv.identity(v.p, sq.arg(0), sq.arg(1)) is not True or core.discharge(v.p.pc, pos, 8000)[0] != "discharged":
        return None
    return lambda p, phi: deriv.via_ring(p, z3.substitute(phi, (x.t, new)))


def roots(*terms):
    """The square roots occurring in the terms."""
    from ded import axioms
    out = {}
    for e in axioms.apps([t(num(x)) for x in terms]):
        if e.decl().name() == "sqrt":
            out[e.get_id()] = SNum(e)
    return list(out.values())


class Watch:
    """A list of optional arrays built by a loop, observed at one arbitrary position K.

    present(K) says whether entry K holds an array once position K is done; check(a) gives the
    conditions on that array; make() builds an arbitrary array of the right shape.
    """

    def __init__(self, v, n, K, present, make, check):
        self.v, self.n, self.K, self.present, self.make, self.check = v, n, K, present, make, check

    def havoc(self, env):
        k, K = env.k, self.K
        memo = {}

        def item(j):
            if bool(arr._eq(num(j), K)) if not isinstance(arr._eq(num(j), K), bool) else arr._eq(num(j), K):
                if not bool(num(K) < k) or not bool(self.present(K)):
                    return None
                if "a" not in memo:
                    memo["a"] = self.make()
                return memo["a"]
            if core.path().valid(bt(num(j) >= k)):
                return None
            raise core.Unsupported("the loop reads an entry it has already finished")
        return seq.SymList(self.n, item)

    def inv(self, lst, k):
        lst = seq.as_symlist(lst)
        a = lst.fn(self.K)
        done = And(num(self.K) < k, self.present(self.K))
        if a is None:
            return [("as long as before", num(lst.n) == self.n), ("entries without a value are None, others are filled", Not(done))]
        if isinstance(a, (Arr, SNum)) or arr.is_native_num(a):
            return [("as long as before", num(lst.n) == self.n), ("entries without a value are None, others are filled", done)] + self.check(a)
        return [("entry is an array", False)]
