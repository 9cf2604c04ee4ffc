"""Symbolic model parts and families of parts (shared by the modelparts contracts)."""
import z3

from ded import arr, core, seq, sym
from ded.arr import Arr, base_array
from ded.contract import Stub, contract
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t
from ded.vcrt import LoopSpec

MP = "diffpy.srmise.modelparts.ModelParts."
P1 = "diffpy.srmise.modelparts.ModelPart."


class Owner(Stub):
    """Stands for any base function: only its parameter names and number are used by a part."""

    def __init__(self, npars, parameterdict=None):
        self.npars = npars
        self.parameterdict = parameterdict if parameterdict is not None else {}


def real_part(v, kind="f", cls=None, given_free=True, owner=None, static=False):
    """A part made by the real constructor from arbitrary parameters and flags."""
    from diffpy.srmise.modelparts import ModelPart
    s = type("S", (), {})()
    s.n = n = v.int("npars", 0)
    s.pars0 = v.array("pars", n, kind)
    s.free0 = v.array("free", n, "b") if given_free else None
    s.owner = owner or Owner(n)
    s.removable = v.bool("removable")
    s.part = (cls or ModelPart)(s.owner, s.pars0, s.free0, s.removable, static)
    return s


class Family:
    """An arbitrary number of parts, seen through the contracts of their methods.

    nf(k): number of free parameters of part k, npar(k): of all, val(k, j): the j-th free one.
    off/offall: running totals (defined by recursion; their monotonicity is the lemma below).
    """

    def __init__(self, v, M=None):
        self.v = v
        p = v.p
        self.M = v.int("M", 0) if M is None else M
        f = lambda nm, n=1, s=sym.I: z3.Function(p.name(nm), *([sym.I] * n), s)
        nf, npar, off, offall, val = f("nf"), f("npar"), f("off"), f("offall"), f("val", 2, sym.R)
        self.nf = lambda k: SNum(nf(t(k)))
        self.npar = lambda k: SNum(npar(t(k)))
        self.off = lambda k: SNum(off(t(k)))
        self.offall = lambda k: SNum(offall(t(k)))
        self.val0 = lambda k, j: SNum(val(t(k), t(j)))
        self.val = self.val0
        M = self.M
        v.assume(And(self.off(0) == 0, self.offall(0) == 0))
        v.assume(forall(1, lambda k: Implies(And(0 <= k, k < M), And(0 <= self.nf(k), self.nf(k) <= self.npar(k))), patterns=lambda k: [self.nf(k)]))
        v.assume(forall(1, lambda k: Implies(And(0 <= k, k < M), self.off(num(k) + 1) == self.off(k) + self.nf(k)), patterns=lambda k: [self.off(k)]))
        v.assume(forall(1, lambda k: Implies(And(0 <= k, k < M), self.offall(num(k) + 1) == self.offall(k) + self.npar(k)), patterns=lambda k: [self.offall(k)]))
        # lemma (by induction on k - j, from nf >= 0; induction step discharged in lemma_offsets)
        v.assume(forall(2, lambda j, k: Implies(And(0 <= j, j <= k, k <= M), self.off(j) <= self.off(k)), patterns=lambda j, k: [[self.off(j), self.off(k)]]))

    def parts(self, item=None, cls=None):
        from diffpy.srmise.modelparts import ModelParts
        return seq.family(cls or ModelParts, self.M, item or (lambda k: FamPart(self, k)))


class FamPart(Stub):
    """Part k of a family; every method is the contract proved for the real one."""

    def __init__(self, fam, k):
        self.fam, self.k = fam, k
        self.vc_ident = ("part", k)

    def npars(self, count_fixed=True):
        return self.fam.npar(self.k) if count_fixed else self.fam.nf(self.k)

    def compress(self):
        F, k, val = self.fam, self.k, self.fam.val
        return Arr((F.nf(k),), lambda j: val(k, j))

    def update(self, freepars):
        F, k = self.fam, self.k
        fp = arr.asarr(freepars).snapshot()
        F.v.prove("update is given enough values for the part", num(fp.shape_[0]) >= F.nf(k))
        old = F.val
        F.val = lambda i, j: arr.ite_any(arr._eq(num(i), k), fp.at(j), old(i, j))
        return F.nf(k)
