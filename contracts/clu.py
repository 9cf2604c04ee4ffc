"""Model clusters over arbitrary data (shared by the modelcluster contracts)."""
from .fn import *  # noqa: F401,F403
from .C10 import fun

MCL = "diffpy.srmise.modelcluster.ModelCluster."
B = z3.BoolSort()


class Base(Stub):
    """Any baseline: a value at every coordinate (C05: zero outside a requested range)."""

    def __init__(self, name="bl", ident=None):
        self.f = z3.Function(core.path().name(name), sym.R, sym.R)
        self.ident = ident

    def at(self, x):
        return SNum(self.f(sym.real(t(num(x)))))

    def value(self, r, rng=None):
        return evaluated(self.at, r, rng)

    def copy(self):
        b = Base.__new__(Base)
        b.f, b.ident = self.f, self.ident
        b.original = self
        return b

    def __eq__(self, o):
        if not isinstance(o, Base):
            return False
        if self is o or self.ident is None:
            return self is o
        return self.ident == o.ident

    __hash__ = None


def evaluated(at, r, rng):
    if isinstance(r, (SNum, int, float)):
        return at(r)
    r = asarr(r).snapshot()
    if rng is None:
        return Arr((r.shape_[0],), lambda i: at(r.at(i)))
    lo, step, cnt = arr.slice_bounds(rng, r.shape_[0])
    if not (isinstance(step, int) and step == 1):
        raise core.Unsupported("strided range")
    return Arr((r.shape_[0],), lambda i: arr.ite_any(bt(And(num(i) >= lo, num(i) < num(lo) + cnt)), at(r.at(i)), num(0.0)))


class IdPeak(Stub):
    """A peak known by its number u; pos(u) its position, rem(u) whether it may be removed."""

    def __init__(self, F, u):
        self.__dict__.update(F=F, u=num(u), vc_ident=("peak", num(u)))

    @staticmethod
    def vc_merge(c, a, b):
        if a.F is not b.F:
            return None
        return IdPeak(a.F, SNum(z3.If(c, a.u.t, b.u.t)))

    def __getitem__(self, key):
        if isinstance(key, str) and key == "position":
            return self.F.pos(self.u)
        raise core.Unsupported("another parameter of the peak")

    @property
    def removable(self):
        return self.F.rem(self.u)

    @property
    def pars(self):
        return self.F.pars(self.u)

    def value(self, r, rng=None):
        return evaluated(lambda x: self.F.at(self.u, x), r, rng)

    def owner(self):
        return self.F.owner

    def __str__(self):
        return "a peak"


class Peakset:
    """Any number of peaks, numbered."""

    def __init__(self, v):
        I, R = sym.I, sym.R
        self.v = v
        self.pos, self.rem = fun("pos", I, R), fun("removable", I, B)
        g = z3.Function(v.p.name("height"), I, R, R)
        self.at = lambda u, x: SNum(g(t(num(u)), sym.real(t(num(x)))))
        self.owner = Stub()
        self.nanpar = fun("isnan", I, B)

    def pars(self, u):
        return NanArr(self.nanpar(u))

    def peak(self, u):
        return IdPeak(self, u)

    def model(self, n, ids, total=None):
        """A model with n peaks; ids(j): number of the j-th one; total(x): its value."""
        from diffpy.srmise.peaks.base import Peaks
        m = seq.family(Peaks, n, lambda j: IdPeak(self, ids(j)))
        if total is not None:
            m.__dict__["value"] = lambda r, rng=None: evaluated(total, r, rng)
        return m


class NanArr(Stub):
    """The parameters of a peak, of which only whether any is not a number matters."""

    def __init__(self, anynan):
        self.anynan = anynan

    def vc_isnan(self):
        return Flag(self.anynan)


class Flag(Stub):
    def __init__(self, f):
        self.f = f

    def any(self):
        return self.f

    def vc_any(self):
        return self.f


class Crit(Stub):
    """A criterion class."""
    __name__ = "Crit"


def data(v, S=None):
    S = S or type("S", (), {})()
    S.N = v.int("N", 1)
    S.r, S.y, S.e = v.array("r", S.N), v.array("y", S.N), v.array("dy", S.N)
    return S


def slice_of(v, N, name="lo"):
    lo, hi = v.int(name, 0), v.int(name + "'", 0)
    v.assume(And(lo < hi, hi <= N))
    return lo, hi


def total_of(v, name):
    f = z3.Function(v.p.name(name), sym.R, sym.R)
    return lambda x: SNum(f(sym.real(t(num(x)))))
