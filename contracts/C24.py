"""Termination ripples: the underlying function, band-limited."""
import z3

from ded import arr, core, seq, sym
from ded.arr import Arr, asarr
from ded.contract import Stub, contract
from ded.core import Unsupported
from ded.sym import And, Implies, Not, Or, SBool, SNum, bt, forall, num, t
from ded.vcrt import LoopSpec

from .C05 import sel_range
from .C10 import fun
from .fn import Watch

TR = "diffpy.srmise.peaks.terminationripples.TerminationRipples."
TWOPI = SNum(2 * sym.PI)
ASSUMPTIONS = ["the cutoff and the supersampling are positive, the extension is not negative", "grids are increasing and, where derivatives or values are asked for, evenly spaced",
               "scipy.fftpack: fft and ifft are linear, inverse to each other, and bin k of P belongs to the frequency 2 pi min(k, P - k) / (P dr)"]


class Base:
    """Any peak function: definition and behaviour known only by name."""

    def __init__(self, v, npars=None):
        self.calls = []

    def record(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
            return self.calls[-1]
        return f


def ripples(v, base=None):
    from diffpy.srmise.peaks.base import PeakFunction
    from diffpy.srmise.peaks.terminationripples import TerminationRipples

    class Peak(PeakFunction):
        def __init__(o):
            PeakFunction.__init__(o, {"position": 0, "width": 1, "area": 2}, ["internal", "other"], {"default_input": "internal", "default_output": "other"}, {}, None)
    b = Peak()
    q, e, s = v.real("qmax"), v.real("extension", 0), v.real("supersample")
    v.assume(And(q > 0, s > 0))
    return TerminationRipples(b, q, e, s), b, q, e, s


@contract("C24", "delegation", functions=[TR + f for f in ("__init__", "estimate_parameters", "scale_at", "_jacobianraw", "_transform_derivativesraw", "_transform_parametersraw", "_valueraw")])
def delegation(v):
    f, b, q, e, s = ripples(v)
    v.prove("same parameters", f.parameterdict == b.parameterdict and num(f.npars) == b.npars)
    v.prove("same formats", list(f.parformats) == list(b.parformats) and dict(f.default_formats) == dict(b.default_formats))
    v.prove("built on the function", f.base is b)
    v.prove("with the numbers given", And(f.qmax == q, f.extension == e, f.supersample == s))
    v.witness(lambda ev: {"what": "delegate"})
    x, y, z = object(), object(), object()
    for nm, k in (("estimate_parameters", 2), ("scale_at", 3), ("_jacobianraw", 3), ("_transform_derivativesraw", 3), ("_transform_parametersraw", 3), ("_valueraw", 2)):
        seen, res = [], object()
        b.__dict__[nm] = lambda *a, **kw: (seen.append((a, kw)), res)[1]
        r = v.must(nm, getattr(f, nm), *(x, y, z)[:k])
        names = {"estimate_parameters": ["r", "y"], "scale_at": ["pars", "x", "scale"]}.get(nm, [])
        one = len(seen) == 1
        args = list(seen[0][0]) + [seen[0][1].get(n) for n in names[len(seen[0][0]):]] if one else []
        v.prove("%s is that of the function" % nm, r is res and one and len(args) == k and all(p is w for p, w in zip(args, (x, y, z))))


@contract("C24", "grid extension", functions=[TR + "extend_grid"])
def extension(v):
    f, b, q, e, s = ripples(v)
    n = v.int("n", 1)
    r = v.array("r", n)
    g = r.snapshot()
    dr = v.real("dr")
    v.assume(And(dr > 0, g.at(0) >= 0))
    v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), g.at(i) < g.at(j))))
    v.witness(lambda ev: {"what": "extend", "r": [ev(g.at(i)) for i in range(min(8, ev(n)))], "dr": ev(dr), "qmax": ev(q), "extension": ev(e)})
    ext, sl = v.must("extend", f.extend_grid, r, dr)
    ext = asarr(ext)
    L = num(ext.shape_[0])
    a, z = num(sl.start if sl.start is not None else 0), num(sl.stop if sl.stop is not None else L)
    i = v.int("i", 0)
    v.expect_covers("end")
    v.cover("end")
    v.prove("the part is contiguous", sl.step in (None, 1))
    v.prove("the part is within the extended grid", And(0 <= a, z <= L))
    v.prove("the part is as long as the grid", z - a == n)
    v.prove("the part is the grid", Implies(i < n, ext.at(a + i) == g.at(i)))
    v.prove("the spacing is continued on the right", Implies(i < L - z, ext.at(z + i) == g.at(n - 1) + (i + 1) * dr))
    v.prove("the spacing is continued on the left", Implies(i < a, ext.at(a - 1 - i) == g.at(0) - (i + 1) * dr))
    v.prove("nothing is further than a step below zero", Implies(i < L, ext.at(i) >= -dr))
    pad = e * TWOPI / q
    v.prove("the padding is covered on the right", (L - z + 1) * dr >= pad)
    v.prove("the padding is covered on the left, unless the grid would be negative", Or((a + 1) * dr >= pad, g.at(0) - (a + 1) * dr <= 0))
    v.prove("no more than the padding on the right", (L - z - 1) * dr <= pad)
    v.prove("no more than the padding on the left", (a - 1) * dr <= pad)
    v.prove("the grid is not changed", r.store.ver == 0)


class Sequence(Stub):
    """Numbers of which only how many there are is known."""

    def __init__(self, n):
        self.n = n

    def vc_len(self):
        return self.n

    symlen = vc_len


class Spectrum(Stub):
    """The transform of a sequence, every bin multiplied by a gain."""

    def __init__(self, seq_, n):
        self.seq, self.n, self.gain = seq_, num(n), (lambda k: num(1))

    def vc_len(self):
        return self.n

    symlen = vc_len

    def end(self, x, default):
        if x is None:
            return num(default)
        x = num(x)
        x = sym.ite(x < 0, sym.ite(x + self.n < 0, num(0), x + self.n), x)
        return sym.ite(x > self.n, self.n, x)

    def __setitem__(self, s, x):
        if not isinstance(s, slice) or s.step not in (None, 1) or not (arr.is_native_num(x) or isinstance(x, SNum)):
            raise Unsupported("bins set to something else")
        if not bool(num(x) == 0):
            raise Unsupported("bins set to something else")
        lo, hi, old = self.end(s.start, 0), self.end(s.stop, self.n), self.gain
        self.gain = lambda k: sym.ite(And(lo <= num(k), num(k) < hi), num(0), old(num(k)))

    def __getitem__(self, s): raise Unsupported("reading bins")
    def __delitem__(self, s): raise Unsupported("removing bins")


class Signal(Stub):
    """The inverse transform of a spectrum, or its beginning."""

    def __init__(self, S, gain, n, real=False):
        self.S, self.gain, self.n, self.is_real = S, gain, num(n), real

    def vc_len(self):
        return self.n

    symlen = vc_len

    @property
    def real(self):
        return Signal(self.S, self.gain, self.n, True)

    def vc_real(self):
        return self.real

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1) or not (s.start is None or bool(num(s.start) == 0)):
            raise Unsupported("another part of the signal")
        n = self.S.end(s.stop, self.n)
        return Signal(self.S, self.gain, sym.ite(n < self.n, n, self.n), self.is_real)

    def __setitem__(self, *a): raise Unsupported("changing the signal")
    def __delitem__(self, *a): raise Unsupported("changing the signal")


class Transforms(Stub):
    def __init__(self, v):
        self.v = v

    def fft(self, x, n=None):
        if not isinstance(x, Sequence):
            raise Unsupported("the transform of something else")
        n = x.n if n is None else num(n)
        self.v.prove("the transform is not empty", n >= 1)
        return Spectrum(x, n)

    def ifft(self, S, n=None):
        if not isinstance(S, Spectrum) or n is not None:
            raise Unsupported("the inverse transform of something else")
        return Signal(S, S.gain, S.n)


@contract("C24", "frequency cut", functions=[TR + "cut_freq"])
def cut(v):
    from diffpy.srmise.peaks import terminationripples as mod
    f, b, q, e, s = ripples(v)
    v.patch(mod, "fp", Transforms(v))
    n, d = v.int("n", 1), v.real("spacing")
    v.assume(d > 0)
    x = Sequence(n)
    k = v.int("bin", 0)
    v.witness(lambda ev: {"what": "cut", "n": ev(n), "dr": ev(d), "qmax": ev(q)})
    y = v.must("cut", f.cut_freq, x, d)
    v.expect_covers("end")
    v.cover("end")
    if not isinstance(y, Signal):
        raise Unsupported("the result is not a transform")
    P = y.S.n
    v.prove("as many as before", y.n == n)
    v.prove("linear: the transform of the whole sequence, every bin multiplied by a number that depends on no value, and transformed back", y.S.seq is x and P >= n and y.is_real)
    v.assume(k < P)
    m = sym.ite(k <= P - k, k, P - k)  # bin k is of frequency m * 2 pi / (P d)
    g = num(y.gain(k))
    # in terms of the frequency of one bin
    v.prove("nothing is left at or above the cutoff", Implies(m * TWOPI >= q * P * d, g == 0))
    v.prove("what is more than one step below the cutoff is kept", Implies(And(P > 2, (m + 1) * TWOPI <= q * P * d), g == 1))
    v.prove("equal on both sides, as for any real result", Implies(k > 0, g == num(y.gain(P - k))))


class Of(Arr):
    """The underlying function (its derivative, number param) at every point of a grid."""

    def __init__(self, G, grid, param):
        g = asarr(grid).snapshot()
        Arr.__init__(self, g.shape_, lambda i: SNum(G.raw(t(num(param)), sym.real(t(num(g.at(i)))))), "f")
        self.grid, self.param = grid, num(param)


# --- values and derivatives ------------------------------------------------------------------
def evaluated(v, grid):
    """A part owned by the function, a grid, and the function's own operations by their contracts."""
    from diffpy.srmise.basefunction import BaseFunction
    f, b, q, e, s = ripples(v)
    R, I = sym.R, sym.I
    G = type("G", (), {})()
    G.raw = z3.Function(v.p.name("underlying"), I, R, R)
    G.left = z3.Function(v.p.name("left by the cut"), I, I, R)
    G.cuts, G.exts = [], []

    def extend(r, dr):
        r = asarr(r).snapshot()
        n = num(r.shape_[0])
        v.prove("only a grid with points is extended", n >= 1)
        v.prove("by a positive spacing", num(dr) > 0)
        a, L = sym.fresh_int("before", 0), sym.fresh_int("extended", 0)
        v.assume(a + n <= L)
        other = z3.Function(v.p.name("extension"), I, R)
        x = Arr((L,), lambda i: sym.ite(And(a <= num(i), num(i) < a + n), num(r.at(num(i) - a)), SNum(other(t(num(i))))), "f")
        G.exts.append((x, r, dr))
        return x, slice(a, a + n)

    def cut_freq(x, dr):
        if not isinstance(x, Of) or x.store.ver or len(G.exts) != 1 or x.grid is not G.exts[0][0]:
            raise Unsupported("the cut of something else")
        v.prove("the cut has the spacing of the grid", num(dr) == num(G.exts[0][2]))
        G.cuts.append(x)
        return Arr(x.shape_, lambda i: SNum(G.left(t(x.param), t(num(i)))), "f")
    f.extend_grid, f.cut_freq = extend, cut_freq
    G.part = part = type("P", (Stub,), {"__init__": lambda s: None})()
    G.N = v.int("npars", 0)
    part._owner, part.pars, part.free = f, v.array("pars", G.N), v.array("free", G.N, "b")
    G.seen = []
    if grid:
        G.n = n = v.int("n", 0)
        r0, dr = v.real("r0", 0), v.real("dr")
        v.assume(dr > 0)
        G.r = Arr((n,), lambda i: r0 + num(i) * dr, "f")
    else:
        G.r = v.real("r", 0)
    G.case = lambda what, rng=None, **more: lambda ev: dict({"what": what, "n": ev(G.n) if grid else None, "r0": ev(r0 if grid else G.r), "dr": ev(dr) if grid else 0, "qmax": ev(q), "extension": ev(e), "supersample": ev(s),
                                                            "rng": None if rng is None else [None if x is None else ev(x) for x in (rng.start, rng.stop)]}, **{k: w(ev) for k, w in more.items()})
    return f, G


def raw_value(G):
    def raw(pars, x):
        G.seen.append((pars, x))
        return Of(G, x, 0)
    return raw


def there(G, k, at, value):
    """Somewhere on the extended grid is this coordinate, and this is what the cut left there."""
    if len(G.exts) != 1:
        return False
    ext = G.exts[0][0]
    return Not(forall(1, lambda p: Implies(And(0 <= p, p < num(ext.shape_[0])), Not(And(num(ext.at(p)) == at, SNum(G.left(t(num(k)), t(num(p)))) == value)))))


@contract("C24", "value on a grid", functions=[TR + "value"])
def value_grid(v):
    f, G = evaluated(v, True)
    n, r = G.n, G.r
    rng, inside = sel_range(v, n)

    f._valueraw = raw_value(G)
    v.witness(G.case("value", rng))
    out = asarr(v.must("evaluate", f.value, G.part, r, rng))
    i = v.int("i", 0, n)
    v.expect_covers("end")
    v.cover("end")
    v.prove("as long as the grid", And(out.ndim == 1, num(out.shape_[0]) == n))
    v.prove("zero outside the requested range", Implies(Not(inside(i)), out.at(i) == 0))
    v.prove("evaluated with the part's parameters", all(p is G.part.pars for p, _ in G.seen))
    if bool(inside(i)):
        v.prove("in the range, the band-limited function at the same coordinate", there(G, 0, r.at(i), out.at(i)))
    v.prove("nothing is changed", r.store.ver == 0 and G.part.pars.store.ver == 0 and G.part.free.store.ver == 0)


@contract("C24", "value at a point", functions=[TR + "value"])
def value_point(v):
    f, G = evaluated(v, False)
    f._valueraw = raw_value(G)
    v.witness(G.case("value"))
    out = v.must("evaluate", f.value, G.part, G.r)
    v.expect_covers("end")
    v.cover("end")
    v.prove("a number", not isinstance(out, Arr) or out.ndim == 0)
    v.prove("the band-limited function there", there(G, 0, G.r, num(out)))
    v.prove("evaluated with the part's parameters", all(p is G.part.pars for p, _ in G.seen))
    other = type(f).__new__(type(f))
    other.__dict__.update(f.__dict__)
    v.refuses("evaluation by a function that does not own the part", ValueError, other.value, G.part, G.r)
    v.refuses("differentiation by a function that does not own the part", ValueError, other.jacobian, G.part, G.r)


class Raw(Stub):
    """The derivatives of the underlying function: at one arbitrary parameter K it is known what became of it; others are as they were found."""

    def __init__(self, G, x):
        self.G, self.x, self.item, self.upto = G, x, None, num(0)

    def vc_len(self): return self.G.N
    symlen = vc_len

    def fresh(self, k):
        if not bool(self.G.part.free.at(k)):
            return None
        return Of(self.G, self.x, k)

    def vc_item(self, k):
        k = num(k)
        if bool(k == self.G.K) and self.item is not None:
            return self.item
        if bool(k < self.upto):
            raise Unsupported("a derivative that was gone through")
        return self.fresh(k)

    def __getitem__(self, k):
        if not bool(And(0 <= num(k), num(k) < self.G.N)):
            raise Unsupported("an index beyond the list")
        if self.now is not None and bool(num(k) == self.now[0]):
            return self.now[1]
        return self.vc_item(k)

    now = None

    def __setitem__(self, k, x):
        if not bool(And(0 <= num(k), num(k) < self.G.N)):
            raise Unsupported("an index beyond the list")
        self.now = (num(k), x)
        if bool(num(k) == self.G.K):
            self.item = x


def jac_loops():
    def havoc(env):
        G = env.g
        jac = env.jac
        if not isinstance(jac, Raw):
            raise Unsupported("another list of derivatives")
        jac.upto, jac.now, jac.item = num(env.k), None, None
        return G.watch.havoc(env)
    def havoc_point(env):
        G, jac = env.g, env.jac
        if not isinstance(jac, Raw):
            raise Unsupported("another list of derivatives")
        jac.upto, jac.now, jac.item = num(env.k), None, None
        if bool(And(G.K < env.k, G.part.free.at(G.K))):
            jac.item = sym.fresh_real("derivative")
    return {(TR + "jacobian", "for", 1): LoopSpec(lambda env: point_rules(env.g, env.jac, env.k), havoc=havoc_point, modifies=lambda env: [env.jac]),
            (TR + "jacobian", "for", 0): LoopSpec(lambda env: env.g.watch.inv(env.output, env.k), vars={"output": havoc}, modifies=lambda env: [env.jac])}


def point_rules(G, jac, k):
    x = jac.item if isinstance(jac, Raw) else seq.as_symlist(jac).fn(G.K)
    if not bool(And(G.K < num(k), G.part.free.at(G.K))):
        return [("entries of fixed parameters, and those not gone through, are as they were", x is None)]
    if x is None:
        return [("a derivative", False)]
    return [("a number", not isinstance(x, Arr) or x.ndim == 0), ("the band-limited derivative there", there(G, G.K, G.r, num(x)))]


@contract("C24", "derivatives on a grid", functions=[TR + "jacobian"], loops=jac_loops)
def derivatives_grid(v):
    f, G = evaluated(v, True)
    n, r, free = G.n, G.r, G.part.free
    rng, inside = sel_range(v, n)

    def raw(pars, x, fr):
        G.seen.append((pars, fr))
        return Raw(G, x)
    f._jacobianraw = raw
    K = G.K = v.int("K", 0)
    v.assume(K < G.N)
    i = v.int("i", 0, n)
    v.witness(G.case("derivatives", rng, free=lambda ev: [bool(ev(free.at(j))) for j in range(min(3, ev(G.N)))]))

    def check(a):
        a = asarr(a)
        out = [("as long as the grid", num(a.shape_[0]) == n)]
        if not bool(i < n):
            return out
        if not bool(inside(i)):
            return out + [("zero outside the requested range", a.at(i) == 0)]
        return out + [("in the range, the band-limited derivative at the same coordinate", there(G, K, r.at(i), a.at(i)))]

    G.watch = Watch(v, G.N, K, lambda j: free.at(j), lambda: arr.base_array("derivative", (n,)), check)
    v.p.state["ghost"] = G
    out = seq.as_symlist(v.must("differentiate", f.jacobian, G.part, r, rng))
    v.expect_covers("end")
    v.cover("end")
    v.prove("one entry per parameter", num(out.n) == G.N)
    a = out.fn(K)
    if a is None:
        v.prove("only fixed parameters have no derivative", Not(free.at(K)))
        return
    v.prove("a fixed parameter has no derivative", free.at(K))
    for nm, c in check(a):
        v.prove(nm, c)
    v.prove("evaluated with the part's parameters and flags", all(p is G.part.pars and q is free for p, q in G.seen))
    v.prove("nothing is changed", r.store.ver == 0 and G.part.pars.store.ver == 0 and free.store.ver == 0)


@contract("C24", "derivatives at a point", functions=[TR + "jacobian"], loops=jac_loops)
def derivatives_point(v):
    f, G = evaluated(v, False)
    free, K = G.part.free, v.int("K", 0)
    G.K = K
    v.assume(K < G.N)

    def raw(pars, x, fr):
        G.seen.append((pars, fr))
        return Raw(G, x)
    f._jacobianraw = raw
    v.p.state["ghost"] = G
    v.witness(G.case("derivatives", free=lambda ev: [bool(ev(free.at(j))) for j in range(min(3, ev(G.N)))]))
    out = v.must("differentiate", f.jacobian, G.part, G.r)
    v.expect_covers("end")
    v.cover("end")
    v.prove("one entry per parameter", num(out.vc_len() if isinstance(out, Raw) else seq.as_symlist(out).n) == G.N)
    for nm, c in point_rules(G, out, G.N):
        v.prove(nm, c)
    v.prove("evaluated with the part's parameters and flags", all(p is G.part.pars and q is free for p, q in G.seen))
