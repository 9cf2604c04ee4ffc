"""Resampling, error scales and the running variance ratio."""
import z3

from ded import arr, sym
from ded.arr import Arr, asarr
from ded.contract import Stub, contract
from ded.core import Unsupported
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t
from ded.vcrt import LoopSpec

from .C10 import fun
from .C18 import grid

MOD = "diffpy.srmise.pdfpeakextraction."
PDF = MOD + "PDFPeakExtraction."
ASSUMPTIONS = ["the original grid has at least two points and is increasing; its spacing is the average spacing", "spacings are positive, and some of the data is in the extraction range when resampling it",
               "numpy.sinc: one at zero and zero at every other whole number (in floating point up to rounding); numpy.interp interpolates linearly", "default settings follow C18",
               "the running ratio is defined where the later run is not constant", "lemma: squares around a mean are not negative"]


def sinc(x):
    return SNum(sym.SINC(z3.simplify(sym.real(t(x)))))


class Data:
    """Samples, and the Whittaker-Shannon sum over the first k of them at one coordinate."""

    def __init__(self, v):
        self.v = v
        n = self.n = v.int("n", 2)
        self.x, self.y = v.array("x", n), v.array("y", n)
        self.gx, self.gy = self.x.snapshot(), self.y.snapshot()
        self.x0, self.x1 = self.gx.at(0), self.gx.at(n - 1)
        v.assume(self.x0 < self.x1)
        self.m = v.int("m", 1)
        self.r = v.array("r", self.m)
        self.gr = self.r.snapshot()
        self.dr = (self.x1 - self.x0) / (n - 1)
        self.P = v.int("P", 0)
        v.assume(self.P < self.m)
        self.S = fun("Whittaker", sym.I, sym.R)
        v.assume(self.S(0) == 0)

    def weight(self, k):
        return sinc(self.gr.at(self.P) / self.dr - (num(k) + self.x0 / self.dr))

    def step(self, k):
        self.v.assume(self.S(num(k) + 1) == self.S(k) + self.gy.at(k) * self.weight(k))

    def case(self):
        return lambda ev: {"what": "resample", "x": [ev(self.gx.at(i)) for i in range(min(6, ev(self.n)))], "y": [ev(self.gy.at(i)) for i in range(min(6, ev(self.n)))], "r": [ev(self.gr.at(i)) for i in range(min(6, ev(self.m)))]}


def sum_loops():
    def inv(env):
        G = env.g
        a = asarr(env.new_y)
        return [("as long as the new grid", num(a.shape_[0]) == G.m), ("own storage", a.store is not G.r.store and a.store is not G.y.store and a.store is not G.x.store),
                ("the sum of the samples so far", a.at(G.P) == G.S(env.k))]
    return {(MOD + "resample", "for", 0): LoopSpec(inv, vars={"new_y": lambda env: arr.base_array("new_y", (env.g.m,))}, havoc=lambda env: env.g.step(env.k))}


@contract("C19", "resampling", functions=[MOD + "resample"], loops=sum_loops())
def resampling(v):
    from diffpy.srmise import pdfpeakextraction
    G = Data(v)
    v.p.state["ghost"] = G
    v.witness(G.case())
    out = asarr(v.must("resample", pdfpeakextraction.resample, G.x, G.y, G.r))
    v.expect_covers("end")
    v.cover("end")
    v.prove("as long as the new grid", num(out.shape_[0]) == G.m)
    v.prove("the Whittaker-Shannon sum of the data", out.at(G.P) == G.S(G.n))
    v.prove("floats", out.kind == "f")
    v.prove("nothing given is changed", all(a.store.ver == 0 and a.store is not out.store for a in (G.x, G.y, G.r)))


@contract("C19", "at the original points, by induction", functions=[])
def original(v):
    """The sum is the sample itself where the new grid has one of the original points."""
    G = Data(v)
    j, k = v.int("j", 0), v.int("k", 0)
    v.assume(And(j < G.n, k < G.n))
    x = v.real("coordinate")
    v.assume(G.gr.at(G.P) == x)
    v.assume(x == G.x0 + j * G.dr)
    v.assume(G.S(k) == sym.ite(sym.bt(k > j), G.gy.at(j), num(0.0)))
    u = G.gr.at(G.P) / G.dr - (num(k) + G.x0 / G.dr)
    v.prove("whole numbers of spacings", u == j - k)
    w = v.real("weight")
    v.prove("the weight is that of the whole number", Implies(And(w == G.weight(k), u == j - k), w == sinc(j - k)))
    sym.fsinc(j - k)
    v.assume(G.S(k + 1) == G.S(k) + G.gy.at(k) * sinc(j - k))
    v.expect_covers("end")
    v.cover("end")
    v.prove("no sample contributes anywhere else", G.S(k + 1) == sym.ite(sym.bt(k + 1 > j), G.gy.at(j), num(0.0)))
    v.prove("nothing is there before the first", Implies(k == 0, G.S(0) == 0))


@contract("C19", "linear in the data, by induction", functions=[])
def linear(v):
    G = Data(v)
    a, b = v.real("a"), v.real("b")
    k = v.int("k", 0)
    v.assume(k < G.n)
    z, c = v.array("z", G.n), fun("combination", sym.I, sym.R)
    U, W = fun("sum of z", sym.I, sym.R), fun("sum of a y + b z", sym.I, sym.R)
    w = G.weight(k)
    G.step(k)
    v.assume(And(U(k + 1) == U(k) + z.at(k) * w, W(k + 1) == W(k) + (a * G.gy.at(k) + b * z.at(k)) * w, W(0) == 0, U(0) == 0))
    v.assume(W(k) == a * G.S(k) + b * U(k))
    v.expect_covers("end")
    v.cover("end")
    v.prove("the combination so far", W(k + 1) == a * G.S(k + 1) + b * U(k + 1))
    v.prove("at first", W(0) == a * G.S(0) + b * U(0))


# --- the rule of error scales ---------------------------------------------------------
def bare():
    from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
    return PDFPeakExtraction()


@contract("C19", "error scale", functions=[PDF + "errorscale"])
def scales(v):
    p = bare()
    q, d = v.real("qmax"), v.real("dr")
    v.assume(d > 0)
    p.qmax, p.nyquist, p.scale = q, bool(v.bool("nyquist")), bool(v.bool("scale"))
    v.witness(lambda ev: {"what": "scale", "qmax": ev(q), "nyquist": p.nyquist, "scale": p.scale, "dr": ev(d)})
    keep = dict(p.__dict__)
    s = num(v.must("error scale", p.errorscale, d))
    v.expect_covers("one", "scaled")
    if not bool(q > 0) or not p.nyquist or not p.scale:
        v.cover("one")
        v.prove("one unless qmax, Nyquist sampling and scaling are set", s == 1)
    else:
        v.cover("scaled")
        ratio = SNum(sym.PI) / q / d
        v.prove("not below one", s >= 1)
        v.prove("one where the spacing is the Nyquist spacing or more", Implies(ratio <= 1, s == 1))
        v.prove("the square root of Nyquist spacing over spacing below it", Implies(ratio >= 1, And(s * s == ratio, s >= 0)))
    v.prove("nothing is changed", all(p.__dict__[k] is w for k, w in keep.items()) and len(keep) == len(p.__dict__))


# --- resampled data --------------------------------------------------------------------
@contract("C19", "resampled data", functions=[PDF + "resampledata"])
def resampled(v):
    from diffpy.srmise import pdfpeakextraction
    p = bare()
    n = v.int("n", 2)
    x, y, e = grid(v, n), v.array("y", n), v.array("e", n)
    dx = v.array("dx", n) if bool(v.bool("dx given")) else None
    g = x.snapshot()
    lo, hi, d, q = v.real("low"), v.real("high"), v.real("dr"), v.real("qmax")
    p.x, p.y, p.dx = x, y, dx
    p.qmax = q
    keep, called = {}, []

    def defaults(*a):
        if a:
            raise Unsupported("defaults of " + ", ".join(a))
        called.append(1)
        p.rng, p.effective_dy = [lo, hi], e
        keep.update(p.__dict__)
    p.__dict__["defaultvars"] = defaults
    scale = fun("error scale", sym.R, sym.R)
    p.__dict__["errorscale"] = lambda dr: scale(num(dr))
    W = fun("resampled", sym.R, sym.R)
    seen = []

    def resample(a, b, r):
        seen.append((a, b))
        r = asarr(r).snapshot()
        return Arr(r.shape_, lambda i: W(r.at(i)), "f")
    v.patch(pdfpeakextraction, "resample", resample)
    a, z = sym.ite(sym.bt(g.at(0) >= lo), g.at(0), lo), sym.ite(sym.bt(g.at(n - 1) <= hi), g.at(n - 1), hi)
    v.assume(And(d > 0, a < z))
    eps = {"eps": v.real("eps")} if bool(v.bool("eps given")) else {}
    v.witness(lambda ev: {"what": "data", "x": [ev(g.at(i)) for i in range(min(6, ev(n)))], "rng": [ev(lo), ev(hi)], "dr": ev(d), "qmax": ev(q), "dx": dx is not None})
    res = v.must("resample the data", p.resampledata, d, **eps)
    v.prove("four sequences", len(res) == 4)
    r, yy, rr, ee = res
    r = asarr(r)
    m = num(r.shape_[0])
    i = v.int("i", 0)
    v.expect_covers("end")
    v.cover("end")
    v.prove("defaults are completed", len(called) >= 1)
    v.prove("on the spacing asked for, from the start of the range", Implies(i < m, r.at(i) == a + i * d))
    v.prove("within the range", Implies(i < m, r.at(i) < z))
    v.prove("up to the end of the range", a + m * d >= z)
    v.prove("some of it", m >= 1)
    v.assume(i < m)
    yy = asarr(yy)
    v.prove("the data are resampled there", And(num(yy.shape_[0]) == m, yy.at(i) == W(r.at(i))))
    v.prove("the data of the extraction are resampled", len(seen) == 1 and seen[0][0] is x and seen[0][1] is y)
    ee = asarr(ee)
    v.prove("uncertainties are interpolated and scaled", And(num(ee.shape_[0]) == m, ee.at(i) == scale(d) * num(arr.a_interp(r.at(i), x, e))))
    if dx is None:
        v.prove("no uncertainties of the coordinates where there are none", rr is None)
    else:
        rr = asarr(rr)
        v.prove("uncertainties of the coordinates are interpolated", And(num(rr.shape_[0]) == m, rr.at(i) == num(arr.a_interp(r.at(i), x, dx))))
    v.prove("nothing is changed", all(p.__dict__[k] is w for k, w in keep.items()) and all(s.store.ver == 0 for s in (x, y, e) + (() if dx is None else (dx,))))


# --- the running ratio of standard deviations -------------------------------------------
class Run:
    """A sequence with its running sums; about() is what the squares of [a, b) leave around their mean, times the count."""

    def __init__(self, v):
        self.v = v
        self.n = v.int("n", 4)
        self.d = v.array("data", self.n)
        g = self.g = self.d.snapshot()
        self.S1, self.S2 = fun("sum", sym.I, sym.R), fun("sum of squares", sym.I, sym.R)
        v.assume(And(self.S1(0) == 0, self.S2(0) == 0))
        self.half = v.int("half", 2)
        v.assume(And(2 * self.half <= self.n, self.n <= 2 * self.half + 1))
        self.J = v.int("J", 0)
        v.assume(self.J + 1 < self.half)

    def step(self, k):
        k = num(k)
        x = self.g.at(k)
        self.v.assume(And(self.S1(k + 1) == self.S1(k) + x, self.S2(k + 1) == self.S2(k) + x * x))

    def rules(self, a, b, mean, m2):
        """mean and m2 are those of [a, b)."""
        a, b = num(a), num(b)
        c = b - a
        return [("the mean so far", mean * c == self.S1(b) - self.S1(a)), ("the squares around it so far", m2 == self.S2(b) - self.S2(a) - c * mean * mean)]

    def squares(self, a, b):
        """What is left of the squares of [a, b) around their mean, times their count."""
        a, b = num(a), num(b)
        s = self.S1(b) - self.S1(a)
        return (b - a) * (self.S2(b) - self.S2(a)) - s * s

    def stored(self, a, b, m2):
        return m2 * (num(b) - a) == self.squares(a, b)


def run_loops():
    q = MOD + "stdratio"

    def left(env):
        G, k = env.g, num(env.k)
        s = asarr(env.std_left)
        return G.rules(0, k, num(env.mean), num(env.m2)) + [("counted", num(env.n) == k), ("half as long", num(s.shape_[0]) == G.half), ("own storage", s.store is not G.d.store),
                ("the first run", Implies(G.J + 1 < k, G.stored(0, G.J + 2, s.at(G.J + 1))))]

    def right(env):
        G, k = env.g, num(env.k)
        s = asarr(env.std_right)
        i = k + 1
        return G.rules(i + 1, 2 * i + 2, num(env.mean), num(env.m2)) + [("counted", num(env.n) == i + 1), ("half as long", num(s.shape_[0]) == G.half), ("own storage", s.store is not G.d.store),
                ("the second run", Implies(G.J <= k, G.stored(G.J + 2, 2 * G.J + 4, s.at(G.J + 1))))]

    def steps(env):
        G, k = env.g, num(env.k)
        G.step(k + 2)
        G.step(2 * k + 4)
        G.step(2 * k + 5)
    return {(q, "for", 0): LoopSpec(left, vars={"n": "int", "mean": "real", "m2": "real", "std_left": lambda env: arr.base_array("std_left", (env.g.half,))}, havoc=lambda env: env.g.step(env.k)),
            (q, "for", 1): LoopSpec(right, vars={"n": "int", "mean": "real", "m2": "real", "std_right": lambda env: arr.base_array("std_right", (env.g.half,))}, havoc=steps)}


@contract("C19", "running ratio", functions=[MOD + "stdratio"], loops=run_loops())
def ratio(v):
    from diffpy.srmise import pdfpeakextraction
    G = Run(v)
    v.p.state["ghost"] = G
    for k in range(4):
        G.step(k)
    v.witness(lambda ev: {"what": "ratio", "data": [ev(G.g.at(i)) for i in range(min(12, ev(G.n)))]})
    out = asarr(v.must("running ratio", pdfpeakextraction.stdratio, G.d))
    v.expect_covers("end")
    v.cover("end")
    v.prove("one fewer than half the data", num(out.shape_[0]) == G.half - 1)
    J = G.J
    L, R = G.squares(0, J + 2), G.squares(J + 2, 2 * J + 4)
    v.assume(And(L >= 0, R > 0))
    q = out.at(J)
    v.prove("the square of the ratio of deviations of the first and the next run", And(q >= 0, q * q * R == L))
    v.prove("the data are not changed", G.d.store.ver == 0)
