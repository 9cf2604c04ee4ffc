from .mcutil import *
import contextlib
from oracle_run import Skip
from diffpy.srmise import peakextraction as pem, srmiselog
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.baselines.polynomial import Polynomial

RULE = "whole extractions of small data sets (12-60 points, 1-4 peaks, with and without noise, partial ranges, initial peaks, resolutions from one point to the whole range; fits by the real optimiser and by a scripted one with arbitrary outcomes), watched step by step; failures injected at any fit; non-trivial: clusters are joined or the residual is searched"
FORBIDDEN = object()


def cases(rng, tier):
    for _ in range(400 if tier == "quick" else 6000):
        n = rng.choice([12, 20, 30, 40, 60])
        lo = rng.choice([0.5, 2.0, 2.7])
        width = rng.choice([0.6, 1.2, 2.0])
        c = {"n": n, "lo": lo, "hi": lo + width, "seed": rng.randrange(10 ** 6), "noise": rng.choice([0, 0.05, 0.3, 1.0]), "dy": rng.choice([0.05, 0.3, 0.5, 1.0, 3.0]),
             "peaks": [[lo + width * rng.choice([0, 1, rng.random(), rng.random(), rng.random()]), rng.choice([0.05, 0.1, 0.2, 0.4]), rng.choice([3, 10, 30])] for _ in range(rng.choice([1, 2, 2, 3, 4]))],
             "ip": [[lo + width * rng.random(), 0.2, 5.0] for _ in range(rng.choice([0, 0, 0, 1, 2]))],
             "cres": width * rng.choice([0.03, 0.05, 0.1, 0.15, 0.3, 1.5]), "slope": rng.choice([0, -2.0]), "depth": rng.choice([None, 1, 1, 1, 2, 3, 4]),
             "rng": None if rng.random() < 0.6 else sorted([lo + width * rng.uniform(0, 0.4), lo + width * rng.uniform(0.6, 1)]),
             "real": rng.choice([1, 1, 1, 0.5, 0]), "crit": rng.choice(["AIC", "AICc"]), "pf": rng.choice([["gr"], ["g"], ["gr", "g"]])}
        if rng.random() < 0.25:
            c["boom"] = rng.choice([0, 1, 2, 5, 9])
        yield c


class Injected(Exception):
    pass


class Broken(Exception):
    pass


@contextlib.contextmanager
def patched(*items):
    old = [(o, k, o.__dict__[k]) for o, k, _ in items]
    for o, k, f in items:
        setattr(o, k, f)
    try:
        yield
    finally:
        for o, k, f in old:
            setattr(o, k, f)


def same(a, b, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-7 * (np.abs(scale) + np.abs(b)) + 1e-9))


def clusters_of(it):
    return [tuple(map(int, c)) for c in it.clusters]


def value_at(ps, x):
    out = np.zeros(len(x))
    for p in ps:
        out = out + p.value(x)
    return out


class Level:
    pass


class Watcher:
    """Looks on while the real code runs."""

    def __init__(self):
        self.levels, self.joined, self.recursed = [], 0, 0
        self.counter = None

    def fail(self, text):
        raise Broken(text)


def watch(W, boom):
    MC, PE = pem.ModelCluster, PeakExtraction
    tracer = srmiselog.tracer
    o_init, o_join, o_rep, o_fit, o_es = MC.__init__, MC.__dict__["join_adjacent"].__func__, MC.replacepeaks, MC.fit, PE.extract_single
    o_emit, o_dc = type(tracer).emit, pem.DataClusters
    inside = {"edit": 0}
    seen = {}

    def listed(ps):
        return [tuple(float(x) for x in p.pars) for p in ps]

    def init(self, model=None, *a, **k):
        o_init(self, model, *a, **k)
        L = W.levels[-1] if W.levels else None
        if L is None:
            return
        if isinstance(model, Peaks) and inside["edit"] == 0:
            L.small.append(self)
        if isinstance(model, MC):
            self._w = getattr(model, "_w", None)
            if self._w is None and inside["edit"] == 0:
                p = L.it.lastpoint_idx if L.it is not None else None
                if p in (0, len(L.it.x) - 1):
                    self._w = {"border": float(L.it.x[p]), "orig": None}

    def join(*a):
        inside["edit"] += 1
        try:
            c = o_join(*a)
        finally:
            inside["edit"] -= 1
        if W.levels:
            l, r = sorted(a[-2:], key=lambda m: m.slice.start)
            if l.slice.stop != r.slice.start:
                W.fail("clusters %s and %s are joined, which are not neighbours" % (l.slice, r.slice))
            c._w = {"border": 0.5 * (c.r_data[l.slice.stop - 1] + c.r_data[r.slice.start]), "orig": listed(c.model)}
            W.joined += 1
        return c

    def fit(self, *a, **k):
        if W.levels:
            W.fits += 1
            if boom is not None and W.fits > boom:
                raise Injected()
        inside["edit"] += 1
        try:
            out = o_fit(self, *a, **k)
        finally:
            inside["edit"] -= 1
        w = getattr(self, "_w", None)
        if w is not None and w.get("edited"):
            self._w = None
        elif w is not None:
            w["orig"] = listed(self.model)
        return out

    def rep(self, newpeaks, *a, **k):
        w = getattr(self, "_w", None)
        if inside["edit"] == 0 and W.levels and w and w["orig"] is not None and not a and not k:
            b, orig = w["border"], w["orig"]
            pos = [p[0] for p in orig]
            if all(x == x for x in pos) and pos == sorted(pos):
                i = int(np.searchsorted(pos, b))
                near = [j for j in (i - 1, i) if 0 <= j < len(pos)]
                rest = [p for j, p in enumerate(orig) if j not in near]
                if listed(self.model) != rest:
                    W.fail("peaks %r, border %r: kept %r, those other than the nearest on either side are %r" % (orig, b, listed(self.model), rest))
                W.borders += 1
                L = W.levels[-1]
                for m in L.small:
                    if m.model is newpeaks:
                        c = slice(*self.slice.indices(len(L.x)))
                        left = L.x[c.start] if i - 2 < 0 else max(L.x[0], pos[i - 2])
                        right = L.x[c.stop - 1] if i + 1 >= len(pos) else min(L.x[-1], pos[i + 1])
                        must = (L.x[c] >= left) & (L.x[c] <= right)
                        if not set(L.x[c][must]) <= set(m.r_data):
                            W.fail("refitted on %r, the data between the next neighbours are %r" % (list(m.r_data), list(L.x[c][must])))
                        at = np.isin(L.x, m.r_data)
                        if len(m.r_data) != at.sum() or not same(m.y_data, L.y[at] - value_at(self.model, L.x[at])):
                            W.fail("refitted to other data than those without the other peaks")
            w["edited"] = True
        inside["edit"] += 1
        try:
            return o_rep(self, newpeaks, *a, **k)
        finally:
            inside["edit"] -= 1

    def emit(self, *mcs, **k):
        if inside["edit"]:
            return o_emit(self, *mcs, **k)
        if W.levels:
            L = W.levels[-1]
            want = [(a, b + 1) for a, b in clusters_of(L.it)]
            got = [(m.slice.start, m.slice.stop) for m in mcs]
            if got != want:
                W.fail("after a step the model clusters are %r, the data clusters %r" % (got, want))
            for m in mcs:
                if not same(m.r_data, L.x) or not same(m.y_data, L.y) or not same(m.y_error, L.e):
                    W.fail("a model cluster without the data of the range")
            L.emitted += 1
            L.small = []
        return o_emit(self, *mcs, **k)

    class DC(o_dc):
        def __init__(self, *a, **k):
            o_dc.__init__(self, *a, **k)
            if W.levels and W.levels[-1].it is None:
                W.levels[-1].it = self

    def es(self, recursion_depth=1):
        L = Level()
        if recursion_depth > 3 and W.levels:
            W.fail("recursion to level %d" % recursion_depth)
        if W.levels:
            P = W.levels[-1]
            W.recursed += 1
            if recursion_depth != P.depth + 1:
                W.fail("level %d is searched from level %d" % (recursion_depth, P.depth))
            if self.cres != P.pe.cres or list(self.pf) != list(P.pe.pf) or self.error_method is not P.pe.error_method:
                W.fail("recursion with other settings")
            if not same(self.baseline.value(self.x), P.pe.baseline.value(self.x)):
                W.fail("recursion with another baseline")
        L.depth, L.pe, L.it, L.emitted, L.small = recursion_depth, self, None, 0, []
        if self.baseline is not None and self.rng is not None:
            s = self.getrangeslice()
            L.x, L.e = self.x[s], self.effective_dy[s]
            L.y = self.y[s] - (self.initial_peaks.value(L.x) if self.initial_peaks is not None else 0)
            before = W.counts()
        W.levels.append(L)
        try:
            self.defaultvars()
            s = self.getrangeslice()
            L.x, L.e = self.x[s], self.effective_dy[s]
            L.y = self.y[s] - self.initial_peaks.value(L.x)
            before = W.counts()
            keep = (self.baseline, [float(x) for x in self.baseline.pars], listed(self.initial_peaks), self.cres, list(self.pf))
            try:
                out = o_es(self, recursion_depth)
            finally:
                if W.counts() != before:
                    W.fail("trace counters %r before, %r after" % (before, W.counts()))
                if self.baseline is not keep[0] or [float(x) for x in self.baseline.pars] != keep[1] or listed(self.initial_peaks) != keep[2] or self.cres != keep[3] or list(self.pf) != keep[4]:
                    W.fail("settings before %r, after %r" % (keep, [list(self.baseline.pars), listed(self.initial_peaks), self.cres, self.pf]))
            m = self.extracted
            if len(m.r_cluster) != len(L.x) or not same(m.r_cluster, L.x):
                W.fail("the result covers %r, the range has %d points" % (m.slice, len(L.x)))
            if not same(m.y_data, self.y[s]):
                W.fail("the data of the result are without the initial peaks")
            if L.it is not None and clusters_of(L.it) != [(0, len(L.x) - 1)]:
                W.fail("not every point is clustered: %r" % clusters_of(L.it))
            if self.extraction_type != "extract_single":
                W.fail("extraction type %r" % self.extraction_type)
            if m.baseline is self.baseline:
                W.fail("the result has the very baseline that was set")
            if (out is None) != (recursion_depth != 1):
                W.fail("covariance %r at level %d" % (out, recursion_depth))
            return out
        finally:
            W.levels.pop()
    def inner(f):
        def g(*a, **k):
            inside["edit"] += 1
            try:
                return f(*a, **k)
            finally:
                inside["edit"] -= 1
        return g
    return [(MC, x, inner(MC.__dict__[x])) for x in ("addexternalpeaks", "augment", "reduce_to", "prune", "contingent_fit")] + [(MC, "__init__", init), (MC, "join_adjacent", staticmethod(join)), (MC, "replacepeaks", rep), (MC, "fit", fit), (PE, "extract_single", es), (type(tracer), "emit", emit), (pem, "DataClusters", DC)]


def check(case):
    r = np.linspace(case["lo"], case["hi"], case["n"])
    g = func(["gr", 0.7])
    y = np.zeros(len(r))
    for p in case["peaks"]:
        y = y + Peaks([g.actualize(p, "pwa")]).value(r)
    y = y + case["noise"] * np.random.default_rng(case["seed"]).normal(size=len(r)) + case["slope"] * r
    pe = PeakExtraction()
    dy = np.ones(len(r)) * case["dy"]
    pe.setdata(r, y, None, dy)
    ip = Peaks([g.actualize(p, "pwa") for p in case["ip"]])
    k = dict(pf=[func([f, 0.7]) for f in case["pf"]], cres=case["cres"], effective_dy=dy, error_method=CRIT[case["crit"]],
             baseline=Polynomial(1).actualize([case["slope"], 0.0], "internal"), initial_peaks=ip)
    if case["rng"]:
        k["rng"] = list(case["rng"])
    pe.setvars(quiet=True, **k)
    if not len(r[pe.getrangeslice()]):
        return None
    W = Watcher()
    W.fits = W.borders = 0
    tracer = srmiselog.tracer
    W.counts = lambda: (tracer.call, tracer.recursion)
    start = W.counts()
    tracer.call, tracer.recursion = case["seed"] % 3, case["seed"] % 2 if case["seed"] % 3 else 0
    own = W.counts()
    boom = case.get("boom")
    try:
        with patched(*watch(W, boom)), Script(case["seed"], real=case["real"], calm=0.5), np.errstate(all="ignore"):
            try:
                pe.extract_single() if case["depth"] is None else pe.extract_single(case["depth"])
            except Injected:
                pass
        if W.counts() != own:
            return "counters", "trace counters %r before, %r after" % (own, W.counts())
    except Broken as e:
        return str(e)
    finally:
        tracer.call, tracer.recursion = start
    if not W.joined and not W.recursed:
        raise Skip
    return None
