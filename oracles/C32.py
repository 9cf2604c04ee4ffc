from .mcutil import *
import contextlib
from oracle_run import Skip
from diffpy.srmise import peakextraction as pem, pdfpeakextraction as ppm, srmiselog
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.baselines.polynomial import Polynomial

RULE = "small PDFs (20-80 points, 0-3 peaks, partial ranges, initial peaks of two functions, with and without a highest frequency, any supersampling, Nyquist sampling on and off), fitted, extracted and searched for single peaks by the real optimiser and by a scripted one with arbitrary outcomes; failures injected; non-trivial: every case"


def cases(rng, tier):
    for _ in range(500 if tier == "quick" else 6000):
        lo, width = rng.choice([0.5, 1.5, 3.0]), rng.choice([0.6, 1.2, 2.0])
        n = rng.choice([20, 30, 50, 80])
        c = {"kind": rng.choice(["fit_single", "fit", "fit", "extract", "extract", "extract", "estimate", "estimate"]), "n": n, "lo": lo, "hi": lo + width, "seed": rng.randrange(10 ** 6),
             "noise": rng.choice([0, 0.1, 1.0]), "dy": rng.choice([0.1, 0.5, 2.0]), "slope": rng.choice([0.0, -2.0]),
             "peaks": [[lo + width * rng.random(), rng.choice([0.1, 0.2]), rng.choice([3, 10, 30])] for _ in range(rng.choice([0, 1, 1, 2, 3]))],
             "ip": [[lo + width * rng.random(), 0.2, 5.0, rng.choice(["gr", "g"])] for _ in range(rng.choice([0, 0, 1, 2]))],
             "cres": width * rng.choice([0.05, 0.1, 0.3]), "rng": None if rng.random() < 0.6 else sorted([lo + width * rng.uniform(0, 0.3), lo + width * rng.uniform(0.7, 1)]),
             "qmax": rng.choice([0, 0, 10.0, 25.0, 60.0]), "nyquist": rng.random() < 0.6, "supersample": rng.choice([1.0, 2.0, 4.0, 10.0]), "real": rng.choice([1, 1, 0.5, 0]),
             "crit": rng.choice(["AIC", "AICc"]), "pf": rng.choice([["gr"], ["g"], ["gr", "g"]])}
        if c["kind"] == "estimate":
            c.update(where=lo + width * rng.uniform(-0.2, 1.2), add=rng.choice([None, True, False]), first=rng.random() < 0.4)
        if rng.random() < 0.1:
            c["boom"] = rng.choice([0, 1, 3])
        yield c


class Injected(Exception):
    pass


@contextlib.contextmanager
def patched(*items):
    old = [(o, k, o.__dict__[k]) for o, k, _ in items]
    for o, k, f in items:
        setattr(o, k, f)
    try:
        yield
    finally:
        for o, k, f in old:
            setattr(o, k, f)


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b))))


def listed(ps):
    return [tuple(float(x) for x in p.pars) for p in ps]


def settings(pe):
    return {k: (id(getattr(pe, k)), v) for k, v in (("baseline", [float(x) for x in pe.baseline.pars]), ("initial_peaks", listed(pe.initial_peaks)), ("pf", list(map(id, pe.pf))), ("rng", list(pe.rng)),
            ("effective_dy", list(pe.effective_dy)), ("error_method", None), ("x", list(pe.x)), ("y", list(pe.y)))}


def check(case):
    r = np.linspace(case["lo"], case["hi"], case["n"])
    g = func(["gr", 0.7])
    y = case["noise"] * np.random.default_rng(case["seed"]).normal(size=len(r)) + case["slope"] * r
    for p in case["peaks"]:
        y = y + Peaks([g.actualize(p, "pwa")]).value(r)
    kind = case["kind"]
    pe = PDFPeakExtraction() if kind in ("fit", "extract") else PeakExtraction()
    if kind in ("fit", "extract"):
        PeakExtraction.setdata(pe, r, y, None, np.ones(len(r)) * case["dy"])
    else:
        pe.setdata(r, y, None, np.ones(len(r)) * case["dy"])
    ip = Peaks([func([p[3], 0.7]).actualize(p[:3], "pwa") for p in case["ip"]])
    ip.sort(key="position")
    k = dict(pf=[func([f, 0.7]) for f in case["pf"]], cres=case["cres"], effective_dy=np.ones(len(r)) * case["dy"], error_method=CRIT[case["crit"]],
             baseline=Polynomial(1).actualize([case["slope"], 0.0], "internal"), initial_peaks=ip, rng=list(case["rng"] or [r[0], r[-1]]))
    if kind in ("fit", "extract"):
        k.update(qmax=case["qmax"], nyquist=case["nyquist"], supersample=case["supersample"], scale=True)
    pe.setvars(quiet=True, **k)
    s = pe.getrangeslice()
    X, Y, E = r[s], y[s], pe.effective_dy[s]
    if len(X) < 4:
        return None
    if kind in ("fit", "extract") and case["qmax"] and (X[-1] - X[0]) < 3 * np.pi / case["qmax"]:
        return None
    fits, boom = [0], case.get("boom")
    o_fit = pem.ModelCluster.fit

    def fit(self, *a, **kw):
        fits[0] += 1
        if boom is not None and fits[0] > boom:
            raise Injected()
        if inner and hasattr(inner[0], "owners") and not len(self.model):
            empty.append(self)  # the fit may put a peak into it
        return o_fit(self, *a, **kw)
    inner, empty = [], []

    class Watched(PeakExtraction):
        def __init__(self, *a, **kw):
            PeakExtraction.__init__(self, *a, **kw)
            inner.append(self)

        def fit_single(self, *a, **kw):
            self.seen = (self.x, self.y, self.effective_dy, settings(self))
            return PeakExtraction.fit_single(self, *a, **kw)

        def extract_single(self, *a, **kw):
            self.seen = (self.x, self.y, self.effective_dy, settings(self))
            out = PeakExtraction.extract_single(self, *a, **kw)
            self.owners = [p.owner() for p in self.extracted.model]
            return out
    tracer = srmiselog.tracer
    start = (tracer.call, tracer.recursion)
    before = settings(pe)
    more = [] if kind in ("fit_single", "estimate") else [(ppm, "PeakExtraction", Watched)]
    out = None
    if kind == "estimate" and case["first"]:
        with Script(case["seed"], real=1), np.errstate(all="ignore"):
            pe.fit_single()
    try:
        with patched((pem.ModelCluster, "fit", fit), *more), Script(case["seed"], real=case["real"], calm=0.5), np.errstate(all="ignore"):
            try:
                if kind == "estimate":
                    return estimated(case, pe, before, X, Y, E)
                out = getattr(pe, kind)()
            except Injected:
                out = Injected
        now = (tracer.call, tracer.recursion)
    finally:
        tracer.call, tracer.recursion = start
    if now != start:
        return "trace counters %r before, %r after" % (start, now)
    if settings(pe) != before:
        return "settings changed: %s" % [(q, before[q], settings(pe)[q]) for q in before if before[q] != settings(pe)[q]]
    if out is Injected:
        return None
    m = pe.extracted
    if pe.extraction_type != kind:
        return "extraction type %r after %s" % (pe.extraction_type, kind)
    if type(out).__name__ != "ModelCovariance":
        return "%s returns %r" % (kind, out)
    if m.baseline is pe.baseline or any(p is q for p in m.model for q in pe.initial_peaks):
        return "the result has the very parts that were set"
    if kind == "fit_single":
        if not (same(m.r_data, X) and same(m.y_data, Y) and same(m.y_error, E)) or len(m.r_cluster) != len(X):
            return "fitted to other data than those of the range"
        if len(m.model) > len(ip):
            return "%d initial peaks, %d fitted" % (len(ip), len(m.model))
        return None
    dr = (r[-1] - r[0]) / (len(r) - 1)
    q = case["qmax"]
    rate = np.pi / q if q else dr
    if len(inner) and hasattr(inner[0], "seen"):
        x, yy, e, sets = inner[0].seen
        for key in ("baseline", "initial_peaks", "pf", "error_method"):
            if sets[key][0] != before[key][0] and sets[key][1:] != before[key][1:]:
                return "%s is not passed on" % key
        if inner[0].cres != pe.cres:
            return "the resolution is not passed on"
        if kind == "fit":
            new = rate if q and case["nyquist"] else None
            scale = 1
        else:
            new = rate / case["supersample"] if q and rate / dr < case["supersample"] else None
            scale = pe.errorscale(dr) if q else 1
        if new is None:
            if not (same(x, X) and same(yy, Y) and same(e, E * scale)):
                return "the data are not those of the range"
        elif len(x) > 1 and not np.allclose(np.diff(x), new, rtol=1e-6):
            return "the data are sampled at %r, not %r" % (x[1] - x[0], new)
    if kind == "extract" and inner:
        owners = getattr(inner[0], "owners", [])
        for p in m.model:
            o = p.owner()
            if q and not getattr(p, "static_owner", False):
                if not isinstance(o, TerminationRipples):
                    if empty:
                        continue
                    return "a peak without termination ripples"
                if o.qmax != q:
                    return "ripples of %r, the highest frequency is %r" % (o.qmax, q)
                if isinstance(o.base, TerminationRipples):
                    return "ripples of ripples"
                if o.base not in owners:
                    return "ripples of another function"
            elif not q and isinstance(o, TerminationRipples):
                return "ripples without a highest frequency"
        if q and not case["nyquist"] and inner:
            if not (same(m.r_data, inner[0].seen[0]) and same(m.y_data, inner[0].seen[1]) and same(m.y_error, inner[0].seen[2])):
                return "the model is refined on other data than those searched"
        if q and case["nyquist"]:
            d = m.r_data[1] - m.r_data[0]
            if d > rate * (1 + 1e-9):
                return "the result is sampled at %r, the Nyquist rate is %r" % (d, rate)
            if d < rate * (1 - 1e-9) and m.npars(count_fixed=False) * rate < (inner[0].seen[0][-1] - inner[0].seen[0][0]):
                return "the result is oversampled (%r, rate %r) with %d free parameters" % (d, rate, m.npars(count_fixed=False))
    return None


def estimated(case, pe, before, X, Y, E):
    m = pe.extracted
    was = listed(m.model) if m is not None else None
    ips = listed(pe.initial_peaks)
    got = []
    o_dc = pem.DataClusters

    class DC(o_dc):
        def __init__(self, x, y, *a, **k):
            got.append((np.array(x), np.array(y)))
            o_dc.__init__(self, x, y, *a, **k)
    if m is None:
        res = Y - pe.baseline.value(X) - pe.initial_peaks.value(X)
    else:
        res = m.y_cluster - m.value()
    w = case["where"]
    outside = w < X[0] or w > X[-1]
    try:
        with patched((pem, "DataClusters", DC)):
            p = pe.estimate_peak(w) if case["add"] is None else pe.estimate_peak(w, case["add"])
    except ValueError:
        if not outside:
            raise
        p = None
    except Injected:
        return None
    else:
        if outside:
            return "a coordinate outside the data is not refused"
        if got and not (same(got[0][0], X) and same(got[0][1], res)):
            return "the residual is not searched"
    left, right = listed(pe.initial_peaks), listed(pe.extracted.model) if pe.extracted is not None else None
    new = [tuple(float(z) for z in p.pars)] if p is not None and case["add"] is not False else []
    if m is None:
        if sorted(left) != sorted(ips + new) and not (len(left) > len(ips) and new):
            return "initial peaks %r, found %r: %r" % (ips, new, left)
        if [z[0] for z in left] != sorted(z[0] for z in left):
            return "initial peaks out of order"
        if right is not None:
            return "an extraction out of nowhere"
    else:
        if left != ips:
            return "initial peaks changed though there is an extraction"
        if sorted(right) != sorted(was + new) and not (len(right) > len(was) and new):
            return "peaks %r, found %r: %r" % (was, new, right)
    after = settings(pe)
    if any(after[k] != before[k] for k in before if k != "initial_peaks"):
        return "settings changed"
    return None
