import math

import numpy as np
from diffpy.srmise import pdfpeakextraction
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.srmiseerrors import SrMiseEstimationError, SrMiseQmaxError
from oracle_run import Skip

RULE = "data of any four lengths; ranges inside, across and beyond 1-9 data points, with bounds on and between points; every setting given, unset, reset, half-given or scalar, in both classes; non-trivial: distinct case"
NAMES = ["effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"]
PNAMES = NAMES + ["qmax", "nyquist", "supersample", "scale"]


def grid(rng, lo=1):
    n = rng.randint(lo, 9)
    x = sorted(rng.sample(range(1, 40), n))
    return [q / 4 for q in x]


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        k = rng.choice(["data", "range", "range", "set", "default", "default", "default", "pdf", "flow"])
        if k == "data":
            n = rng.randint(0, 5)
            yield {"what": k, "pdf": rng.random() < 0.5, "n": [rng.choice([n, n, n, n, n + 1, 1, 0]) for _ in range(4)], "given": [True, True, rng.random() < 0.7, rng.random() < 0.7], "real": rng.random() < 0.3}
        elif k == "range":
            x = grid(rng)
            yield {"what": k, "x": x, "rng": [rng.choice(x + [rng.uniform(-3, 13), -1e300, 1e300]) for _ in range(2)]}
        elif k == "set":
            pdf = rng.random() < 0.5
            names = rng.sample(PNAMES + ["dg"] if pdf else NAMES, rng.randint(0, 3))
            if rng.random() < 0.3:
                names.append(rng.choice(["unknown", "x", "extracted", "dG", "dy", "qmax_fromdata", ""]))
            yield {"what": k, "pdf": pdf, "names": names, "supersample": rng.choice([0.5, 1, 1.0, 4, 0.99]), "automatic": rng.random() < 0.5, "fromdata": rng.random() < 0.6}
        elif k == "pdf":
            o = lambda: rng.choice([None, None, 0.0, 0, 20.0, rng.uniform(0, 30)])
            yield {"what": k, "qmax": [o(), rng.choice([None, 0.0, 25.0]), rng.choice([None, 22.0])], "unset": [a for a in ("nyquist", "scale", "supersample", "cres", "pf") if rng.random() < 0.6], "args": rng.sample(["qmax", "nyquist", "supersample", "cres", "pf", "effective_dy", "dg", "rng"], rng.choice([0, 0, 1, 2]))}
        elif k == "flow":
            yield {"what": k, "first": rng.choice(["wave", "flat"]), "second": rng.choice(["wave", "flat", "other"]), "qmax": rng.choice(["automatic", None, 20.0])}
        else:
            x = grid(rng, 2)
            n = len(x)
            st = {"effective_dy": rng.choice(["unset", "scalar", "sequence", "negative"]), "cres": rng.choice([None, 0.3]),
                  "rng": rng.choice([None, [None, None], [1.5, None], [None, 4.0], [2.0, 6.0], [-5.0, None], [None, 50.0], [0.0, 0.0], [-1.0, None]]), "tuple": rng.random() < 0.5, "array": rng.random() < 0.2,
                  "unset": [a for a in ("pf", "error_method", "initial_peaks") if rng.random() < 0.5], "baseline": rng.choice(["none", "given", "estimate", "refuses", "cannot", "real"])}
            dy = rng.choice([[0.0] * n, [0.5] * n, [rng.choice([0.1, 0.2, 1.0]) for _ in x], [0.1] * (n - 1) + [0.0], [-0.1] + [0.3] * (n - 1)])
            yield {"what": k, "x": x, "y": [rng.uniform(-3, 5) for _ in x], "dy": dy, "state": st, "args": rng.sample(NAMES, rng.choice([0, 0, 0, 1, 2]))}


class Fun:
    """A baseline function whose estimate is known, or refused."""

    def __init__(self, how):
        self.how, self.seen = how, []

    def estimate_parameters(self, r, y):
        self.seen.append((np.array(r), np.array(y)))
        if self.how == "refuses":
            raise SrMiseEstimationError("no estimate")
        if self.how == "cannot":
            raise NotImplementedError()
        return [7.0]

    def actualize(self, pars, in_format="default_input", **k):
        self.made = (pars, in_format)
        self.result = object()
        return self.result


def make(pdf):
    return (PDFPeakExtraction if pdf else PeakExtraction)()


def wave(n=200):
    x = np.arange(1, n + 1) * 0.05
    return x, np.sin(18.0 * x) / x + np.sin(7 * x) / x


def check(case):
    return globals()["check_" + case["what"]](case)


def check_data(c):
    p = make(c["pdf"])
    for k in PNAMES if c["pdf"] else NAMES:
        if getattr(p, k) is not None:
            return "setting %s of a new extraction is %r" % (k, getattr(p, k))
    n = [int(k) for k in c["n"]]
    a = [np.arange(1, k + 1) * q for k, q in zip(n, (0.5, 1.0, 0.1, 0.2))]
    keep = [q.copy() for q in a]
    good = n[0] == n[1] and all(n[i] == n[0] for i in (2, 3) if c["given"][i])
    old = pdfpeakextraction.find_qmax
    if not c["real"]:
        def none(*a, **k):
            raise ValueError("no qmax")
        pdfpeakextraction.find_qmax = none
    try:
        p.setdata(a[0], a[1], *[a[i] if c["given"][i] else None for i in (2, 3)])
    except ValueError as e:
        return "data of equal lengths are refused: %s" % e if good else None
    except Exception as e:
        if good and c["real"]:
            raise Skip()
        return "setdata: %s: %s" % (type(e).__name__, e)
    finally:
        pdfpeakextraction.find_qmax = old
    if not good:
        return "data of lengths %s are accepted" % n
    for i, k in enumerate(("x", "y", "dx", "dy")):
        s = getattr(p, k)
        if not np.array_equal(s, keep[i] if c["given"][i] else np.zeros(n[0])):
            return "%s is %s" % (k, s)
        if s is a[i] or np.shares_memory(s, a[i]) and n[0]:
            return "%s is not a copy" % k
    if c["pdf"] and not c["real"] and p.qmax_fromdata is not None:
        return "qmax of no data"


def check_range(c):
    p = PeakExtraction()
    x = [float(q) for q in c["x"]]
    if sorted(set(x)) != x or any(not math.isfinite(q) for q in x + [float(w) for w in c["rng"]]):
        raise Skip()
    p.setdata(x, [0.0] * len(x))
    lo, hi = p.rng = [float(q) for q in c["rng"]]
    s = p.getrangeslice()
    if not isinstance(s, slice):
        return "no slice: %r" % (s,)
    if list(p.x[s]) != [q for q in x if lo <= q <= hi]:
        return "range %s of %s selects %s" % (p.rng, x, list(p.x[s]))
    if not (0 <= s.start <= len(x) and 0 <= s.stop <= len(x)):
        return "slice %s of %d points" % (s, len(x))
    if list(p.x) != x or list(p.rng) != [lo, hi]:
        return "the data or the range are changed"


def sample(k):
    return {"effective_dy": 0.5, "rng": [1.0, 2.0], "pf": [GaussianOverR(0.5)], "initial_peaks": Peaks(), "baseline": Polynomial(degree=-1).actualize([], "internal"), "cres": 0.3, "error_method": AICc,
            "qmax": 20.0, "nyquist": True, "supersample": 5.0, "scale": True, "dg": 0.7}.get(k, 1)


def check_set(c):
    p = make(c["pdf"])
    calls = []
    p.defaultvars = lambda *a: calls.append(a)
    kw = {k: sample(k) for k in c["names"]}
    if c["pdf"]:
        if "supersample" in kw and c["supersample"] is not None:
            kw["supersample"] = float(c["supersample"])
        if "qmax" in kw and c["automatic"]:
            kw["qmax"] = "automatic"
        p.qmax_fromdata = 21.0 if c["fromdata"] else None
    known = PNAMES if c["pdf"] else NAMES
    old = {k: getattr(p, k) for k in known}
    dg = c["pdf"] and "dg" in kw
    bad = any(k not in known and not (dg and k == "dg") for k in kw) or dg and "effective_dy" in kw or c["pdf"] and (kw.get("supersample", 1) < 1 or kw.get("qmax") == "automatic" and not c["fromdata"])
    try:
        p.setvars(True, **dict(kw))
    except (ValueError, SrMiseQmaxError) as e:
        return None if bad else "settings %s are refused: %s" % (kw, e)
    except Exception as e:
        return "setvars %s: %s: %s" % (kw, type(e).__name__, e)
    if bad:
        return "settings %s are accepted" % kw
    want = dict(old, **{("effective_dy" if k == "dg" else k): w for k, w in kw.items()})
    if want.get("qmax") == "automatic":
        want["qmax"] = 21.0
    for k in known:
        if getattr(p, k) is not want[k] and getattr(p, k) != want[k]:
            return "%s is %r, not %r" % (k, getattr(p, k), want[k])
    if calls != [()]:
        return "defaults were asked for with %s" % calls


def unset_case(c):
    """The case with everything a witness left out."""
    x = [float(q) for q in c["x"]]
    n = len(x)
    if n < 2:
        x, n = [1.0, 2.0, 3.5], 3
    if any(b <= a for a, b in zip(x, x[1:])) or any(not math.isfinite(q) for q in x):
        raise Skip()
    pad = lambda a: [float(q) for q in a][:n] + [0.0] * (n - len(a))
    st = dict({"effective_dy": "sequence", "cres": 0.3, "rng": [x[0], x[0]], "tuple": True, "array": False, "unset": [], "baseline": "given"}, **c["state"])
    return x, pad(c["y"]), pad(c["dy"]), st


def check_default(c):
    x, y, dy, st = unset_case(c)
    n, args = len(x), list(c["args"])
    p = PeakExtraction()
    p.setdata(x, y, None, dy)
    how = st["effective_dy"]
    seq = [0.1 * (i + 1) for i in range(n)]
    p.effective_dy = {"unset": None, "scalar": 0.25, "negative": -0.25, "sequence": seq}[how]
    p.cres = st["cres"]
    rng = st["rng"]
    p.rng = None if rng is None else tuple(rng) if st["tuple"] else np.array(rng) if st["array"] and None not in rng else list(rng)
    given = {k: sample(k) for k in ("pf", "error_method", "initial_peaks")}
    given["initial_peaks"] = Peaks([GaussianOverR(0.5).actualize([1.0, 0.1, 1.0], "internal")])
    for k in given:
        setattr(p, k, None if k in st["unset"] else given[k])
    bl = {"none": None, "given": sample("baseline"), "real": Polynomial(degree=1)}.get(st["baseline"], Fun(st["baseline"]))
    p.baseline = bl
    data = [getattr(p, k).copy() for k in ("x", "y", "dx", "dy")]
    p.defaultvars(*args)
    for k, d in zip(("x", "y", "dx", "dy"), data):
        if not np.array_equal(getattr(p, k), d):
            return "the data are changed"
    if how == "unset" or "effective_dy" in args:
        want = dy if all(q > 0 for q in dy) else [0.05 * (max(y) - min(y))] * n
        if np.shape(p.effective_dy) != (n,) or not np.allclose(p.effective_dy, want, rtol=1e-12, atol=0):
            return "uncertainties %s, not %s" % (p.effective_dy, want)
    elif how == "scalar":
        if np.shape(p.effective_dy) != (n,) or not np.array_equal(p.effective_dy, [0.25] * n):
            return "scalar uncertainty became %s" % (p.effective_dy,)
    elif how == "sequence" and (p.effective_dy is not seq or seq != [0.1 * (i + 1) for i in range(n)]) or how == "negative" and p.effective_dy != -0.25:
        return "uncertainties that are set became %s" % (p.effective_dy,)
    cres = 4 * (x[-1] - x[0]) / n if st["cres"] is None or "cres" in args else st["cres"]
    if abs(p.cres - cres) > 1e-12 * abs(cres):
        return "resolution %s, not %s" % (p.cres, cres)
    full = [x[0], x[-1]]
    want = full if rng is None or "rng" in args else [f if q is None else q for q, f in zip(rng, full)]
    if list(p.rng) != want:
        return "range %s, not %s" % (p.rng, want)
    for k in given:
        if k not in st["unset"] and k not in args and getattr(p, k) is not given[k]:
            return "%s that is set is not kept" % k
    if "pf" in st["unset"] + args and not (len(p.pf) == 1 and type(p.pf[0]) is GaussianOverR and abs(p.pf[0].maxwidth - (x[-1] - x[0])) < 1e-12):
        return "default peak functions %s" % (p.pf,)
    if "error_method" in st["unset"] + args and p.error_method is not AIC:
        return "default criterion %s" % p.error_method
    if "initial_peaks" in st["unset"] + args and not (type(p.initial_peaks) is Peaks and len(p.initial_peaks) == 0):
        return "default peaks %s" % (p.initial_peaks,)
    b, sel = p.baseline, [(q, w) for q, w in zip(x, y) if want[0] <= q <= want[1]]
    kind = st["baseline"]
    if kind in ("estimate", "refuses", "cannot"):
        if "baseline" not in args and not (len(bl.seen) == 1 and list(bl.seen[0][0]) == [q for q, w in sel] and list(bl.seen[0][1]) == [w for q, w in sel]):
            return "baseline estimated from %s, not %s" % (bl.seen, sel)
    if kind == "given" and "baseline" not in args:
        return None if b is bl else "the baseline that is set is not kept"
    if kind == "estimate" and "baseline" not in args:
        return None if b is bl.result and bl.made == ([7.0], "internal") else "baseline %s is not the estimated one" % (b,)
    if kind == "real" and "baseline" not in args:
        try:
            e = Polynomial(degree=1).estimate_parameters(np.array([q for q, w in sel]), np.array([w for q, w in sel]))
        except Exception:
            e = None
        if e is not None:
            return None if isinstance(b, Baseline) and b.owner() is bl and np.allclose(b.pars, e) else "baseline %s, estimate %s" % (b, e)
    if not (type(b) is Baseline and type(b.owner()) is Polynomial and len(b) == 0 and np.all(np.asarray(b.value(np.array(x))) == 0)):
        return "default baseline %s" % (b,)


def check_pdf(c):
    p = PDFPeakExtraction()
    p.setdata([1.0, 2.0, 3.5, 4.0], [0.0, 1.0, -1.0, 0.5])
    names = [k for k in PNAMES if k != "qmax"]
    given = {k: sample(k) for k in names}
    if "nyquist" not in c["unset"] and len(c["args"]) % 2:
        given["nyquist"] = False
    for k in names:
        setattr(p, k, None if k in c["unset"] else given[k])
    f = lambda q: None if q is None else float(q)
    p.qmax, p.qmax_reportedbypdf, p.qmax_fromdata = map(f, c["qmax"])
    args = list(c["args"])
    p.defaultvars(*args)
    q = p.qmax_reportedbypdf if p.qmax_reportedbypdf is not None else p.qmax_fromdata if p.qmax_fromdata is not None else 0.0
    q = q if c["qmax"][0] is None or "qmax" in args else f(c["qmax"][0])
    if q < 0:
        raise Skip()
    if p.qmax != q:
        return "qmax %s, not %s" % (p.qmax, q)
    un = c["unset"] + args
    for k, want in (("nyquist", q > 0), ("scale", False), ("supersample", 4.0)):
        if getattr(p, k) != (want if k in un else given[k]):
            return "%s is %s" % (k, getattr(p, k))
    if "cres" in un:
        want = math.pi / q if q > 0 else 4 * 3.0 / 4
    else:
        want = given["cres"]
    if abs(p.cres - want) > 1e-12 * want:
        return "resolution %s, not %s" % (p.cres, want)
    if "pf" in un:
        if not (len(p.pf) == 1 and type(p.pf[0]) is GaussianOverR and p.pf[0].maxwidth == 0.7):
            return "default peak functions %s" % (p.pf,)
    elif p.pf is not given["pf"]:
        return "peak functions that are set are not kept"
    e = [0.05 * 2.0] * 4 if "effective_dy" in args or "dg" in args else [0.5] * 4
    if np.shape(p.effective_dy) != (4,) or not np.allclose(p.effective_dy, e, rtol=1e-12, atol=0):
        return "uncertainties %s, not %s" % (p.effective_dy, e)
    if list(p.rng) != ([1.0, 4.0] if "rng" in args else [1.0, 2.0]):
        return "range %s" % (p.rng,)


def check_flow(c):
    """Settings follow the data that are there now."""
    shapes = {"wave": wave(), "flat": (np.arange(1, 6) * 1.0, np.zeros(5)), "other": (wave()[0], wave()[1] * 2 + 0.0)}
    p, fresh = PDFPeakExtraction(), PDFPeakExtraction()
    try:
        p.setdata(*shapes[c["first"]])
        p.setdata(*shapes[c["second"]])
        fresh.setdata(*shapes[c["second"]])
    except Exception:
        raise Skip()
    if p.qmax_fromdata != fresh.qmax_fromdata:
        return "qmax from data %s after other data, %s otherwise" % (p.qmax_fromdata, fresh.qmax_fromdata)
