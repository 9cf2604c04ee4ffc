import math

from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseTransformationError

from .mputil import *

RULE = "random functions and parameters (also outside the preferred range, at its ends, and too wide); conversions between every pair of formats, there and back; non-trivial: distinct case"
FMT = ["internal", "pwa", "mu_sigma_area"]


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        if rng.random() < 0.8:
            W = rng.choice([0.7, rng.uniform(0.05, 4)])
            u = rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.random()])
            a, b = rng.choice(FMT), rng.choice(FMT)
            area = rng.choice([0.0, rng.uniform(0, 30)])
            yield {"f": [rng.choice(["g", "gr"]), W], "u": u, "a": a, "b": b, "pos": rng.uniform(-5, 9), "area": area,
                   "wild": rng.uniform(-12, 12), "sign": rng.choice([-1, 1]), "wide": 1 + rng.choice([1e-9, 1e-3, 0.5, 3]), "tr": rng.random() < 0.3}
        else:
            s = rng.choice([["poly", rng.choice([-1, 0, 1, 3])], ["nano"], ["seq", [0.0, 1.0, 2.0, 3.0, 4.5], [1.0, 0.0, 2.0, 3.0, 1.0]]])
            yield {"f": s, "pars": rpars(rng, s)}


def same(p, q):
    return len(p) == len(q) and all(abs(a - b) <= 1e-6 * max(1, abs(a)) for a, b in zip(p, q))


def check(c):
    f = func(c["f"])
    if c.get("tr"):
        f = TerminationRipples(f, 20.0)
    for i, o in (("nonsense", "internal"), ("internal", "nonsense"), ("nonsense", "nonsense"), (None, "nonsense")):
        try:
            f.transform_parameters(np.zeros(f.npars), i, o)
            return "unknown formats %r, %r accepted" % (i, o)
        except ValueError:
            pass
    if c["f"][0] not in ("g", "gr"):
        p = np.array(c["pars"], float)
        k = p.copy()
        for a in (None, "internal", "default_input", "default_output"):
            for b in (None, "internal", "default_input", "default_output"):
                q = f.transform_parameters(p, a, b)
                want = np.abs(k) if c["f"][0] == "nano" else k
                if not np.array_equal(q, want) or not np.array_equal(p, k):
                    return "%r from %r to %r: %r became %r (input now %r)" % (c["f"], a, b, list(k), list(q), list(p))
        return
    W = c["f"][1]
    s = 2 * math.sqrt(2 * math.log(2))
    w = c["u"] * W
    inp = {"internal": -math.pi / 2 + math.pi * c["u"], "pwa": w, "mu_sigma_area": min(w / s, W / s)}
    if abs(f.sigma2fwhm - s if not c.get("tr") else 0) > 1e-12:
        return "sigma to full width: %r" % f.sigma2fwhm
    p = np.array([c["pos"], inp[c["a"]], c["area"]])
    k = p.copy()
    q = f.transform_parameters(p, c["a"], c["b"])
    kq = q.copy()
    fw = {"internal": lambda x: W * math.sqrt((math.sin(x) + 1) / 2), "pwa": lambda x: x, "mu_sigma_area": lambda x: x * s}
    if abs(fw[c["a"]](p[1]) - fw[c["b"]](q[1])) > 1e-6 * W or q[0] != p[0] or q[2] != p[2]:
        return "%s to %s: %r became %r" % (c["a"], c["b"], list(p), list(q))
    z = f.transform_parameters(q, c["b"], c["a"])
    tol = 1e-6 if 0.001 < c["u"] < 0.999 else 1e-3
    if not np.all(np.abs(z - k) <= tol * np.maximum(1, np.abs(k))):
        return "%s to %s and back: %r became %r" % (c["a"], c["b"], list(k), list(z))
    if not np.array_equal(p, k) or not np.array_equal(q, kq):
        return "a conversion changed its input"
    # defaults: internal in, pwa out
    if not same(f.transform_parameters(np.array([c["pos"], inp["internal"], c["area"]])), [c["pos"], fw["internal"](inp["internal"]), c["area"]]):
        return "default formats"
    # restoring from anywhere
    x = np.array([c["pos"], c["wild"], c["sign"] * c["area"]])
    kx = x.copy()
    y = f.transform_parameters(x, "internal", "internal")
    if not (-math.pi / 2 - 1e-9 <= y[1] <= math.pi / 2 + 1e-9 and y[2] >= 0 and y[0] == x[0]) or not np.array_equal(x, kx):
        return "restoring %r gives %r" % (list(kx), list(y))
    base = func(c["f"])
    for r in (0.3, c["pos"] + 0.1 * W, 2.0):
        if math.sin(c["wild"]) < -0.999:
            continue
        a, b = base._valueraw(x, r), base._valueraw(y, r)
        if abs(a - b) > 1e-7 * (abs(a) + 1e-300) and abs(a - b) > 1e-12:
            return "restoring %r changed the value at %r from %r to %r" % (list(kx), r, a, b)
    for fmt in ("pwa", "mu_sigma_area"):
        q1, q2 = f.transform_parameters(x, "internal", fmt), f.transform_parameters(y, "internal", fmt)
        if not same(q1, q2):
            return "converting %r to %s differs from converting its restored form" % (list(kx), fmt)
        big = np.array([c["pos"], W * c["wide"] / (1 if fmt == "pwa" else s), c["area"]])
        for o in FMT:
            if o == fmt:
                continue
            try:
                f.transform_parameters(big, fmt, o)
                return "width %r in %s above the maximum %r accepted" % (big[1], fmt, W)
            except SrMiseTransformationError:
                pass
