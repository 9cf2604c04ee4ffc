import math

from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseScalingError

from .mputil import *

RULE = "random peaks, coordinates (also at the maximum) and factors (also one, zero, negative, tiny and huge); value at the coordinate and the maximum before and after; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        k = rng.choice(["g", "gr"])
        d = {"f": [k, rng.choice([0.7, 3.0, rng.uniform(0.1, 4)])], "pars": rpars(rng, [k]), "free": [rng.random() < 0.8 for _ in range(3)]}
        d["pars"][2] = abs(d["pars"][2]) * rng.choice([1, 1, 1, 0]) * rng.choice([1, 1, -1])
        if k == "gr" and rng.random() < 0.2:
            d["pars"][0] *= -1
        x = rng.choice([rng.uniform(0.05, 9), d["pars"][0], d["pars"][0] + rng.uniform(-1, 1), d["pars"][0] + 1e-2])
        yield {"part": d, "x": x or 0.5, "scale": rng.choice([1, 1.0, 0, -0.5, 1e-9, 1e9, rng.uniform(0.3, 3), rng.uniform(0.8, 1.2), 1 + rng.uniform(-1e-3, 1e-3)]), "tr": rng.random() < 0.1}


def check(c):
    d = c["part"]
    f = func(d["f"])
    pars = np.array(d["pars"], float)
    keep = pars.copy()
    x, s = c["x"], c["scale"]
    g = TerminationRipples(f, 20.0) if c["tr"] else f
    v0 = float(f._valueraw(pars, x))
    try:
        m0 = f.max(pars)
    except ValueError:
        m0 = None
    try:
        q = g.scale_at(pars, x, s)
    except SrMiseScalingError:
        q = None
    if not np.array_equal(pars, keep):
        return "scaling changed its input"
    if s <= 0 and q is not None:
        return "factor %r accepted" % s
    if s == 1 and (q is None or not np.array_equal(q, pars)):
        return "factor one: %r became %r" % (list(pars), q)
    if q is not None and s != 1:
        if not np.all(np.isfinite(q)):
            return "scaling %r at %r by %r gives %r" % (list(pars), x, s, list(q))
        v1 = float(f._valueraw(q, x))
        if v0 > 1e-200 and abs(v1 - s * v0) > (1e-5 if 1e-3 < s < 1e3 else 1e-2) * abs(s * v0):
            return "scaling %r at %r by %r: value %r became %r" % (list(pars), x, s, v0, v1)
        if m0 is not None:
            m1 = f.max(q)
            if abs(m1[0] - m0[0]) > 1e-6 * max(1, abs(m0[0])) or abs(m1[1] - m0[1]) > 1e-5 * max(abs(m0[1]), 1e-9):
                return "scaling %r at %r by %r moved the maximum from %r to %r" % (list(pars), x, s, list(m0), list(m1))
        elif d["f"][0] == "gr":
            return "a peak without a maximum was scaled"
    # refusals must be justified: a moderate change well away from the maximum of a clear peak succeeds
    if q is None and s > 0 and m0 is not None and d["f"][0] == "g":
        W = d["f"][1]
        sg = W * math.sqrt((math.sin(pars[1]) + 1) / 2) / (2 * math.sqrt(2 * math.log(2)))
        if x != pars[0]:
            den = 1 - 2 * math.log(s) * sg ** 2 / (x - pars[0]) ** 2
            if den > 1e-6 and sg / math.sqrt(den) * 2 * math.sqrt(2 * math.log(2)) < W * (1 - 1e-9):
                return "scaling %r at %r by %r refused although possible" % (list(pars), x, s)
    p = Peak(g, d["pars"], d["free"])
    b = p.pars.copy()
    r = p.scale_at(x, s)
    if not r:
        if not np.array_equal(p.pars, b):
            return "a failed scaling changed the peak"
    else:
        if np.any((p.pars != b) & ~p.free):
            return "a fixed parameter was altered: %r to %r" % (list(b), list(p.pars))
        if q is None or not np.allclose(p.pars, q, rtol=0, atol=0):
            return "the peak got other parameters than its function returns"
    if r and not any(d["free"]):
        return "a peak without free parameters was scaled"
    if not r and q is not None and any(d["free"]) and not np.any((np.asarray(q) != b) & ~np.array(d["free"])):
        return "possible scaling of the peak refused"
