import math

from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseEstimationError

from .mputil import *

RULE = "random peaks: the reported maximum against a fine scan; random short data (constant, negative, too short, unequal lengths, plateaus at the ends) for estimates; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(2000 if tier == "quick" else 20000):
        k = rng.choice(["g", "gr"])
        f = [k, rng.choice([0.7, 3.0, rng.uniform(0.1, 4)])]
        pars = rpars(rng, f)
        if rng.random() < 0.2:
            pars[0] *= -1
        n = rng.choice([0, 1, 2, 3, 3, 4, 5, 8, 20])
        x0, dx = rng.uniform(0.1, 5), rng.choice([0.01, 0.1, 0.5])
        m = rng.random()
        if m < 0.2:
            y = [rng.uniform(0.1, 5)] * n
        elif m < 0.5:
            y = [rng.uniform(-1, 4) for _ in range(n)]
        elif m < 0.7:
            y = [math.exp(-((i - n / 3) ** 2) / (0.1 + n)) for i in range(n)]
        else:
            y = [float(rng.choice([-1, 0, 1, 2, 2])) for _ in range(n)]
        yield {"f": f, "pars": pars, "r": [x0 + dx * i for i in range(n + rng.choice([0, 0, 0, 0, 1]))], "y": y, "tr": rng.random() < 0.15}


def check(c):
    f = func(c["f"])
    g = TerminationRipples(f, 20.0) if c["tr"] else f
    p = np.array(c["pars"], float)
    keep = p.copy()
    W = c["f"][1]
    s = W * math.sqrt((math.sin(p[1]) + 1) / 2) / (2 * math.sqrt(2 * math.log(2)))
    mu = p[0]
    val = lambda x: value1(c["f"], c["pars"], x)
    try:
        m = f.max(p)
    except ValueError:
        m = None
    if not np.array_equal(p, keep):
        return "max changed the parameters"
    if c["f"][0] == "g":
        if m is None or abs(m[0] - mu) > 1e-9 or not close([m[1]], [val(mu)]):
            return "maximum of %r: %r" % (c["pars"], m)
    else:
        D = mu * mu - 4 * s * s
        if m is None:
            if D > 1e-9:
                return "%r has a maximum, but is refused" % c["pars"]
        else:
            if D < -1e-9:
                return "%r has no maximum, but %r is reported" % (c["pars"], m)
            want = 0.5 * (mu + math.copysign(math.sqrt(max(D, 0)), mu))
            if abs(m[0] - want) > 1e-6 * max(1, abs(want)) or not close([m[1]], [val(m[0])], 1e-7):
                return "maximum of %r: %r, want %r" % (c["pars"], list(m), want)
            if D > 1e-3:
                for e in (1e-3, -1e-3):
                    x = m[0] + e * s
                    if abs(x) > 1e-9 and val(x) > m[1] * (1 + 1e-9):
                        return "larger value next to the reported maximum of %r" % c["pars"]
    r, y = np.array(c["r"]), np.array(c["y"])
    npos = sum(1 for v in c["y"] if v > 0)
    try:
        e = g.estimate_parameters(r, y)
    except SrMiseEstimationError:
        e = None
    bad = len(r) != len(y) or npos < 3
    if bad and e is not None:
        return "estimated from %d positive points of %d and %d" % (npos, len(r), len(y))
    if not bad:
        if e is None:
            return "estimation from %r, %r failed" % (c["r"], c["y"])
        if len(e) != 3 or not np.all(np.isfinite(e)) or abs(e[1]) > math.pi / 2 + 1e-12:
            return "estimate %r from %r, %r" % (list(e), c["r"], c["y"])
        w = f.transform_parameters(e, "internal", "pwa")
        if w[1] > W * (1 + 1e-9):
            return "estimated width %r above %r" % (w[1], W)
    if not np.array_equal(r, np.array(c["r"])) or not np.array_equal(y, np.array(c["y"])):
        return "estimation changed the data"
