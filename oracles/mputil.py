"""Random functions and model parts, with independent value formulas."""
import math

import numpy as np
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelparts import ModelPart, ModelParts
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR


def func(spec):
    k = spec[0]
    if k == "g":
        return Gaussian(spec[1])
    if k == "gr":
        return GaussianOverR(spec[1])
    if k == "poly":
        return Polynomial(spec[1])
    if k == "nano":
        return NanoSpherical()
    if k == "seq":
        return FromSequence(np.array(spec[1]), np.array(spec[2]))
    raise ValueError(k)


def npars(spec):
    return {"g": 3, "gr": 3, "nano": 2, "seq": 0}.get(spec[0], spec[1] + 1 if spec[0] == "poly" and spec[1] >= 0 else 0)


def value1(spec, pars, x):
    """The mathematical value at one coordinate."""
    k = spec[0]
    if k in ("g", "gr"):
        W = spec[1]
        s2 = math.sin(pars[1]) + 1.0
        fwhm = W * math.sqrt(s2 / 2.0)
        sigma = fwhm / (2 * math.sqrt(2 * math.log(2)))
        v = abs(pars[2]) / (sigma * math.sqrt(2 * math.pi)) * math.exp(-((x - pars[0]) ** 2) / (2 * sigma ** 2))
        return v / abs(x) if k == "gr" else v
    if k == "poly":
        return sum(p * x ** (len(pars) - 1 - i) for i, p in enumerate(pars))
    if k == "nano":
        R = abs(pars[1])
        if x <= 0 or x >= 2 * R:
            return 0.0
        return -abs(pars[0]) * x * (1 - 0.75 * x / R + (x / R) ** 3 / 16)
    if k == "seq":  # points on a straight line
        xs, ys = spec[1], spec[2]
        return ys[0] + (ys[1] - ys[0]) / (xs[1] - xs[0]) * (x - xs[0])
    raise ValueError(k)


def rspec(rng, kinds=("g", "gr", "poly", "nano")):
    k = rng.choice(kinds)
    if k in ("g", "gr"):
        return [k, rng.choice([0.5, 0.7, 1.0, 3.0])]
    if k == "poly":
        return [k, rng.choice([-1, 0, 1, 2, 3])]
    if k == "seq":
        a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
        xs = [0.0, 0.5, 1.0, 2.5, 4.0, 30.0]
        return [k, xs, [a + b * x for x in xs]]
    return [k]


def rpars(rng, spec):
    k = spec[0]
    if k in ("g", "gr"):
        return [rng.uniform(0.5, 9.0), rng.uniform(-1.4, 1.4) + rng.choice([0, 0, 0, 2 * math.pi, -math.pi]), rng.choice([1, 1, 1, -1]) * rng.uniform(0.1, 20)]
    if k == "nano":
        return [rng.choice([1, 1, -1]) * rng.uniform(0.1, 3), rng.uniform(0.5, 8)]
    return [float(rng.choice([0, 1, -1, 2.5, rng.uniform(-3, 3)])) for _ in range(npars(spec))]


def rpart(rng, kinds=("g", "gr", "poly", "nano"), ints=False):
    s = rspec(rng, kinds)
    p = rpars(rng, s)
    if ints:
        p = [int(max(1, round(v))) for v in p]
    m = rng.random()
    free = [True] * len(p) if m < 0.4 else [False] * len(p) if m < 0.5 else [rng.random() < 0.5 for _ in p]
    return {"f": s, "pars": p, "free": free, "removable": rng.random() < 0.7, "static": rng.random() < 0.2}


def rmodel(rng, kinds=("g", "gr", "poly", "nano"), counts=(0, 1, 1, 2, 4), ints=False):
    """Descriptions of the parts of a model; sometimes with equal parts or a shared function."""
    ps = [rpart(rng, kinds, ints) for _ in range(rng.choice(counts))]
    if ps and rng.random() < 0.35:
        d = dict(rng.choice(ps))
        if rng.random() < 0.4:
            d["pars"] = rpars(rng, d["f"])
        ps.insert(rng.randrange(len(ps) + 1), d)
    return ps


def part(d, cls=None, owners=None):
    key = str(d["f"])
    if owners is not None:
        f = owners.setdefault(key, func(d["f"]))
    else:
        f = func(d["f"])
    cls = cls or (Peak if d["f"][0] in ("g", "gr") else Baseline)
    return cls(f, d["pars"], d["free"], d.get("removable", True), d.get("static", False))


def rgrid(rng, positive=True, nmin=1):
    n = rng.choice([k for k in (1, 2, 3, 7, 20, 51) if k >= nmin])
    x0 = rng.uniform(0.05, 3) if positive else rng.uniform(-4, 3)
    dx = rng.choice([0.01, 0.1, 0.37, 1.0])
    if rng.random() < 0.7:
        return [x0 + dx * i for i in range(n)]
    out = [x0]
    for _ in range(n - 1):
        out.append(out[-1] + rng.uniform(0.01, 1.5))
    return out


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))
