import math

from diffpy.srmise.peaks.terminationripples import TerminationRipples

from .mputil import *

RULE = "random peaks, parameters inside the range and every pair of formats; gradient against a central difference of the real conversion; non-trivial: distinct case"
FMT = ["internal", "pwa", "mu_sigma_area"]


def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        W = rng.choice([0.7, rng.uniform(0.05, 4)])
        yield {"f": [rng.choice(["g", "gr"]), W], "u": rng.uniform(0.05, 0.95), "a": rng.choice(FMT), "b": rng.choice(FMT), "pos": rng.uniform(-5, 9),
               "area": rng.choice([-1, 1, 1]) * rng.uniform(0.1, 30), "turn": rng.choice([0, 0, 1, 2, -1, -3]), "tr": rng.random() < 0.3,
               "base": rng.choice([["poly", 2], ["nano"], ["poly", 0]]), "names": rng.random() < 0.3}


def check(c):
    f = func(c["f"])
    if c.get("tr"):
        f = TerminationRipples(f, 20.0)
    for g in (f, func(c["base"])):
        for i, o in (("nonsense", "internal"), ("internal", "nonsense"), ("nonsense", "nonsense"), (None, "nonsense")):
            try:
                g.transform_derivatives(np.ones(g.npars), i, o)
                return "unknown formats %r, %r accepted" % (i, o)
            except ValueError:
                pass
        for i in (None, "default_input", "internal"):
            if not np.array_equal(g.transform_derivatives(np.ones(g.npars), i, "internal"), np.identity(g.npars)):
                return "not the identity"
    W = c["f"][1]
    s = 2 * math.sqrt(2 * math.log(2))
    p1 = {"internal": -math.pi / 2 + math.pi * c["u"], "pwa": c["u"] * W, "mu_sigma_area": c["u"] * W / s}[c["a"]]
    area = c["area"] if c["a"] == "internal" else abs(c["area"])
    if c["a"] == "internal":
        t = c["turn"]
        p1 = p1 + t * math.pi if t % 2 == 0 else t * math.pi - p1
    p = np.array([c["pos"], p1, area])
    k = p.copy()
    i, o = c["a"], c["b"]
    if c["names"]:
        i = "default_input" if i == "internal" else "default_output" if i == "pwa" else i
        o = None if o == "pwa" else o
    G = np.array(f.transform_derivatives(p, i, o))
    if G.shape != (3, 3) or not np.array_equal(p, k):
        return "shape, or the input changed"
    if c["a"] == c["b"]:
        return None if np.array_equal(G, np.identity(3)) else "not the identity between equal formats"
    for j in range(3):
        h = np.zeros(3)
        h[j] = 1e-6 * max(abs(p[j]), 0.1)
        num = (f.transform_parameters(p + h, c["a"], c["b"]) - f.transform_parameters(p - h, c["a"], c["b"])) / (2 * h[j])
        if not np.all(np.abs(num - G[:, j]) <= 1e-4 * np.maximum(1, np.abs(num))):
            return "%r %s to %s, d/d parameter %d: reported %r, found %r" % (list(p), c["a"], c["b"], j, list(G[:, j]), list(num))
