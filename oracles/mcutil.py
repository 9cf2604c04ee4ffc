"""Random model clusters and an independent account of their values."""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from .mputil import *

CRIT = {"AIC": AIC, "AICc": AICc}


def rdata(rng, nmin=2):
    r = rgrid(rng, nmin=nmin)
    y = [rng.uniform(-1, 5) for _ in r]
    e = [rng.choice([0.2, 1.0, 3.0]) * rng.uniform(0.5, 1) for _ in r]
    return {"r": r, "y": y, "e": e}


def rpeaks(rng, r, counts=(0, 1, 2, 3, 5), extra=(), protect=0.3):
    ps = []
    for _ in range(rng.choice(counts)):
        k = rng.choice(["g", "gr"])
        x = rng.choice([rng.uniform(max(r[0] - 1, 0.1), r[-1] + 1)] * 3 + list(extra or [r[0]]))
        ps.append({"f": [k, 0.7], "pars": [float(x), rng.uniform(-1.4, 1.4), rng.uniform(0.01, 5)], "free": [rng.random() < 0.8 for _ in "abc"], "removable": rng.random() >= protect})
    return ps


def rbase(rng):
    if rng.random() < 0.3:
        return None
    d = rpart(rng, ("poly", "nano", "seq"))
    return d


def peaks_of(ps, owners):
    return Peaks(sorted((part(d, Peak, owners) for d in ps), key=lambda p: p["position"]))


def value_of(ps, x):
    return sum(value1(d["f"], d["pars"], x) for d in ps)


def base_of(b, x):
    return 0.0 if b is None else value1(b["f"], b["pars"], x)


def state(mc):
    """Everything a user can see of a cluster."""
    f = lambda p: (id(p.owner()), tuple(map(float, p.pars)), tuple(map(bool, p.free)), bool(p.removable))
    return ([f(p) for p in mc.model], None if mc.baseline is None else f(mc.baseline), (mc.slice.start, mc.slice.stop), list(mc.r_data), list(mc.y_data), list(mc.y_error), mc.error_method)


class Script:
    """Stands in for scipy's optimiser: any outcome it can have, including failures."""

    def __init__(self, seed, real=0.0, calm=0.0):
        import random
        self.rng = random.Random(seed)
        self.real, self.calm = real, calm
        self.calls = 0

    def __enter__(self):
        from diffpy.srmise import modelparts
        self.mod, self.orig = modelparts, modelparts.leastsq
        modelparts.leastsq = self
        return self

    def __exit__(self, *a):
        self.mod.leastsq = self.orig

    def __call__(self, func, x0, args=(), **kw):
        rng = self.rng
        self.calls += 1
        if rng.random() < self.real:
            return self.orig(func, x0, args=args, **kw)
        x0 = np.array(x0, float)
        n = len(x0)
        how = rng.choice(["shift", "shift", "far", "scale"])
        x = x0.copy()
        for i in range(n):
            if rng.random() < self.calm:
                continue
            if how == "shift":
                x[i] += rng.uniform(-0.3, 0.3)
            elif how == "far" and i % 3 == 0:
                x[i] += rng.uniform(-4, 4)
            elif how == "scale":
                x[i] *= rng.choice([0.001, 0.5, 1, 1.5])
        func(x, *args)  # the model is left at the last point tried
        out = rng.choice(["ok"] * 6 + ["bad", "raise"])
        if out == "raise":
            raise FloatingPointError("scripted")
        if out == "bad":
            return x, None, {"fvec": np.ones(max(len(args[0]), 1))}, "scripted", 5
        return x, np.eye(n), {"fvec": np.ones(max(len(args[0]), 1))}, "", 1
