import numpy as np
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.srmiseerrors import SrMiseModelEvaluatorError

RULE = "random data, models sizes, shifts and cached chi-squares for both criteria, compared with the textbook formulas; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(2000 if tier == "quick" else 20000):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 20])
        yield {"kind": rng.choice(["AIC", "AICc"]), "y": [rng.uniform(-5, 5) for _ in range(n)], "m": [rng.uniform(-5, 5) for _ in range(n)], "e": [rng.uniform(0.1, 3) for _ in range(n)],
               "free": rng.choice([0, 1, 2, 3, 5, 9]), "fixed": rng.choice([0, 0, 1, 4]), "cf": rng.random() < 0.4, "ks": rng.choice([0, 0, 1, 3, -1, -2, -10]), "kp": rng.choice([0, 1, 2, 3, 6]),
               "chi": rng.choice([None, None, rng.uniform(0, 30), 0.0, 2.0, 6.0])}


class Obj:
    pass


def check(c):
    fit, model = Obj(), Obj()
    model.npars = lambda count_fixed=True: c["free"] + (c["fixed"] if count_fixed else 0)
    fit.model, fit.size = model, len(c["y"])
    fit.y_cluster, fit.error_cluster = np.array(c["y"]), np.array(c["e"])
    fit.value = lambda: np.array(c["m"])
    chi = c["chi"] if c["chi"] is not None else sum((a - b) ** 2 / e ** 2 for a, b, e in zip(c["y"], c["m"], c["e"]))
    need = (lambda k: 1) if c["kind"] == "AIC" else (lambda k: k + 2)
    pen = lambda k, n: 2 * k + (2.0 * k * (k + 1) / (n - k - 1) if c["kind"] == "AICc" else 0)
    ev = {"AIC": AIC, "AICc": AICc}[c["kind"]]()
    ev.chisq = c["chi"]
    k = c["free"] + (c["fixed"] if c["cf"] else 0) + c["ks"]
    try:
        q = ev.evaluate(fit, count_fixed=c["cf"], kshift=c["ks"])
        if k < 0:
            return "negative parameter count accepted"
        want = chi + pen(k, max(fit.size, need(k)))
        if abs(q - want) > 1e-9 * max(1, abs(want)) or ev.stat != q or abs(ev.chisq - chi) > 1e-9 * max(1, chi):
            return "statistic %r (kept %r), want %r" % (q, ev.stat, want)
    except SrMiseModelEvaluatorError:
        if k >= 0:
            return "k=%d refused" % k
    ev = {"AIC": AIC, "AICc": AICc}[c["kind"]]()
    ev.chisq = c["chi"]
    k1 = c["free"] + c["kp"]
    g = ev.growth_justified(fit, c["kp"])
    n = max(fit.size, need(c["free"]))
    want = fit.size >= need(k1) and pen(k1, n) - pen(c["free"], n) < chi
    if bool(g) != bool(want) and (fit.size < need(k1) or abs(pen(k1, n) - pen(c["free"], n) - chi) > 1e-9):
        return "growth by %d: %r, want %r" % (c["kp"], g, want)
