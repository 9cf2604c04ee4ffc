from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.peaks.terminationripples import TerminationRipples

from oracle_run import Skip

from .mputil import *

RULE = "random functions, parameters, fixed/free patterns, grids (also integer, single-point and coarse ones) and scalars, termination ripples included; compared with central differences of the value; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(900 if tier == "quick" else 9000):
        d = rpart(rng)
        r = rgrid(rng, d["f"][0] == "gr" or rng.random() < 0.7)
        if d["f"][0] == "gr":
            r = [abs(x) + 0.01 for x in r]
        c = {"part": d, "r": sorted(r), "ripple": None}
        if d["f"][0] in ("g", "gr") and rng.random() < 0.25:
            n = rng.choice([1, 2, 5, 30])
            dx = rng.choice([0.02, 0.1, 0.5])
            c["r"] = [2.0 + dx * i for i in range(n)]
            c["ripple"] = [rng.choice([8.0, 15.0, 25.0]), rng.choice([0.5, 2.0, 4.0]), rng.choice([2.0, 5.0])]
        elif rng.random() < 0.1 and d["f"][0] != "gr":
            c["r"] = list(range(1, 1 + len(r)))
        n = len(c["r"])
        lo = rng.randrange(0, n)
        c["range"] = rng.choice([None, [lo, rng.randrange(lo, n + 1)]])
        c["scalar"] = rng.uniform(0.3, 9)
        if rng.random() < 0.1 and d["f"][0] == "nano":
            c["scalar"] = rng.choice([0.0, -1.0, 50.0])
        yield c


def jacok(what, f, p, arg, rg, jac, free):
    pars = p.pars.copy()
    if len(jac) != len(pars):
        return "%s: %d derivatives for %d parameters" % (what, len(jac), len(pars))
    for k, fr in enumerate(free):
        if not fr:
            if jac[k] is not None:
                return "%s: fixed parameter %d has a derivative" % (what, k)
            continue
        if jac[k] is None:
            return "%s: free parameter %d has no derivative" % (what, k)
        h = 1e-5 * max(1.0, abs(pars[k]))
        p.pars[k] = pars[k] + h
        up = np.array(p.value(arg, rg) if rg is not None else p.value(arg), float)
        p.pars[k] = pars[k] - h
        dn = np.array(p.value(arg, rg) if rg is not None else p.value(arg), float)
        p.pars[k] = pars[k]
        want = (up - dn) / (2 * h)
        got = np.array(jac[k], float)
        if got.shape != want.shape:
            return "%s: derivative %d has shape %r, value %r" % (what, k, got.shape, want.shape)
        scale = max(1.0, np.max(np.abs(want)) if want.size else 0, np.max(np.abs(up)) if up.size else 0)
        if not np.all(np.abs(got - want) <= 3e-4 * scale):
            return "%s: derivative %d is %r, differences give %r" % (what, k, got.tolist(), want.tolist())


def check(case):
    d = case["part"]
    p = part(d)
    f = p.owner()
    if case["ripple"]:
        q, e, s = case["ripple"]
        f = TerminationRipples(f, q, e, s)
        p = Peak(f, d["pars"], d["free"])
    if d["f"][0] in ("g", "gr"):
        if math.sin(d["pars"][1]) + 1 < 1e-2 or abs(d["pars"][2]) < 1e-2:
            raise Skip("edge of the domain")
    if d["f"][0] == "nano" and min(abs(abs(x) - 2 * abs(d["pars"][1])) for x in case["r"] + [case["scalar"]]) < 1e-3:
        raise Skip("support end")
    r = np.array(case["r"])
    rg = None if case["range"] is None else slice(*case["range"])
    m = jacok("%r grid %r range %r" % (d, case["r"], case["range"]), f, p, r, rg, p.jacobian(r, rg), d["free"])
    if m:
        return m
    m = jacok("%r at %r" % (d, case["scalar"]), f, p, case["scalar"], None, p.jacobian(case["scalar"]), d["free"])
    if m:
        return m
    n = len(d["pars"])
    if d["f"][0] == "poly":
        a = Arbitrary(n, lambda q, x: np.polyval(q, x))
        b = Baseline(a, d["pars"], [False] * n)
        if list(b.jacobian(r)) != [None] * n:
            return "fixed arbitrary baseline has derivatives"
        if n:
            try:
                Baseline(a, d["pars"]).jacobian(r)
                return "derivatives of a function that supplies none"
            except NotImplementedError:
                pass
