from .mputil import *
import diffpy.srmise.modelparts as MODULE
from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.srmiseerrors import SrMiseFitError
from oracle_run import Skip

RULE = "random models on random grids, data, uncertainties and ranges: residual and Jacobian against independent values and finite differences; fits with the real optimiser and with a stand-in returning every kind of answer; non-trivial: at least one free parameter"


def cases(rng, tier):
    for k in range(900 if tier == "quick" else 9000):
        ps = rmodel(rng, ("g", "gr", "poly", "nano", "seq0"))
        for d in ps:
            if d["f"][0] == "nano":
                d["pars"][1] = 50.0 + rng.random()
        r = rgrid(rng)
        n = len(r)
        lo = rng.randrange(0, n + 1)
        hi = rng.randrange(lo, n + 1)
        yield {"kind": "residual", "parts": ps, "r": r, "y": [rng.uniform(-5, 5) for _ in r], "e": [rng.uniform(0.1, 3) for _ in r],
               "range": rng.choice([None, None, [None, None], [lo, hi], [None, hi], [lo, None]]), "shift": [rng.uniform(-0.2, 0.2) for _ in range(40)]}
        if k % 2:
            continue
        ps = rmodel(rng, ("g", "poly"))
        nf = sum(sum(bool(f) for f in d["free"]) for d in ps)
        n = rng.choice([max(0, nf - 1), nf, nf + 1, nf + 3, nf + 20])
        r = [0.5 + 0.2 * i for i in range(n)]
        lo = rng.randrange(0, max(1, n - nf))
        hi = rng.randrange(min(n, lo + nf + 1), n + 1) if lo + nf + 1 <= n else n
        yield {"kind": "fit", "parts": ps, "r": r, "y": [rng.uniform(-2, 2) for _ in r], "e": [rng.uniform(0.1, 3) for _ in r], "range": rng.choice([None, None, [lo, hi]]),
               "answer": rng.choice(["real", "arbitrary", "arbitrary", "singular", "raise", "notimpl", "notimpl raise"]), "ier": rng.choice([0, 1, 1, 2, 3, 4, 4, 5, 6, 8]),
               "cov": rng.random() < 0.7, "seed": rng.randrange(10 ** 6)}


WITNESS = [{"kind": "nojac"}]


def flat(ps):
    return np.array([v for p in ps for v, f in zip(p.pars, p.free) if f], float)


def check(case):
    if case["kind"] == "nojac":
        import math
        f = Arbitrary(1, lambda p, r: math.sqrt(p[0]) * r)
        m = ModelParts([f.actualize([1.0], "internal")])
        r = np.arange(10.0)
        try:
            m.fit(r, -3 * r, r * 0 + 1)
        except SrMiseFitError:
            return None
        except Exception as e:
            return "fit without derivatives fails with %r, not with a fit error" % e
        return None
    owners = {}
    for d in case["parts"]:
        if d["f"][0] == "seq0":
            d["f"], d["pars"], d["free"] = ["seq", [0.0, 1, 2, 60], [0.0, 1, 3, 2]], [], []
    ps = [part(d, owners=owners) for d in case["parts"]]
    m = ModelParts(ps)
    r, y, e = np.array(case["r"], float), np.array(case["y"], float), np.array(case["e"], float)
    keep = r.copy(), y.copy(), e.copy()
    sl = None if case["range"] is None else slice(*case["range"])
    full = slice(None) if sl is None else sl
    x = flat(ps)
    if case["kind"] == "residual":
        x = x + np.array(case["shift"][:len(x)])
        res = m.residual(x, r, y, e, sl)
        if not np.array_equal(flat(ps), x):
            return "the residual is not evaluated at the given parameters: %r, want %r" % (flat(ps), x)
        inside = range(len(r))[full]
        tot = [sum(value1(d["f"], list(p.pars), float(r[i])) if d["f"][0] != "seq" else float(p.value(float(r[i]))) for p, d in zip(ps, case["parts"])) for i in inside]
        want = [(y[i] - t) / e[i] for i, t in zip(inside, tot)]
        if not close(res, np.array(want, float), 1e-8, 1e-9):
            return "residual %r, want %r" % (list(res), want)
        if not len(x):
            try:
                m.residual_jacobian(x, r, y, e, sl)
            except ValueError:
                raise Skip
            return "a Jacobian without free parameters"
        x2 = x + 0.01
        m.pack_freepars(x2)
        jac = m.residual_jacobian(x, r, y, e, sl)
        if not np.array_equal(flat(ps), x):
            return "the Jacobian is not evaluated at the given parameters"
        if np.shape(jac) != (len(x), len(want)):
            return "Jacobian of shape %r, want %r" % (np.shape(jac), (len(x), len(want)))
        for k in range(len(x)):
            h = 1e-5 * max(1.0, abs(x[k]))
            a, b = x.copy(), x.copy()
            a[k] += h
            b[k] -= h
            fa, fb = m.residual(a, r, y, e, sl), m.residual(b, r, y, e, sl)
            num = (np.array(fa) - fb) / (2 * h)
            if not np.allclose(jac[k], num, rtol=2e-3, atol=2e-3 * max(1.0, float(np.max(np.abs(num))) if num.size else 1.0)):
                return "row %d of the Jacobian is %r, the derivative is %r" % (k, list(jac[k]), list(num))
        if not all(np.array_equal(p, q) for p, q in zip(keep, (r, y, e))):
            return "the data are changed"
        return None
    # fit
    before = [(list(p.pars), list(p.free)) for p in ps]
    rr = np.random.RandomState(case["seed"])
    ans = case["answer"]
    n = len(range(len(r))[full])
    fvec, pcov, sol = rr.uniform(-1, 1, n), rr.uniform(-1, 1, (len(x), len(x))), x + rr.uniform(-0.1, 0.1, len(x))
    pcov = None if ans == "singular" else pcov @ pcov.T
    calls = []
    real = MODULE.leastsq

    def fake(func, x0, args=(), Dfun=None, full_output=0, col_deriv=0, **kw):
        calls.append((func, np.array(x0), args, Dfun, full_output, col_deriv, kw))
        if not np.array_equal(x0, x):
            raise AssertionError("start %r, want %r" % (x0, x))
        if not np.allclose(func(x0, *args), ModelParts.residual(m, x0, r, y, e, sl)):
            raise AssertionError("another residual")
        if Dfun is not None and ans.startswith("notimpl"):
            raise NotImplementedError
        if Dfun is not None and not (col_deriv and np.allclose(Dfun(x0, *args), ModelParts.residual_jacobian(m, x0, r, y, e, sl))):
            raise AssertionError("another Jacobian")
        if ans.endswith("raise"):
            raise RuntimeError("optimiser")
        func(x0 + 1e-3, *args)
        return np.array(sol), pcov, {"fvec": fvec}, "message", case["ier"]
    cov = ModelCovariance() if case["cov"] else None
    given = []
    if cov is not None and ans != "real":
        sc = cov.setcovariance
        cov.setcovariance = lambda model, c: (given.append((model, np.array(c))), sc(model, c))[1]
        cov.transform = lambda *a, **k: given.append((a, k))
    if cov is not None and ans == "real":
        cov.transform = lambda *a, **k: None
    if ans != "real":
        MODULE.leastsq = fake
    try:
        try:
            m.fit(r, y, e, sl, 50, cov, "internal")
            err = None
        except SrMiseFitError as ex:
            err = ex
    finally:
        MODULE.leastsq = real
    same = before == [(list(p.pars), list(p.free)) for p in ps]
    if len(x) >= len(r):
        return None if err is not None and same and not calls else "a model with %d free parameters is fitted to %d points" % (len(x), len(r))
    if len(x) == 0:
        return None if err is None and same and not calls else "a model without free parameters is changed or refused (%r)" % err
    if any(list(p.free) != b[1] or (d["f"][0] == "poly" and any(q != o for q, o, f in zip(p.pars, b[0], p.free) if not f)) for p, b, d in zip(ps, before, case["parts"])):
        return "the fit changes fixed parameters"
    if ans == "real":
        return None
    for c in calls:
        if getattr(c[0], "__name__", "") == "" or not c[4]:
            return "not asked for the full answer"
    if ans.endswith("raise") or case["ier"] not in (1, 2, 3, 4):
        return None if err is not None else "an optimiser failure (%s, %d) is not reported" % (ans, case["ier"])
    if err is not None:
        return "fit fails: %s" % err
    want = []
    k = 0
    for p, (_, fr) in zip(ps, before):
        for f in fr:
            if f:
                want.append(sol[k])
                k += 1
    got = flat(ps)
    vals = ModelParts(ps).value(r)
    m2 = ModelParts([part(d) for d in case["parts"]])
    m2.pack_freepars(sol)
    if not np.allclose(vals, m2.value(r), rtol=1e-7, atol=1e-9):
        return "after the fit the model is not the optimiser's solution: %r, want (up to the preferred range) %r" % (got, want)
    if cov is not None:
        if pcov is None:
            if len(given) != 1 or cov.cov is not None:
                return "a singular fit leaves a covariance"
        else:
            if n == len(x):
                return None
            c = pcov * np.sum(fvec ** 2) / (n - len(x))
            if len(given) != 2 or given[0][0] is not m or not np.allclose(given[0][1], c):
                return "covariance %r, want %r" % (given, c)
        if given[-1] not in [((), {"in_format": "internal", "out_format": "internal"}), (("internal", "internal"), {})]:
            return "covariance conversion %r" % (given[-1],)
    return None
