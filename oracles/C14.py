from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.srmiseerrors import SrMiseUndefinedCovarianceError

from .mputil import *

RULE = "models of 1-5 parts (also without parameters, with mixing or failing conversions), every flag pattern; matrices for all or the free parameters and of other shapes, on fresh and used objects; queries by part and flat position; conversions of all parts, peaks, baseline, lists; thresholds; non-trivial: distinct case"


class Mixer(BaseFunction):
    """A function whose second format mixes all its parameters; mode: what fails."""

    def __init__(self, n, mode):
        self.mode = mode
        self.A = np.array([[((3 * i + 5 * j) % 7) - 2.5 + 4 * (i == j) for j in range(n)] for i in range(n)]).reshape(n, n)
        BaseFunction.__init__(self, {"p%d" % i: i for i in range(n)}, ["internal", "other"], {"default_input": "internal", "default_output": "internal"}, {}, [])

    def _transform_derivativesraw(self, pars, in_format, out_format):
        if self.mode == "missing":
            raise NotImplementedError("no")
        if self.mode == "gfails":
            raise RuntimeError("no")
        return 2 * np.diag(np.asarray(pars, float)) @ self.A + self.A

    def _transform_parametersraw(self, pars, in_format, out_format):
        if in_format == out_format:
            return np.array(pars, float)
        if self.mode == "pfails":
            raise RuntimeError("no")
        return self.A @ np.asarray(pars, float) + 1.0


def grad(d, pars):
    o = owner(d)
    if d["f"][0] == "mix":
        if d["f"][2] in ("missing", "gfails", "pfails"):
            return np.identity(len(pars)), (list(pars) if d["f"][2] == "pfails" else None)
        return 2 * np.diag(pars) @ o.A + o.A, None
    return None, None


def owner(d):
    return Mixer(d["f"][1], d["f"][2]) if d["f"][0] == "mix" else func(d["f"])


def rp(rng):
    if rng.random() < 0.6:
        n = rng.choice([0, 1, 2, 2, 3])
        f = ["mix", n, rng.choice(["ok", "ok", "ok", "missing", "gfails", "pfails"])]
        p = [rng.uniform(-2, 2) for _ in range(n)]
        return {"f": f, "pars": p, "free": [rng.random() < 0.6 for _ in p]}
    return rpart(rng)


def sym_matrix(rng, n):
    m = rng.random()
    a = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]).reshape(n, n)
    v = a @ a.T if m < 0.7 else a + a.T if m < 0.8 else a @ a.T
    for i in range(n):
        v[i, i] = abs(v[i, i]) + (0.01 if m < 0.9 else 0)
    if n and rng.random() < 0.2:
        k = rng.randrange(n)
        v[k, :] = v[:, k] = 0
    if rng.random() < 0.1:
        v = v + np.triu(np.ones((n, n)), 1)
    return v.tolist()


def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        ps = [rp(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        n = sum(len(p["pars"]) for p in ps)
        nf = sum(sum(p["free"]) for p in ps)
        m = rng.choice([n, n, nf, nf, n + 1, max(n - 1, 0)])
        shape = rng.choice(["sq"] * 6 + ["vec", "rect", "cube"])
        c = {"parts": ps, "shape": shape, "m": m, "threshold": rng.choice([0, 0.3, 0.8, rng.random()]), "aslist": rng.random() < 0.3,
             "op": rng.choice(["all", "all", "peaks", "baseline", "list"]), "which": sorted(rng.sample(range(len(ps)), rng.randint(0, len(ps)))),
             "before": rng.random() < 0.4, "extra": rng.choice([0, 1, 3])}
        rng.random() < 0.5 and c["which"].reverse()
        c["V"] = sym_matrix(rng, m)
        yield c


def check(case):
    ps = case["parts"]
    model = ModelParts([part(d) if d["f"][0] != "mix" else ModelPart(owner(d), d["pars"], d["free"]) for d in ps])
    sizes = [len(d["pars"]) for d in ps]
    n, nf = sum(sizes), sum(sum(d["free"]) for d in ps)
    pos = {}
    for i, s in enumerate(sizes):
        for j in range(s):
            pos[(i, j)] = len(pos)
    flat = {q: k for k, q in pos.items()}
    free = [f for d in ps for f in d["free"]]
    C = ModelCovariance()
    if case["before"]:
        big = ModelParts([ModelPart(Mixer(k + 1, "ok"), np.zeros(k + 1)) for k in range(len(ps) + case["extra"])])
        k = sum(len(p) for p in big)
        C.setcovariance(big, np.identity(k))
    m = case["m"]
    V = np.array(case["V"], float).reshape(m, m)
    given = V
    if case["shape"] == "vec":
        given = np.arange(float(m))
    elif case["shape"] == "rect":
        given = np.ones((m, m + 1))
    elif case["shape"] == "cube":
        given = np.ones((m, m, 2))
    keep = given.copy()
    arg = given.tolist() if case["aslist"] and given.size else given
    try:
        C.setcovariance(model, arg)
        ok = True
    except ValueError:
        ok = False
    want = case["shape"] == "sq" and m in (n, nf)
    if ok != want:
        return "matrix of shape %r for %d parameters (%d free) is %s" % (given.shape, n, nf, "accepted" if ok else "refused")
    if not np.array_equal(keep, given):
        return "setting changed the matrix given"
    if not ok:
        return None
    if m == n:
        full = V
    else:
        full = np.zeros((n, n))
        idx = [k for k in range(n) if free[k]]
        for a, i in enumerate(idx):
            for b, j in enumerate(idx):
                full[i, j] = V[a, b]
    if tuple(np.asarray(C.cov).shape) != (n, n) or not np.array_equal(np.asarray(C.cov), full):
        return "stored %r, want %r" % (np.asarray(C.cov).tolist(), full.tolist())
    r = queries(C, [list(map(float, d["pars"])) for d in ps], full, pos, flat, case["threshold"])
    if r:
        return r
    for bad in ((len(ps), 0), (0, sizes[0]), n):
        try:
            C.getvalue(bad)
            return "parameter %r of a model with part sizes %r can be read" % (bad, sizes)
        except (KeyError, IndexError):
            pass
    # conversion
    op = case["op"]
    which = list(range(len(ps))) if op == "all" else list(range(len(ps) - 1)) if op == "peaks" else [len(ps) - 1] if op == "baseline" else case["which"]
    G = np.identity(n)
    pars = [np.array(d["pars"], float) for d in ps]
    for i in which:
        d = ps[i]
        if not sizes[i]:
            continue
        o = model[i].owner()
        g = None
        if d["f"][0] == "mix":
            g, kept = grad(d, pars[i])
            new = kept if kept is not None else o.A @ pars[i] + 1.0
        else:
            # conversion of the real functions, themselves under C08
            try:
                g = o.transform_derivatives(pars[i], "internal", "other")
                new = o.transform_parameters(pars[i], "internal", "other")
            except Exception:
                g, new = np.identity(sizes[i]), pars[i]
        pars[i] = np.array(new, float)
        G[pos[(i, 0)]:pos[(i, 0)] + sizes[i], pos[(i, 0)]:pos[(i, 0)] + sizes[i]] = g
    kw = {} if op == "all" else {"parts": which if op == "list" else op}
    C.transform("internal", "other", **kw)
    if not close(np.asarray(C.cov), G @ full @ G.T, 1e-9, 1e-9):
        return "conversion of %s gives %r, want %r" % (op, np.asarray(C.cov).tolist(), (G @ full @ G.T).tolist())
    r = queries(C, [list(p) for p in pars], G @ full @ G.T, pos, flat, case["threshold"], 1e-9)
    if r:
        return "after conversion: " + r
    if [list(p.pars) for p in model] != [list(map(float, d["pars"])) for d in ps]:
        return "the model given was changed"
    C.clear()
    for f in (lambda: C.getcovariance(0, 0), lambda: C.getcorrelation(0, 0), lambda: C.correlationwarning(), lambda: C.transform("internal", "other")):
        try:
            f()
            return "a query without a covariance is answered"
        except SrMiseUndefinedCovarianceError:
            pass
    return None


def queries(C, pars, V, pos, flat, th, tol=1e-12):
    n = len(pos)
    for q, (i, j) in flat.items():
        for key in (q, (i, j)):
            if not close(C.getvalue(key), pars[i][j], 1e-9):
                return "value of %r is %r, want %r" % (key, C.getvalue(key), pars[i][j])
            if V[q, q] >= 0 and (not close(C.getuncertainty(key), np.sqrt(V[q, q]), 1e-6, 1e-7) or not close(C.get(key), (pars[i][j], np.sqrt(V[q, q])), 1e-6, 1e-7)):
                return "uncertainty of %r is %r, want %r" % (key, C.getuncertainty(key), np.sqrt(V[q, q]))
    warn = []
    for q in range(n):
        for p in range(n):
            for a in (q, flat[q]):
                for b in (p, flat[p]):
                    if not close(C.getcovariance(a, b), V[q, p], 1e-8, tol):
                        return "covariance of %r, %r is %r, want %r" % (a, b, C.getcovariance(a, b), V[q, p])
                    if V[q, q] > 1e-9 and V[p, p] > 1e-9:
                        w = V[q, p] / np.sqrt(V[q, q]) / np.sqrt(V[p, p])
                    elif V[q, q] == 0 or V[p, p] == 0:
                        w = 0.0
                    else:
                        continue
                    if not close(C.getcorrelation(a, b), w, 1e-6, 1e-6):
                        return "correlation of %r, %r is %r, want %r" % (a, b, C.getcorrelation(a, b), w)
    if all(V[q, q] > 1e-9 or V[q, q] == 0 for q in range(n)):
        got = C.correlationwarning(th)
        have = {(a, b): c for a, b, c in got}
        if len(have) != len(got):
            return "a pair is warned about twice"
        for q in range(n):
            for p in range(q + 1, n):
                w = V[q, p] / np.sqrt(V[q, q] * V[p, p]) if V[q, q] and V[p, p] else 0.0
                if abs(abs(w) - th) < 1e-6:
                    continue
                if ((flat[q], flat[p]) in have) != (abs(w) > th):
                    return "threshold %r: correlation %r of %r and %r is %s" % (th, w, flat[q], flat[p], "not listed" if abs(w) > th else "listed")
        for (a, b), c in have.items():
            if a not in pos or b not in pos or pos[a] >= pos[b] or not close(c, C.getcorrelation(a, b), 1e-9):
                return "warning %r, %r, %r" % (a, b, c)
    return None
