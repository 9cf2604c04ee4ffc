import math

import numpy as np
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, resample, stdratio
from oracle_run import Skip

RULE = "grids of 2-60 points with any start and spacing, data with any sign, targets inside, outside and at original points; every combination of qmax, Nyquist sampling and scaling; ranges wholly and partly in the data, with and without coordinate uncertainties; runs of 4-60 numbers; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(900 if tier == "quick" else 15000):
        k = rng.choice(["resample", "resample", "scale", "data", "data", "ratio"])
        c = {"what": k, "seed": rng.randrange(10 ** 6), "dr": rng.choice([0.01, 0.1, rng.uniform(0.01, 3), 1.0])}
        n = rng.choice([2, 3, rng.randint(2, 60)])
        if k in ("resample", "data"):
            x0, d = rng.choice([0.0, rng.uniform(-5, 5), 3 * 0.1]), rng.choice([0.1, 0.01, rng.uniform(0.02, 2)])
            x = [x0 + d * i for i in range(n)]
            c.update(x=x, y=[rng.uniform(-3, 3) for _ in range(n)])
            if k == "resample":
                c["r"] = [rng.choice(x + [rng.uniform(x[0] - 1, x[-1] + 1)]) for _ in range(rng.choice([1, 2, n, n + 3]))]
            else:
                lo, hi = sorted([rng.uniform(x[0] - 1, x[-1]), rng.uniform(x[0], x[-1] + 1)])
                c.update(rng=rng.choice([None, [lo, hi], [lo, None], [None, hi]]), qmax=rng.choice([0.0, 0.0, rng.uniform(0.5, 40), 20.0]), nyquist=rng.random() < 0.7, scale=rng.random() < 0.7, dx=rng.random() < 0.7, eps=rng.random() < 0.3, dr=rng.choice([d, d / 2, rng.uniform(0.3, 3) * d]))
        elif k == "scale":
            c.update(qmax=rng.choice([0.0, rng.uniform(0.1, 60)]), nyquist=rng.random() < 0.7, scale=rng.random() < 0.7)
        else:
            c["data"] = [rng.gauss(0, 3) + rng.choice([0, 0, 50]) for _ in range(rng.choice([4, 5, 6, rng.randint(4, 60)]))]
        yield c


def expected_scale(q, ny, sc, d):
    return max(1.0, math.sqrt(math.pi / q / d)) if q > 0 and ny and sc else 1.0


def whittaker(x, y, r):
    d = (x[-1] - x[0]) / (len(x) - 1)
    u = (np.asarray(r)[:, None] - x[0]) / d - np.arange(len(x))[None, :]
    with np.errstate(all="ignore"):
        s = np.where(u == 0, 1.0, np.sin(np.pi * u) / (np.pi * u))
    return s @ np.asarray(y)


def finite(*a):
    return all(np.all(np.isfinite(np.asarray(x, float))) and np.all(np.abs(np.asarray(x, float)) < 1e6) for x in a)


def check(c):
    rs = np.random.RandomState(int(c.get("seed", 1)))
    if c["what"] == "scale":
        q, d = float(c["qmax"]), float(c["dr"])
        if not (finite(q, d) and d > 1e-9 and (q <= 0 or q > 1e-9)):
            raise Skip()
        p = PDFPeakExtraction()
        p.qmax, p.nyquist, p.scale = q, bool(c["nyquist"]), bool(c["scale"])
        s = p.errorscale(d)
        w = expected_scale(q, p.nyquist, p.scale, d)
        return None if np.ndim(s) == 0 and abs(s - w) <= 1e-9 * w else "the scale is %s rather than %s" % (s, w)
    if c["what"] == "ratio":
        a = np.array([float(x) for x in c["data"]])
        if len(a) < 4 or not finite(a):
            raise Skip()
        kept = a.copy()
        want = []
        for i in range(len(a) // 2 - 1):
            u, w = np.std(a[:i + 2]), np.std(a[i + 2:2 * i + 4])
            if w < 1e-6 * (1 + np.max(np.abs(a))) or u < 1e-6 * (1 + np.max(np.abs(a))):
                raise Skip()
            want.append(u / w)
        got = np.asarray(stdratio(a))
        if not np.array_equal(kept, a):
            return "the data are changed"
        return None if got.shape == (len(want),) and np.allclose(got, want, rtol=1e-4) else "ratios %s rather than %s" % (got, want)
    x, y = np.array([float(q) for q in c["x"]]), np.array([float(q) for q in c["y"]])
    n = len(x)
    if n < 2 or len(y) != n or not finite(x, y) or not np.allclose(np.diff(x), (x[-1] - x[0]) / (n - 1)) or x[-1] - x[0] < 1e-6:
        raise Skip()
    tol = 1e-7 * (1 + np.max(np.abs(y))) * n
    if c["what"] == "resample":
        r = np.array([float(q) for q in c["r"]])
        if len(r) < 1 or not finite(r):
            raise Skip()
        kept = x.copy(), y.copy(), r.copy()
        got = resample(x, y, r)
        if any(not np.array_equal(a, b) for a, b in zip(kept, (x, y, r))):
            return "what is given is changed"
        if np.shape(got) != r.shape or not np.allclose(got, whittaker(x, y, r), atol=tol):
            return "%s at %s, the Whittaker-Shannon sum is %s" % (got, r, whittaker(x, y, r))
        if not np.allclose(resample(x, y, x), y, atol=tol):
            return "%s at the original points of %s" % (resample(x, y, x), y)
        z = rs.uniform(-2, 2, n)
        if not np.allclose(resample(x, 2 * y - 3 * z, r), 2 * got - 3 * resample(x, z, r), atol=10 * tol):
            return "not linear"
        return
    d, q = float(c["dr"]), float(c["qmax"])
    rng = c.get("rng")
    if not (finite(d, q) and d > 1e-6 and q >= 0) or (rng is not None and not finite([v for v in rng if v is not None])):
        raise Skip()
    lo = max(x[0], x[0] if rng is None or rng[0] is None else float(rng[0]))
    hi = min(x[-1], x[-1] if rng is None or rng[1] is None else float(rng[1]))
    m = (hi - lo) / d
    if not 1e-6 < m < 5000 or abs(m - round(m)) < 1e-6:
        if not 1e-6 < m < 5000:
            raise Skip()
        hi = hi - 1e-3 * d
        rng = [lo, hi]
    p = PDFPeakExtraction()
    dx, dy = (rs.uniform(0.01, 1, n) if c.get("dx") else None), rs.uniform(0.1, 2, n)
    p.setdata(x, y, dx, dy)
    if not c.get("dx"):
        p.dx = None
    p.setvars(quiet=True, qmax=q, nyquist=bool(c.get("nyquist", True)), scale=bool(c.get("scale", True)), **({} if rng is None else {"rng": [None if v is None else float(v) for v in rng]}))
    kept = p.x.copy(), p.y.copy(), p.dy.copy()
    r, yy, rr, ee = p.resampledata(d, **({"eps": 1e-3} if c.get("eps") else {}))
    if any(not np.array_equal(a, b) for a, b in zip(kept, (p.x, p.y, p.dy))):
        return "the data are changed"
    want = lo + d * np.arange(int(math.ceil((hi - lo) / d)))
    if np.shape(r) != want.shape or not np.allclose(r, want, atol=1e-9 * (1 + abs(lo) + abs(hi))):
        return "on %s, the range is %s to %s in steps of %s" % (r, lo, hi, d)
    if np.shape(yy) != r.shape or not np.allclose(yy, whittaker(x, y, r), atol=tol):
        return "data %s, the Whittaker-Shannon sum is %s" % (yy, whittaker(x, y, r))
    s = expected_scale(q, p.nyquist, p.scale, d)
    w = s * np.interp(r, x, dy)
    if np.shape(ee) != r.shape or not np.allclose(ee, w):
        return "uncertainties %s, interpolated and scaled by %s they are %s" % (ee, s, w)
    if (rr is None) != (p.dx is None) or (rr is not None and not np.allclose(rr, np.interp(r, x, p.dx))):
        return "uncertainties %s of the coordinates" % (rr,)
