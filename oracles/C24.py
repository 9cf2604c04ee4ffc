import math

import numpy as np
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from oracle_run import Skip

RULE = "two underlying functions, cutoffs 0.5-40, extensions from none to 6, supersampling 0.7-9; grids of 1-60 points, ranges inside, at the ends, empty; scalars; sequences of 1-130 numbers; non-trivial: distinct case"
TP = 2 * math.pi


def cases(rng, tier):
    for _ in range(700 if tier == "quick" else 10000):
        k = rng.choice(["delegate", "extend", "cut", "value", "value", "derivatives", "derivatives"])
        c = {"what": k, "fn": rng.randrange(2), "qmax": rng.choice([rng.uniform(0.5, 40), 20.0, 4 * math.pi]), "extension": rng.choice([0.0, 0.3, 1.0, 4.0, rng.uniform(0, 6)]), "supersample": rng.choice([5.0, 2.0, rng.uniform(0.7, 9)]), "seed": rng.randrange(10 ** 6)}
        dr = rng.choice([0.01, 0.05, 0.1, 0.3, 1.0, rng.uniform(0.01, 2)])
        n = rng.choice([1, 2, 3, rng.randint(1, 60)])
        r0 = rng.choice([0.0, dr, rng.uniform(0, 5)])
        if k == "extend":
            r = [r0]
            for _ in range(n - 1):
                r.append(r[-1] + (dr if c["seed"] % 3 else rng.uniform(0.5, 2) * dr))
            c.update(r=r, dr=dr)
        elif k == "cut":
            c.update(n=rng.choice([1, 2, 3, 8, 16, 64, 128, rng.randint(1, 130)]), dr=dr)
        elif k != "delegate":
            a = sorted([rng.randint(0, n), rng.randint(0, n)])
            c.update(n=rng.choice([None, n, n, n]), r0=r0, dr=dr, rng=rng.choice([None, None, a, [None, a[1]], [a[0], None], [a[0], a[0]], [-1, None]]), free=[rng.random() < 0.6 for _ in range(3)])
        yield c


def function(c):
    q, e, s = (float(c.get(k, d)) for k, d in (("qmax", 20.0), ("extension", 4.0), ("supersample", 5.0)))
    if not (all(math.isfinite(x) for x in (q, e, s)) and 1e-3 < q < 1e4 and 0 <= e < 100 and 1e-2 < s < 100):
        raise Skip()
    b = [Gaussian(1.5), GaussianOverR(0.9)][int(c.get("fn", 0)) % 2]
    return TerminationRipples(b, q, e, s), b, q, e, s


def same(x, y):
    if x is None or y is None:
        return x is y
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)


def check(c):
    rs = np.random.RandomState(int(c.get("seed", 1)))
    f, b, q, e, s = function(c)
    if c["what"] == "delegate":
        r = np.arange(1.0, 3.0, 0.02)
        y = np.exp(-(r - rs.uniform(1.5, 2.5)) ** 2 / 0.05) + 0.01
        if not same(f.estimate_parameters(r, y), b.estimate_parameters(r, y)):
            return "another estimate"
        p = b.actualize([rs.uniform(1.5, 2.5), rs.uniform(0.1, 0.5), rs.uniform(1, 9)], "pwa").pars
        x = rs.uniform(1.5, 2.5)
        if not same(f.scale_at(p, x, 0.4), b.scale_at(p, x, 0.4)):
            return "another scaling"
        for fmt in b.parformats:
            if not same(f.transform_parameters(p, "internal", fmt), b.transform_parameters(p, "internal", fmt)):
                return "another conversion to " + fmt
            if not same(f.transform_derivatives(p, "internal", fmt), b.transform_derivatives(p, "internal", fmt)):
                return "another derivative of the conversion to " + fmt
        if not same(f._valueraw(p, r), b._valueraw(p, r)) or any(not same(i, j) for i, j in zip(f._jacobianraw(p, r, [True, False, True]), b._jacobianraw(p, r, [True, False, True]))):
            return "another function"
        if f.base is not b or f.parameterdict != b.parameterdict or f.parformats != b.parformats or f.default_formats != b.default_formats:
            return "another definition"
        return
    if c["what"] == "extend":
        return check_extend(c, f, q, e)
    if c["what"] == "cut":
        return check_cut(c, f, q, rs)
    return check_values(c, f, b, q, e, s, rs)


def check_extend(c, f, q, e):
    r, dr = np.array([float(x) for x in c["r"]]), float(c["dr"])
    if len(r) < 1 or not np.all(np.isfinite(r)) or r[0] < 0 or np.any(np.diff(r) <= 0) or not 1e-6 < dr < 1e6 or r[-1] > 1e6 * dr:
        raise Skip()
    pad = e * TP / q
    if pad / dr > 20000:
        raise Skip()
    ext, sl = f.extend_grid(r, dr)
    a, z, L, tol = sl.start or 0, len(ext) if sl.stop is None else sl.stop, len(ext), 1e-6 * dr
    if sl.step not in (None, 1) or not 0 <= a <= z <= L or not np.array_equal(ext[sl], r):
        return "the part %s of %s is not the grid %s" % (sl, ext, r)
    if not np.allclose(ext[z:], r[-1] + dr * np.arange(1, L - z + 1), rtol=1e-9, atol=tol) or not np.allclose(ext[:a][::-1], r[0] - dr * np.arange(1, a + 1), rtol=1e-9, atol=tol):
        return "the spacing %s is not continued: %s, %s" % (dr, ext[:a], ext[z:])
    if np.any(ext < -dr - tol):
        return "negative coordinates %s" % ext[:a]
    if (L - z + 1) * dr < pad - tol or ((a + 1) * dr < pad - tol and r[0] - (a + 1) * dr > tol) or (L - z - 1) * dr > pad + tol or (a - 1) * dr > pad + tol:
        return "padded by %d and %d points of spacing %s, the padding is %s" % (a, L - z, dr, pad)


def check_cut(c, f, q, rs):
    n, d = int(c["n"]), float(c["dr"])
    if not 1 <= n <= 5000 or not 1e-6 < d < 1e6:
        raise Skip()
    x, y = rs.uniform(-1, 1, n), rs.uniform(-1, 1, n)
    kept = x.copy()
    cx, cy = f.cut_freq(x, d), f.cut_freq(y, d)
    if len(cx) != n or np.iscomplexobj(cx):
        return "%d numbers of %d, %s" % (len(cx), n, np.asarray(cx).dtype)
    if not np.array_equal(x, kept):
        return "the sequence is changed"
    if not np.allclose(f.cut_freq(2 * x - 3 * y, d), 2 * cx - 3 * cy, atol=1e-9):
        return "not linear"
    if n & (n - 1) == 0:
        S, T = np.fft.fft(cx), np.fft.fft(x)
        m = np.minimum(np.arange(n), n - np.arange(n))
        w = m * TP / (n * d)
        if np.any(np.abs(S[w >= q * (1 + 1e-12)]) > 1e-9):
            return "frequencies left above the cutoff %s: %s" % (q, w[(np.abs(S) > 1e-9) & (w >= q)])
        below = (m + 1) * TP / (n * d) <= q * (1 - 1e-9)
        if n > 2 and not np.allclose(S[below], T[below], atol=1e-9):
            return "frequencies below the cutoff %s are cut: %s" % (q, w[below & (np.abs(S - T) > 1e-9)])


def check_values(c, f, b, q, e, s, rs):
    n, r0, dr = c.get("n"), float(c["r0"]), float(c.get("dr") or 0.1)
    if not (0 <= r0 < 1e4 and 1e-4 < dr < 100) or (n is not None and not 0 <= int(n) <= 3000) or TP * e / q / dr > 20000 or dr * (n or 1) / (TP / (s * q)) > 50000 or e * s > 3000:
        raise Skip()
    p = f.actualize([r0 + rs.uniform(0.2, 1.5), rs.uniform(0.1, 0.5), rs.uniform(1, 9)], "pwa", free=[bool(x) for x in (list(c.get("free") or []) + [True] * 3)[:3]])
    pars = p.pars.copy()
    jac = c["what"] == "derivatives"
    sup = TP / (s * q)
    raw = (lambda x: b._jacobianraw(p.pars, x, [True] * 3)) if jac else (lambda x: [b._valueraw(p.pars, x)])
    if n is None:
        x = np.float64(r0) if rs.rand() < 0.5 else r0
        ext, sl = f.extend_grid(np.array([r0]), sup)
        if np.any(ext == 0) and isinstance(b, GaussianOverR):
            raise Skip()
        want = [np.asarray(f.cut_freq(a, sup)) for a in raw(ext)]
        if any(len(a) != len(ext) for a in want):
            return "%s numbers of %d after cutting frequencies" % ([len(a) for a in want], len(ext))
        want = [a[sl][0] for a in want]
        got = p.jacobian(x) if jac else [p.value(x)]
        if any(a is not None and np.ndim(a) for a in got):
            return "not a number at a point: %s" % got
    else:
        n = int(n)
        r = r0 + dr * np.arange(n)
        w = c.get("rng")
        sl0 = None if w is None else slice(*w)
        lo, hi, _ = (slice(None) if sl0 is None else sl0).indices(n)
        if n > 1:
            dr = (r[-1] - r[0]) / (n - 1)
            u = dr / sup
            if abs(u - round(u)) < 1e-9:
                raise Skip()
            seg = math.ceil(u)
        else:
            dr, seg = sup, 1
        want = [np.zeros(n) for _ in range(3 if jac else 1)]
        if hi > lo:
            fine = r[lo] + dr / seg * np.arange((hi - lo - 1) * seg + 1)
            if seg == 1:
                fine = r[lo:hi]
            ext, sl = f.extend_grid(fine, dr / seg)
            if np.any(np.abs(ext) < 1e-9) and isinstance(b, GaussianOverR):
                raise Skip()
            for a, o in zip(raw(ext), want):
                a = np.asarray(f.cut_freq(a, dr / seg))
                if len(a) != len(ext):
                    return "%d numbers of %d after cutting frequencies" % (len(a), len(ext))
                o[lo:hi] = a[sl][::seg]
        kept = r.copy()
        got = (p.jacobian(r, sl0) if jac else [p.value(r, sl0)])
        if not np.array_equal(kept, r):
            return "the grid is changed"
    if not np.array_equal(p.pars, pars):
        return "the part is changed"
    if jac:
        if len(got) != 3 or any((a is None) == bool(fr) for a, fr in zip(got, p.free)):
            return "derivatives %s with free %s" % ([None if a is None else "..." for a in got], p.free)
    for a, o in zip(got, want):
        if a is None:
            continue
        if np.shape(a) != np.shape(o):
            return "shape %s of values on a grid of %s" % (np.shape(a), n)
        if n is not None and (np.any(np.asarray(a)[:lo] != 0) or np.any(np.asarray(a)[hi:] != 0)):
            return "not zero outside the range %s: %s" % (w, a)
        if not np.allclose(a, o, rtol=1e-5, atol=1e-6 * (1 + np.max(np.abs(o), initial=0))):
            return "%s, the band-limited function is %s" % (a, o)
