"""Independent reference for DataClusters, and state construction."""
import numpy as np
from diffpy.srmise.dataclusters import DataClusters


def grid(rng, n, uniform=None):
    if uniform is None:
        uniform = rng.random() < 0.5
    if uniform:
        x0, dx = rng.choice([0.0, -2.0, 1.5]), rng.choice([0.1, 0.25, 1.0])
        return [x0 + dx * i for i in range(n)]
    x, v = [], rng.uniform(-3, 3)
    for _ in range(n):
        v += rng.choice([0.05, 0.5, 1.0, 1.0, 2.0, 7.0])
        x.append(v)
    return x


def values(rng, n):
    k = rng.random()
    if k < 0.4:
        return [rng.uniform(-1, 1) for _ in range(n)]
    if k < 0.7:
        return [float(rng.randint(0, 3)) for _ in range(n)]
    import math
    return [math.sin(i * rng.uniform(0.2, 2)) * 3 for i in range(n)]


def clusters(rng, n):
    """random valid cluster table for n points"""
    out, i = [], 0
    p = rng.choice([0.2, 0.5, 0.8])
    while i < n:
        if rng.random() < p:
            L = rng.choice([1, 1, 2, 3, 5])
            hi = min(n - 1, i + L - 1)
            out.append([i, hi])
            i = hi + 1 + (0 if rng.random() < 0.5 else rng.choice([1, 1, 2]))
        else:
            i += 1
    if not out:
        j = rng.randrange(n)
        out = [[j, j]]
    return out


def build(case):
    x, y = np.array(case["x"], float), np.array(case["y"], float)
    d = DataClusters(x, y, case.get("res", 0.0))
    if "clusters" in case:
        c = np.array(case["clusters"], dtype=int).reshape(-1, 2)
        if not ok_clusters(c, len(x)) or not all(np.diff(x) > 0):
            from oracle_run import Skip
            raise Skip()
        d.clusters = c
        d.status = d.CLUSTERING
    return d


def ok_clusters(c, n):
    c = np.asarray(c)
    if c.ndim != 2 or len(c) == 0:
        return False
    return bool(all(0 <= lo <= hi < n for lo, hi in c) and all(c[i, 1] < c[i + 1, 0] for i in range(len(c) - 1)))


def covered(c):
    return set(p for lo, hi in c for p in range(int(lo), int(hi) + 1))


def distance(x, lo, hi, i):
    if lo <= i <= hi:
        return 0.0
    return x[i] - x[lo] if i < lo else x[i] - x[hi]
