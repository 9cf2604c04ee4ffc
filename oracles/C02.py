from .dcutil import *

RULE = "random valid cluster tables over random grids; every data index and many coordinates are queried, and whole clusterings are compared with an independent resolution rule; non-trivial: distinct case"


def cases(rng, tier):
    for k in range(700 if tier == "quick" else 6000):
        n = rng.choice([1, 2, 3, 4, 6, 9, 15, 30])
        x = grid(rng, n)
        q = []
        for _ in range(12):
            i = rng.randrange(n)
            q.append(rng.choice([x[i], x[0] - rng.random() * 3, x[-1] + rng.random() * 3, rng.uniform(x[0], x[-1]), x[i] + 1e-3, x[i] - 1e-3]))
        yield {"x": x, "y": values(rng, n), "clusters": clusters(rng, n), "res": rng.choice([0, 0.1, 0.5, 1.0, 2.0, 7.0]), "q": q}


def near(C, x, i, got, what):
    if got is None or len(got) != 2:
        return "%s: answer %r" % (what, got)
    k, dist = int(got[0]), float(got[1])
    if not 0 <= k < len(C):
        return "%s: cluster %d does not exist" % (what, k)
    ds = [distance(x, int(lo), int(hi), i) for lo, hi in C]
    if abs(dist) != min(abs(v) for v in ds):
        return "%s: distance %r, but the nearest is at %r" % (what, dist, min(ds, key=abs))
    if abs(ds[k] - dist) > 0:
        return "%s: reports %r for cluster %d, which is at %r" % (what, dist, k, ds[k])


def check(case):
    d = build(case)
    x, n, C = case["x"], len(case["x"]), [list(c) for c in case["clusters"]]
    idx = range(n) if "q" in case or n < 12 else [case.get("idx", 0)]
    for i in list(idx) + ([case["idx"]] if "idx" in case and 0 <= case["idx"] < n else []):
        m = near(C, x, i, d.find_nearest_cluster(i), "point %d" % i)
        if m:
            return m
    for q in case.get("q", []) + ([case["at"]] if "at" in case else []):
        got = d.find_nearest_cluster2(q)
        best = min(abs(v - q) for v in x)
        ms = [near(C, x, i, got, "coordinate %r" % q) for i in range(n) if abs(x[i] - q) <= best]
        if all(ms):
            return ms[0]
    if np.asarray(d.clusters).tolist() != C:
        return "a query changed the clusters"
    # the resolution rule, on a whole clustering
    e = DataClusters(np.array(x, float), np.array(case["y"], float), case["res"])
    before = e.clusters.tolist()
    for _ in e:
        p = int(e.lastpoint_idx)
        ds = [distance(x, lo, hi, p) for lo, hi in before]
        best = min(abs(v) for v in ds)
        now = e.clusters.tolist()
        if best > case["res"]:
            want = [sorted(before + [[p, p]])]
        else:
            want = []
            for j, v in enumerate(ds):
                if abs(v) == best:
                    b = [list(c) for c in before]
                    b[j] = [min(b[j][0], p), max(b[j][1], p)]
                    want.append(b)
        if now not in want:
            return "step to point %d at distance %r with resolution %r: %r -> %r" % (p, best, case["res"], before, now)
        before = now
    return None
