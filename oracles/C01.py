from .dcutil import *

RULE = "random strictly increasing grids (1-40 points), values with and without ties, resolutions; every step of a whole clustering is checked; non-trivial: distinct case"


def cases(rng, tier):
    for k in range(600 if tier == "quick" else 6000):
        n = rng.choice([1, 2, 3, 4, 5, 8, 13, 25, 40])
        yield {"x": grid(rng, n), "y": values(rng, n), "res": rng.choice([0, 0.1, 0.3, 1.0, 1.5, 5.0, 100.0]), "reset": rng.randrange(0, 2 * n + 1)}


def initial(d, x, y, what):
    top = int(max(range(len(y)), key=lambda i: y[i]))
    c = np.asarray(d.clusters)
    if c.shape != (1, 2) or c[0, 0] != c[0, 1] or y[c[0, 0]] != y[top]:
        return "%s: the single cluster is not the highest point: %r" % (what, c.tolist())


def check(case):
    x, y = list(case["x"]), list(case["y"])
    if not all(a < b for a, b in zip(x, x[1:])):
        return None
    n = len(x)
    d = DataClusters(np.array(x, float), np.array(y, float), case["res"])
    m = initial(d, x, y, "new")
    if m:
        return m
    for round_ in range(2):
        prev = covered(d.clusters)
        steps = 0
        for _ in d:
            steps += 1
            if steps > n + 2:
                return "clustering does not finish"
            if not ok_clusters(d.clusters, n):
                return "after a step the clusters are not ordered disjoint ranges: %r" % d.clusters.tolist()
            now = covered(d.clusters)
            if not prev <= now:
                return "a step unclustered points %r" % sorted(prev - now)
            if d.lastpoint_idx not in now or d.lastpoint_idx in prev:
                return "the step reports point %r, which it did not newly cluster" % d.lastpoint_idx
            hi = max(y[i] for i in range(n) if i not in prev)
            if y[d.lastpoint_idx] != hi:
                return "the step clustered %r, not the highest free point" % d.lastpoint_idx
            lc = d.clusters[d.lastcluster_idx]
            if not lc[0] <= d.lastpoint_idx <= lc[1]:
                return "the reported cluster does not hold the reported point"
            prev = now
            if round_ == 0 and steps == case["reset"]:
                break
        else:
            if covered(d.clusters) != set(range(n)):
                return "finished with unclustered points %r" % sorted(set(range(n)) - covered(d.clusters))
            if d.status != d.DONE:
                return "finished, but the status does not say so"
            try:
                next(d)
                return "stepping a finished clustering does not stop"
            except StopIteration:
                pass
        d.reset_clusters()
        m = initial(d, x, y, "reset")
        if m:
            return m
    d.makeclusters()
    if not ok_clusters(d.clusters, n) or covered(d.clusters) != set(range(n)):
        return "makeclusters leaves %r" % d.clusters.tolist()
    for bad in ((x + [x[-1] + 1], y), (x, y + [0.0])):
        try:
            DataClusters(np.array(bad[0]), np.array(bad[1]), 1.0)
            return "unequal lengths accepted"
        except ValueError:
            pass
