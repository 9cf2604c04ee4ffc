from .dcutil import *

RULE = "random valid cluster tables; adjacency runs, all merge requests of a mutated family, every index and index sequence cut, fullness of every cluster; non-trivial: distinct case"


def cases(rng, tier):
    for k in range(900 if tier == "quick" else 8000):
        n = rng.choice([1, 2, 3, 5, 8, 13, 20, 40])
        C = clusters(rng, n)
        N = len(C)
        groups = runs(C)
        bad = rng.random()
        if groups and bad < 0.6:
            g = [list(r) for r in groups if rng.random() < 0.8] or [list(groups[0])]
            if rng.random() < 0.3:
                g = [r[:max(1, rng.randrange(len(r) + 1))] for r in g]
            m = rng.random()
            if m < 0.15:
                g.append([g[0][0]])
            elif m < 0.3:
                g[-1] = g[-1][::-1]
            elif m < 0.4 and g[-1][-1] + 1 < N:
                g[-1] = g[-1] + [g[-1][-1] + 1]
            elif m < 0.5:
                g.reverse()
            groups = g
        elif bad < 0.75:
            groups = [[rng.randrange(N)]]
        elif bad < 0.8:
            groups = []
        else:
            a = rng.randrange(N)
            groups = [list(range(a, rng.randrange(a, N) + 1))]
            if rng.random() < 0.3:
                groups.append([rng.randrange(N) for _ in range(rng.randrange(1, 4))])
        yield {"kind": "combine", "x": [0.5 * i for i in range(n)], "y": values(rng, n), "clusters": C, "groups": groups,
               "ids": [rng.randrange(N) for _ in range(rng.randrange(1, 5))]}


def runs(C):
    out, i = [], 0
    while i < len(C):
        j = i
        while j + 1 < len(C) and C[j + 1][0] - C[j][1] == 1:
            j += 1
        if j > i:
            out.append(list(range(i, j + 1)))
        i = j + 1
    return out


def check(case):
    d = build(case)
    C = [list(map(int, c)) for c in case["clusters"]]
    N, n = len(C), len(case["x"])
    got = [[int(i) for i in r] for r in d.find_adjacent_clusters()]
    if got != runs(C):
        return "adjacent runs %r reported as %r" % (runs(C), got)
    for i in range(N):
        s = d.cut(i)
        if not isinstance(s, slice) or list(range(n))[s] != list(range(C[i][0], C[i][1] + 1)):
            return "cut(%d) of %r is %r" % (i, C, s)
        full = (C[i][0] == 0 or C[i][0] - 1 in covered(C)) and (C[i][1] == n - 1 or C[i][1] + 1 in covered(C))
        if bool(d.cluster_is_full(i)) != full:
            return "cluster %d of %r full: %r" % (i, C, d.cluster_is_full(i))
    ids = case.get("ids") or []
    if ids:
        s = d.cut(np.array(ids))
        if [(a.start, a.stop) for a in s] != [(C[i][0], C[i][1] + 1) for i in ids]:
            return "cut(%r) of %r is %r" % (ids, C, s)
    if d.clusters.tolist() != C:
        return "a query changed the clusters"
    groups = case.get("groups")
    if groups is None or any(not g or not all(0 <= i < N for i in g) for g in groups):
        return None
    flat = [i for g in groups for i in g]
    valid = len(set(flat)) == len(flat) and all(b == a + 1 and C[b][0] - C[a][1] == 1 for g in groups for a, b in zip(g, g[1:]))
    before = covered(C)
    try:
        d.combine_clusters([list(g) for g in groups])
    except ValueError:
        if valid:
            return "valid merge %r of %r refused" % (groups, C)
        if d.clusters.tolist() != C:
            return "refused merge %r changed %r to %r" % (groups, C, d.clusters.tolist())
        return None
    except IndexError as e:
        return "merge %r of %r: IndexError %s" % (groups, C, e)
    if not valid:
        return "invalid merge %r of %r accepted" % (groups, C)
    want = [[C[i][0], C[next((g for g in groups if g[0] == i), [i])[-1]][1]] for i in range(N) if i not in [j for g in groups for j in g[1:]]]
    if d.clusters.tolist() != want:
        return "merge %r of %r gives %r" % (groups, C, d.clusters.tolist())
    if covered(d.clusters) != before:
        return "merge changed the covered points"
    if d.find_adjacent_clusters() is None:
        return "?"
    # merging everything adjacent leaves nothing adjacent
    adj = d.find_adjacent_clusters()
    if len(adj):
        d.combine_clusters(adj)
        if len(d.find_adjacent_clusters()) or covered(d.clusters) != before:
            return "merging all adjacent clusters of %r gives %r" % (want, d.clusters.tolist())
