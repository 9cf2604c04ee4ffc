from mmutil import *

RULE = "0-9 models with 0-3 peaks of three kinds, near the tolerance and far from it; real models; statistics with ties; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 15000):
        k = rng.choice(["classify", "classify", "real", "rank"])
        if k == "rank":
            n = rng.randint(1, 8)
            order = list(range(n))
            nc = rng.randint(1, n)
            cl = [[] for _ in range(nc)]
            for i in order:
                cl[rng.randrange(nc)].append(i)
            yield {"what": k, "n": n, "classes": sorted(c for c in cl if c), "corrected": rng.random() < 0.5, "stats": [[rng.choice([rng.uniform(-5, 50), 3.0, 4.0]) for _ in order] for _ in range(rng.randint(0, 4))]}
            continue
        tol = rng.choice([0.0, 0.05, 0.2, 0.5, 1.0, 1.5])
        levels = [1.0, 1.04, 1.06, 1.19, 1.26, 1.6, 3.0, 0.0]
        if k == "classify":
            part = lambda same: [rng.choice([0, 0, 0, 1]) if not same else 0, rng.choice([3, 3, 3, 2]) if not same else 3, rng.choice(levels)]
            models = []
            for _ in range(rng.randint(0, 9)):
                if models and rng.random() < 0.5:
                    m = rng.choice(models)
                    m = {"peaks": [list(p) for p in m["peaks"]], "base": list(m["base"])}
                    for p in m["peaks"] + [m["base"]]:
                        if rng.random() < 0.3:
                            p[2] = rng.choice(levels)
                else:
                    same = rng.random() < 0.7
                    m = {"peaks": [part(same) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))], "base": part(same)}
                models.append(m)
            yield {"what": k, "models": models, "tol": tol}
        else:
            models = []
            for _ in range(rng.randint(1, 7)):
                if models and rng.random() < 0.7:
                    m = rng.choice(models)
                    m = {"peaks": [[f, [q * rng.choice([1, 1, 1.001, 1.02, 1.1]) for q in p]] for f, p in m["peaks"]], "base": list(m["base"])}
                    if rng.random() < 0.2:
                        rng.shuffle(m["peaks"])
                else:
                    m = {"peaks": [[rng.randrange(2), [rng.uniform(0.5, 4), rng.uniform(0.1, 0.5), rng.uniform(1, 5)]] for _ in range(rng.choice([0, 1, 2]))], "base": [rng.uniform(-1, 1) for _ in range(rng.choice([0, 1, 2]))]}
                models.append(m)
            yield {"what": k, "models": models, "tol": tol, "dgs": [1.0, 2.0][:rng.randint(0, 2)]}


def real_models(ms):
    out = []
    for m in ms:
        ps = Peaks([FUNS[f].actualize(p, "pwa") for f, p in m["peaks"]])
        b = m["base"]
        out.append([1.0, ps, Polynomial(degree=len(b) - 1).actualize(b, "internal"), 0.1])
    return out


def check(c):
    if c["what"] == "rank":
        return check_rank(c)
    ms = MultimodelSelection()
    try:
        ms.results = real_models(c["models"]) if c["what"] == "real" else fakes(c["models"])
    except Skip:
        raise
    except Exception:
        raise Skip()
    N, tol = len(ms.results), float(c["tol"])
    r = np.arange(1, 60) * 0.1 if c["what"] == "real" else GRID
    ms.ppe = PPE(AIC)
    ms.dgs = np.array(c.get("dgs", []))
    ms.aics = stats_of(AIC, [[(7 * i + 3 * j) % 5 for i in range(N)] for j in range(len(ms.dgs))], ms.dgs)
    ms.classify(r, tol)
    if ms.classes_idx is None or sorted(i for cl in ms.classes for i in cl) != list(range(N)):
        return "classes %s of %d models" % (ms.classes, N)
    if any(not cl or list(cl) != sorted(cl) for cl in ms.classes):
        return "a class does not list its models by index: %s" % ms.classes
    if dict(ms.classes_idx) != {i: k for k, cl in enumerate(ms.classes) for i in cl}:
        return "recorded classes %s, lists %s" % (ms.classes_idx, ms.classes)
    if ms.class_tolerance != tol:
        return "tolerance %s" % ms.class_tolerance
    firsts = [cl[0] for cl in ms.classes]
    if firsts != sorted(firsts):
        return "classes are not in the order of their first models: %s" % ms.classes
    for i in range(N):
        k = ms.classes_idx[i]
        if firsts[k] != i and not alike(ms.results[i], ms.results[firsts[k]], r, tol):
            return "model %d is in the class of %d, unlike it" % (i, firsts[k])
        for e in firsts[:k]:
            if e < i and alike(ms.results[i], ms.results[e], r, tol):
                return "model %d is like %d, but not in its class" % (i, e)
    for dg in ms.dgs:
        if len(ms.sortedclasses[dg]) != len(ms.classes) or len(ms.classprobs[dg]) != len(ms.classes) or len(ms.classweights[dg]) != len(ms.classes) or sorted(ms.sortedclassprobs[dg]) != list(range(len(ms.classes))):
            return "tables of %d classes" % len(ms.sortedclasses[dg])


def check_rank(c):
    n, cl = c["n"], c["classes"]
    if sorted(i for q in cl for i in q) != list(range(n)) or any(not q or q != sorted(q) for q in cl):
        raise Skip()
    ms = MultimodelSelection()
    em = AICc if c["corrected"] else AIC
    ms.ppe = PPE(em)
    ms.dgs = np.array([0.1 * (j + 1) for j in range(len(c["stats"]))])
    ms.aics = stats_of(em, c["stats"], ms.dgs)
    ms.classes = [list(q) for q in cl]
    ms.classes_idx = {i: k for k, q in enumerate(cl) for i in q}
    ms.makesortedclasses()
    if set(ms.sortedclasses) != set(ms.dgs):
        return "ranked for %s" % list(ms.sortedclasses)
    for dg, row in zip(ms.dgs, c["stats"]):
        t = ms.sortedclasses[dg]
        if len(t) != len(cl):
            return "%d classes of %d are ranked" % (len(t), len(cl))
        for q, w in zip(t, cl):
            if sorted(q) != w:
                return "class %s is ranked as %s" % (w, q)
            s = [float(row[i]) for i in q]
            if any(a < b for a, b in zip(s, s[1:])):
                return "ranking %s for statistics %s: the best is not last" % (q, s)
