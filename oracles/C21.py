import contextlib
import io
import os
import random
import tempfile

from mmutil import *

RULE = "0-6 models in 0-4 classes with distinct statistics and ties, 0-4 uncertainties, queries about all, some, or none of them; real models tested, saved and loaded; non-trivial: distinct case"
QUERIES = ["bestclasses", "bestmodels", "classbestdgs", "modelbestdgs", "key", "max by class", "max by model", "model by class", "model by model", "aic", "class", "dG", "model", "nfree", "prob", "all"]
DGS = [0.1, 0.2, 0.25, 1.0, 3.5, 10.0]


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        k = rng.choice(["tables", "query", "query", "query", "stats"])
        dgs = rng.sample(DGS, rng.randint(0 if k == "tables" else 1, 4))
        n = rng.randint(1, 6)
        c = {"what": k, "n": n, "dgs": dgs, "corrected": rng.random() < 0.5}
        if k == "tables":
            c["stats"] = [[rng.choice([rng.uniform(-5, 50), 3.0, 4.0, 900.0]) for _ in range(n)] for _ in dgs]
        elif k == "stats":
            c.update(saved=rng.random() < 0.6, seed=rng.randrange(10 ** 6))
        else:
            c.update(query=rng.choice(QUERIES), nc=rng.randint(1, n), seed=rng.randrange(10 ** 6))
            c["asked"] = None if rng.random() < 0.4 else [rng.choice(dgs) for _ in range(rng.randint(0, 4))]
            c["x"] = rng.choice([rng.uniform(-1, 12), rng.choice(DGS)])
            kw = {}
            if rng.random() < 0.4:
                kw["corder"] = rng.randint(0, 2)
            if rng.random() < 0.4:
                kw["morder"] = rng.randint(0, 2)
            if rng.random() < 0.4:
                kw["cls"] = rng.choice([None, 0, 1, 2])
            c["kw"] = kw
        yield c


def uncertainties(c):
    dgs = [float(x) for x in c["dgs"]]
    if len(set(dgs)) != len(dgs) or not all(math.isfinite(x) and x > 0 for x in dgs):
        dgs = DGS[:len(dgs)]
    return dgs


def probs(row):
    w = np.exp(-(np.array(row) - min(row)) / 2)
    return w, w / w.sum()


def build(c, rng, stats=None):
    """Everything the queries need, by the real code."""
    n, em = int(c["n"]), AICc if c.get("corrected") else AIC
    if n < 0:
        raise Skip()
    ms = MultimodelSelection()
    ms.ppe = PPE(em)
    ms.results = fakes([{"peaks": [[0, rng.randint(1, 4), 1.0] for _ in range(rng.randint(0, 3))], "base": [1, rng.randint(0, 3), 1.0]} for _ in range(n)])
    dgs = uncertainties(c)
    ms.dgs = np.array(dgs)
    if stats is None:
        stats = [[rng.choice([rng.uniform(-5, 50), rng.uniform(-2, 2), 3.0]) for _ in range(n)] for _ in dgs]
    ms.aics = stats_of(em, stats, ms.dgs)
    ms.dgs_idx = {dg: i for i, dg in enumerate(ms.dgs)}
    nc = max(1, min(n, int(c.get("nc", max(1, n // 2)))))
    cl = [[k] for k in range(nc)]
    for i in range(nc, n):
        cl[rng.randrange(nc)].append(i)
    names = list(range(n))
    rng.shuffle(names)
    cl = sorted(sorted(names[i] for i in q) for q in cl)
    ms.classes, ms.classes_idx = cl, {i: k for k, q in enumerate(cl) for i in q}
    if n:
        ms.makeaicweights()
        ms.makeaicprobs()
        ms.makesortedprobs()
        ms.makesortedclasses()
        ms.makeclassweights()
        ms.makeclassprobs()
        ms.makesortedclassprobs()
    return ms, dgs, stats, cl


def model_tables(ms, dgs, stats):
    n = len(ms.results)
    for nm in ("aics", "aicweights", "aicprobs", "sortedprobs"):
        if sorted(getattr(ms, nm)) != sorted(dgs):
            return "%s are for %s" % (nm, list(getattr(ms, nm)))
    for dg, row in zip(dgs, stats):
        w, p = probs(row)
        if len(ms.aics[dg]) != n or any(not np.isclose(e.stat, s, rtol=1e-9, atol=1e-9) for e, s in zip(ms.aics[dg], row)):
            return "statistics %s, expected %s" % ([e.stat for e in ms.aics[dg]], row)
        if len(ms.aicweights[dg]) != n or not np.allclose(ms.aicweights[dg], w, rtol=1e-6, atol=1e-12):
            return "weights %s of statistics %s" % (ms.aicweights[dg], row)
        if len(ms.aicprobs[dg]) != n or not np.allclose(ms.aicprobs[dg], p, rtol=1e-6, atol=1e-12):
            return "probabilities %s of statistics %s" % (ms.aicprobs[dg], row)
        if bad_rank(ms.sortedprobs[dg], ms.aicprobs[dg]):
            return "ranking %s of probabilities %s" % (ms.sortedprobs[dg], ms.aicprobs[dg])


def bad_rank(order, p):
    return sorted(order) != list(range(len(p))) or any(p[a] > p[b] for a, b in zip(order, order[1:]))


def class_tables(ms, dgs, stats, cl):
    for nm in ("sortedclasses", "classweights", "classprobs", "sortedclassprobs"):
        if sorted(getattr(ms, nm)) != sorted(dgs):
            return "%s are for %s" % (nm, list(getattr(ms, nm)))
    for dg, row in zip(dgs, stats):
        w, p = probs([min(row[i] for i in q) for q in cl])
        if any(sorted(a) != b or [row[i] for i in a] != sorted((row[i] for i in b), reverse=True) for a, b in zip(ms.sortedclasses[dg], cl)) or len(ms.sortedclasses[dg]) != len(cl):
            return "classes %s are ranked %s for statistics %s" % (cl, ms.sortedclasses[dg], row)
        if len(ms.classweights[dg]) != len(cl) or not np.allclose(ms.classweights[dg], w, rtol=1e-6, atol=1e-12) or len(ms.classprobs[dg]) != len(cl) or not np.allclose(ms.classprobs[dg], p, rtol=1e-6, atol=1e-12):
            return "class weights %s, probabilities %s for classes %s and statistics %s" % (ms.classweights[dg], ms.classprobs[dg], cl, row)
        if bad_rank(ms.sortedclassprobs[dg], ms.classprobs[dg]):
            return "ranking %s of class probabilities %s" % (ms.sortedclassprobs[dg], ms.classprobs[dg])


def check(c):
    rng = random.Random(int(c.get("seed", 1)))
    if c["what"] == "stats":
        return check_stats(c, rng)
    if c["what"] == "tables":
        if any(not math.isfinite(float(s)) or abs(float(s)) > 1e6 for row in c["stats"] for s in row):
            raise Skip()
        if any(len(row) != int(c["n"]) for row in c["stats"]) or len(c["stats"]) != len(c["dgs"]) or int(c["n"]) < 1:
            raise Skip()
        ms, dgs, stats, cl = build(c, rng, [[float(s) for s in row] for row in c["stats"]])
        return model_tables(ms, dgs, stats) or class_tables(ms, dgs, stats, cl)
    for k in range(1 if "seed" in c else 12):
        bad = check_query(c, random.Random(int(c.get("seed", k))))
        if bad:
            return bad


def check_query(c, rng):
    if int(c["n"]) < 1 or not c["dgs"]:
        raise Skip()
    ms, dgs, stats, cl = build(c, rng)
    bad = model_tables(ms, dgs, stats) or class_tables(ms, dgs, stats, cl)
    if bad:
        return bad
    n, q = len(ms.results), c["query"]
    asked = c.get("asked")
    old = [float(x) for x in c["dgs"]]
    if asked is not None:
        # whichever of those there are, by the same place
        asked = [dgs[old.index(float(x))] if float(x) in old else rng.choice(dgs) for x in asked]
    args = [] if asked is None else [asked if rng.random() < 0.5 else np.array(asked)]
    over = dgs if asked is None else asked
    topclass = lambda dg: ms.sortedclassprobs[dg][-1]
    topmodel = lambda dg: ms.sortedclasses[dg][topclass(dg)][-1]
    if q in ("bestclasses", "bestmodels"):
        f = topclass if q == "bestclasses" else topmodel
        r, want = list(getattr(ms, q)(*args)), sorted(set(f(dg) for dg in over))
        return None if r == want else "%s%s: %s, the tables say %s" % (q, tuple(args), r, want)
    if q in ("classbestdgs", "modelbestdgs"):
        for x in range(len(cl) if q == "classbestdgs" else n):
            want = [dg for dg in over if (topclass if q == "classbestdgs" else topmodel)(dg) == x]
            r = list(getattr(ms, q)(x, *args))
            if sorted(set(r)) != sorted(set(want)):
                return "%s%s: %s, the tables say %s" % (q, (x,) + tuple(args), r, want)
        return
    if q == "key":
        x = float(c.get("x", 1.0))
        if not math.isfinite(x) or abs(x) > 1e9:
            raise Skip()
        r = float(ms.dg_key(x))
        return None if r in dgs and abs(r - x) <= min(abs(d - x) for d in dgs) else "uncertainty %s is nearest to %s among %s" % (r, x, dgs)
    if q in ("max by class", "max by model"):
        for m in range(n):
            r = float(ms.maxprobdG_byclass(m) if q == "max by class" else ms.maxprobdG_bymodel(m))
            p = {dg: ms.classprobs[dg][ms.classes_idx[m]] if q == "max by class" else ms.aicprobs[dg][m] for dg in dgs}
            if r not in p or p[r] < max(p.values()):
                return "%s: model %d is most likely at %s, probabilities %s" % (q, m, r, p)
        return
    for dg in dgs:
        if q in ("model by class", "model by model"):
            r, want = (ms.maxprobmodel_byclass(dg), topmodel(dg)) if q == "model by class" else (ms.maxprobmodel_bymodel(dg), ms.sortedprobs[dg][-1])
            if r != want:
                return "%s: %s, the tables say %s" % (q, r, want)
            continue
        kw = dict(c.get("kw") or {})
        co, mo, k = int(kw.get("corder", 0)), int(kw.get("morder", 0)), kw.get("cls", "best")
        if not 0 <= co < len(cl) or mo < 0 or (k not in (None, "best") and not 0 <= int(k) < len(cl)):
            continue
        kw = {a: b if b is None else int(b) for a, b in kw.items()}
        rc = ms.sortedclassprobs[dg][-1 - co]
        kc = rc if k == "best" else k if k is None else int(k)
        rank = ms.sortedprobs[dg] if kc is None else ms.sortedclasses[dg][kc]
        if mo >= len(rank):
            continue
        m = rank[-1 - mo]
        want = {"aic": stats[dgs.index(dg)][m], "class": rc, "dG": dg, "model": m, "prob": ms.aicprobs[dg][m] if kc is None else ms.classprobs[dg][kc],
                "nfree": ms.results[m][1].npars(count_fixed=False) + ms.results[m][2].npars(count_fixed=False)}
        for a in ["aic", "class", "dG", "model", "nfree", "prob"] if q == "all" else [q]:
            kk = {x: y for x, y in kw.items() if not (a == "class" and x == "cls")}
            for r in [ms.get(dg, a, **kk)[0]] + ([getattr(ms, "get_" + a)(dg, **kk)] if a != "dG" else []):
                if not np.isclose(float(r), float(want[a]), rtol=1e-9):
                    return "%s(%s, %s) is %s, the tables say %s" % (a, dg, kk, r, want[a])
        names = ["prob", "model", "aic", "nfree"]
        r = ms.get(dg, *names, **kw)
        if len(r) != 4 or any(not np.isclose(float(x), float(want[a])) for x, a in zip(r, names)):
            return "get(%s, %s) is %s" % (dg, names, r)


class Source(PPE):
    def __init__(self, em, r, y):
        PPE.__init__(self, em)
        self.r, self.y, self.pf, self.asked = r, y, [FUNS[0]], []

    def resampledata(self, dr, **kwds):
        self.asked.append((dr, kwds))
        return self.r, self.y, np.zeros(len(self.r)), np.ones(len(self.r))


def check_stats(c, rng):
    n, em = int(c["n"]), AICc if c.get("corrected") else AIC
    if n < 1 or n > 8 or not c["dgs"]:
        raise Skip()
    dgs = uncertainties(c)
    r = np.arange(1, rng.choice([8, 40])) * 0.2
    ms = MultimodelSelection()
    for _ in range(n):
        ps = []
        for _ in range(rng.choice([0, 1, 2])):
            p = FUNS[rng.randrange(2)].actualize([rng.uniform(0.5, 4), rng.uniform(0.1, 0.5), rng.uniform(1, 5)], "pwa", free=[rng.random() < 0.7 for _ in range(3)])
            ps.append(p)
        b = [rng.uniform(-1, 1) for _ in range(rng.choice([0, 1, 2]))]
        ms.results.append([1.0, Peaks(ps), Polynomial(degree=len(b) - 1).actualize(b, "internal", free=[rng.random() < 0.7 for _ in b]), 0.1])
    y = ms.results[rng.randrange(n)][1].value(r) + np.array([rng.uniform(-0.2, 0.2) for _ in r])
    ms.ppe = Source(em, r, y)
    kept = [(m[1].copy(), m[2].copy()) for m in ms.results]
    stats = []
    for dg in dgs:
        row = []
        for _, ps, b, _ in ms.results:
            k = sum(sum(bool(f) for f in p.free) for p in ps)  # the criteria count the peaks
            N = len(r)
            chi = math.fsum(((y - b.value(r) - sum((p.value(r) for p in ps), np.zeros(len(r)))) / dg) ** 2)
            if em is AICc:
                if N < k + 4:
                    raise Skip()
                row.append(chi + 2 * k + 2 * k * (k + 1) / (N - k - 1))
            else:
                row.append(chi + 2 * k)
        stats.append(row)
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        f = os.path.join(tmp, "aics")
        ms.makeaics(np.array(dgs) if rng.random() < 0.5 else list(dgs), 0.2, *([f] if c.get("saved") else []))
        bad = model_tables(ms, dgs, stats)
        if bad:
            return bad
        if [x for x, _ in ms.ppe.asked] != [0.2]:
            return "resampled as %s" % ms.ppe.asked
        if list(ms.dgs) != dgs or {float(a): b for a, b in ms.dgs_idx.items()} != {a: i for i, a in enumerate(dgs)}:
            return "uncertainties %s, indices %s, asked for %s" % (ms.dgs, ms.dgs_idx, dgs)
        if any(list(m[1]) != list(a) or m[2] != b for m, (a, b) in zip(ms.results, kept)):
            return "testing changed the models"
        if not c.get("saved"):
            return None if not os.listdir(tmp) else "something was saved"
        new = MultimodelSelection()
        new.ppe, new.results = ms.ppe, ms.results
        new.loadaics(f)
        if sorted(new.dgs) != sorted(dgs) or any(new.dgs[new.dgs_idx[dg]] != dg for dg in dgs):
            return "loaded uncertainties %s, indices %s, saved %s" % (new.dgs, new.dgs_idx, dgs)
        if any(not isinstance(e, em) for dg in dgs for e in new.aics[dg]):
            return "loaded statistics of another criterion"
        if any([e.stat for e in new.aics[dg]] != [e.stat for e in ms.aics[dg]] for dg in dgs):
            return "loaded statistics differ"
        return model_tables(new, dgs, stats)
