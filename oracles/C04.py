from .mputil import *

RULE = "models of 0-6 parts of four function kinds with random flags (also integer parameters), vectors longer than needed and vectors with not-a-number; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        ps = [rpart(rng, ints=rng.random() < 0.2) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
        n = sum(sum(p["free"]) for p in ps)
        vec = [rng.uniform(-5, 5) for _ in range(n + rng.choice([0, 0, 1, 3]))]
        if vec and rng.random() < 0.25:
            vec[rng.randrange(len(vec))] = float("nan")
        yield {"parts": ps, "vec": vec, "cls": rng.choice(["ModelParts", "Peaks"])}


def flat(case, pars):
    return [p[j] for d, p in zip(case["parts"], pars) for j in range(len(p)) if d["free"][j]]


def check(case):
    for d in case["parts"]:
        d.setdefault("f", ["poly", len(d["pars"]) - 1])
    cls = Peaks if case.get("cls") == "Peaks" else ModelParts
    ps = cls([part(d) for d in case["parts"]])
    if "vec" not in case:
        return None
    orig = [list(map(float, d["pars"])) for d in case["parts"]]
    n = len(flat(case, orig))
    if len(case["vec"]) < n:
        return None
    if ps.npars() != sum(len(d["pars"]) for d in case["parts"]) or ps.npars(count_fixed=False) != n or ps.npars(True) != ps.npars():
        return "parameter counts %r %r" % (ps.npars(), ps.npars(count_fixed=False))
    u = ps.unpack_freepars()
    if np.asarray(u).ndim != 1 or list(u) != flat(case, orig):
        return "flattening gives %r, want %r" % (list(u), flat(case, orig))
    vec = np.array(case["vec"], float)
    keep = vec.copy()
    try:
        ps.pack_freepars(vec)
        ok = True
    except ValueError:
        ok = False
    now = [list(p.pars) for p in ps]
    if not np.array_equal(keep, vec, equal_nan=True):
        return "writing changed the vector"
    if np.isnan(vec).any():
        if ok:
            return "vector with not-a-number accepted"
        if now != orig:
            return "rejected vector changed the model"
        return None
    if not ok:
        return "vector rejected"
    it = iter(case["vec"])
    want = [[(next(it) if d["free"][j] else o[j]) for j in range(len(o))] for d, o in zip(case["parts"], orig)]
    if now != want:
        return "writing %r into %r gives %r, want %r" % (case["vec"], orig, now, want)
    if list(ps.unpack_freepars()) != case["vec"][:n]:
        return "flattening afterwards gives %r" % list(ps.unpack_freepars())
    for p, d in zip(ps, case["parts"]):
        if [bool(f) for f in p.free] != d["free"]:
            return "flags changed"
        if p.npars() != len(d["pars"]) or p.npars(count_fixed=False) != sum(d["free"]) or len(p) != len(d["pars"]):
            return "part counts"
