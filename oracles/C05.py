from .mputil import *

RULE = "random parts and models on random grids (also empty and integer grids) with random ranges, and scalars; compared with independent formulas; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        ps = rmodel(rng, ("g", "gr", "poly", "nano", "seq"))
        pos = True
        r = rgrid(rng, pos)
        if rng.random() < 0.1:
            r = [int(v) + 1 + i for i, v in enumerate(r)]
        n = len(r)
        lo = rng.randrange(0, n + 1)
        hi = rng.randrange(lo, n + 1)
        yield {"parts": ps, "r": r, "range": rng.choice([None, [None, None], [lo, hi], [None, hi], [lo, None], [lo, lo]])}


def check(case):
    owners = {}
    ps = [part(d, owners=owners) for d in case["parts"]]
    r = np.array(case["r"])
    keep = r.copy()
    n = len(r)
    rg = case["range"]
    sl = None if rg is None else slice(*rg)
    inside = set(range(n)[sl] if sl is not None else range(n))
    wants = []
    for p, d in zip(ps, case["parts"]):
        want = [value1(d["f"], d["pars"], float(x)) if i in inside else 0.0 for i, x in enumerate(r)]
        wants.append(want)
        got = p.value(r, sl)
        if np.shape(got) != (n,):
            return "%r: value over a grid of %d points has shape %r" % (d, n, np.shape(got))
        if not close(got, want, 1e-9, 1e-9 if d["f"][0] == "seq" else 1e-12):
            return "%r over %r: value %r, want %r" % (d, rg, list(got), want)
        got2 = p.owner().value(p, r, sl)
        if not np.array_equal(got, got2):
            return "part and owner disagree"
        for x in (case["r"][0], case["r"][-1]):
            y = p.value(float(x))
            if not close(np.ravel(y), [value1(d["f"], d["pars"], float(x))], 1e-9, 1e-9 if d["f"][0] == "seq" else 1e-12) or np.ndim(y) != 0:
                return "%r at %r: %r" % (d, x, y)
        other = func(d["f"])
        for arg in (r, float(r[0])):
            try:
                other.value(p, arg)
                return "evaluated by a function that does not own it"
            except ValueError:
                pass
        if list(p.pars) != [float(v) for v in d["pars"]] or [bool(f) for f in p.free] != d["free"]:
            return "evaluation changed the part"
    model = ModelParts(ps)
    tot = model.value(r, sl)
    if np.shape(tot) != (n,) or not close(tot, np.sum(np.array(wants), axis=0) if wants else np.zeros(n), 1e-9, 1e-9):
        return "model value %r is not the sum %r" % (list(tot), wants)
    y = model.value(float(r[0]))
    if not close(np.ravel(y), [sum(value1(d["f"], d["pars"], float(r[0])) for d in case["parts"])], 1e-9, 1e-9):
        return "model value at a scalar"
    if not np.array_equal(r, keep) or len(model) != len(ps):
        return "evaluation changed the grid or the model"
