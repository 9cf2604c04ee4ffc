from .mcutil import *
from diffpy.srmise.srmiseerrors import SrMiseEstimationError
from oracle_run import Skip

RULE = "clusters with 0-4 peaks and four kinds of baselines under any sequence of optimiser outcomes (scripted: any shift, failure codes, exceptions) and real ones, AIC and AICc; slice changes against the uncertainty; conditional fits over size histories; reductions; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        kind = rng.choice(["fit"] * 4 + ["never", "cond", "reduce"])
        d = rdata(rng, 6)
        n = len(d["r"])
        lo = rng.randrange(n)
        hi = rng.randint(lo + 1, n)
        c = dict(d, kind=kind, slice=[lo, hi], peaks=rpeaks(rng, d["r"], (0, 1, 1, 2, 4)), base=rbase(rng), script=rng.randrange(10 ** 6), real=rng.choice([0, 0, 0, 1]), calm=rng.choice([0, 0.5, 0.9]), crit=rng.choice(["AIC", "AICc"]))
        if rng.random() < 0.3:
            # data the peaks describe, so that most outcomes are worse
            c["y"] = [base_of(c["base"], x) + value_of(c["peaks"], x) for x in d["r"]]
        c["opts"] = dict(justify=rng.random() < 0.5, fitbaseline=rng.random() < 0.5, estimate=rng.random() < 0.7)
        if kind == "never":
            c["e"] = [rng.choice([1.0, 4.0, 6.0]) for _ in d["r"]]
            c["more"] = []
            a, b = lo, hi
            for _ in range(rng.choice([1, 2, 3])):
                a, b = (rng.randint(0, a), rng.randint(b, n)) if rng.random() < 0.7 else sorted(rng.sample(range(n + 1), 2))
                c["more"].append([a, b])
        if kind == "cond":
            c["minpoints"], c["thr"] = rng.choice([0, 1, 3, 8]), rng.choice([1.0, 1.2, 1.5, 2.0])
            c["more"] = []
            for _ in range(rng.choice([1, 3, 5])):
                lo, hi = rng.randint(0, lo), rng.randint(hi, n)
                c["more"].append([lo, hi])
        if kind == "reduce":
            c["x"], c["to"] = rng.uniform(d["r"][0], d["r"][-1]), rng.uniform(-1, 3)
        yield c


def idents(mc):
    f = lambda p: (tuple("%r" % float(x) for x in p.pars), tuple(map(bool, p.free)), bool(p.removable), id(p.owner()))
    return [f(p) for p in mc.model], None if mc.baseline is None else f(mc.baseline)


def stat(mc):
    """The criterion, from the definition."""
    k = sum(sum(map(bool, p.free)) for p in mc.model)
    chi = sum(((a - b) / u) ** 2 for a, b, u in zip(mc.value(), mc.y_cluster, mc.error_cluster))
    n = mc.size
    if mc.error_method is AIC:
        return chi + 2 * k
    n = max(n, k + 2)
    return chi + 2.0 * k + float(2 * k * (k + 1)) / (n - k - 1)


def check(case):
    r, y, e = (np.array(case[k], float) for k in "rye")
    owners = {}
    b = part(case["base"], Baseline, owners) if case["base"] else None
    mc = ModelCluster(peaks_of(case["peaks"], owners), b, r, y, e, slice(*case["slice"]), CRIT[case["crit"]], [func(["g", 0.7]), func(["gr", 0.7])])
    bl = [base_of(case["base"], x) for x in case["r"]]
    d = [v - w for v, w in zip(case["y"], bl)]
    kind = case["kind"]
    below = lambda lo, hi: all(d[i] < case["e"][i] for i in range(lo, hi))
    lo, hi = case["slice"]
    if min([abs(d[i] - case["e"][i]) for i in range(len(d))]) < 1e-9:
        raise Skip()
    never = below(lo, hi)
    if kind == "never":
        for a, z in case["more"]:
            mc.change_slice(slice(a, z))
            never = never and below(a, lo) and below(hi, z)
            lo, hi = a, z
    if kind == "cond":
        last, calls = 0, []
        real = mc.fit

        def spy(*a, **k):
            calls.append((a, k))
            return real(*a, **k)
        mc.fit = spy
        with Script(case["script"], 0, case["calm"]):
            for a, z in [[lo, hi]] + case["more"]:
                mc.change_slice(slice(a, z))
                never = never and below(a, lo) and below(hi, z)
                lo, hi = a, z
                size = z - a
                due = not never and (size >= case["minpoints"] if last == 0 else size / last >= case["thr"] - 1e-12)
                if last and abs(size / last - case["thr"]) < 1e-9 and size / last < case["thr"]:
                    raise Skip()
                had = len(calls)
                empty = len(mc.model) == 0
                before = idents(mc)
                mc.contingent_fit(case["minpoints"], case["thr"])
                if (len(calls) > had) != due:
                    return "size %d, last fitted at %d, minimum %d, threshold %r: %s" % (size, last, case["minpoints"], case["thr"], "no fit" if due else "fitted")
                if due and (not empty or idents(mc) != before or mc.last_fit_size == size):
                    last = size
        return None
    if kind == "reduce":
        before = idents(mc)
        orig = mc.fit
        with Script(case["script"], case["real"], case["calm"]):
            q = mc.reduce_to(case["x"], case["to"])
        if q is None:
            if idents(mc) != before and len(before[0]):
                return "a reduction that failed changed the model from %r to %r" % (before, idents(mc))
            return None
        return agree(mc, q)
    o = case["opts"]
    states = [idents(mc)]
    if never:
        with Script(case["script"]) as s:
            q = mc.fit(**o)
        if q is not None or s.calls or idents(mc) != states[0]:
            return "a cluster whose data never reach the uncertainty is fitted"
        return None
    q0 = stat(mc)
    est = None
    if len(mc.model) == 0 and o["estimate"]:
        est = mc.copy()
        try:
            est.estimatepeak()
            states.append(idents(est))
            q0 = stat(est)
        except SrMiseEstimationError:
            pass
    had = max(len(s[0]) for s in states)
    with Script(case["script"], case["real"], case["calm"]) as s:
        q = mc.fit(**o)
    if q is None:
        if idents(mc) not in states:
            return "the fit is refused, but the model is changed from %r to %r" % (states[-1], idents(mc))
        return None
    bad = agree(mc, q)
    if bad:
        return bad
    if q.stat > q0 * (1 + 1e-9) + 1e-9:
        return "a fit of quality %r is accepted over %r" % (q.stat, q0)
    if o["justify"] and len(mc.model) == 1 and had > 0 and q.growth_justified(mc, 3):
        return "a one-peak fit is accepted though more peaks are justified"
    if not o["fitbaseline"] and idents(mc)[1] != states[0][1]:
        return "the baseline is changed"
    return None


def agree(mc, q):
    want = stat(mc)
    if abs(q.stat - want) > 1e-6 * (1 + abs(want)):
        return "the quality returned is %r, that of the model %r" % (q.stat, want)
    return None
