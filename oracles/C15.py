from .mcutil import *

RULE = "clusters over 2-51 points with 0-5 peaks (some on borders, fixed, protected) and four kinds of baselines; up to three slice changes, external peaks; joins of touching, overlapping and separated ranges sharing all, or not, of data, criterion and baseline, in both orders; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        if rng.random() < 0.5:
            d = rdata(rng)
            n = len(d["r"])
            sl = []
            for _ in range(rng.choice([1, 2, 4])):
                a = rng.randrange(n)
                sl.append([a, rng.randint(a + 1, n)])
            yield dict(d, kind="view", peaks=rpeaks(rng, d["r"]), base=rbase(rng), slices=sl, whole=rng.random() < 0.2, add=rpeaks(rng, d["r"], (0, 0, 1, 2)))
        else:
            d = rdata(rng, 3)
            n = len(d["r"])
            b = rng.randrange(1, n)
            lo, hi = rng.randrange(b), rng.randint(b + 1, n)
            mid = 0.5 * (d["r"][b - 1] + d["r"][b])
            # mostly one strayed peak or peaks at the border
            P = [rpeaks(rng, d["r"][lo:b], extra=[mid]), rpeaks(rng, d["r"][b:hi], extra=[mid])]
            if rng.random() < 0.8:  # the ones scaling keeps in position exactly
                for d1 in P[0] + P[1]:
                    d1["f"] = ["g", d1["f"][1]]
            gap = rng.choice([0] * 8 + [1, -1])
            b2 = min(max(b + gap, lo), hi - 1)
            base = rbase(rng)
            base2 = rng.choice(["same", "same", "copy", "other"])
            c = dict(d, kind="join", peaks=P[0], peaks2=P[1], base=base, base2=base2, slices=[[lo, b], [b2, hi]], differs=rng.choice([None] * 6 + ["r_data", "y_data", "y_error", "error_method"]), swap=rng.random() < 0.5)
            if base2 == "other" and base is not None and len(base["pars"]):
                c["k"] = rng.randrange(len(base["pars"]))
            yield c


def check(case):
    r, y, e = (np.array(case[k], float) for k in "rye")
    owners = {}
    if case["kind"] == "view":
        b = part(case["base"], Baseline, owners) if case["base"] else None
        ps = list(case["peaks"])
        lo, hi = (0, len(r)) if case["whole"] else case["slices"][0]
        mc = ModelCluster(peaks_of(ps, owners), b, r, y, e, None if case["whole"] else slice(lo, hi), AIC, [])
        bad = view(mc, ps, case["base"], r, y, e, lo, hi)
        for lo, hi in case["slices"][1:]:
            mc.change_slice(slice(lo, hi))
            bad = bad or view(mc, ps, case["base"], r, y, e, lo, hi)
        if bad:
            return bad
        if list(r) != case["r"] or list(y) != case["y"] or list(e) != case["e"]:
            return "the data were changed"
        if case["add"]:
            mc.addexternalpeaks(peaks_of(case["add"], owners))
            y2 = np.array([v + value_of(case["add"], x) for v, x in zip(case["y"], case["r"])])
            bad = view(mc, ps + case["add"], case["base"], r, y2, e, lo, hi)
            if bad:
                return "after adding external peaks: " + bad
            pos = [p["position"] for p in mc.model]
            if pos != sorted(pos) or len(pos) != len(ps) + len(case["add"]):
                return "peaks %r after adding external ones" % pos
        return None
    return join(case, r, y, e, owners)


def view(mc, ps, base, r, y, e, lo, hi):
    for nm, want in (("r_cluster", r), ("y_cluster", y), ("error_cluster", e)):
        if not close(getattr(mc, nm), want[lo:hi]):
            return "%s over %d:%d is %r, want %r" % (nm, lo, hi, list(getattr(mc, nm)), list(want[lo:hi]))
    if mc.size != hi - lo or mc.slice.start != lo or mc.slice.stop != hi:
        return "size %r slice %r of %d:%d" % (mc.size, mc.slice, lo, hi)
    bl = [base_of(base, x) for x in r]
    pk = [value_of(ps, x) for x in r]
    s = 1 + max(map(abs, pk + bl + list(y)))
    if not close(mc.valuebl(), bl[lo:hi], 1e-9, 1e-9 * s) or not close(mc.valuebl(r), bl, 1e-9, 1e-9 * s):
        return "baseline over %d:%d is %r, want %r" % (lo, hi, list(mc.valuebl()), bl[lo:hi])
    v = [a + b for a, b in zip(bl, pk)]
    if not close(mc.value(), v[lo:hi], 1e-9, 1e-9 * s) or not close(mc.value(r), v, 1e-9, 1e-9 * s):
        return "value over %d:%d is %r, want %r" % (lo, hi, list(mc.value()), v[lo:hi])
    res = [a - b for a, b in zip(y, v)][lo:hi]
    if not close(mc.residual(), res, 1e-9, 1e-9 * s):
        return "residual over %d:%d is %r, want %r" % (lo, hi, list(mc.residual()), res)


def join(case, r, y, e, owners):
    b1 = part(case["base"], Baseline, owners) if case["base"] else None
    b2 = b1
    if b1 is not None and case["base2"] != "same":
        b2 = b1.copy()
        if "k" in case:
            b2.pars[case["k"]] += 1.0
    eqb = not (b1 is not None and "k" in case)
    (lo, b), (c, hi) = case["slices"]
    args1 = {"r_data": r, "y_data": y, "y_error": e, "error_method": AIC}
    args2 = dict(args1)
    if case["differs"]:
        k = case["differs"]
        args2[k] = AICc if k == "error_method" else args1[k].copy()
    g, h = func(["g", 0.7]), func(["gr", 0.7])
    mk = lambda ps, base, a, sl, pf: ModelCluster(peaks_of(ps, owners), base, a["r_data"], a["y_data"], a["y_error"], slice(*sl), a["error_method"], pf)
    left, right = mk(case["peaks"], b1, args1, (lo, b), [g]), mk(case["peaks2"], b2, args2, (c, hi), [g, h])
    before = [state(left), state(right)]
    m1, m2 = (right, left) if case["swap"] else (left, right)
    try:
        j = ModelCluster.join_adjacent(m1, m2)
    except ValueError:
        j = None
    if [state(left), state(right)] != before:
        return "joining changed the originals"
    ok = case["differs"] is None and eqb and b == c
    if (j is not None) != ok:
        return "joining %d:%d and %d:%d (differing: %r, equal baselines: %r) %s" % (lo, b, c, hi, case["differs"], eqb, "succeeds" if j else "is refused")
    if j is None:
        return None
    if (j.slice.start, j.slice.stop) != (lo, hi) or j.r_data is not r or j.y_data is not y or j.y_error is not e or j.error_method is not AIC or not (j.baseline is b1 or j.baseline == b1):
        return "the result spans %r" % j.slice
    if set(map(id, j.peak_funcs)) != {id(g), id(h)}:
        return "peak functions of the result"
    x = 0.5 * (r[b - 1] + r[b])
    # independent: all peaks with their side, in position order
    A = sorted(case["peaks"], key=lambda d: d["pars"][0])
    B = sorted(case["peaks2"], key=lambda d: d["pars"][0])
    allp = [(d, 0, i) for i, d in enumerate(A)] + [(d, 1, len(A) + i) for i, d in enumerate(B)]
    plain = all(d["f"][0] == "g" for d, _, _ in allp)
    order = sorted(allp, key=lambda t: t[0]["pars"][0])
    got = [p["position"] for p in j.model]
    if got != sorted(got):
        return "peaks of the result at %r" % got
    pos = [t[0]["pars"][0] for t in order]
    if len(set(pos)) < len(pos) and A and B:
        # equal positions: any order between them is fine; at the border all but one go
        at = sum(1 for p in pos if p == x)
        if at < 2:
            return None
        if plain and got.count(x) != 1:
            return "%d peaks exactly at the border %r give %d" % (at, x, got.count(x))
        return None
    want = []
    for i, (d, side, raw) in enumerate(order):
        p = d["pars"][0]
        stray = raw != i and ((side == 0 and p > x) or (side == 1 and p < x))
        if not (stray and A and B):
            want.append(p)
    if (got != want) if plain else (len(got) != len(want)):
        return "peaks at %r | %r joined at %r give %r, want %r" % ([d["pars"][0] for d in A], [d["pars"][0] for d in B], x, got, want)
    for p in j.model:
        if any(p is q for m in (left, right) for q in m.model):
            return "a peak is shared with an original"
    return None
