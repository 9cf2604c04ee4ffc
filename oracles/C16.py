from .mcutil import *

RULE = "clusters with 0-7 peaks, any of them protected, some partly fixed, some with non-numeric parameters: replacing and deleting over any range, cleaning any cluster range, pruning under any sequence of optimiser outcomes (scripted) and real ones; non-trivial: at least one protected peak or one removal"


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        kind = rng.choice(["replace", "replace", "delete", "clean", "clean", "prune", "prune"])
        d = rdata(rng, 5)
        n = len(d["r"])
        lo = rng.randrange(n)
        hi = rng.randint(lo + 1, n)
        ps = rpeaks(rng, d["r"], (0, 1, 2, 3, 4, 5, 7), extra=[d["r"][lo], d["r"][hi - 1], d["r"][-1]], protect=rng.choice([0.1, 0.3, 0.6]))
        for p in ps:
            if rng.random() < 0.4:
                p["pars"][2] = rng.choice([1e-6, 0.01, 0.1])
            if not p["removable"] and rng.random() < 0.7:
                p["free"][0] = False
            if kind != "prune" and rng.random() < 0.1:
                p["pars"][rng.randrange(3)] = float("nan")
        c = dict(d, kind=kind, slice=[lo, hi], peaks=ps, base=rbase(rng) if kind != "replace" else None)
        if kind == "replace":
            a = rng.randint(0, len(ps))
            c.update(cut=[a, rng.randint(a, len(ps))] if rng.random() < 0.8 else None, new=rpeaks(rng, d["r"], (0, 0, 1, 2)))
        elif kind == "delete":
            if not ps:
                continue
            c["k"] = rng.randrange(len(ps))
        elif kind == "prune":
            c.update(script=rng.randrange(10 ** 6), real=rng.choice([0, 0, 0, 0.5, 1]) if len(ps) < 4 else 0, calm=rng.choice([0, 0.5, 0.9]), crit=rng.choice(["AIC", "AICc"]))
        yield c


def ident(p):
    return (tuple("%r" % float(x) for x in p.pars), tuple(map(bool, p.free)), bool(p.removable), id(p.owner()))


def check(case):
    r, y, e = (np.array(case[k], float) for k in "rye")
    owners = {}
    ps = [part(d, Peak, owners) for d in case["peaks"]]
    P = Peaks(ps)
    P.sort(key="position")
    order = list(P)
    b = part(case["base"], Baseline, owners) if case["base"] else None
    mc = ModelCluster(P, b, r, y, e, slice(*case["slice"]), CRIT[case.get("crit", "AIC")], [func(["g", 0.7])])
    before = [ident(p) for p in order]
    kind = case["kind"]
    nan = lambda p: any(x != x for x in p.pars)
    if kind in ("replace", "delete"):
        if kind == "delete":
            lo, hi, new = case["k"], case["k"] + 1, []
            go = lambda: mc.deletepeak(case["k"])
        else:
            lo, hi = case["cut"] or (0, 0)
            new = list(peaks_of(case["new"], owners))
            arg = Peaks(new)
            go = (lambda: mc.replacepeaks(arg, slice(lo, hi))) if case["cut"] else (lambda: mc.replacepeaks(arg))
        hit = [p for p in order[lo:hi] if not p.removable]
        try:
            go()
            ok = True
        except ValueError:
            ok = False
        if not ok:
            if [ident(p) for p in mc.model] != before:
                return "a refused edit changed the peaks"
            return None if hit else "an edit of removable peaks is refused"
        if [p for p in hit if not nan(p)]:
            return "removing the protected peak(s) %r is not refused" % [ident(p) for p in hit]
        left = order[:lo] + new + order[hi:]
        if sorted(map(ident, left)) != sorted(ident(p) for p in mc.model):
            return "peaks after the edit: %r, want %r" % ([ident(p) for p in mc.model], [ident(p) for p in left])
        return inorder(mc)
    if kind == "clean":
        rc = list(mc.r_cluster)
        n = mc.cleanfit()
        now = list(mc.model)
        if n != len(order) - len(now):
            return "cleaning says it removed %r of %d, %d remain" % (n, len(order), len(now))
        i = 0
        for d in order:
            if i < len(now) and now[i] is d:
                i += 1
                continue
            if nan(d):
                continue
            if not d.removable:
                return "cleaning removed the protected peak %r" % (ident(d),)
            x0 = float(d["position"])
            if rc[0] <= x0 < rc[-1]:
                return "cleaning removed the peak at %r inside %r..%r" % (x0, rc[0], rc[-1])
            spec = [c for c in case["peaks"] if list(map(float, c["pars"])) == list(map(float, d.pars))][0]
            over = [(x, value1(spec["f"], spec["pars"], x), u) for x, u in zip(rc, mc.error_cluster) if value1(spec["f"], spec["pars"], x) > u * (1 + 1e-9)]
            if over:
                return "cleaning removed a peak contributing %r, above the uncertainty" % (over[0],)
        if i != len(now):
            return "cleaning changed the peaks or their order"
        if [ident(p) for p in now] != [x for x, d in zip(before, order) if any(d is q for q in now)]:
            return "cleaning changed parameters"
        return None
    prot = sorted(float(p["position"]) for p in order if not p.removable and not p.free[0])
    count = sum(1 for p in order if not p.removable)
    with Script(case["script"], case["real"], case["calm"]):
        mc.prune()
    got = sorted(float(p["position"]) for p in mc.model if not p.removable and not p.free[0])
    if any(nan(p) for p in mc.model):
        return None
    left = sum(1 for p in mc.model if not p.removable)
    if left < count:
        return "pruning left %d of %d protected peaks" % (left, count)
    if any(not any(abs(a - b) < 1e-9 for b in got) for a in prot):
        return "protected peaks fixed at %r are now at %r" % (prot, got)
    if len(mc.model) > len(order):
        return "pruning added peaks"
    return inorder(mc)


def inorder(mc):
    pos = [float(p["position"]) for p in mc.model]
    pos = [x for x in pos if x == x]
    if pos != sorted(pos):
        return "peaks are not in position order: %r" % pos
    return None
