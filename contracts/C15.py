"""Views of a model cluster, and joining."""
from .clu import *  # noqa: F401,F403
from .clu import MCL, B, Base, Crit, IdPeak, Peakset, data, slice_of, total_of
from .C10 import fun

ASSUMPTIONS = ["a baseline's or peak's value depends on the coordinate alone and is zero outside a requested range (C05)",
               "the position order of a model is a permutation that sorts (C10)", "copies of a model have the same peaks (C26)",
               "lemma: the peaks kept can be numbered from the last, each by the count of those kept after it",
               "slices with 0 <= start < stop <= size and no step"]


def cluster(v, S, lo, hi, model, baseline, first=True):
    from diffpy.srmise.modelcluster import ModelCluster
    sl = slice(lo, hi)
    return v.must("make a cluster", ModelCluster, model, baseline, S.r, S.y, S.e, sl, Crit, [])


def view_proofs(v, mc, S, lo, hi, what):
    i = v.int("i", 0)
    v.assume(i < hi - lo)
    for nm, full in (("r_cluster", S.r), ("y_cluster", S.y), ("error_cluster", S.e)):
        a = arr.asarr(getattr(mc, nm))
        v.prove("%s: %s is the slice of the data" % (what, nm), And(num(a.shape_[0]) == hi - lo, a.at(i) == full.at(lo + i)))
    v.prove("%s: size" % what, num(mc.size) == hi - lo)
    v.prove("%s: slice" % what, And(num(mc.slice.start) == lo, num(mc.slice.stop) == hi))
    return i


def any_baseline(v):
    return Base("bl") if bool(v.bool("baseline")) else None


VIEWS = [MCL + f for f in ("__init__", "change_slice", "valuebl", "value", "residual")]


@contract("C15", "views", functions=VIEWS)
def views(v):
    S = data(v)
    lo, hi = slice_of(v, S.N)
    F = Peakset(v)
    n = v.int("peaks", 0)
    ids, total = fun("id", sym.I, sym.I), total_of(v, "total")
    model = F.model(n, ids, total)
    bl = any_baseline(v)
    v.expect_covers("empty", "peaks", "resliced", "as made")
    if bool(v.bool("whole")):
        v.assume(And(lo == 0, hi == S.N))
        from diffpy.srmise.modelcluster import ModelCluster
        mc = v.must("make a cluster", ModelCluster, model, bl, S.r, S.y, S.e, None, Crit, [])
    else:
        mc = cluster(v, S, lo, hi, model, bl)
    if bool(v.bool("resliced")):
        v.cover("resliced")
        lo, hi = slice_of(v, S.N, "new")
        v.must("change the slice", mc.change_slice, slice(lo, hi))
    else:
        v.cover("as made")
    i = view_proofs(v, mc, S, lo, hi, "view")
    x = S.r.at(lo + i)
    b = bl.at(x) if bl is not None else num(0.0)
    empty = bool(n == 0)
    v.cover("empty" if empty else "peaks")
    p = num(0.0) if empty else total(x)
    for nm, f, want in (("baseline", mc.valuebl, b), ("value", mc.value, b + p), ("residual", mc.residual, S.y.at(lo + i) - b - p)):
        a = arr.asarr(v.must(nm, f))
        v.prove("%s over the cluster" % nm, And(num(a.shape_[0]) == hi - lo, a.at(i) == want))
    g = v.array("grid", v.int("m", 1))
    q = v.int("q", 0)
    v.assume(q < g.shape_[0])
    gb = bl.at(g.at(q)) if bl is not None else num(0.0)
    gp = num(0.0) if empty else total(g.at(q))
    a, b = arr.asarr(v.must("baseline elsewhere", mc.valuebl, g)), arr.asarr(v.must("value elsewhere", mc.value, g))
    v.prove("on any grid", And(num(a.shape_[0]) == g.shape_[0], num(b.shape_[0]) == g.shape_[0], a.at(q) == gb, b.at(q) == gb + gp))
    v.prove("the data are not changed", S.r.store.ver == 0 and S.y.store.ver == 0 and S.e.store.ver == 0 and mc.r_data is S.r and mc.y_data is S.y and mc.y_error is S.e)


@contract("C15", "addexternalpeaks", functions=[MCL + "addexternalpeaks"])
def external(v):
    S = data(v)
    lo, hi = slice_of(v, S.N)
    F = Peakset(v)
    mc = cluster(v, S, lo, hi, F.model(v.int("peaks", 0), fun("id", sym.I, sym.I)), any_baseline(v))
    total = total_of(v, "added")
    new = F.model(v.int("more", 0), fun("id2", sym.I, sym.I), total)
    y0 = S.y.snapshot()
    calls = []
    mc.__dict__["replacepeaks"] = lambda p, *a: calls.append((p, a))
    v.must("add", mc.addexternalpeaks, new)
    i = v.int("i", 0, S.N)
    v.prove("the values of the peaks are added to the data", And(num(arr.asarr(mc.y_data).shape_[0]) == S.N, mc.y_data.at(i) == y0.at(i) + total(S.r.at(i))))
    T = type("T", (), {"r": S.r, "e": S.e, "y": mc.y_data, "N": S.N})
    view_proofs(v, mc, T, lo, hi, "afterwards")
    v.prove("the peaks are added to the model", len(calls) == 1 and calls[0][0] is new and calls[0][1] == ())


# --- joining ----------------------------------------------------------------------
def join_loop():
    def expect(env):
        J = env.g
        n, k = J.n1 + J.n2, env.k
        i0 = n - k
        return i0, i0 + J.cnt(i0), lambda j: J.perm(sym.ite(num(j) < i0, j, J.enum(i0 + J.cnt(i0) - 1 - j)))

    def inv(env):
        J = env.g
        i0, n, ids = expect(env)
        m = env.new_model
        return [("as many peaks as are kept", num(m.vc_len()) == n),
                ("those not looked at yet, then those kept, in order", forall(1, lambda j: Implies(And(0 <= j, j < n), J.u(m.vc_item(j)) == ids(j))))]

    def havoc(env):
        J = env.g
        i0, n, ids = expect(env)
        seq.set_family(env.new_model, arr.simp(n), lambda j: IdPeak(J.F, ids(j)))
    return {(MCL + "join_adjacent", "for", 0): LoopSpec(inv, havoc=havoc, modifies=lambda env: [env.new_model])}


@contract("C15", "join_adjacent", functions=[MCL + "join_adjacent"], loops=join_loop, budget=400)
def join_contract(v):
    from diffpy.srmise import modelcluster
    MCm = modelcluster.ModelCluster
    S = data(v)
    J = type("J", (), {})()
    J.F = F = Peakset(v)
    F.v = v
    n = [v.int("n1", 0), v.int("n2", 0)]
    (lo1, hi1), (lo2, hi2) = slice_of(v, S.N, "lo1"), slice_of(v, S.N, "lo2")
    same = bool(v.bool("the first is the left one"))
    # L: the left one in the data
    v.expect_covers("both", "first only", "second only", "neither")
    bl = [any_baseline(v) for _ in "ab"] if bool(v.bool("baselines")) else [None, None]
    eqbl = v.bool("equal baselines")
    for b in bl:
        if b is not None:
            b.ident = SNum(z3.If(eqbl.t, 0, 1)) if b is bl[1] else num(0)
    share = {}
    mcs = []
    for w in (0, 1):
        mc = MCm.__new__(MCm)
        T = data(v)
        for nm, mine, other in (("r_data", S.r, T.r), ("y_data", S.y, T.y), ("y_error", S.e, T.e), ("error_method", Crit, type("Other", (Crit,), {}))):
            ok = True if w == 0 else share.setdefault(nm, bool(v.bool("shares " + nm)))
            setattr(mc, nm, mine if ok else other)
            if w and not ok:
                break
        for nm in ("r_data", "y_data", "y_error", "error_method"):
            mc.__dict__.setdefault(nm, getattr(mcs[0], nm) if mcs else None)
        mc.slice = slice(*((lo1, hi1) if w == 0 else (lo2, hi2)))
        mc.baseline = bl[w]
        mc.peak_funcs = [("f", w), ("f", 2)]
        mcs.append(mc)
    m1, m2 = mcs
    left1 = bool(lo1 < lo2)
    nL, nR = (n[0], n[1]) if left1 else (n[1], n[0])
    J.n1, J.n2 = nL, nR
    # peaks are numbered: those of the left cluster first
    def model(w):
        isleft = (w == 0) == left1
        cnt = n[w]
        m = F.model(cnt, (lambda j: num(j)) if isleft else (lambda j: nL + j))
        m.__dict__["copy"] = lambda: copied(m, cnt, isleft)
        m.__dict__["who"] = "original"
        return m
    log = []

    def adjustable(c):
        # adjusting heights may move the positions a little; the order must be restored
        c.__dict__["match_at"] = lambda x, y: (log.append((c, x, y)), c.__dict__.update(inorder=False))[0]

        def sort(reverse=False, key="position"):
            if "inorder" not in c.__dict__:
                raise core.Unsupported("sorting before the heights are adjusted")
            v.prove("sorted by position", key == "position" and not reverse)
            c.__dict__["inorder"] = True
        c.__dict__["sort"] = sort

    def copied(m, cnt, isleft):
        c = F.model(cnt, m_ids(isleft))
        c.__dict__["who"] = "copy"
        c.__dict__["argsort"] = sorting(c)
        adjustable(c)
        return c

    def m_ids(isleft):
        return (lambda j: num(j)) if isleft else (lambda j: nL + j)
    perm, rank = fun("perm", sym.I, sym.I), fun("rank", sym.I, sym.I)
    J.perm = perm
    tot = nL + nR

    def sorting(c):
        def argsort(key="position"):
            v.prove("the order asked for is that of the positions", key == "position")
            axioms()
            q = v.int("q", 0, tot)
            v.prove("the peaks sorted are those of both clusters, the left ones first", And(num(c.vc_len()) == tot, J.u(c.vc_item(q)) == q))
            return seq.SymList(tot, perm)
        return argsort
    J.u = lambda pk: pk.u if isinstance(pk, IdPeak) else num(-99)
    inr = lambda j: And(0 <= num(j), num(j) < tot)
    lefthi, rightlo = (hi1, lo2) if left1 else (hi2, lo1)
    spanlo, spanhi = (lo1, hi2) if left1 else (lo2, hi1)
    bx = (S.r.at(lefthi - 1) + S.r.at(rightlo)) / 2
    by = (S.y.at(lefthi - 1) + S.y.at(rightlo)) / 2
    P = lambda j: F.pos(perm(j))
    dup = lambda j: And(j > 0, P(j) == bx, P(num(j) - 1) == bx)
    stray = lambda j: And(Not(perm(j) == j), Or(And(P(j) > bx, perm(j) < nL), And(P(j) < bx, perm(j) >= nL)))
    drop = lambda j: Or(dup(j), stray(j))
    J.cnt, J.enum = fun("kept_from", sym.I, sym.I), fun("kept", sym.I, sym.I)
    cnt, enum = J.cnt, J.enum

    def axioms():
        v.assume(forall(1, lambda j: Implies(inr(j), And(0 <= perm(j), perm(j) < tot, rank(perm(j)) == j)), patterns=lambda j: [perm(j)]))
        v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i <= j, j < tot), F.pos(perm(i)) <= F.pos(perm(j))), patterns=lambda i, j: [[perm(i), perm(j)]]))
        v.assume(cnt(tot) == 0)
        count = lambda j: Implies(inr(j), And(cnt(j) == cnt(num(j) + 1) + sym.ite(drop(j), 0, 1), cnt(num(j) + 1) >= 0, Implies(Not(drop(j)), enum(cnt(num(j) + 1)) == j)))
        v.assume(forall(1, count, patterns=lambda j: [cnt(j)]))
        v.assume(forall(1, count, patterns=lambda j: [perm(j)]))

    m1.model, m2.model = model(0), model(1)
    before = [dict(m.__dict__) for m in mcs] + [dict(m.model.__dict__) for m in mcs]
    v.p.state["ghost"] = J
    made = []

    def Peaks(items=()):
        lst = seq.as_symlist(items)
        c = F.model(lst.n, lambda j: J.u(lst.fn(j)))
        adjustable(c)
        made.append(c)
        return c
    v.patch(modelcluster, "Peaks", Peaks)

    class Made(Stub):
        def __init__(self, *a):
            self.args = a
    v.patch(modelcluster, "ModelCluster", Made)
    r = v.call(MCm.join_adjacent, m1, m2)
    ok = And(*[SBool(z3.BoolVal(x)) for x in share.values()], lefthi == rightlo)
    blok = bl[0] is bl[1] if bl[0] is None or bl[1] is None else eqbl
    ok = And(ok, blok if isinstance(blok, SBool) else SBool(z3.BoolVal(bool(blok))))
    if not r.ok:
        v.prove("refused only with a value error", isinstance(r.exc, ValueError))
        v.prove("refused only when the data, criterion or baselines differ or the ranges do not touch", Not(ok))
        same = [m.__dict__ for m in mcs] + [m.model.__dict__ for m in mcs]
        v.prove("a refused join changes nothing", all(set(a) == set(b) and all(a[k] is b[k] for k in a) for a, b in zip(before, same)))
        return
    v.prove("joined only when everything is shared and the ranges touch", ok)
    res = r.value
    if not isinstance(res, Made) or len(res.args) != 8:
        raise core.Unsupported("the result is built in another way")
    model, b, rd, yd, ye, sl, em, pf = res.args
    v.prove("the result shares the data, criterion and baseline", rd is S.r and yd is S.y and ye is S.e and em is Crit and (b is bl[0] or b is bl[1]))
    v.prove("the result spans both ranges", And(num(sl.start) == spanlo, num(sl.stop) == spanhi, sl.step in (None, 1)))
    v.prove("functions of both", set(pf) == {("f", 0), ("f", 1), ("f", 2)})
    v.prove("no peak of the originals is shared or changed", model.__dict__.get("who") != "original")
    if bool(And(n[0] > 0, n[1] > 0)):
        v.cover("both")
        v.prove("as many peaks as are kept", num(model.vc_len()) == cnt(0))
        j = v.int("j", 0, tot)
        w = cnt(0) - 1 - cnt(num(j) + 1)
        v.assume(And(cnt(num(j) + 1) < cnt(0), cnt(j) >= 0))
        v.prove("every peak is kept, in position order, unless dropped by the rule", Implies(Not(drop(j)), J.u(model.vc_item(w)) == perm(j)))
        v.prove("the result is in position order after adjusting its heights", model.__dict__.get("inorder") is True)
        v.prove("the heights at the border are adjusted there", And(len(log) == 1 and log[0][0] is model, log[0][1] == bx, log[0][2] == by))
    else:
        v.prove("nothing is adjusted", len(log) == 0)
        a1 = bool(n[0] > 0)
        v.cover("first only" if a1 else "second only" if bool(n[1] > 0) else "neither")
        keep = n[0] if a1 else n[1]
        q = v.int("q", 0)
        off = num(0) if (a1 == left1) or not bool(keep > 0) else nL
        v.prove("the peaks are those of the cluster that has any", And(num(model.vc_len()) == keep, Implies(q < keep, J.u(model.vc_item(q)) == q + off)))
    same = [m.__dict__ for m in mcs] + [m.model.__dict__ for m in mcs]
    v.prove("the originals are unchanged", all(set(a) == set(b) and all(a[k] is b[k] for k in a) for a, b in zip(before, same)))
