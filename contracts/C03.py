from ded import seq
from .dc import *  # noqa: F401,F403
from .dc import MOD, base_array, cls, covers, make, num, valid_clusters, witness_state


def gap(C, i):
    return C.at(num(i) + 1, 0) - C.at(i, 1)


# --- find_adjacent_clusters -----------------------------------------------------
def adjacent_loops():
    R = lambda a: seq.as_symlist(a)

    def lo(a, r):
        e = R(a).fn(r)
        return e.lo if hasattr(e, "lo") else (e.start if isinstance(e, range) else e[0])

    def hi(a, r):
        e = R(a).fn(r)
        return (num(e.hi) if hasattr(e, "hi") else num(e.stop)) - 1

    def runs_ok(s, a, L):
        C, N = s.C, s.N
        n = R(a).n
        if not isinstance(n, SNum) and n == 0:
            basic = []
        else:
            basic = [
                ("runs are maximal stretches of adjacent clusters", forall(1, lambda r: Implies(And(0 <= r, r < n), And(
                    0 <= num(lo(a, r)), num(lo(a, r)) < hi(a, r), hi(a, r) < L, hi(a, r) <= num(N) - 1,
                    Or(num(lo(a, r)) == 0, Not(gap(C, num(lo(a, r)) - 1) == 1)),
                    Or(hi(a, r) == num(N) - 1, Not(gap(C, hi(a, r)) == 1)))))),
                ("clusters of a run are adjacent", forall(2, lambda r, i: Implies(And(0 <= r, r < n, lo(a, r) <= i, i < hi(a, r)), gap(C, i) == 1))),
                ("runs are ordered", forall(2, lambda r, q: Implies(And(0 <= r, r < q, q < n), hi(a, r) < lo(a, q))))]
        return basic + [
            ("every adjacent pair passed over is in a run", forall(1, lambda i: Implies(And(0 <= i, i < L, i < num(N) - 1, gap(C, i) == 1),
                                                                               And(0 <= s.run(i), s.run(i) < n, _lo(s, a, i) <= i, num(i) < _hi(s, a, i)) if not (not isinstance(n, SNum) and n == 0) else False)))]

    def _lo(s, a, i):
        return num(lo(a, s.run(i)))

    def _hi(s, a, i):
        return num(hi(a, s.run(i)))

    def outer_inv(env):
        s, L = env.g, env.left_idx
        return [("left index is valid", And(0 <= num(L), num(L) <= s.N)),
                ("scan stopped at the end of a run or a gap", Implies(num(L) > 0, Or(num(L) >= s.N, Not(gap(s.C, num(L) - 1) == 1))))] + runs_ok(s, env.adj, L)

    def new_list(env):
        p = core.path()
        nm = p.name("runs")
        f, g = z3.Function(nm + ".lo", sym.I, sym.I), z3.Function(nm + ".hi", sym.I, sym.I)
        n = sym.fresh_int("nruns", 0)
        return seq.SymList(n, lambda r: seq.SymRange(SNum(f(t(r))), SNum(g(t(r))) + 1))

    def outer_enter(env):
        s = env.g
        f = z3.Function(core.path().name("run"), sym.I, sym.I)
        s.run = lambda i: SNum(f(t(i)))

    def outer_havoc(env):
        outer_enter(env)
        env.g.nold = seq.as_symlist(env.adj).n
        env.g.L0 = env.left_idx

    def outer_step(env):
        # ghost: pairs met in this iteration belong to the run just appended (if any)
        s, old = env.g, env.g.run
        L0, nold = s.L0, s.nold
        s.run = lambda i: sym.ite(num(i) >= L0, nold, old(i))

    outer = LoopSpec(outer_inv, vars={"left_idx": "int", "adj": new_list}, havoc=outer_havoc)
    outer.enter, outer.step = outer_enter, outer_step

    def in1_enter(env):
        env.g.L1 = env.left_idx

    def in1(env):
        s, L = env.g, env.left_idx
        return [("left index moves right inside the clusters", And(num(L) >= s.L1, Or(num(L) == s.L1, num(L) <= num(s.N) - 1))),
                ("clusters passed over are not adjacent to the next", forall(1, lambda i: Implies(And(s.L1 <= i, i < L), Not(gap(s.C, i) == 1))))]
    i1 = LoopSpec(in1, vars={"left_idx": "int"})
    i1.enter = in1_enter

    def in2(env):
        s, L, Rr = env.g, env.left_idx, env.right_idx
        return [("right index moves right inside the clusters", And(num(Rr) >= L, Or(num(Rr) == L, num(Rr) <= num(s.N) - 1))),
                ("clusters passed over are adjacent to the next", forall(1, lambda i: Implies(And(num(L) <= i, i < Rr), gap(s.C, i) == 1)))]
    i2 = LoopSpec(in2, vars={"right_idx": "int"})
    f = MOD + "find_adjacent_clusters"
    return {(f, "while", 0): outer, (f, "while", 1): i1, (f, "while", 2): i2}


@contract("C03", "DataClusters.find_adjacent_clusters", functions=[MOD + "find_adjacent_clusters"], loops=adjacent_loops)
def adjacent_contract(v):
    s = make(v)
    d = s.d
    witness_state(v, s)
    v.expect_covers("none", "equal", "ragged")
    res = v.must("query", cls().find_adjacent_clusters, d)
    C, N = s.C, s.N
    n = res.shape_[0]
    v.prove("the query changes nothing", d.clusters.store.ver == 0)
    if res.ndim == 2:
        v.cover("equal")
        m = res.shape_[1]
        lo, hi = (lambda r: res.at(r, 0)), (lambda r: res.at(r, num(m) - 1))
        v.prove("each run lists consecutive cluster indices", forall(2, lambda r, j: Implies(And(0 <= r, r < n, 0 <= j, j < m), res.at(r, j) == num(lo(r)) + j)))
    elif not isinstance(n, SNum) and n == 0:
        v.cover("none")
        v.prove("no run is reported only when no clusters are adjacent", forall(1, lambda i: Implies(And(0 <= i, i < num(N) - 1), Not(gap(C, i) == 1))))
        return
    else:
        v.cover("ragged")
        if res.kind != "o":
            v.prove("runs are sequences of cluster indices", False)
        lo, hi = (lambda r: num(res.at(r).lo)), (lambda r: num(res.at(r).hi) - 1)
    i = v.int("i", 0)
    v.assume(i < num(N) - 1)
    r, q = v.int("r", 0), v.int("q", 0)
    v.assume(And(r < n, q < n))
    v.prove("runs have at least two clusters of the object", And(0 <= num(lo(r)), num(lo(r)) < hi(r), num(hi(r)) < N))
    v.prove("clusters inside a run are adjacent", Implies(And(lo(r) <= i, i < hi(r)), gap(C, i) == 1))
    v.prove("runs are maximal", And(Or(num(lo(r)) == 0, Not(gap(C, num(lo(r)) - 1) == 1)), Or(num(hi(r)) == num(N) - 1, Not(gap(C, hi(r)) == 1))))
    v.prove("runs are disjoint and ordered", Implies(r < q, num(hi(r)) < lo(q)))
    v.prove("every adjacent pair belongs to a reported run", Implies(gap(C, i) == 1, And(0 <= s.run(i), s.run(i) < n, num(lo(s.run(i))) <= i, i < hi(s.run(i)))))


# --- combine_clusters -------------------------------------------------------------
def combine_loops():
    def inv(env):
        # pairs checked so far are adjacent
        s = env.g
        c = env.c
        at = lambda j: c[j] if isinstance(c, (list, range)) else (c.at(j) if isinstance(c, Arr) else c.fn(j))
        k = env.k
        return [("pairs checked so far are consecutive and adjacent", forall(1, lambda j: Implies(And(0 <= j, j < k), And(
            num(at(num(j) + 1)) == num(at(j)) + 1, gap(s.C, at(j)) == 1))))]
    return {(MOD + "combine_clusters", "for", 1): LoopSpec(inv)}


def combine_case(v, ngroups):
    s = make(v)
    d = s.d
    groups, at = [], []
    for g in range(ngroups):
        m = v.int("len%d" % g, 1)
        a = v.array("group%d" % g, m, "i")
        v.assume(forall(1, lambda j: Implies(And(0 <= j, j < m), And(0 <= a.at(j), a.at(j) < s.N))))
        groups.append(seq.SymList(m, (lambda a: lambda j: a.at(j))(a)))
        at.append(a)
    witness_state(v, s)
    base = v.p.state["witness"]
    v.witness(lambda ev: dict(base(ev), kind="combine", groups=[[ev(a.at(j)) for j in range(min(5, ev(num(g.n))))] for g, a in zip(groups, at)]))
    v.expect_covers("combined", "refused")
    r = v.call(cls().combine_clusters, d, groups)
    C, N = s.C, s.N
    # an arbitrary pair of positions in the request
    valid = And(*[forall(1, lambda j: Implies(And(0 <= j, j < num(g.n) - 1), And(
        num(a.at(num(j) + 1)) == num(a.at(j)) + 1, gap(C, a.at(j)) == 1))) for g, a in zip(groups, at)])
    distinct = And(*[forall(2, lambda i, j: Implies(And(0 <= i, i < g.n, 0 <= j, j < h.n, Not(And(gi == hi, i == j))), Not(num(a.at(i)) == b.at(j))))
                     for gi, (g, a) in enumerate(zip(groups, at)) for hi, (h, b) in enumerate(zip(groups, at)) if gi <= hi])
    if not r.ok:
        v.cover("refused")
        v.prove("a refusal is a value error", isinstance(r.exc, ValueError))
        v.prove("a refused request leaves the clusters unchanged", d.clusters.store.fn is C.store.fn and d.clusters.shape_ == C.shape_)
        v.prove("only an invalid request is refused", Not(And(valid, distinct)))
        return
    v.cover("combined")
    v.prove("an accepted request is consecutive and adjacent", valid)
    v.prove("an accepted request names no cluster twice", distinct)
    D, M = d.clusters, d.clusters.shape_[0]
    last = lambda g, a: a.at(num(g.n) - 1)
    v.prove("a group covers positions by index", And(*[forall(1, lambda u: Implies(And(0 <= u, u < g.n), num(a.at(u)) == num(a.at(0)) + u)) for g, a in zip(groups, at)]),
            via=induction_consecutive(groups, at))
    # restated over cluster indices (substituting u = j - first)
    for g, a in zip(groups, at):
        j = v.int("j_run")
        v.prove("clusters inside a run are adjacent", Implies(And(num(a.at(0)) <= j, j < last(g, a)), And(num(a.at(j - a.at(0))) == j, gap(C, j) == 1)))
        v.assume(forall(1, lambda j: Implies(And(num(a.at(0)) <= j, j < last(g, a)), gap(C, j) == 1)))  # generalisation of the fresh j
        u = v.int("u_run")
        v.prove("a run is listed by position", Implies(And(0 <= u, u < num(g.n)), And(num(a.at(0)) <= a.at(u), num(a.at(u)) <= last(g, a))))
    if ngroups == 2:
        (g0, g1), (a0, a1) = groups, at
        x0, x1, y0, y1 = a0.at(0), last(g0, a0), a1.at(0), last(g1, a1)
        # overlapping index intervals would share a named cluster
        m = sym.ite(num(x0) > y0, x0, y0)
        v.prove("a shared index would be named twice", Implies(And(num(x0) <= y1, num(y0) <= x1), num(a0.at(num(m) - x0)) == a1.at(num(m) - y0)))
        v.prove("the runs do not overlap", Or(num(x1) < y0, num(y1) < x0))
    sel = deletion(v, M)
    q, i, i2 = v.int("q"), v.int("i", 0), v.int("i2", 0)
    v.assume(And(i < i2, i2 < M))
    isgroup = lambda o: [num(o) == a.at(0) for a in at]

    def describe(i):
        o = sel.sel(i)
        for g, a in zip(groups, at):
            v.prove("clusters merged away are not kept", Not(And(num(o) > a.at(0), num(o) <= last(g, a))) if False else
                    Implies(And(num(o) > a.at(0), num(o) <= last(g, a)), num(a.at(num(o) - a.at(0))) == o))
            v.prove("the kept clusters are not merged away", Not(And(num(o) > a.at(0), num(o) <= last(g, a))))
        v.prove("a resulting cluster is an old one or spans one requested run", And(
            0 <= num(o), num(o) < N, D.at(i, 0) == C.at(o, 0),
            And(*[Implies(ig, D.at(i, 1) == C.at(last(g, a), 1)) for ig, g, a in zip(isgroup(o), groups, at)]),
            Implies(Not(Or(*isgroup(o))), D.at(i, 1) == C.at(o, 1))))
        return o
    o1, o2 = describe(i), describe(i2)
    v.prove("after combining: clusters are non-empty ranges inside the data", And(0 <= D.at(i, 0), D.at(i, 0) <= D.at(i, 1), D.at(i, 1) < s.n))
    v.prove("after combining: clusters are ordered and disjoint", And(num(o1) < o2, D.at(i, 1) < D.at(i2, 0)))
    # point-wise: covered before implies covered after
    j = v.int("j", 0)
    v.assume(j < N)
    rep = j
    for g, a in zip(groups, at):
        rep = sym.ite(And(num(a.at(0)) <= j, num(j) <= last(g, a)), a.at(0), rep)
    w = sel.rank(rep)
    v.prove("one cluster remains per run", And(0 <= num(w), num(w) < M, num(sel.sel(w)) == rep))
    v.prove("covered points stay covered", Implies(covers(C, j, q), covers(D, w, q)))
    # converse: nothing between the ends of a new cluster was unclustered (the runs have no gaps, proved above)


def deletion(v, M):
    sels = list({id(x): x for x in v.p.state.get("selections", {}).values() if not isinstance(x, tuple)}.values())
    if len(sels) != 1:
        raise core.Unsupported("the rows to keep are not selected by one deletion")
    return sels[0]


def induction_consecutive(groups, at):
    """a[u+1] == a[u]+1 for all u implies a[u] == a[0]+u: by induction on u."""
    def via(path, phi):
        tot = 0.0
        for g, a in zip(groups, at):
            u = z3.Int(path.name("u_ind"))
            n = t(g.n)
            base = a.at(0).t == a.at(0).t + 0
            hyp = z3.And(u >= 0, u + 1 < n, a.at(SNum(u)).t == a.at(0).t + u)
            st = core.discharge(path.pc + [hyp], a.at(SNum(u) + 1).t == a.at(0).t + u + 1, 20000)
            if st[0] != "discharged":
                return st
        return "discharged", "z3 (induction step)", None, ""
    return via


@contract("C03", "DataClusters.combine_clusters, one group", functions=[MOD + "combine_clusters"], loops=combine_loops)
def combine1(v):
    combine_case(v, 1)


@contract("C03", "DataClusters.combine_clusters, two groups", functions=[MOD + "combine_clusters"], loops=combine_loops,
          bounded="two groups of arbitrary length")
def combine2(v):
    combine_case(v, 2)


# --- cut and fullness -----------------------------------------------------------------
@contract("C03", "DataClusters.cut by index", functions=[MOD + "cut"])
def cut_contract(v):
    s = make(v)
    i = v.int("idx", 0, s.N)
    witness_state(v, s)
    base = v.p.state["witness"]
    v.witness(lambda ev: dict(base(ev), kind="cut", idx=ev(i)))
    r = v.must("cut", cls().cut, s.d, i)
    v.prove("a single slice", isinstance(r, slice) and r.step is None)
    v.prove("exactly the points of the cluster", And(num(r.start) == s.C.at(i, 0), num(r.stop) == s.C.at(i, 1) + 1))
    v.prove("cutting changes nothing", s.d.clusters.store.ver == 0)


def cut_seq_loops():
    return {}


@contract("C03", "DataClusters.cut by sequence", functions=[MOD + "cut"])
def cutseq_contract(v):
    s = make(v)
    m = v.int("m", 1)
    ids = v.array("ids", m, "i")
    v.assume(forall(1, lambda j: Implies(And(0 <= j, j < m), And(0 <= ids.at(j), ids.at(j) < s.N))))
    r = v.must("cut", cls().cut, s.d, ids)
    r = seq.as_symlist(r)
    j = v.int("j", 0, m)
    v.prove("one slice per index", num(r.n) == m)
    e = r.fn(j)
    v.prove("exactly the points of each cluster", And(num(e.start) == s.C.at(ids.at(j), 0), num(e.stop) == s.C.at(ids.at(j), 1) + 1))


@contract("C03", "DataClusters.cluster_is_full", functions=[MOD + "cluster_is_full"])
def full_contract(v):
    s = make(v)
    i = v.int("idx", 0, s.N)
    witness_state(v, s)
    base = v.p.state["witness"]
    v.witness(lambda ev: dict(base(ev), kind="full", idx=ev(i)))
    r = v.must("query", cls().cluster_is_full, s.d, i)
    C = s.C
    lo, hi = C.at(i, 0), C.at(i, 1)
    free = lambda p: And(0 <= num(p), num(p) < s.n, forall(1, lambda j: Not(covers(C, j, p))))
    v.expect_covers("full", "not full")
    full = bool(SBool(sym.bt(r)))
    v.cover("full" if full else "not full")
    v.prove("full exactly when no unclustered point touches either end", SBool(z3.BoolVal(full) == Not(Or(free(lo - 1), free(num(hi) + 1))).t))
