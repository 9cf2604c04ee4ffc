from .dc import *  # noqa: F401,F403
from .dc import MOD, cls, covers, make, num, stub_nearest, valid_clusters, witness_state


def next_loop():
    def pair(env):
        return [sym.fresh_int("near"), sym.fresh_real("dist")]

    def havoc(env):
        s = env.g
        env.self.current_idx = sym.fresh_int("current_idx")
        s.own2 = z3.Function(core.path().name("own2"), sym.I, sym.I)

    def enter(env):
        s = env.g
        s.entry_ci = env.self.current_idx
        s.own2 = z3.Function(core.path().name("own2"), sym.I, sym.I)

    def step(env):
        # ghost update: a point found inside a cluster is owned by the cluster found
        s, old = env.g, env.g.own2
        ci, near = env.self.current_idx, env.nearest_cluster[0]
        s.own2 = lambda k: z3.If(k == t(ci), t(near), old(k))

    def inv(env):
        s, d = env.g, env.self
        ci = d.current_idx
        near, dist = env.nearest_cluster
        out = [("the cursor only moves down", And(num(ci) <= s.entry_ci, num(ci) >= 0)),
               ("clusters untouched", d.clusters.store.fn is s.loopC.store.fn and d.clusters.shape_ == s.loopC.shape_),
               ("points passed over were already clustered", forall(1, lambda k: Implies(
                   And(k > ci, k < s.entry_ci), covers(s.C, SNum(s.own2(t(k))), s.order.at(k))))),
               ("a zero distance means the cursor point is clustered", Implies(And(num(dist) == 0, num(ci) < s.entry_ci), covers(
                   s.C, SNum(s.own2(t(ci))), s.order.at(ci))))]
        if env.has("test_idx") and not type(env._loc["test_idx"]).__name__ == "Undef":
            ti = env.test_idx
            out.append(("the tested point is the one at the cursor", Implies(num(ci) < s.entry_ci, num(ti) == s.order.at(ci))))
            out.append(("the distance belongs to the tested point", Implies(num(ci) < s.entry_ci, And(*[c for _, c in nearest_facts(s.C, s.x, s.n, ti, near, dist)]))))
        out.append(("before the first step the distance is zero", Implies(num(ci) == s.entry_ci, num(dist) == 0)))
        return out
    sp = LoopSpec(inv, vars={"nearest_cluster": pair, "test_idx": "int"}, havoc=havoc,
                  modifies=lambda env: [(env.self, "current_idx")])
    sp.enter, sp.step = enter, step
    return {(MOD + "__next__", "while", 0): sp}


@contract("C01", "DataClusters.__next__", functions=[MOD + "__next__"], loops=next_loop)
def next_contract(v):
    D = cls()
    s = make(v)
    witness_state(v, s)
    d = s.d
    st = v.int("status", 1, 4)
    d.status = 1 if bool(st == 1) else (2 if bool(st == 2) else 3)
    old_status = d.status
    if d.status == d.DONE:
        v.assume(s.ci == 0)
    else:
        # READY or CLUSTERING: a cursor at 0 means the data has one point
        v.assume(Implies(s.ci == 0, s.n == 1))
    s.loopC = d.clusters
    stub_nearest(v, s)
    v.expect_covers("stops", "extends", "inserts")
    r = v.call(D.__next__, d)
    C, N = d.clusters, d.clusters.shape_[0]
    own = lambda k: SNum(z3.If(t(k) >= t(s.ci), s.own(t(k)), s.own2(t(k)))) if hasattr(s, "own2") else SNum(s.own(t(k)))
    if not r.ok:
        v.prove("only StopIteration may be raised", isinstance(r.exc, StopIteration))
        v.cover("stops")
        v.prove("iteration stops only in the finished state", d.status == d.DONE)
        v.prove("stopping leaves the clusters as they were", d.clusters.store.fn is s.C.store.fn)
        v.prove("iteration stops only when every point belongs to a cluster", forall(1, lambda k: Implies(
            And(0 <= k, k < s.n), covers(s.C, own(k), s.order.at(k)))))
        return
    ci = d.current_idx
    p = s.order.at(ci)
    v.prove("a step returns the object itself", r.value is d)
    v.prove("the step clusters a point not clustered before", forall(1, lambda i: Not(covers(s.C, i, p))))
    v.prove("every higher point was clustered already", forall(1, lambda k: Implies(And(k > ci, k < s.n), covers(s.C, own(k), s.order.at(k)))))
    lc = d.lastcluster_idx
    inserted = bool(num(N) != s.N)
    v.cover("inserts" if inserted else "extends")
    v.prove("at most one cluster is added", Or(num(N) == s.N, num(N) == num(s.N) + 1))
    for nm, c in valid_clusters(C, s.n):
        v.prove("after a step: " + nm, c)
    v.prove("the clustered point is reported and covered", And(num(d.lastpoint_idx) == p, covers(C, lc, p)))
    new_own = (lambda i: sym.ite(num(i) < lc, i, num(i) + 1)) if inserted else (lambda i: i)
    v.prove("no point is unclustered", forall(2, lambda i, q: Implies(covers(s.C, i, q), covers(C, new_own(i), q))))
    v.prove("points from the cursor on are clustered", forall(1, lambda k: Implies(And(num(ci) <= k, k < s.n), covers(
        C, sym.ite(num(k) == ci, lc, new_own(own(k))), s.order.at(k)))))
    v.prove("status is running, or finished exactly when the cursor is exhausted",
            Or(And(d.status == d.CLUSTERING, num(ci) > 0), And(d.status == d.DONE, num(ci) == 0)))


@contract("C01", "DataClusters.__next__ before data", functions=[MOD + "__next__"], loops=next_loop)
def next_init(v):
    s = make(v, status=0)
    v.refuses("stepping without data", Exception, cls().__next__, s.d)


@contract("C01", "DataClusters.reset_clusters", functions=[MOD + "reset_clusters"])
def reset_contract(v):
    s = make(v)
    witness_state(v, s)
    d = s.d
    st = v.int("status", 0, 4)
    d.status = [0, 1, 2][int(0)] if bool(st == 0) else (1 if bool(st == 1) else (2 if bool(st == 2) else 3))
    old = d.status
    v.must("reset", cls().reset_clusters, d)
    top = s.order.at(num(s.n) - 1)
    C = d.clusters
    v.prove("one cluster remains", C.shape_ == (1, 2))
    v.prove("it holds exactly the highest point", And(C.at(0, 0) == top, C.at(0, 1) == top))
    v.prove("it is the highest point", forall(1, lambda k: Implies(And(0 <= k, k < s.n), s.y.at(s.order.at(k)) <= s.y.at(top))))
    v.prove("the cursor restarts at the highest point", And(num(d.current_idx) == num(s.n) - 1, num(d.lastpoint_idx) == top))
    v.prove("status is ready unless never initialised", d.status == (0 if old == 0 else 1))
    v.prove("data and order are untouched", d.x is s.x and d.y is s.y and d.data_order is s.order)
    for nm, c in valid_clusters(C, s.n):
        v.prove("after reset: " + nm, c)


@contract("C01", "DataClusters.__init__", functions=[MOD + "__init__", MOD + "_clear", MOD + "_setdata"])
def init_contract(v):
    D = cls()
    n, m = v.int("n", 0), v.int("m", 0)
    x, y = v.array("x", n), v.array("y", m)
    res = v.real("res")
    v.expect_covers("refused", "empty", "ready")
    r = v.call(D, x, y, res)
    if not r.ok:
        v.cover("refused")
        v.prove("construction is refused only with a value error", isinstance(r.exc, ValueError))
        v.prove("construction is refused only for unequal lengths or negative resolution", Or(n != m, res < 0))
        return
    d = r.value
    v.prove("equal lengths and non-negative resolution are required", And(n == m, res >= 0))
    v.prove("data are kept", d.x is x and d.y is y and d.res is res)
    if d.status == d.INIT:
        v.cover("empty")
        v.prove("only empty data stay uninitialised", n == 0)
        return
    v.cover("ready")
    v.prove("data make it ready", And(d.status == d.READY, n > 0))
    C = d.clusters
    v.prove("one cluster", C.shape_ == (1, 2))
    top = C.at(0, 0)
    v.prove("it holds one point", And(C.at(0, 1) == top, 0 <= top, num(top) < n))
    v.prove("it is a highest point", forall(1, lambda k: Implies(And(0 <= k, k < n), y.at(d.data_order.at(k)) <= y.at(top))))
    v.prove("the order lists every point", forall(1, lambda i: Implies(And(0 <= i, i < n), d.data_order.at(SNum(d.data_order.rank(t(i)))) == i)) if hasattr(d.data_order, "rank") else False)
    v.prove("the cursor is at the highest point", And(num(d.current_idx) == n - 1, d.data_order.at(d.current_idx) == top, num(d.lastpoint_idx) == top))


def makeclusters_loop():
    def havoc(env):
        s, d = env.g, env.self
        p = core.path()
        s.N = sym.fresh_int("N", 1)
        s.C = base_array("c", (s.N, 2), "i")
        d.clusters = s.C
        d.current_idx = sym.fresh_int("current_idx")
        d.lastpoint_idx = sym.fresh_int("lastpoint")
        d.lastcluster_idx = sym.fresh_int("lastcluster")
        s.status_now = sym.fresh_int("status")
        d.status = s.status_now
        s.own = z3.Function(p.name("own"), sym.I, sym.I)

    def inv(env):
        s, d = env.g, env.self
        C = d.clusters
        ci = d.current_idx
        return [(nm, c) for nm, c in valid_clusters(C, s.n)] + [
            ("cursor in range", And(0 <= num(ci), num(ci) < s.n)),
            ("status", Or(num(d.status) == 1, num(d.status) == 2, num(d.status) == 3)),
            ("finished iff exhausted", And(Implies(num(d.status) == 3, num(ci) == 0), Implies(And(num(ci) == 0, num(d.status) != 3), num(s.n) == 1))),
            ("points from the cursor on are clustered", forall(1, lambda k: Implies(And(num(ci) <= k, k < s.n), covers(C, SNum(s.own(t(k))), s.order.at(k)))))]
    sp = LoopSpec(inv, vars={}, havoc=havoc, modifies=lambda env: [env.self] + [(env.self, a) for a in (
        "clusters", "current_idx", "lastpoint_idx", "lastcluster_idx", "status")])
    sp.proto = True
    return {(MOD + "makeclusters", "for", 0): sp}


@contract("C01", "DataClusters.makeclusters", functions=[MOD + "makeclusters", MOD + "__iter__"], loops=makeclusters_loop)
def makeclusters_contract(v):
    D = cls()
    s = make(v)
    witness_state(v, s)
    d = s.d
    st = v.int("status", 1, 4)
    d.status = st
    v.assume(And(Implies(st == 3, s.ci == 0), Implies(And(s.ci == 0, st != 3), s.n == 1)))

    def stub_next(self):
        # contract of __next__ (proved above)
        C, N = self.clusters, self.clusters.shape_[0]
        if bool(v.bool("stop")):
            own2 = z3.Function(v.p.name("ownall"), sym.I, sym.I)
            v.assume(forall(1, lambda k: Implies(And(0 <= k, k < s.n), covers(C, SNum(own2(t(k))), s.order.at(k)))))
            self.status = 3
            self.current_idx = v.int("current_idx", 0, s.n)
            s.own = own2
            raise StopIteration
        s.N = v.int("N", 1)
        C2 = base_array("c", (s.N, 2), "i")
        for nm, c in valid_clusters(C2, s.n):
            v.assume(c)
        self.clusters = C2
        self.current_idx = v.int("current_idx", 0, s.n)
        self.lastpoint_idx = v.int("lastpoint")
        self.lastcluster_idx = v.int("lastcluster")
        own2 = z3.Function(v.p.name("own"), sym.I, sym.I)
        v.assume(forall(1, lambda k: Implies(And(self.current_idx <= k, k < s.n), covers(C2, SNum(own2(t(k))), s.order.at(k)))))
        self.status = v.int("status", 2, 4)
        v.assume((self.status == 3) == SBool((self.current_idx == 0).t))
        s.own = own2
        return self
    v.patch(D, "__next__", stub_next)
    v.must("makeclusters", D.makeclusters, d)
    C = d.clusters
    # membership of an arbitrary data point i: its rank in the order
    i = v.int("i", 0, s.n)
    k = SNum(s.order.rank(t(i)))
    v.prove("when clustering finishes every point belongs to a cluster", covers(C, SNum(s.own(t(k))), i))
    j1, j2 = v.int("j1"), v.int("j2")
    v.prove("and to only one", Implies(And(covers(C, j1, i), covers(C, j2, i)), j1 == j2))
    for nm, c in valid_clusters(C, s.n):
        v.prove("when finished: " + nm, c)
