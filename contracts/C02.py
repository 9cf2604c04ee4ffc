from .C01 import next_loop
from .dc import *  # noqa: F401,F403
from .dc import MOD, cls, covers, make, nearest_facts, num, sabs, stub_nearest, witness_state


@contract("C02", "DataClusters.find_nearest_cluster", functions=[MOD + "find_nearest_cluster"])
def nearest_contract(v):
    s = make(v)
    d = s.d
    idx = v.int("idx", 0, s.n)
    witness_state(v, s)
    base = v.p.state["witness"]
    v.witness(lambda ev: dict(base(ev), idx=ev(idx), kind="nearest"))
    r = v.must("query", cls().find_nearest_cluster, d, idx)
    k, dist = r[0], r[1]
    for nm, c in nearest_facts(s.C, s.x, s.n, idx, k, dist):
        v.prove(nm, c)
    v.prove("the query changes nothing", d.clusters.store.fn is s.C.store.fn and d.clusters.store.ver == 0 and d.x is s.x and d.current_idx is s.ci)
    v.prove("the closest end is nearest of all cluster ends", forall(1, lambda i: Implies(And(0 <= i, i < s.N), And(
        sabs(s.x.at(idx) - s.x.at(s.C.at(i, 0))) >= sabs(dist), sabs(s.x.at(idx) - s.x.at(s.C.at(i, 1))) >= sabs(dist)))))


@contract("C02", "DataClusters.find_nearest_cluster2", functions=[MOD + "find_nearest_cluster2"])
def nearest2_contract(v):
    s = make(v)
    d = s.d
    x = v.real("coordinate")
    witness_state(v, s)
    base = v.p.state["witness"]
    v.witness(lambda ev: dict(base(ev), coord=ev(x), kind="nearest2"))
    asked = []

    def find_nearest_cluster(self, idx):
        v.prove("a data index is asked about", And(0 <= num(idx), num(idx) < s.n))
        token = [v.int("k"), v.real("dist")]
        asked.append((idx, token))
        return token
    v.patch(cls(), "find_nearest_cluster", find_nearest_cluster)
    v.expect_covers("left of data", "right of data", "inside")
    r = v.must("query", cls().find_nearest_cluster2, d, x)
    if len(asked) != 1:
        raise core.Unsupported("find_nearest_cluster2 no longer asks find_nearest_cluster exactly once")
    q, token = asked[0]
    if bool(x < s.x.at(0)):
        v.cover("left of data")
    elif bool(x > s.x.at(num(s.n) - 1)):
        v.cover("right of data")
    else:
        v.cover("inside")
    v.prove("the answer is the one for the asked point", r is token)
    v.prove("the point asked about is the data point nearest to x", forall(1, lambda i: Implies(And(0 <= i, i < s.n),
                                                                                            sabs(s.x.at(i) - x) >= sabs(s.x.at(q) - x))))


@contract("C02", "uninitialised queries", functions=[MOD + "find_nearest_cluster", MOD + "find_nearest_cluster2"])
def init_refused(v):
    s = make(v, status=0)
    v.refuses("index query", Exception, cls().find_nearest_cluster, s.d, v.int("i", 0, s.n))
    v.refuses("coordinate query", Exception, cls().find_nearest_cluster2, s.d, v.real("c"))


@contract("C02", "DataClusters.__next__ resolution rule", functions=[MOD + "__next__"], loops=next_loop)
def rule_contract(v):
    D = cls()
    s = make(v)
    d = s.d
    v.assume(Implies(s.ci == 0, s.n == 1))
    witness_state(v, s)
    s.loopC = d.clusters
    stub_nearest(v, s)
    v.expect_covers("opens", "extends")
    r = v.call(D.__next__, d)
    if not r.ok:
        v.prove("only StopIteration may be raised", isinstance(r.exc, StopIteration))
        return
    p = s.order.at(d.current_idx)
    C, N, lc = d.clusters, d.clusters.shape_[0], d.lastcluster_idx
    C0, x = s.C, s.x

    def dist(i):
        # distance of the point from cluster i
        return sym.ite(num(p) < C0.at(i, 0), x.at(C0.at(i, 0)) - x.at(p), sym.ite(num(p) > C0.at(i, 1), x.at(p) - x.at(C0.at(i, 1)), 0))
    if bool(num(N) != s.N):
        v.cover("opens")
        v.prove("a cluster is opened only when every cluster is further than the resolution", forall(1, lambda i: Implies(And(0 <= i, i < s.N), dist(i) > s.res)))
        v.prove("the new cluster holds just the point", And(0 <= num(lc), num(lc) < N, C.at(lc, 0) == p, C.at(lc, 1) == p, num(N) == num(s.N) + 1))
        v.prove("the other clusters are unchanged", forall(1, lambda i: Implies(And(0 <= i, i < s.N), And(
            C.at(sym.ite(i < lc, i, i + 1), 0) == C0.at(i, 0), C.at(sym.ite(i < lc, i, i + 1), 1) == C0.at(i, 1)))))
    else:
        v.cover("extends")
        v.prove("the reported cluster exists", And(0 <= num(lc), num(lc) < s.N))
        v.prove("an extended cluster is within the resolution", dist(lc) <= s.res)
        v.prove("the extended cluster is a nearest one", forall(1, lambda i: Implies(And(0 <= i, i < s.N), dist(i) >= dist(lc))))
        v.prove("it is extended exactly to the point", And(
            C.at(lc, 0) == sym.ite(num(p) < C0.at(lc, 0), p, C0.at(lc, 0)),
            C.at(lc, 1) == sym.ite(num(p) > C0.at(lc, 1), p, C0.at(lc, 1))))
        v.prove("the other clusters are unchanged", forall(1, lambda i: Implies(And(0 <= i, i < s.N, Not(i == lc)), And(
            C.at(i, 0) == C0.at(i, 0), C.at(i, 1) == C0.at(i, 1)))))
