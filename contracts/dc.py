"""Symbolic DataClusters states, their representation invariant, and callee contracts."""
import z3

from ded import arr, core, sym
from ded.arr import Arr, base_array
from ded.contract import contract
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t
from ded.vcrt import LoopSpec

MOD = "diffpy.srmise.dataclusters.DataClusters."


def cls():
    from diffpy.srmise.dataclusters import DataClusters
    return DataClusters


def strictly_increasing(x, n):
    return forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), x.at(i) < x.at(j)),
                  patterns=lambda i, j: [[x.at(i), x.at(j)]])


def valid_clusters(C, n):
    """Non-empty index ranges inside the data, increasing and pairwise disjoint."""
    N = C.shape_[0]
    return [
        ("at least one cluster", num(N) >= 1),
        ("clusters are non-empty ranges inside the data", forall(1, lambda i: Implies(And(0 <= i, i < N), And(
            0 <= C.at(i, 0), C.at(i, 0) <= C.at(i, 1), C.at(i, 1) < n)))),
        ("clusters are ordered and disjoint", forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < N), C.at(i, 1) < C.at(j, 0)))),
    ]


def covers(C, i, p):
    return And(0 <= i, num(i) < C.shape_[0], C.at(i, 0) <= p, num(p) <= C.at(i, 1))


class St:
    pass


def make(v, nclusters=None, n=None, status=None):
    """An arbitrary DataClusters object in a valid state (data strictly increasing in x)."""
    D = cls()
    s = St()
    s.n = n = v.int("n", 1) if n is None else n
    s.x = v.array("x", n)
    s.y = v.array("y", n)
    v.assume(strictly_increasing(s.x, n))
    s.N = v.int("N", 1) if nclusters is None else nclusters
    s.C0 = base_array("c", (s.N, 2), "i")
    s.res = v.real("res", 0)
    d = s.d = object.__new__(D)
    d.INIT, d.READY, d.CLUSTERING, d.DONE = 0, 1, 2, 3
    d.x, d.y, d.res = s.x, s.y, s.res
    s.order = arr.a_argsort(s.y)
    d.data_order = s.order
    d.clusters = s.C0.snapshot()
    for nm, c in valid_clusters(s.C0, n):
        v.assume(c)
    # useful consequence of the two facts above, instantiated for consecutive clusters
    s.ci = v.int("ci", 0)
    v.assume(s.ci < n)
    d.current_idx = s.ci
    d.lastcluster_idx = v.int("lastcluster")
    d.lastpoint_idx = v.int("lastpoint", 0, n)
    d.status = d.CLUSTERING if status is None else status
    s.own = z3.Function(v.p.name("own"), sym.I, sym.I)
    v.assume(forall(1, lambda k: Implies(And(s.ci <= k, k < n), covers(s.C0, SNum(s.own(t(k))), s.order.at(k))),
                    patterns=lambda k: [SNum(s.own(t(k)))]))
    # instantiation helper: ranks of points
    s.C = s.C0.snapshot()
    v.p.state["ghost"] = s
    return s


def sabs(a):
    return sym.fabs(num(a))


def nearest_facts(C, x, n, idx, k, d):
    """The full specification of the nearest-cluster query for a data index."""
    N = C.shape_[0]
    left = x.at(idx) - x.at(C.at(k, 0))
    right = x.at(idx) - x.at(C.at(k, 1))
    return [
        ("reports an existing cluster", And(0 <= k, num(k) < N)),
        ("zero distance exactly inside the cluster", (num(d) == 0) == SBool(covers(C, k, idx).t)),
        ("negative distance when the point lies left of the cluster", (num(d) < 0) == SBool((num(idx) < C.at(k, 0)).t)),
        ("positive distance when the point lies right of the cluster", (num(d) > 0) == SBool((num(idx) > C.at(k, 1)).t)),
        ("distance is measured to the closest end", And(Implies(num(d) < 0, num(d) == left), Implies(num(d) > 0, num(d) == right))),
        ("no other cluster is closer", forall(1, lambda i: Implies(And(0 <= i, i < N), And(
            Implies(num(idx) < C.at(i, 0), x.at(C.at(i, 0)) - x.at(idx) >= sabs(d)),
            Implies(num(idx) > C.at(i, 1), x.at(idx) - x.at(C.at(i, 1)) >= sabs(d)),
            Implies(covers(C, i, idx), num(d) == 0))))),
        ("no cluster lies between the point and the reported one", forall(1, lambda i: Implies(And(0 <= i, i < N), And(
            Implies(And(num(d) < 0, i < k), C.at(i, 1) < idx),
            Implies(And(num(d) > 0, i > k), C.at(i, 0) > idx))))),
    ]


def stub_nearest(v, s):
    """Callee contract of find_nearest_cluster (proved for the real function in C02)."""
    def find_nearest_cluster(self, idx):
        v.prove("find_nearest_cluster is asked about a data index", And(0 <= num(idx), num(idx) < s.n))
        k = sym.fresh_int("near")
        d = sym.fresh_real("dist")
        C = self.clusters.snapshot()
        for nm, c in nearest_facts(C, s.x, s.n, idx, k, d):
            v.assume(c)
        return [k, d]
    v.patch(cls(), "find_nearest_cluster", find_nearest_cluster)


def witness_state(v, s):
    """Model -> oracle case: the concrete data, clusters and cursor."""
    def w(ev):
        n = max(1, min(ev(num(s.n)), 9))
        N = max(1, min(ev(num(s.N)), 9))
        return {"kind": "state", "x": [ev(s.x.at(i)) for i in range(n)], "y": [ev(s.y.at(i)) for i in range(n)],
                "clusters": [[ev(s.C0.at(i, 0)), ev(s.C0.at(i, 1))] for i in range(N)], "res": ev(s.res), "ci": ev(s.ci)}
    v.witness(w)
