from .fn import *  # noqa: F401,F403
from .fn import PK

PS = PK + "base.Peaks."
ASSUMPTIONS = ["argsort is a permutation that sorts", "a peak's value depends only on its parameters",
               "sums over the peaks by recursion on their number"]


class KeyPeak(Stub):
    def __init__(self, F, k):
        self.F, self.k = F, num(k)

    def __getitem__(self, key):
        if key is not self.F.key:
            raise core.Unsupported("another parameter of the peak")
        return self.F.val(self.k)


def keyed(v):
    from diffpy.srmise.peaks.base import Peaks
    F = type("F", (), {})()
    F.M = v.int("M", 0)
    F.key = "some parameter"
    f = z3.Function("key_of", sym.I, sym.R)
    F.val = lambda j: SNum(f(t(j)))
    F.ps = seq.family(Peaks, F.M, lambda k: KeyPeak(F, k))
    return F


@contract("C10", "Peaks.sort", functions=[PS + "sort"])
def sort_contract(v):
    F = keyed(v)
    v.must("sort", F.ps.sort, key=F.key)
    n = F.ps.vc_len()
    v.prove("as many peaks as before", num(n) == F.M)
    if not isinstance(n, SNum) and n == 0:
        return
    i, j = v.int("i", 0, F.M), v.int("j", 0, F.M)
    v.assume(i < j)
    a, b = F.ps.vc_item(i), F.ps.vc_item(j)
    v.prove("every element is a peak of the list", And(isinstance(a, KeyPeak), isinstance(b, KeyPeak), 0 <= a.k, a.k < F.M, 0 <= b.k, b.k < F.M))
    v.prove("no peak occurs twice", a.k != b.k)
    v.prove("non-decreasing", F.val(a.k) <= F.val(b.k))


@contract("C10", "Peaks.sort by position", functions=[PS + "sort"])
def sort_default(v):
    F = keyed(v)
    F.key = "position"
    v.must("sort", F.ps.sort)
    if bool(F.ps.vc_len() == 0):
        return
    i, j = v.int("i", 0, F.M), v.int("j", 0, F.M)
    v.assume(i < j)
    v.prove("sorted by position unless told otherwise", F.val(F.ps.vc_item(i).k) <= F.val(F.ps.vc_item(j).k))


def argsort_loop():
    def inv(env):
        a = arr.asarr(env.keypars)
        return [("still sorted", bool(env.sorted) is True if not isinstance(env.sorted, SBool) else env.sorted),
                ("ordered so far", forall(2, lambda i, j: Implies(And(0 <= i, i <= j, j <= env.k, j < num(a.shape_[0])), a.at(i) <= a.at(j))))]
    return {(PS + "argsort", "for", 0): LoopSpec(inv, vars={"sorted": "same"})}


@contract("C10", "Peaks.argsort", functions=[PS + "argsort"], loops=argsort_loop)
def argsort_contract(v):
    F = keyed(v)
    item = F.ps.__dict__["_vc_item"]
    o = seq.as_symlist(v.must("order", F.ps.argsort, key=F.key))
    v.prove("one index per peak", num(o.n) == F.M)
    i, j = v.int("i", 0, F.M), v.int("j", 0, F.M)
    v.assume(i < j)
    a, b = num(o.fn(i)), num(o.fn(j))
    v.prove("indices into the list", And(0 <= a, a < F.M, 0 <= b, b < F.M))
    v.prove("no index occurs twice", a != b)
    v.prove("the peaks in this order are non-decreasing", F.val(a) <= F.val(b))
    v.prove("the list is not changed", F.ps.__dict__["_vc_item"] is item and F.ps.__dict__["_vc_n"] is F.M)


# --- matching ------------------------------------------------------------------
def fun(nm, *sorts):
    f = z3.Function(core.path().name(nm), *sorts)
    wrap = (lambda e: SBool(e)) if sorts[-1] == z3.BoolSort() else SNum
    return lambda *a: wrap(f(*[t(num(x)) for x in a]))


B = z3.BoolSort()


class Model:
    """M peaks with original parameters P(j, i), free flags and heights h0(j) at the coordinate;
    cur / h: the present ones.  ok1/ok2: whether the j-th peak can be scaled at the first / second attempt;
    N1/N2: its parameters then; bad1/bad2: whether scaling fails with an unexpected exception."""

    def __init__(self, v):
        from diffpy.srmise.peaks.base import Peaks
        self.v = v
        self.M = v.int("M", 0)
        self.x, self.y = v.real("x"), v.real("y")
        I, R = sym.I, sym.R
        self.np_, self.P, self.free = fun("npars", I, I), fun("P", I, I, R), fun("free", I, I, B)
        self.h0 = fun("h0", I, R)
        self.ok = {1: fun("ok1", I, B), 2: fun("ok2", I, B)}
        self.bad = {1: fun("bad1", I, B), 2: fun("bad2", I, B)}
        self.N = {1: fun("N1", I, I, R), 2: fun("N2", I, I, R)}
        self.S0, self.FS = fun("S0", I, R), fun("FS", I, R)
        self.cur, self.h = self.P, self.h0
        self.phase = 1
        self.factors = {}
        M = self.M
        inr = lambda j: And(0 <= num(j), num(j) < M)
        v.assume(forall(1, lambda j: Implies(inr(j), self.np_(j) >= 1), patterns=lambda j: [self.np_(j)]))
        for ph in (1, 2):
            v.assume(forall(2, lambda j, i: Implies(Not(self.free(j, i)), self.N[ph](j, i) == self.P(j, i)), patterns=lambda j, i: [self.N[ph](j, i)]))
        v.assume(And(self.S0(0) == 0, self.FS(0) == 0))
        v.assume(forall(1, lambda k: Implies(inr(k), self.S0(num(k) + 1) == self.S0(k) + self.h0(k)), patterns=lambda k: [self.S0(k)]))
        v.assume(forall(1, lambda k: Implies(inr(k), self.FS(num(k) + 1) == self.FS(k) + sym.ite(self.ok[1](k), 0, self.h0(k))), patterns=lambda k: [self.FS(k)]))
        self.ps = seq.family(Peaks, M, lambda k: MatchPeak(self, k))
        d = self.ps.__dict__
        d["value"] = self.total
        d["copy"] = self.copied

    def total(self, x, range=None):
        self.v.prove("heights are asked at the given coordinate", num(x) == self.x)
        if self.h is not self.h0:
            raise core.Unsupported("the total after scaling")
        return self.S0(self.M)

    def copied(self):
        """Deep copy (C26)."""
        from diffpy.srmise.peaks.base import Peaks
        cur = self.cur
        return seq.family(Peaks, self.M, lambda k: CopyPeak(self, k, cur))

    def at1(self, j, k):
        """parameters and height of peak j after the first k peaks were tried"""
        done = And(num(j) < k, self.ok[1](j))
        return (lambda i: sym.ite(done, self.N[1](j, i), self.P(j, i))), sym.ite(done, self.factors[1] * self.h0(j), self.h0(j))

    def at2(self, j, k):
        done = And(num(j) < k, self.ok[1](j), self.ok[2](j))
        return (lambda i: sym.ite(done, self.N[2](j, i), self.P(j, i))), sym.ite(done, self.factors[2] * self.h0(j), self.h0(j))

    def state_is(self, f):
        """every peak's present state is f(j)"""
        return And(forall(2, lambda j, i: Implies(And(0 <= j, j < self.M, 0 <= i, i < self.np_(j)), self.cur(j, i) == f(j)[0](i))),
                   forall(1, lambda j: Implies(And(0 <= j, j < self.M), self.h(j) == f(j)[1])))

    def arbitrary(self):
        self.cur, self.h = fun("cur", sym.I, sym.I, sym.R), fun("h", sym.I, sym.R)


class CopyPeak(Stub):
    def __init__(self, F, k, cur):
        self.F, self.k, self.cur = F, num(k), cur

    @property
    def pars(self):
        return Arr((self.F.np_(self.k),), lambda i: self.cur(self.k, i))


class MatchPeak(Stub):
    def __init__(self, F, k):
        self.__dict__.update(F=F, k=num(k))

    def value(self, x, range=None):
        self.F.v.prove("heights are asked at the given coordinate", num(x) == self.F.x)
        return self.F.h(self.k)

    @property
    def pars(self):
        cur = self.F.cur
        return Arr((self.F.np_(self.k),), lambda i: cur(self.k, i))

    @pars.setter
    def pars(self, a):
        F, k = self.F, self.k
        a = arr.asarr(a).snapshot()
        F.v.prove("a peak keeps its number of parameters", And(a.ndim == 1, num(a.shape_[0]) == F.np_(k)))
        same = forall(1, lambda i: Implies(And(0 <= i, i < F.np_(k)), a.at(i) == F.P(k, i)))
        other = F.v.real("other height")
        cur, h = F.cur, F.h
        F.cur = lambda j, i: sym.ite(num(j) == k, a.at(i), cur(j, i))
        F.h = lambda j: sym.ite(num(j) == k, sym.ite(same, F.h0(k), other), h(j))

    def __setattr__(self, n, val):
        if n != "pars":
            raise core.Unsupported("the code sets %r of a peak" % n)
        object.__setattr__(self, n, val)

    def scale_at(self, x, scale):
        F, k, ph = self.F, self.k, self.F.phase
        F.v.prove("scaled at the given coordinate", num(x) == F.x)
        F.v.prove("attempt %d: every peak is scaled by the same factor" % ph, num(scale) == F.factors[ph])
        F.v.prove("attempt %d: scaling starts from the original parameters" % ph, And(F.h(k) == F.h0(k), forall(1, lambda i: Implies(And(0 <= i, i < F.np_(k)), F.cur(k, i) == F.P(k, i)))))
        if bool(F.bad[ph](k)):
            raise RuntimeError("something else")
        if not bool(F.ok[ph](k)):
            return False
        cur, h, N, s = F.cur, F.h, F.N[ph], num(scale)
        F.cur = lambda j, i: sym.ite(num(j) == k, N(k, i), cur(j, i))
        F.h = lambda j: sym.ite(num(j) == k, s * h(k), h(j))
        return True


def match_loops():
    def first_inv(env):
        F, k = env.g, env.k
        sc = seq.as_symlist(env.scaled)
        return [("one outcome per peak so far", num(sc.n) == k),
                ("the outcomes are recorded", forall(1, lambda j: Implies(And(0 <= j, j < k), SBool(bt(sc.fn(j))).t == F.ok[1](j).t)) if not isinstance(sc.n, int) or sc.n else True),
                ("all_scaled: whether every peak so far was scaled", SBool(bt(env.all_scaled) == bt(forall(1, lambda j: Implies(And(0 <= j, j < k), F.ok[1](j)))))),
                ("any_scaled: whether some peak so far was scaled", SBool(bt(env.any_scaled) == bt(Not(forall(1, lambda j: Implies(And(0 <= j, j < k), Not(F.ok[1](j)))))))),
                ("the height of the peaks that cannot be scaled", num(env.fixed_height) == F.FS(k)),
                ("no fixed height when every peak was scaled", Implies(forall(1, lambda j: Implies(And(0 <= j, j < k), F.ok[1](j))), F.FS(k) == 0)),
                ("peaks tried so far are scaled or untouched, the others untouched", F.state_is(lambda j: F.at1(j, k)))]

    def enter1(env):
        env.g.phase = 1
        env.g.factors[1] = num(env.scale)

    def enter2(env):
        env.g.phase = 2
        env.g.factors[2] = num(env.scale)

    def havoc(env):
        env.g.arbitrary()
    first = LoopSpec(first_inv, vars={"scaled": lambda env: seq.SymList(env.k, env.g.ok[1]), "all_scaled": "bool", "any_scaled": "bool", "fixed_height": "real"}, havoc=havoc)
    first.enter = enter1

    def restore():
        def enter(env):
            env.g.before = (env.g.cur, env.g.h)

        def inv(env):
            F, k = env.g, env.k
            cur, h = F.before
            return [("peaks so far are restored, the others as before", F.state_is(lambda j: (
                (lambda i: sym.ite(num(j) < k, F.P(j, i), cur(j, i))), sym.ite(num(j) < k, F.h0(j), h(j)))))]
        sp = LoopSpec(inv, havoc=havoc)
        sp.enter = enter
        return sp

    def second_inv(env):
        F, k = env.g, env.k
        return [("any_scaled: whether some peak so far was scaled", SBool(bt(env.any_scaled) == bt(Not(forall(1, lambda j: Implies(And(0 <= j, j < k), Not(And(F.ok[1](j), F.ok[2](j))))))))),
                ("peaks tried so far are scaled or untouched, the others untouched", F.state_is(lambda j: F.at2(j, k)))]
    second = LoopSpec(second_inv, vars={"any_scaled": "bool"}, havoc=havoc)
    second.enter = enter2
    m = PS + "match_at"
    return {(m, "for", 0): first, (m, "for", 1): restore(), (m, "for", 2): second, (m, "for", 3): restore()}


@contract("C10", "Peaks.match_at", functions=[PS + "match_at"], loops=match_loops)
def match_contract(v):
    v.expect_covers("nothing", "all", "some", "failure")
    F = Model(v)
    v.p.state["ghost"] = F
    item = F.ps.__dict__["_vc_item"]
    r = v.must("match", F.ps.match_at, F.x, F.y)
    v.prove("no peak is added, removed or replaced", F.ps.__dict__["_vc_item"] is item and F.ps.__dict__["_vc_n"] is F.M)
    j, i = v.int("j", 0, F.M), v.int("i", 0)
    v.assume(i < F.np_(j))
    v.prove("fixed parameters are kept", Implies(Not(F.free(j, i)), F.cur(j, i) == F.P(j, i)))
    every = forall(1, lambda j: Implies(And(0 <= j, j < F.M), And(F.ok[1](j), Not(F.bad[1](j)))))
    if bool(r):
        every1 = forall(1, lambda j: Implies(And(0 <= j, j < F.M), F.ok[1](j)))
        if bool(every1):
            v.cover("all")
            v.prove("every peak is scaled by the same factor", F.h(j) == F.factors[1] * F.h0(j))
            v.prove("the factor is the requested height over the present one", F.factors[1] * F.S0(F.M) == F.y)
        else:
            v.cover("some")
    else:
        v.cover("nothing")
        v.prove("nothing scaled: every parameter is as it was", F.cur(j, i) == F.P(j, i))
        v.prove("nothing is scaled only when some peak cannot be, or there is nothing to scale", Or(Not(every), F.S0(F.M) == 0, F.M == 0))
        if 2 in F.factors or F.ps is None:
            v.cover("failure")


@contract("C10", "sums of scaled heights", functions=[])
def lemma(v):
    """Heights all multiplied by the factor have the multiplied sum: induction step."""
    s, a, b, h = v.real("factor"), v.real("sum"), v.real("scaled sum"), v.real("height")
    v.assume(b == s * a)
    v.prove("induction step", b + s * h == s * (a + h))
