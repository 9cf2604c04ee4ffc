"""Classification of many models."""
import z3

from ded import arr, core, seq, sym, vcrt
from ded.contract import Stub, contract
from ded.core import Unsupported
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t
from ded.vcrt import LoopSpec

from .C10 import fun

B = z3.BoolSort()
ASSUMPTIONS = ["numpy: the sum of an array is linear in the array, and not negative for squares", "the value of a peak or baseline on a grid is a function of the peak or baseline and the grid",
               "Python's sort gives a permutation that sorts, by __lt__ alone", "assumed uncertainties are distinct"]
MS = "diffpy.srmise.multimodelselection.MultimodelSelection."


class Ident(Stub):
    def __init__(self, kind, term):
        self.vc_ident = (kind, num(term))

    def __eq__(self, o):
        return isinstance(o, Ident) and self.vc_ident[0] == o.vc_ident[0] and bool(self.vc_ident[1] == o.vc_ident[1])

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Vec(Stub):
    """A linear combination of arrays on the grid; only its sum is ever looked at."""

    def __init__(self, terms, square=None, sign=False):
        self.terms, self.square = terms, square  # [(coefficient, sum)]

    def _both(self, o, s):
        if not isinstance(o, Vec):
            raise Unsupported("arrays with numbers")
        return Vec(self.terms + [(s * c, x) for c, x in o.terms])

    def __add__(self, o): return self._both(o, 1)
    def __sub__(self, o): return self._both(o, -1)
    def __neg__(self): return Vec([(-c, x) for c, x in self.terms])

    def __mul__(self, o):
        if isinstance(o, Vec):
            if o.square is None or self.square is None or o.square is not self.square and o.square[1:] != self.square[1:]:
                raise Unsupported("a product of different arrays")
            return self ** 2
        return Vec([(o * c, x) for c, x in self.terms])

    __rmul__ = __mul__

    def __pow__(self, n):
        if n != 2 or self.square is None:
            raise Unsupported("another power")
        return Vec([(1, self.square[0])])

    def __abs__(self):
        s = sym.fresh_real("sum of absolute values")
        core.path().assume(t(And(s >= self.vc_sum(), s >= -self.vc_sum())))
        return Vec([(1, s)])

    def vc_sum(self):
        r = num(0)
        for c, x in self.terms:
            r = r + c * x
        return r

    sum = vc_sum


class Models:
    """Any number of models with any number of peaks each."""

    def __init__(self, v):
        I, R = sym.I, sym.R
        self.v = v
        self.n = v.int("models", 0)
        self.m = fun("peaks of", I, I)
        self.tp, self.np = fun("type of peak", I, I, I), fun("parameters of peak", I, I, I)
        self.tb, self.nb = fun("type of baseline", I, I), fun("parameters of baseline", I, I)
        self.ps, self.bs = fun("squares of peak", I, I, R), fun("squares of baseline", I, R)
        self.pv, self.bv = fun("sum of peak", I, I, R), fun("sum of baseline", I, R)
        self.nf = fun("free parameters", I, I, I)
        self.sim_ = fun("similar", I, I, B)
        self.tol = v.real("tolerance")
        self.grid = Stub()
        v.assume(forall(1, lambda i: self.m(i) >= 0))
        v.assume(forall(2, lambda i, k: self.ps(i, k) >= 0))
        v.assume(forall(1, lambda i: self.bs(i) >= 0))

    def near(self, a, b):
        d = self.tol
        return And(sym.sabs(a - b) <= d * a, sym.sabs(a - b) <= d * b) if hasattr(sym, "sabs") else And(a - b <= d * a, b - a <= d * a, a - b <= d * b, b - a <= d * b)

    def alike(self, i, e):
        """What it is for two models to be the same."""
        same = lambda k: And(self.tp(i, k) == self.tp(e, k), self.np(i, k) == self.np(e, k), self.near(self.ps(i, k), self.ps(e, k)))
        return And(self.tb(i) == self.tb(e), self.nb(i) == self.nb(e), self.m(i) == self.m(e),
                   forall(1, lambda k: Implies(And(0 <= k, k < self.m(i)), same(k)), patterns=lambda k: [self.ps(i, k)]), self.near(self.bs(i), self.bs(e)))

    def sim(self, i, e):
        return self.sim_(i, e)

    def define(self, i, e):
        self.v.assume(SBool(t(self.sim(i, e)) == t(self.alike(i, e))))

    def results(self):
        return seq.SymList(self.n, lambda i: Result(self, i))

    def case(self, ev):
        part = lambda ty, n, sq: [ev(ty), ev(n), ev(sq)]
        ms = [{"peaks": [part(self.tp(i, k), self.np(i, k), self.ps(i, k)) for k in range(min(4, ev(self.m(i))))], "base": part(self.tb(i), self.nb(i), self.bs(i))} for i in range(min(6, ev(self.n)))]
        return {"what": "classify", "models": ms, "tol": ev(self.tol)}

    def squares(self, i):
        return seq.SymList(self.m(i), lambda k: Vec([(1, self.ps(i, k))]))


class Result(Stub):
    def __init__(self, W, i):
        self.W, self.i = W, num(i)

    def __getitem__(self, k):
        if k == 1:
            return seq.SymList(self.W.m(self.i), lambda j: Peak(self.W, self.i, j))
        if k == 2:
            return Base(self.W, self.i)
        raise Unsupported("another part of a result")


class Part(Stub):
    def on(self, r):
        if r is not self.W.grid:
            raise Unsupported("values on another grid")

    def vc_type(self):
        return self.type


class Peak(Part):
    def __init__(self, W, i, k):
        self.W, self.i, self.k = W, num(i), num(k)
        self.type = Ident("type", W.tp(self.i, self.k))

    def npars(self, count_fixed=True):
        return self.W.np(self.i, self.k) if count_fixed else self.W.nf(self.i, self.k)

    def value(self, r=None):
        self.on(r)
        return Vec([(1, self.W.pv(self.i, self.k))], (self.W.ps(self.i, self.k), "p", str(t(self.i)), str(t(self.k))))


class Base(Part):
    def __init__(self, W, i):
        self.W, self.i = W, num(i)
        self.type = Ident("type of baseline", W.tb(self.i))

    def npars(self, count_fixed=True):
        return self.W.nb(self.i) if count_fixed else self.W.nf(self.i, num(-1))

    def value(self, r=None):
        self.on(r)
        return Vec([(1, self.W.bv(self.i))], (self.W.bs(self.i), "b", str(t(self.i))))


class Classes(seq.SymList):
    """A list of lists of model indices: class c has len(c) entries at(c, 0), ...; and, seen by the contract only, where model j is listed (pos)."""

    def __init__(self, W, n=0, len_=None, at=None, pos=None):
        seq.SymList.__init__(self, n, None)
        self.W = W
        self.now(n, len_ or (lambda c: num(0)), at or (lambda c, k: num(0)), pos or (lambda j: num(0)))

    def now(self, n, len_, at, pos):
        self.n, self.len, self.at, self.pos = num(n), len_, at, pos
        self.fn = lambda c: Class(self, c)
        self.ver += 1

    def copy(self):
        return Classes(self.W, self.n, self.len, self.at, self.pos)

    def append(self, x):
        if type(x) is not list or len(x) != 1:
            raise Unsupported("a new class of other than one model")
        i, n, L, E, P = num(x[0]), self.n, self.len, self.at, self.pos
        self.now(n + 1, lambda c: sym.ite(num(c) == n, num(1), L(c)), lambda c, k: sym.ite(And(num(c) == n, num(k) == 0), i, E(c, k)), lambda j: sym.ite(num(j) == i, num(0), P(j)))

    def __setitem__(self, *a): raise Unsupported("replacing a class")
    def extend(self, *a): raise Unsupported("many classes at once")
    def __delitem__(self, *a): raise Unsupported("removing a class")


class Class(Stub):
    def __init__(self, C, c):
        self.C, self.c = C, num(c)

    def vc_len(self):
        return self.C.len(self.c)

    def vc_item(self, k):
        return self.C.at(self.c, num(k))

    def __getitem__(self, k):
        n = self.vc_len()
        if isinstance(k, slice):
            raise Unsupported("part of a class")
        k = num(k)
        if bool(k < 0):
            k = k + n
        if bool(Or(k < 0, k >= n)):
            raise IndexError("list index out of range")
        return self.C.at(self.c, k)

    def __len__(self):
        raise Unsupported("native length")

    def __iter__(self):
        raise Unsupported("native iteration")

    def append(self, i):
        C, c0, i = self.C, self.c, num(i)
        n, L, E, P = C.n, C.len, C.at, C.pos
        l = L(c0)
        C.now(n, lambda c: sym.ite(num(c) == c0, l + 1, L(c)), lambda c, k: sym.ite(And(num(c) == c0, num(k) == l), i, E(c, k)), lambda j: sym.ite(num(j) == i, l, P(j)))


def rules(W, C, has, idx, i, pat=False):
    """What is known of the classes of the first i models."""
    ok = lambda j: And(0 <= j, j < i)
    p1 = lambda f: (lambda *a: f(*a)) if pat else None
    return [
        ("as many classes as models at most", And(0 <= C.n, C.n <= i)),
        ("no class is empty", forall(1, lambda c: Implies(And(0 <= c, c < C.n), C.len(c) >= 1))),
        ("models are listed once, by increasing index", forall(3, lambda c, k, l: Implies(And(0 <= c, c < C.n, 0 <= k, k < l, l < C.len(c)), C.at(c, k) < C.at(c, l)))),
        ("classes list these models only", forall(2, lambda c, k: Implies(And(0 <= c, c < C.n, 0 <= k, k < C.len(c)), And(ok(C.at(c, k)), idx(C.at(c, k)) == c)))),
        ("every model has a class", forall(1, lambda j: Implies(ok(j), And(has(j), 0 <= idx(j), idx(j) < C.n)))),
        ("every model is listed in its class", forall(1, lambda j: Implies(ok(j), And(0 <= C.pos(j), C.pos(j) < C.len(idx(j)), C.at(idx(j), C.pos(j)) == j)))),
        ("a model is like the first of its class", forall(1, lambda j: Implies(ok(j), Or(C.at(idx(j), 0) == j, W.sim(j, C.at(idx(j), 0)))))),
        ("and unlike the first of every earlier class", forall(2, lambda j, c: Implies(And(ok(j), 0 <= c, c < idx(j)), Not(W.sim(j, C.at(c, num(0))))))),
        ("earlier classes have earlier first models", forall(2, lambda c, d: Implies(And(0 <= c, c < d, d < C.n), C.at(c, num(0)) < C.at(d, num(0))))),
    ]


def contents(env):
    """The dictionaries of the classes and of the exemplars' values."""
    W, C = env.g.W, env.classes
    out = []
    for d, kind in ((env.epsqval, "peaks"), (env.ebsqval, "base")):
        V_ = seq.symdict(d)
        c, k = env.g.c, env.g.k
        out.append(("the values of every exemplar are there", Implies(And(0 <= c, c < C.n), V_.has(c))))
        if not bool(And(0 <= c, c < C.n)):
            continue
        x = V_.at(c)
        e = C.at(c, num(0))
        if kind == "peaks":
            x = seq.as_symlist(x)
            out.append(("they are those of all its peaks", num(x.n) == W.m(e)))
            if bool(And(0 <= k, k < W.m(e))):
                out.append(("they are those of its peaks", x.fn(k).vc_sum() == W.ps(e, k)))
        else:
            out.append(("they are those of its baseline", x.vc_sum() == W.bs(e)))
    return out


def classify_loops():
    q = MS + "classify"

    def havoc(env):
        W, C = env.g.W, env.classes
        if not isinstance(C, Classes):
            raise Unsupported("another list of classes")
        I = sym.I
        nm = core.path().name
        n = sym.fresh_int("classes", 0)
        at, ln, pos, idx = fun(nm("listed"), I, I, I), fun(nm("class size"), I, I), fun(nm("position"), I, I), fun(nm("class of"), I, I)
        C.now(n, ln, at, pos)
        env.g.idx = idx
        i = num(env.k)
        env.classes_idx.set_layer(lambda q: And(0 <= num(q), num(q) < i), lambda q: idx(num(q)))
        env.epsqval.set_layer(lambda q: And(0 <= num(q), num(q) < n), lambda q: W.squares(at(num(q), num(0))))
        env.ebsqval.set_layer(lambda q: And(0 <= num(q), num(q) < n), lambda q: Vec([(1, W.bs(at(num(q), num(0))))]))

    def inv(env):
        d = seq.symdict(env.classes_idx)
        if not isinstance(env.classes, Classes):
            raise Unsupported("another list of classes")
        has, at = (lambda j: True if d.has(j) is True else SBool(sym.bt(d.has(j)))), (lambda j: d.at(j) if d.at(j) is not None else num(-1))
        return rules(env.g.W, env.classes, has, at, num(env.k)) + contents(env)
    outer = LoopSpec(inv, havoc=havoc, modifies=lambda env: [env.classes, env.classes_idx, env.epsqval, env.ebsqval])

    def inv1(env):
        W, C = env.g.W, env.classes
        return [("not added before a class is found", Not(env.added_to_class)), ("unlike the first of every class before", forall(1, lambda c: Implies(And(0 <= c, c < env.k), Not(W.sim(num(env.i), C.at(c, num(0)))))))]
    search = LoopSpec(inv1, vars={"added_to_class": "bool"}, havoc=lambda env: env.g.W.define(num(env.i), env.classes.at(num(env.k), num(0))))

    def exemplar(env):
        return env.classes.at(num(env.c), num(0))

    def inner(env):
        """A loop over pairs of peaks, or over pairs of their values."""
        W, i, e = env.g.W, num(env.i), exemplar(env)
        pair = env.loop.it.vc_item(num(0)) if env.loop.it is not None else None
        kinds = {type(x) for x in pair} if isinstance(pair, tuple) else None
        if kinds == {Peak}:
            return [("no bad peak so far", Not(env.badpeak)), ("peaks before have the same types", forall(1, lambda k: Implies(And(0 <= k, k < env.k), And(W.tp(i, k) == W.tp(e, k), W.np(i, k) == W.np(e, k)))))]
        if kinds == {Vec}:
            return [("no bad peak so far", Not(env.badpeak)), ("peaks before are within the tolerance", forall(1, lambda k: Implies(And(0 <= k, k < env.k), W.near(W.ps(i, k), W.ps(e, k))), patterns=lambda k: [W.ps(i, k)]))]
        raise Unsupported("a loop over something else")
    pairs = LoopSpec(inner, vars={"badpeak": "bool"})
    return {(q, "for", 0): outer, (q, "for", 1): search, (q, "for", 2): pairs, (q, "for", 3): pairs}


TABLES = ("makesortedclasses", "makeclassweights", "makeclassprobs", "makesortedclassprobs")


@contract("C20", "classification", functions=[MS + "classify"], loops=classify_loops())
def classification(v):
    from diffpy.srmise.multimodelselection import MultimodelSelection
    W = Models(v)
    G = type("G", (), {})()
    G.W, G.c, G.k = W, v.int("some class", 0), v.int("some peak", 0)
    v.p.state["ghost"] = G
    v.patch(vcrt.VC, "newlists", {(MS + "classify", "*"): lambda: Classes(W)})
    ms = MultimodelSelection()
    ms.results = W.results()
    calls = []
    for nm in TABLES:
        ms.__dict__[nm] = (lambda nm: lambda: calls.append((nm, ms.classes, ms.classes_idx)))(nm)
    v.witness(W.case)
    v.must("classify", ms.classify, W.grid, W.tol)
    v.expect_covers("end")
    v.cover("end")
    C, d = ms.classes, seq.symdict(ms.classes_idx)
    if not isinstance(C, Classes):
        raise Unsupported("another list of classes")
    for nm, c in rules(W, C, d.has, d.at, W.n):
        v.prove(nm, c)
    j = v.int("j", 0)
    v.prove("no class but those of the models is recorded", Implies(d.has(j), j < W.n))
    v.prove("the tolerance is recorded", num(ms.class_tolerance) == W.tol)
    names = [c[0] for c in calls]
    v.prove("then the tables of the classes are made", sorted(names) == sorted(TABLES) and names[0] == TABLES[0] and names.index("makesortedclassprobs") > names.index("makeclassprobs"))
    v.prove("from these classes", all(c[1] is C and c[2] is ms.classes_idx for c in calls))


# --- ranking within classes -----------------------------------------------------------
class Stats:
    """Uncertainties, and the statistic of every model for each of them."""

    def __init__(self, v, W, name="AIC"):
        from diffpy.srmise.modelevaluators.aic import AIC
        from diffpy.srmise.modelevaluators.aicc import AICc
        self.v, self.W = v, W
        self.em = AICc if bool(v.bool("corrected")) else AIC
        self.D = v.int("uncertainties", 0)
        self.dgs = v.array("dgs", self.D)
        self.stat = fun("statistic", sym.R, sym.I, sym.R)
        self.key = fun("uncertainty", sym.R, B)
        d = self.dgs.snapshot()
        v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < self.D), Not(d.at(i) == d.at(j)))))
        v.assume(forall(1, lambda i: Implies(And(0 <= i, i < self.D), And(d.at(i) > 0, self.key(d.at(i))))))
        self.J = v.int("J", 0)

    def evaluator(self, dg, i):
        e = self.em()
        e.stat = self.stat(num(dg), num(i))
        return e

    def aics(self):
        d = seq.SymDict()
        d.set_layer(lambda q: self.key(num(q)), lambda q: seq.SymList(self.W.n, lambda i: self.evaluator(q, i)))
        return d

    def at(self):
        return self.dgs.at(self.J)


def known(v, W):
    """Classes as classification leaves them."""
    I = sym.I
    C = Classes(W, v.int("classes", 0), fun("class size", I, I), fun("listed", I, I, I), fun("position", I, I))
    idx = fun("class of", I, I)
    for nm, c in rules(W, C, lambda j: True, idx, W.n):
        v.assume(c)
    return C, idx


def ranked(G, dg, L):
    """L lists the models of class G.c in order of their quality for the uncertainty dg: as many as the class has, all of it, and none twice."""
    C, c, S = G.C, G.c, G.S
    L = seq.as_symlist(L)
    n = C.len(c)
    at = lambda a: num(L.fn(a))
    out = [("as many as the class has", num(L.n) == n)]
    a, b = G.a, G.b
    if not bool(a < n):
        return out
    x = at(a)
    out.append(("models of the class", And(0 <= x, x < G.W.n, G.idx(x) == c)))
    if bool(And(a < b, b < n)):
        y = at(b)
        out += [("none twice", Not(x == y)), ("the best last", S.stat(num(dg), x) >= S.stat(num(dg), y))]
    return out


def unknown(G):
    f = fun(core.path().name("ranking"), sym.I, sym.I)
    return seq.SymList(G.C.len(G.c), lambda j: f(num(j)))


def table_rules(G, d, k, rule):
    """A table (by uncertainty) has what it should for one of the first k uncertainties, any one."""
    if not bool(G.S.J < k):
        return []
    d = seq.symdict(d)
    dg = G.S.at()
    return [("there for every uncertainty", d.has(dg))] + rule(dg, d.at(dg))


def some_table(G, d, k, value):
    dg = G.S.at()
    d.set_layer(lambda q: And(G.S.J < k, num(q) == dg), lambda q: value)


def classlist(G):
    """The rule for a list over the classes: of the right length, and the entry of class G.c is ranked."""
    def rule(dg, L):
        L = seq.as_symlist(L)
        out = [("an entry for every class", num(L.n) == G.C.n)]
        return out + ranked(G, dg, L.fn(G.c)) if bool(G.c < G.C.n) else out
    return rule


def ranking_loops():
    q = MS + "makesortedclasses"

    def havoc(env):
        L = unknown(env.g)
        some_table(env.g, env.self.sortedclasses, env.k, seq.SymList(env.g.C.n, lambda c: L))

    def havoc1(env):
        L = unknown(env.g)
        env.bestinclass.n, env.bestinclass.fn = num(env.k), lambda c: L

    def inv1(env):
        G = env.g
        L = seq.as_symlist(env.bestinclass)
        out = [("an entry for every class so far", num(L.n) == env.k)]
        return out + ranked(G, env.dg, L.fn(G.c)) if bool(G.c < env.k) else out
    return {(q, "for", 0): LoopSpec(lambda env: table_rules(env.g, env.self.sortedclasses, env.k, classlist(env.g)), havoc=havoc, modifies=lambda env: [env.self.sortedclasses]),
            (q, "for", 1): LoopSpec(inv1, havoc=havoc1, modifies=lambda env: [env.bestinclass])}


def analysed(v):
    """An object with models, statistics and classes."""
    from diffpy.srmise.multimodelselection import MultimodelSelection
    G = type("G", (), {})()
    G.W = Models(v)
    G.S = Stats(v, G.W)
    G.C, G.idx = known(v, G.W)
    G.c, G.a, G.b = v.int("some class", 0), v.int("some place", 0), v.int("a later place", 0)
    v.p.state["ghost"] = G
    ms = MultimodelSelection()
    ms.results, ms.classes, ms.aics, ms.dgs = G.W.results(), G.C, G.S.aics(), G.S.dgs
    ms.ppe = type("PPE", (), {"error_method": G.S.em})()
    return ms, G


@contract("C20", "ranking within classes", functions=[MS + "makesortedclasses"], loops=ranking_loops())
def ranking(v):
    ms, G = analysed(v)
    v.patch(vcrt.VC, "newlists", {(MS + "makesortedclasses", "*"): lambda: seq.SymList(0, None)})
    v.assume(G.S.J < G.S.D)

    def case(ev):
        n, C = min(6, ev(G.W.n)), G.C
        return {"what": "rank", "n": n, "classes": [[ev(C.at(num(c), num(k))) for k in range(min(6, ev(C.len(num(c)))))] for c in range(min(4, ev(C.n)))], "corrected": G.S.em.__name__ == "AICc",
                "stats": [[ev(G.S.stat(G.S.dgs.at(j), num(i))) for i in range(n)] for j in range(min(4, ev(G.S.D)))]}
    v.witness(case)
    v.must("rank", ms.makesortedclasses)
    v.expect_covers("end")
    v.cover("end")
    for nm, c in table_rules(G, ms.sortedclasses, G.S.D, classlist(G)):
        v.prove(nm, c)
