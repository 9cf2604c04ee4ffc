"""Validation of function definitions and the order of functions."""
import z3

from ded import arr, core, seq, sym, vcrt
from ded.contract import Stub, contract
from ded.core import Unsupported
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t
from ded.vcrt import LoopSpec
from .C10 import fun

ASSUMPTIONS = ["list.sort puts numbers in non-decreasing order and raises TypeError or finishes when something is not a number",
               "a chain of base functions is finite (a function exists before those built on it)"]
BF = "diffpy.srmise.basefunction.BaseFunction."
B = z3.BoolSort()
exists = lambda f: SBool(z3.Exists([q := z3.Int(core.path().name("ex"))], sym.bt(f(SNum(q)))))


class Key:
    """The k-th parameter name, or something that is no string."""

    def __init__(self, D, k):
        self.D, self.k = D, num(k)

    def vc_isinstance(self, cls):
        if cls is str:
            return self.D.isstr(self.k)
        if cls is object:
            return True
        raise Unsupported("the type of a parameter name")


class Odd:
    """Something that is not a number."""

    def __eq__(self, o):
        return isinstance(o, Odd)

    def __ne__(self, o):
        return not self == o


class Values(seq.SymList):
    """The values of a definition, one of which may not be a number."""
    D = None

    def copy(self):
        r = Values(self.n, self.fn)
        r.D = self.D
        return r

    def sort(self, **k):
        D = self.D
        if D.odd is None:
            seq.SymList.sort(self, **k)
            u, n = self.fn, self.n
            D.v.assume(D.numbered() == forall(1, lambda j: Implies(And(0 <= j, j < n), u(j) == j)))  # lemmas, discharged below
            return
        if bool(D.v.bool("not comparable")):
            raise TypeError("'<' not supported")

    def __eq__(self, o):
        return seq.SymList.__eq__(self, o) if self.D.odd is None else False

    def __ne__(self, o):
        return Not(self == o) if self.D.odd is None else True

    __hash__ = None


class Definition(Stub):
    """parameterdict: any number of names (of which any may not be strings) with any values."""

    def __init__(self, v):
        self.v, self.n = v, v.int("n", 0)
        self.isstr, self.val = fun("isstr", sym.I, B), fun("val", sym.I, sym.I)
        self.position = v.bool("names the position")
        v.assume(Implies(self.position, self.n > 0))
        self.odd = v.int("odd", 0) if bool(v.bool("a value that is no number")) else None
        if self.odd is not None:
            v.assume(self.odd < self.n)

    def keys(self):
        return seq.SymList(self.n, lambda k: Key(self, k))

    def values(self):
        r = Values(self.n, self.val)
        r.D = self
        return r

    def items(self, *a):
        raise Unsupported("items of a definition")

    __getitem__ = __len__ = get = items

    vc_len = symlen = lambda self: self.n
    vc_item = lambda self, k: Key(self, k)

    def __iter__(self):
        raise Unsupported("native iteration")

    def __contains__(self, k):
        if k == "position":
            return bool(self.position)
        raise Unsupported("another name")

    def valid(self):
        return And(self.strings(), self.numbered())

    def strings(self):
        return forall(1, lambda k: Implies(And(0 <= k, k < self.n), self.isstr(k)))

    def numbered(self):
        if self.odd is not None:
            return SBool(z3.BoolVal(False))
        return And(forall(1, lambda k: Implies(And(0 <= k, k < self.n), And(0 <= self.val(k), self.val(k) < self.n))),
                   forall(2, lambda j, k: Implies(And(0 <= j, j < k, k < self.n), Not(self.val(j) == self.val(k)))))


class Fmt:
    def __init__(self, F, k):
        self.F, self.k = F, num(k)


class Formats(Stub):
    """Declared formats, any number; the k-th default names a declared one or not."""

    def __init__(self, v):
        self.declared = fun("declared", sym.I, B)

    def __contains__(self, f):
        if not isinstance(f, Fmt):
            raise Unsupported("membership of something else in the formats")
        return bool(self.declared(f.k))

    def __iter__(self):
        raise Unsupported("native iteration")

    __len__ = __iter__

    def __getitem__(self, k):
        raise Unsupported("a format by position")


class Defaults(Stub):
    def __init__(self, v, formats):
        self.F, self.m = formats, v.int("defaults", 0)
        self.has = {"default_input": v.bool("default input"), "default_output": v.bool("default output")}
        v.assume(self.m >= sym.ite(self.has["default_input"], 1, 0) + sym.ite(self.has["default_output"], 1, 0))

        self.at = {k: v.int("where " + k, 0) for k in self.has}
        v.assume(And(*[Implies(self.has[k], self.at[k] < self.m) for k in self.has]))
        v.assume(Implies(And(self.has["default_input"], self.has["default_output"]), Not(self.at["default_input"] == self.at["default_output"])))

    def __contains__(self, k):
        if k not in self.has:
            raise Unsupported("another default")
        return bool(self.has[k])

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return Fmt(self.F, self.at[k])

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __iter__(self):
        raise Unsupported("native iteration")

    def items(self):
        raise Unsupported("items of the defaults")

    keys = __len__ = items

    def values(self):
        return seq.SymList(self.m, lambda k: Fmt(self.F, k))

    def valid(self):
        return And(self.has["default_input"], self.has["default_output"], forall(1, lambda k: Implies(And(0 <= k, k < self.m), self.F.declared(k))))


def init_loops(holder):
    def names(env):
        k = env.k
        return [("every name so far is a string", forall(1, lambda j: Implies(And(0 <= j, j < k), holder["D"].isstr(j))))]

    def formats(env):
        k = env.k
        return [("every default so far is declared", forall(1, lambda j: Implies(And(0 <= j, j < k), holder["F"].declared(j))))]
    return {(BF + "__init__", "for", 0): LoopSpec(names), (BF + "__init__", "for", 1): LoopSpec(formats)}


HOLD = {}


@contract("C27", "definitions", functions=[BF + "__init__", "diffpy.srmise.peaks.base.PeakFunction.__init__", "diffpy.srmise.baselines.base.BaselineFunction.__init__"], loops=init_loops(HOLD))
def definitions(v):
    from diffpy.srmise.basefunction import BaseFunction
    from diffpy.srmise.baselines.base import BaselineFunction
    from diffpy.srmise.peaks.base import PeakFunction
    D, F = Definition(v), Formats(v)
    d = Defaults(v, F)
    HOLD.update(D=D, F=F)
    kind = 0 if bool(v.bool("plain")) else 1 if bool(v.bool("peak")) else 2
    cls = [BaseFunction, PeakFunction, BaselineFunction][kind]
    meta, base = {}, None if bool(v.bool("built on nothing")) else Stub()

    def case(ev):
        n, m = min(5, ev(D.n)), min(4, ev(d.m))
        return {"what": "define", "kind": kind, "position": bool(ev(D.position)), "strings": [bool(ev(D.isstr(k))) for k in range(n)], "values": [ev(D.val(k)) for k in range(n)],
                "odd": None if D.odd is None else min(n - 1, ev(D.odd)), "has": [bool(ev(d.has[k])) for k in ("default_input", "default_output")], "declared": [bool(ev(F.declared(k))) for k in range(m)]}
    v.witness(case)
    f = cls.__new__(cls)
    r = v.call(cls.__init__, f, D, F, d, meta, base)
    v.expect_covers("accepted", "refused")
    if r.ok:
        v.cover("accepted")
        v.prove("accepted definitions name strings", D.strings())
        v.prove("accepted definitions number the parameters from zero", And(D.odd is None, forall(1, lambda k: Implies(And(0 <= k, k < D.n), And(0 <= D.val(k), D.val(k) < D.n)))))
        v.prove("accepted definitions number the parameters uniquely", And(D.odd is None, forall(2, lambda j, k: Implies(And(0 <= j, j < k, k < D.n), Not(D.val(j) == D.val(k))))))
        v.prove("accepted definitions have both defaults, each a declared format", d.valid())
        v.prove("an accepted peak function names its position", D.position if kind == 1 else True)
        v.prove("the definition is kept", f.parameterdict is D and f.parformats is F and f.default_formats is d and f.metadict is meta and f.base is base)
        v.prove("the number of parameters", num(f.npars) == D.n)
        return
    v.cover("refused")
    v.prove("refused with a value error", isinstance(r.exc, ValueError))
    v.prove("only definitions that are not valid are refused", Not(And(D.valid(), d.valid(), D.position if kind == 1 else True)))


@contract("C27", "lemma: different numbers below n in order", functions=[])
def lemma(v):
    """Induction from below and from above; base cases and steps."""
    n, u = v.int("n", 1), fun("u", sym.I, sym.I)
    v.assume(forall(1, lambda k: Implies(And(0 <= k, k < n), And(0 <= u(k), u(k) < n))))
    k = v.int("k", 0)
    v.assume(k + 1 < n)
    v.assume(And(u(k) <= u(k + 1), Not(u(k) == u(k + 1))))
    v.expect_covers("end")
    v.prove("the first is at least 0", u(0) >= 0)
    v.prove("the last is at most n - 1", u(n - 1) <= n - 1)
    v.prove("at least its place: step", Implies(u(k) >= k, u(k + 1) >= k + 1))
    v.prove("at most its place: step", Implies(u(k + 1) <= k + 1, u(k) <= k))
    v.cover("end")


@contract("C27", "lemma: sorted numbers that are 0..n-1 are different", functions=[])
def lemma2(v):
    n = v.int("n", 1)
    a = v.array("a", n, "i")
    o = arr.a_argsort(a)
    v.assume(forall(1, lambda k: Implies(And(0 <= k, k < n), a.at(o.at(k)) == k)))
    i, j = v.int("i", 0), v.int("j", 0)
    v.assume(And(i < n, j < n, Not(i == j)))
    v.expect_covers("end")
    for k in (i, j):
        r = SNum(o.rank(t(k)))
        v.prove("each value is the place of its item", a.at(k) == r)
        v.assume(a.at(k) == r)
    v.prove("values are below n", And(0 <= a.at(i), a.at(i) < n))
    v.prove("and different", Not(a.at(i) == a.at(j)))
    v.cover("end")


# --- order of functions -------------------------------------------------------------
class Base:
    """All functions by number; base(i) is what function i is built on, if anything."""

    def __init__(self, v):
        self.v = v
        self.hasbase, self.base, self.depth, self.anc = fun("hasbase", sym.I, B), fun("base", sym.I, sym.I), fun("depth", sym.I, sym.I), fun("below", sym.I, sym.I, B)

    def chains(self):
        """Finite chains; x is below f when it is f or is below what f is built on."""
        v = self.v
        v.assume(forall(1, lambda x: And(self.depth(x) >= 0, Implies(self.hasbase(x), self.depth(self.base(x)) < self.depth(x))), patterns=lambda x: [self.base(x)]))
        v.assume(forall(1, lambda x: self.anc(x, x), patterns=lambda x: [self.anc(x, x)]))
        v.assume(forall(2, lambda x, y: Implies(self.anc(x, y), self.depth(y) <= self.depth(x)), patterns=lambda x, y: [self.anc(x, y)]))  # the least such relation goes down
        v.assume(forall(2, lambda x, y: Implies(And(self.hasbase(x), self.anc(self.base(x), y)), self.anc(x, y)), patterns=lambda x, y: [self.anc(self.base(x), y)]))


class Fun(Stub):
    def __init__(self, W, i):
        self.W, self.id = W, num(i)
        self.vc_ident = ("function", self.id)

    @property
    def base(self):
        return Fun(self.W, self.W.base(self.id)) if bool(self.W.hasbase(self.id)) else None

    def vc_merge(self, c, o):
        return Fun(self.W, sym.ite(c, self.id, o.id)) if isinstance(o, Fun) else None

    def __eq__(self, o):
        return isinstance(o, Fun) and bool(self.id == o.id)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Safe(seq.SymList):
    """The list being built, with what is known of it: where each entry's base is listed (w)."""

    def __init__(self, W, n, ids, w):
        seq.SymList.__init__(self, n, None)
        self.W, self.found = W, []
        self.now(n, ids, w)

    def now(self, n, ids, w):
        self.n, self.ids, self.w = num(n), ids, w
        self.fn = lambda j: Fun(self.W, ids(num(j)))
        self.ver += 1

    def copy(self):
        return Safe(self.W, self.n, self.ids, self.w)

    def vc_contains(self, f):
        if not isinstance(f, Fun):
            raise Unsupported("membership of something else")
        v, ids, n = self.W.v, self.ids, self.n
        if bool(v.bool("listed")):
            k = v.int("at", 0)
            v.assume(And(k < n, ids(k) == f.id))
            self.found.append(k)
            return True
        v.assume(forall(1, lambda k: Implies(And(0 <= k, k < n), Not(ids(k) == f.id)), patterns=(lambda k: [ids(k)]) if self.plain() else None))
        return False

    def append(self, f):
        if not isinstance(f, Fun):
            raise Unsupported("something else is listed")
        ids, n, w, found = self.ids, self.n, self.w, list(self.found)
        W = self.W
        at = num(0)
        for k in found:
            at = sym.ite(And(k < n, ids(k) == W.base(f.id)), k, at)
        self.now(n + 1, lambda j: sym.ite(num(j) == n, f.id, ids(j)), lambda j: sym.ite(num(j) == n, at, w(j)))
        self.found.append(n)

    def extend(self, fs):
        for f in fs:
            self.append(f)

    def __iadd__(self, fs):
        self.extend(fs)
        return self

    def insert(self, *a):
        raise Unsupported("insertion")

    __setitem__ = __delitem__ = pop = sort = reverse = insert

    def rules(self):
        n, ids, w, W = self.n, self.ids, self.w, self.W
        return [("no function is listed twice", forall(2, lambda j, k: Implies(And(0 <= j, j < k, k < n), Not(ids(j) == ids(k))), patterns=(lambda j, k: [[ids(j), ids(k)]]) if self.plain() else None)),
                ("every base is listed before what is built on it", forall(1, lambda k: Implies(And(0 <= k, k < n, W.hasbase(ids(k))), And(0 <= w(k), w(k) < k, ids(w(k)) == W.base(ids(k)))), patterns=(lambda k: [ids(k)]) if self.plain() else None))]

    def plain(self):
        return self.__dict__.get("havocked", False)

    def holds(self, f):
        return Or(*[And(0 <= k, k < self.n, self.ids(k) == f) for k in self.found]) if self.found else SBool(z3.BoolVal(False))

    def havoc(self, tag):
        self.__dict__["havocked"] = True
        n0 = self.n
        self.now(self.W.v.int("length" + tag, 0), fun("ids" + tag, sym.I, sym.I), fun("where" + tag, sym.I, sym.I))
        return n0


def any_list(v, W):
    s = Safe(W, v.int("listed", 0), fun("ids", sym.I, sym.I), fun("where", sym.I, sym.I))
    s.__dict__["havocked"] = True
    for _, c in s.rules():
        v.assume(c)
    return s


def grown(W, f, n0, ids0, L):
    """What adding f does to a list (the contract of safefunction)."""
    n, ids = L.n, L.ids
    return [("nothing is dropped", n >= n0),
            ("earlier entries keep their places", forall(1, lambda k: Implies(And(0 <= k, k < n0), ids(k) == ids0(k)), patterns=(lambda k: [ids(k)]) if L.plain() else None)),
            ("only the function and what it is built on is added", forall(1, lambda k: Implies(And(n0 <= k, k < n), W.anc(f, ids(k))), patterns=(lambda k: [ids(k)]) if L.plain() else None))]


def safe_contract(W, check, main=None):
    """safefunction as its callers see it."""
    def safefunction(f, L):
        v = W.v
        if not isinstance(L, Safe) or not isinstance(f, Fun):
            raise Unsupported("another list")
        for nm, c in L.rules():
            v.prove("before a call: " + nm, c)
        if main is not None:
            v.prove("the recursion goes down the chain", W.depth(f.id) < W.depth(main.id))
        ids0 = L.ids
        n0 = L.havoc("'")
        for nm, c in L.rules() + grown(W, f.id, n0, ids0, L):
            v.assume(c)
        k = v.int("at", 0)
        v.assume(And(k < L.n, L.ids(k) == f.id))
        L.found.append(k)
    return staticmethod(safefunction)


def chain_case(v, W, L, fs):
    def case(ev):
        # a small world: the functions the counterexample talks about
        seen, todo = {}, [ev(f.id) for f in fs(ev)] + [ev(L.ids(k)) for k in range(min(4, ev(L.n)))]
        req = list(todo)
        while todo and len(seen) < 12:
            x = todo.pop()
            if x not in seen:
                seen[x] = ev(W.base(num(x))) if bool(ev(W.hasbase(num(x)))) else None
                if seen[x] is not None:
                    todo.append(seen[x])
        return {"what": "order", "base": [[k, b] for k, b in seen.items()], "ask": req}
    v.witness(case)


@contract("C27", "one function and what it is built on", functions=[BF + "safefunction"])
def one(v):
    from diffpy.srmise.basefunction import BaseFunction
    real = BaseFunction.safefunction
    W = Base(v)
    f = Fun(W, v.int("f"))
    L = any_list(v, W)
    W.chains()
    n0, ids0 = L.n, L.ids
    chain_case(v, W, L, lambda ev: [f])
    v.patch(BaseFunction, "safefunction", safe_contract(W, True, f))
    v.must("add", real, f, L)
    v.cover("added" if bool(L.n > n0) else "already listed")
    v.expect_covers("added", "already listed")
    L.__dict__["havocked"] = False
    for nm, c in L.rules() + grown(W, f.id, n0, ids0, L):
        v.prove(nm, c)
    v.prove("the function is listed", L.holds(f.id))


def list_loops():
    def enter(env):
        L = env.g.L
        L.q = L.r = lambda i: num(0)

    def havoc(env):
        L = env.g.L
        L.havoc("''")
        L.found, L.head = [], L.n
        L.q, L.r = fun("place", sym.I, sym.I), fun("for", sym.I, sym.I)

    def step(env):
        # where the new function is, and for whom the new entries are
        L, asked, k0 = env.g.L, env.g.asked, num(env.k) - 1
        n0, q0, r0 = L.head, L.q, L.r
        L.__dict__["havocked"] = False
        at = num(0)
        for p in L.found:
            at = sym.ite(And(p < L.n, L.ids(p) == asked(k0)), p, at)
        L.q = lambda i: sym.ite(num(i) == k0, at, q0(i))
        L.r = lambda j: sym.ite(num(j) >= n0, k0, r0(j))

    def inv(env):
        L, W, asked = env.g.L, env.g.W, env.g.asked
        if L is None:
            raise Unsupported("the functions are not collected in a list made here")
        k, q, r = num(env.k), L.q, L.r
        return L.rules() + listed(L, W, asked, k, q, r)
    sp = LoopSpec(inv, havoc=havoc, modifies=lambda env: [env.g.L] + [(env.g.L, a) for a in vars(env.g.L)])
    sp.enter, sp.step = enter, step
    return {(BF + "safefunctionlist", "for", 0): sp}


def listed(L, W, asked, k, q, r):
    pat = L.plain()
    return [("every function asked for so far is listed", forall(1, lambda i: Implies(And(0 <= i, i < k), And(0 <= q(i), q(i) < L.n, L.ids(q(i)) == asked(i))), patterns=(lambda i: [q(i)]) if pat else None)),
            ("only what is asked for and what it is built on is listed", forall(1, lambda j: Implies(And(0 <= j, j < L.n), And(0 <= r(j), r(j) < k, W.anc(asked(r(j)), L.ids(j)))), patterns=(lambda j: [L.ids(j)]) if pat else None))]


@contract("C27", "functions and what they are built on", functions=[BF + "safefunctionlist"], loops=list_loops())
def many(v):
    from diffpy.srmise.basefunction import BaseFunction
    W = Base(v)
    E = type("E", (), {})()
    E.W, E.L, E.asked = W, None, fun("asked", sym.I, sym.I)
    n = v.int("asked", 0)
    W.chains()

    def new():
        E.L = Safe(W, 0, lambda j: num(0), lambda j: num(0))
        return E.L
    v.p.state["ghost"] = E
    v.patch(vcrt.VC, "newlists", {(BF + "safefunctionlist", "*"): new})
    v.patch(BaseFunction, "safefunction", safe_contract(W, True))
    nothing = type("N", (), {"n": 0, "ids": None})
    chain_case(v, W, nothing, lambda ev: [Fun(W, E.asked(k)) for k in range(min(4, ev(n)))])
    L = v.must("list", BaseFunction.safefunctionlist, seq.SymList(n, lambda k: Fun(W, E.asked(k))))
    v.expect_covers("end")
    v.cover("end")
    if not isinstance(L, Safe):
        raise Unsupported("another list is returned")
    for nm, c in L.rules() + listed(L, W, E.asked, n, L.q, L.r):
        v.prove(nm, c)
    # so everything below a listed function is listed: one step down any chain
    k = v.int("k", 0)
    v.assume(And(k < L.n, W.hasbase(L.ids(k))))
    v.prove("what a listed function is built on is listed, earlier", And(0 <= L.w(k), L.w(k) < k, L.ids(L.w(k)) == W.base(L.ids(k))))
