"""Statistics, probabilities and queries about many models."""
import z3

from ded import arr, core, seq, sym, vcrt
from ded.contract import Stub, contract
from ded.core import Unsupported
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t
from ded.vcrt import LoopSpec

from .C20 import MS, Models, Stats, analysed, some_table, table_rules, unknown
from .C10 import fun

B = z3.BoolSort()
ASSUMPTIONS = ["assumed uncertainties are positive and distinct", "weights and probabilities of a list of evaluators are those the criterion is specified to give (property C13)",
               "numpy: argsort sorts, argmin and argmax give an extreme, unique gives the distinct values in order", "pickle restores what it stored"]


# --- tables by uncertainty --------------------------------------------------------------
class Given(arr.Arr):
    """What the criterion makes of a list of evaluators."""

    def __init__(self, what, args):
        n = num(args.n)
        f = fun(core.path().name(what), sym.I, sym.R)
        arr.Arr.__init__(self, (n,), lambda i: f(num(i)), "f")
        self.what, self.args = what, args


def criterion(real):
    """The criterion, with the weights and probabilities of its contract."""
    return type(real.__name__, (real,), {k: staticmethod((lambda k: lambda a: Given(k, seq.as_symlist(a)))(k)) for k in ("akaikeweights", "akaikeprobs")})


def made_of(what, item, length):
    """The table holds what the criterion makes of `length` evaluators, entry i of them by item(dg, i)."""
    def rule(dg, x):
        if isinstance(x, Havoc):
            return [("as specified", x.ok)]
        if not isinstance(x, Given):
            raise Unsupported("a table of something else")
        L = x.args
        out = [("the right quantity", x.what == what), ("of all of them", num(L.n) == length(dg))]
        i = core.path().state["ghost"].i
        if not bool(And(i < num(L.n), i < length(dg))):
            return out
        e, want = L.fn(i), item(dg, i)
        return out + [("of their statistics", e.stat == want.stat), ("by the same criterion", type(e) is type(want))]
    return rule


class Havoc:
    """A table entry of which all that is known is that it is as specified."""

    def __init__(self):
        self.ok = True

    def vc_merge(self, c, o):
        return None


def one_loop(q, attr, rule, value):
    return {(q, "for", 0): LoopSpec(lambda env: table_rules(env.g, getattr(env.self, attr), env.k, rule(env.g)), havoc=lambda env: some_table(env.g, getattr(env.self, attr), env.k, value(env.g)), modifies=lambda env: [getattr(env.self, attr)])}


def models_list(G):
    return lambda dg, i: G.S.evaluator(dg, i), lambda dg: G.W.n


def class_list(G):
    """The best of every class."""
    best = lambda dg, c: G.best(num(dg), num(c))
    return lambda dg, c: G.S.evaluator(dg, best(dg, c)), lambda dg: G.C.n


def tables(v):
    ms, G = analysed(v)
    G.S.em = criterion(G.S.em)
    ms.ppe.error_method = G.S.em
    ms.aics = G.S.aics()
    G.i = v.int("some entry", 0)
    G.rank, G.best = fun("ranked model", sym.R, sym.I, sym.I, sym.I), fun("best model", sym.R, sym.I, sym.I)
    G.prob, G.cprob = fun("probability", sym.R, sym.I, sym.R), fun("class probability", sym.R, sym.I, sym.R)
    G.order, G.corder = fun("model by rank", sym.R, sym.I, sym.I), fun("class by rank", sym.R, sym.I, sym.I)
    C, key = G.C, G.S.key
    v.assume(forall(2, lambda c, k: Implies(And(0 <= c, c < C.n, 0 <= k, k < C.len(c)), And(0 <= C.at(c, k), C.at(c, k) < G.W.n))))
    x = z3.Real("?dg")
    c = z3.Int("?c")
    b = lambda: G.best(SNum(x), SNum(c))
    v.assume(SBool(z3.ForAll([x, c], sym.bt(Implies(And(0 <= SNum(c), SNum(c) < C.n), And(0 <= b(), b() < G.W.n))), patterns=[t(b())])))

    def table(f):
        d = seq.SymDict()
        d.set_layer(lambda q: key(num(q)), f)
        return d
    ms.sortedclasses = table(lambda q: seq.SymList(C.n, lambda c: seq.SymList(C.len(num(c)), lambda k: last(G, q, num(c), num(k)))))
    ms.aicprobs = table(lambda q: arr.Arr((G.W.n,), lambda i: G.prob(num(q), num(i)), "f"))
    ms.classprobs = table(lambda q: arr.Arr((C.n,), lambda i: G.cprob(num(q), num(i)), "f"))
    ms.sortedprobs = table(lambda q: seq.SymList(G.W.n, lambda k: G.order(num(q), num(k))))
    ms.sortedclassprobs = table(lambda q: seq.SymList(C.n, lambda k: G.corder(num(q), num(k))))
    ms.classes_idx = seq.SymDict()
    ms.classes_idx.set_layer(lambda q: And(0 <= num(q), num(q) < G.W.n), lambda q: G.idx(num(q)))
    return ms, G


def last(G, q, c, k):
    return sym.ite(num(k) == G.C.len(num(c)) - 1, G.best(num(q), num(c)), G.rank(num(q), num(c), num(k)))


TABLES = {
    "makeaicweights": ("aicweights", "akaikeweights", models_list),
    "makeaicprobs": ("aicprobs", "akaikeprobs", models_list),
    "makeclassweights": ("classweights", "akaikeweights", class_list),
    "makeclassprobs": ("classprobs", "akaikeprobs", class_list),
}


def all_loops():
    out = {}
    for f, (attr, what, which) in TABLES.items():
        out.update(one_loop(MS + f, attr, (lambda what, which: lambda G: made_of(what, *which(G)))(what, which), lambda G: Havoc()))
    return out


@contract("C21", "weights and probabilities", functions=[MS + f for f in TABLES], loops=all_loops())
def probabilities(v):
    ms, G = tables(v)
    f = list(TABLES)[0]
    for g in list(TABLES)[1:]:
        if bool(v.bool("instead " + g)):
            f = g
            break
    attr, what, which = TABLES[f]
    if which is class_list:
        v.assume(Implies(G.i < G.C.n, G.C.len(G.i) >= 1))
        v.assume(forall(1, lambda c: Implies(And(0 <= c, c < G.C.n), G.C.len(c) >= 1)))
    v.assume(G.S.J < G.S.D)
    v.witness(case_tables(G))
    v.must(f, getattr(ms, f))
    v.expect_covers("end")
    v.cover("end")
    for nm, c in table_rules(G, getattr(ms, attr), G.S.D, made_of(what, *which(G))):
        v.prove(nm, c)


def case_tables(G):
    def case(ev):
        n, C = min(6, ev(G.W.n)), G.C
        return {"what": "tables", "n": n, "corrected": "AICc" in G.S.em.__name__, "dgs": [ev(G.S.dgs.at(j)) for j in range(min(4, ev(G.S.D)))],
                "stats": [[ev(G.S.stat(G.S.dgs.at(j), num(i))) for i in range(n)] for j in range(min(4, ev(G.S.D)))]}
    return case


def sorted_rule(G, P, n):
    """Some two places of the ranking, the first before the second."""
    def rule(dg, L):
        if isinstance(L, Havoc):
            return [("as specified", L.ok)]
        L = seq.as_symlist(L)
        out = [("all are ranked", num(L.n) == n)]
        a, b = G.a, G.b
        if not bool(a < n):
            return out
        x = num(L.fn(a))
        out.append(("the ranked are there", And(0 <= x, x < n)))
        if bool(And(a < b, b < n)):
            y = num(L.fn(b))
            out += [("none twice", Not(x == y)), ("by increasing probability", P(num(dg), x) <= P(num(dg), y))]
        return out
    return rule


def sorted_loops():
    out = one_loop(MS + "makesortedprobs", "sortedprobs", lambda G: sorted_rule(G, G.prob, G.W.n), lambda G: Havoc())
    out.update(one_loop(MS + "makesortedclassprobs", "sortedclassprobs", lambda G: sorted_rule(G, G.cprob, G.C.n), lambda G: Havoc()))
    return out


@contract("C21", "rankings", functions=[MS + "makesortedprobs", MS + "makesortedclassprobs"], loops=sorted_loops())
def rankings(v):
    ms, G = tables(v)
    v.assume(G.S.J < G.S.D)
    v.witness(case_tables(G))
    classes = bool(v.bool("of classes"))
    f, attr, P, n = ("makesortedclassprobs", "sortedclassprobs", G.cprob, G.C.n) if classes else ("makesortedprobs", "sortedprobs", G.prob, G.W.n)
    v.must(f, getattr(ms, f))
    v.expect_covers("end")
    v.cover("end")
    for nm, c in table_rules(G, getattr(ms, attr), G.S.D, sorted_rule(G, P, n)):
        v.prove(nm, c)


# --- queries --------------------------------------------------------------------------
def top(G, dg):
    """The best class for an uncertainty."""
    return G.corder(num(dg), G.C.n - 1)


def asked_for(v, ms, G):
    """The uncertainties asked about: some given ones, or all."""
    given = bool(v.bool("asked about some"))
    if given:
        m = v.int("asked", 0)
        dgs = v.array("asked dgs", m)
        d = dgs.snapshot()
        v.assume(forall(1, lambda i: Implies(And(0 <= i, i < m), G.S.key(d.at(i)))))
    else:
        m, dgs, d = G.S.D, None, G.S.dgs.snapshot()
    G.m, G.asked = m, d
    v.assume(G.C.n >= 1)
    v.assume(forall(1, lambda c: Implies(And(0 <= c, c < G.C.n), G.C.len(c) >= 1)))
    x = z3.Real("?dg")
    v.assume(SBool(z3.ForAll([x], sym.bt(And(0 <= top(G, SNum(x)), top(G, SNum(x)) < G.C.n)), patterns=[t(top(G, SNum(x)))])))
    return dgs


def query_case(G, what, more=lambda ev: {}):
    def case(ev):
        n, nc, D = min(6, ev(G.W.n)), min(4, ev(G.C.n)), min(4, ev(G.S.D))
        dgs = [ev(G.S.dgs.at(j)) for j in range(D)]
        return dict({"what": "query", "query": what, "n": n, "nc": nc, "dgs": dgs, "asked": [ev(G.asked.at(j)) for j in range(min(4, ev(G.m)))] if hasattr(G, "asked") else None}, **more(ev))
    return case


def best_loops():
    def spec(expected):
        def havoc(env):
            G = env.g
            env.best.n, env.best.fn = num(env.k), lambda j: expected(G, G.asked.at(num(j)))

        def inv(env):
            G = env.g
            L = seq.as_symlist(env.best)
            out = [("one for every uncertainty so far", num(L.n) == env.k)]
            return out + [("the best", num(L.fn(G.i)) == expected(G, G.asked.at(G.i)))] if bool(G.i < env.k) else out
        return LoopSpec(inv, havoc=havoc, modifies=lambda env: [env.best])
    return {(MS + "bestclasses", "for", 0): spec(top), (MS + "bestmodels", "for", 0): spec(lambda G, dg: G.best(num(dg), top(G, dg)))}


@contract("C21", "the best classes and models", functions=[MS + "bestclasses", MS + "bestmodels"], loops=best_loops())
def best_of(v):
    ms, G = tables(v)
    dgs = asked_for(v, ms, G)
    models = bool(v.bool("models"))
    v.patch(vcrt.VC, "newlists", {(MS + f, "*"): lambda: seq.SymList(0, None) for f in ("bestclasses", "bestmodels")})
    v.witness(query_case(G, "bestmodels" if models else "bestclasses"))
    r = arr.asarr(v.must("query", ms.bestmodels if models else ms.bestclasses, *([] if dgs is None else [dgs])))
    want = lambda j: G.best(G.asked.at(j), top(G, G.asked.at(j))) if models else top(G, G.asked.at(j))
    v.expect_covers("end")
    v.cover("end")
    i, j, n = G.i, v.int("one asked about", 0), num(r.shape_[0])
    v.prove("by increasing index, none twice", Implies(And(0 <= G.a, G.a < G.b, G.b < n), r.at(G.a) < r.at(G.b)))
    v.prove("every one is the best for an uncertainty asked about", Implies(i < n, Not(forall(1, lambda q: Implies(And(0 <= q, q < G.m), Not(want(q) == r.at(i)))))))
    v.prove("the best for every uncertainty asked about is there", Implies(j < G.m, Not(forall(1, lambda q: Implies(And(0 <= q, q < n), Not(want(j) == r.at(q)))))))


class Sub(seq.SymList):
    """A list being filled while going through another: the contract sees where its entries are from (src), and where an entry went (pos)."""

    def __init__(self):
        seq.SymList.__init__(self, 0, None)
        self.now(num(0), lambda p: num(0), lambda p: num(0), lambda j: num(0))
        self.cur = None

    def now(self, n, fn, src, pos):
        self.n, self.fn, self.src, self.pos = num(n), fn, src, pos
        self.ver += 1

    def append(self, x):
        if self.cur is None:
            raise Unsupported("filled outside of a loop under contract")
        n, fn, src, pos, k, x = self.n, self.fn, self.src, self.pos, num(self.cur), num(x)
        self.now(n + 1, lambda p: sym.ite(num(p) == n, x, fn(num(p))), lambda p: sym.ite(num(p) == n, k, src(num(p))), lambda j: sym.ite(num(j) == k, n, pos(num(j))))

    def extend(self, *a): raise Unsupported("many at once")
    def __setitem__(self, *a): raise Unsupported("replacing an entry")
    def __delitem__(self, *a): raise Unsupported("removing an entry")


def sub_rules(L, k, source, cond):
    return [("no more than there are", And(0 <= L.n, L.n <= k)),
            ("each is one of them", forall(1, lambda p: Implies(And(0 <= p, p < L.n), And(0 <= L.src(p), L.src(p) < k, cond(source(L.src(p))), L.fn(p) == source(L.src(p)))), patterns=None)),
            ("in their order", forall(2, lambda p, q: Implies(And(0 <= p, p < q, q < L.n), L.src(p) < L.src(q)))),
            ("all that belong are there", forall(1, lambda j: Implies(And(0 <= j, j < k, cond(source(j))), And(0 <= L.pos(j), L.pos(j) < L.n, L.src(L.pos(j)) == j))))]


def filter_loops():
    def spec(source, cond):
        def havoc(env):
            L = env.bestdgs
            if not isinstance(L, Sub):
                raise Unsupported("another list")
            nm = core.path().name
            I, R = sym.I, sym.R
            L.now(sym.fresh_int("found", 0), fun(nm("found"), I, R), fun(nm("from"), I, I), fun(nm("to"), I, I))
            L.cur = env.k
        return LoopSpec(lambda env: sub_rules(env.bestdgs, num(env.k), source(env), cond(env)), havoc=havoc, modifies=lambda env: [env.bestdgs])
    seqof = lambda it: (lambda a: lambda j: num(a.vc_item(j)))(it)
    return {(MS + "classbestdgs", "for", 0): spec(lambda env: seqof(env.loop.it), lambda env: lambda dg: top(env.g, dg) == env.g.cls),
            (MS + "modelbestdgs", "for", 0): spec(lambda env: seqof(env.loop.it), lambda env: lambda dg: env.g.best(dg, env.g.cls) == env.g.model)}


@contract("C21", "uncertainties at which something is best", functions=[MS + "classbestdgs", MS + "modelbestdgs"], loops=filter_loops())
def best_at(v):
    ms, G = tables(v)
    dgs = asked_for(v, ms, G)
    v.patch(vcrt.VC, "newlists", {(MS + f, "*"): Sub for f in ("classbestdgs", "modelbestdgs")})
    if bool(v.bool("model")):
        what, f = "modelbestdgs", ms.modelbestdgs
        x = G.model = v.int("model", 0)
        v.assume(x < G.W.n)
        G.cls = G.idx(x)
        v.assume(And(0 <= G.cls, G.cls < G.C.n))
        good = lambda dg: And(top(G, dg) == G.cls, G.best(dg, G.cls) == x)
    else:
        what, f = "classbestdgs", ms.classbestdgs
        x = G.cls = v.int("class", 0)
        v.assume(x < G.C.n)
        good = lambda dg: top(G, dg) == x
    v.witness(query_case(G, what))
    L = seq.as_symlist(v.must("query", f, x, *([] if dgs is None else [dgs])))
    v.expect_covers("end")
    v.cover("end")
    n, i, j = num(L.n), G.i, v.int("one asked about", 0)
    if bool(i < n):
        dg = num(L.fn(i))
        v.prove("best there", good(dg))
        v.prove("asked about", Not(forall(1, lambda q: Implies(And(0 <= q, q < G.m), Not(G.asked.at(q) == dg)))))
    if bool(And(j < G.m, good(G.asked.at(j)))):
        v.prove("every such uncertainty is found", Not(forall(1, lambda p: Implies(And(0 <= p, p < n), Not(num(L.fn(p)) == G.asked.at(j))))))


class Counted(Stub):
    def __init__(self, f, i):
        self.f, self.i = f, num(i)

    def npars(self, count_fixed=True):
        return self.f(self.i, num(1 if count_fixed else 0))


@contract("C21", "queries for one uncertainty", functions=[MS + f for f in ("get_model", "get_class", "get_prob", "get_nfree", "get_aic", "get", "dg_key", "maxprobdG_byclass", "maxprobdG_bymodel", "maxprobmodel_byclass", "maxprobmodel_bymodel")])
def lookups(v):
    ms, G = tables(v)
    what = "aic"
    for q in ("class", "dG", "model", "nfree", "prob", "all", "key", "max by class", "max by model", "model by class", "model by model"):
        if bool(v.bool("query " + q)):
            what = q
            break
    C, N = G.C, G.W.n
    v.assume(And(C.n >= 1, N >= 1))
    v.assume(forall(1, lambda c: Implies(And(0 <= c, c < C.n), C.len(c) >= 1)))
    nm, nb = fun("parameters of the model", sym.I, sym.I, sym.I), fun("parameters of its baseline", sym.I, sym.I, sym.I)
    ms.results = seq.SymList(N, lambda i: [None, Counted(nm, i), Counted(nb, i), None])
    S, j = G.S, v.int("j", 0)
    v.assume(And(j < S.D, S.D >= 1))
    v.expect_covers("end")
    if what == "key":
        x = v.real("x")
        v.witness(query_case(G, "key", lambda ev: {"x": ev(x)}))
        r = num(v.must("query", ms.dg_key, x))
        v.prove("the key nearest to it", sym.sabs(r - x) <= sym.sabs(S.dgs.at(j) - x) if hasattr(sym, "sabs") else And(Or(r - x <= S.dgs.at(j) - x, r - x <= x - S.dgs.at(j)), Or(x - r <= S.dgs.at(j) - x, x - r <= x - S.dgs.at(j))))
        v.prove("is one of them", Not(forall(1, lambda q: Implies(And(0 <= q, q < S.D), Not(S.dgs.at(q) == r)))))
        v.cover("end")
        return
    m = v.int("model", 0)
    v.assume(And(m < N, 0 <= G.idx(m), G.idx(m) < C.n))
    if what in ("max by class", "max by model"):
        v.witness(query_case(G, what))
        r = num(v.must("query", ms.maxprobdG_byclass if what == "max by class" else ms.maxprobdG_bymodel, m))
        P = (lambda dg: G.cprob(dg, G.idx(m))) if what == "max by class" else (lambda dg: G.prob(dg, m))
        v.prove("no uncertainty is more favourable", P(r) >= P(S.dgs.at(j)))
        v.prove("is one of them", Not(forall(1, lambda q: Implies(And(0 <= q, q < S.D), Not(S.dgs.at(q) == r)))))
        v.cover("end")
        return
    dG = v.real("dG")
    v.assume(S.key(dG))
    if what in ("model by class", "model by model"):
        v.assume(And(0 <= top(G, dG), top(G, dG) < C.n))
        v.witness(query_case(G, what))
        r = num(v.must("query", ms.maxprobmodel_byclass if what == "model by class" else ms.maxprobmodel_bymodel, dG))
        v.prove("the best", r == (G.best(dG, top(G, dG)) if what == "model by class" else G.order(dG, N - 1)))
        v.cover("end")
        return
    kw = {}
    co, mo = num(0), num(0)
    if bool(v.bool("another class")):
        co = kw["corder"] = v.int("corder", 0)
    if bool(v.bool("another model")):
        mo = kw["morder"] = v.int("morder", 0)
    how = "best" if bool(v.bool("the best class")) else "none" if bool(v.bool("no class")) else "given"
    v.assume(co < C.n)
    ranked_class = G.corder(dG, C.n - 1 - co)
    v.assume(And(0 <= ranked_class, ranked_class < C.n))
    c = ranked_class
    if how == "given":
        c = kw["cls"] = v.int("cls", 0)
        v.assume(c < C.n)
    elif how == "none":
        kw["cls"] = None
    if how == "none":
        v.assume(mo < N)
        model = G.order(dG, N - 1 - mo)
    else:
        v.assume(mo < C.len(c))
        model = last(G, dG, c, C.len(c) - 1 - mo)
        v.assume(G.idx(model) == c)
    v.assume(And(0 <= model, model < N))
    v.witness(query_case(G, what, lambda ev: {"kw": {k: None if w is None else ev(w) for k, w in kw.items()}}))
    want = {"aic": lambda: S.stat(dG, model), "class": lambda: ranked_class, "dG": lambda: dG, "model": lambda: model, "prob": lambda: G.prob(dG, model) if how == "none" else G.cprob(dG, c),
            "nfree": lambda: nm(model, num(0)) + nb(model, num(0))}
    if what == "all":
        names = ["prob", "dG", "model", "nfree", "aic", "class", "model"]
        r = v.must("query", ms.get, dG, *names, **kw)
        v.prove("all that is asked for", isinstance(r, tuple) and len(r) == len(names))
        for k, x in zip(names, r):
            v.prove("in the order asked for: " + k, num(x) == want[k]())
    else:
        if what == "class" and "cls" in kw:
            kw.pop("cls")
        r = ms.get(dG, "dG", **kw)[0] if what == "dG" else v.must("query", getattr(ms, "get_" + what), dG, **kw)
        v.prove("what the tables say: " + what, num(r) == want[what]())
    v.cover("end")


# --- statistics -----------------------------------------------------------------------
class Cols:
    """The lists of one table by uncertainty; of the one for dgJ it is known how long it is and what is at place I."""

    def __init__(self, G):
        self.G, self.n, self.item = G, num(0), None

    def view(self, q):
        return Col(self, q)


class Col(Stub):
    def __init__(self, C, q):
        self.C, self.q = C, num(q)

    def append(self, x):
        C, G = self.C, self.C.G
        if bool(self.q == G.S.at()):
            if bool(C.n == G.I):
                C.item = x
            C.n = C.n + 1

    def vc_len(self):
        if not bool(self.q == self.C.G.S.at()):
            raise Unsupported("the length of another list")
        return self.C.n


class Fresh(seq.SymList):
    made = 0

    def __init__(self):
        seq.SymList.__init__(self, 0, None)
        Fresh.made += 1
        self.serial = Fresh.made


class Half(Stub):
    """The peaks or the baseline of a model."""

    def __init__(self, G, i, base):
        self.G, self.i, self.base = G, num(i), base

    def npars(self, count_fixed=True):
        return (self.G.kb if self.base else self.G.kp)(self.i, num(1 if count_fixed else 0))


class Fit(Stub):
    """A cluster of a model, its baseline, the data, and uncertainties that are all the same."""

    def __init__(self, G, model, baseline, r, y, dy, cov, em, pf):
        v, i = G.v, v_int(G)
        e = arr.asarr(dy)
        v.prove("models are tested on the resampled data", And(r is G.r, y is G.y))
        v.prove("with an uncertainty for every point", num(e.shape_[0]) == G.n)
        v.prove("the same for every point", Implies(i < G.n, e.at(i) == e.at(num(0))))
        v.prove("by the criterion", em is G.em)
        self.init(G, model, baseline, e.at(num(0)))

    def init(self, G, model, baseline, dy):
        if not (isinstance(model, Half) and isinstance(baseline, Half) and not model.base and baseline.base):
            raise Unsupported("a cluster of something else")
        self.G, self.model, self.baseline, self.dy, self.size = G, model, baseline, num(dy), G.n
        return self

    def chisq(self, dy):
        return self.G.ss(self.model.i, self.baseline.i) / (dy * dy)

    def quality(self, evaluator=None, **k):
        if evaluator is not None or k:
            raise Unsupported("another quality")
        e = self.G.em()
        e.chisq = self.chisq(self.dy)
        e.evaluate(self)
        return e


def v_int(G):
    return sym.fresh_int("point", 0)


def entry(G, dg, i):
    """What belongs to model i and the uncertainty dg: its chi-square, and the statistic."""
    f = Fit.__new__(Fit).init(G, Half(G, i, False), Half(G, i, True), dg)
    return f.quality()


def column_rules(G, n):
    """Both lists for dgJ are n long, with the right things at place I."""
    out = []
    for C, nm in ((G.A, "evaluators"), (G.O, "statistics")):
        out.append(("one of the " + nm + " for every model so far", C.n == n))
    if not bool(G.I < n):
        return out
    e, s = G.A.item, G.O.item
    if e is None or s is None:
        return out + [("an entry for the model", False)]
    if isinstance(e, Havoc) and isinstance(s, Havoc):
        return out
    w = G.want
    return out + [("evaluated by the criterion", type(e) is G.em), ("by the chi-square for this uncertainty", num(e.chisq) == num(w.chisq)), ("the statistic of this chi-square", num(e.stat) == num(w.stat)), ("what is saved are the statistics", num(s) == num(w.stat))]


def known_columns(G, n):
    for C in (G.A, G.O):
        C.n, C.item = num(n), Havoc()


def stat_loops():
    q = MS + "makeaics"

    def havoc0(env):
        G = env.g
        for C in (G.A, G.O):
            C.n, C.item = num(0), None
        k = num(env.k)
        done = not env.loop.goes_on
        for d, C in ((env.self.aics, G.A), (env.aics_out, G.O)):
            d.set_layer((lambda x: G.S.key(num(x))) if done else (lambda x: And(G.S.J < k, num(x) == G.S.at())), C.view)
        env.self.dgs_idx.set_layer(lambda x: And(G.S.J < k, num(x) == G.S.at()), lambda x: G.S.J)
        G.serial = Fresh.made

    def table0(env):
        G = env.g
        return [seq.symdict(d) for d in (env.self.aics, env.aics_out)] if bool(G.S.J < env.k) else []

    def inv0(env):
        G, out = env.g, []
        for d in table0(env):
            out.append(("a list for every uncertainty", d.has(G.S.at())))
            x = d.at(G.S.at())
            out.append(("empty at first", x.C.n == 0 if isinstance(x, Col) else isinstance(x, Fresh) and num(x.n) == 0))
        d = seq.symdict(env.self.dgs_idx)
        if bool(G.S.J < env.k):
            out.append(("the index of every uncertainty", And(d.has(G.S.at()), d.at(G.S.at()) == G.S.J)))
        return out

    def step0(env):
        G = env.g
        dg = G.S.dgs.at(num(env.k) - 1)
        x = [seq.symdict(d).at(dg) for d in (env.self.aics, env.aics_out)]
        core.path().prove("%s: every list is one of its own" % env.loop.tag, sym.bt(all(isinstance(a, Fresh) and a.serial > G.serial for a in x) and x[0] is not x[1]))
    first = LoopSpec(inv0, havoc=havoc0, modifies=lambda env: [env.self.aics, env.aics_out, env.self.dgs_idx])
    first.step = step0
    models = LoopSpec(lambda env: column_rules(env.g, num(env.k)), havoc=lambda env: known_columns(env.g, env.k))

    def count(env):
        return num(env.model_idx) + sym.ite(env.g.S.J < env.k, num(1), num(0))
    each = LoopSpec(lambda env: column_rules(env.g, count(env)), havoc=lambda env: known_columns(env.g, count(env)))
    return {(q, "for", 0): first, (q, "for", 1): models, (q, "for", 2): each}


@contract("C21", "statistics", functions=[MS + "makeaics"], loops=stat_loops())
def statistics(v):
    import pickle

    from diffpy.srmise import multimodelselection as mm
    ms = mm.MultimodelSelection()
    G = type("G", (), {})()
    G.v, I = v, sym.I
    G.W = Models(v)
    G.S = S = Stats(v, G.W)
    G.em = S.em
    G.n, G.I = v.int("points", 1), v.int("I", 0)
    G.ss = fun("sum of squared differences", I, I, sym.R)
    G.kp, G.kb = fun("parameters of the peaks", I, I, I), fun("parameters of the baseline", I, I, I)
    v.assume(forall(2, lambda i, f: And(G.kp(i, f) >= 0, G.kb(i, f) >= 0)))
    G.r, G.y = v.array("r", G.n), v.array("y", G.n)
    v.assume(And(S.J < S.D, G.I < G.W.n))
    G.A, G.O = Cols(G), Cols(G)
    v.p.state["ghost"] = G
    dr = v.real("dr", 0)
    G.want = entry(G, S.at(), G.I)
    asked = []

    def resample(x, **k):
        asked.append((x, k))
        return G.r, G.y, arr.Arr((G.n,), lambda i: num(0), "f"), v.array("dy", G.n)
    ms.ppe = type("PPE", (), {"error_method": G.em, "pf": Stub(), "resampledata": staticmethod(resample)})()
    ms.results = seq.SymList(G.W.n, lambda i: [Stub(), Half(G, i, False), Half(G, i, True), Stub()])
    v.patch(mm, "ModelCluster", lambda *a: Fit(G, *a))
    mm.__dict__.setdefault("print", print)
    v.patch(mm, "print", lambda *a, **k: None)
    v.patch(vcrt.VC, "newlists", {(MS + "makeaics", "*"): Fresh, (MS + "makeaics", "*[]"): Fresh})
    calls, dumped, opened = [], [], []
    for nm in ("makeaicweights", "makeaicprobs", "makesortedprobs"):
        ms.__dict__[nm] = (lambda nm: lambda: calls.append(nm))(nm)

    class File:
        closed = False

        def close(self):
            self.closed = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    def op(name, mode="r"):
        opened.append((name, mode, File()))
        return opened[-1][2]
    v.patch(vcrt.VC, "open_hook", op)
    v.patch(pickle, "dump", lambda x, f, *a: dumped.append((x, f)))
    name = "a file" if bool(v.bool("saved")) else None
    v.witness(lambda ev: {"what": "stats", "n": min(4, ev(G.W.n)), "dgs": [ev(S.dgs.at(j)) for j in range(min(4, ev(S.D)))], "corrected": G.em.__name__ == "AICc", "saved": name is not None})
    v.must("statistics", ms.makeaics, S.dgs, dr, *([name] if name else []))
    v.expect_covers("end")
    v.cover("end")
    for nm, c in column_rules(G, G.W.n):
        v.prove(nm, c)
    d = seq.symdict(ms.aics)
    v.prove("the table is kept", And(d.has(S.at()), isinstance(d.at(S.at()), Col) and d.at(S.at()).C is G.A))
    v.prove("the data are resampled once, as asked", len(asked) == 1 and asked[0][1] == {} and num(asked[0][0]) == dr)
    kept = arr.asarr(ms.dgs)
    v.prove("the uncertainties are kept", And(num(kept.shape_[0]) == S.D, kept.at(S.J) == S.at()))
    v.prove("then the tables of the models are made", sorted(calls) == sorted(["makeaicweights", "makeaicprobs", "makesortedprobs"]) and calls.index("makesortedprobs") > calls.index("makeaicprobs"))
    if name:
        x = seq.symdict(dumped[0][0]) if len(dumped) == 1 else None
        v.prove("the statistics are saved, once", len(dumped) == 1 and len(opened) == 1 and opened[0][:2] == ("a file", "wb") and dumped[0][1] is opened[0][2] and opened[0][2].closed)
        v.prove("all of them", And(x.has(S.at()), isinstance(x.at(S.at()), Col) and x.at(S.at()).C is G.O))
    else:
        v.prove("nothing is saved unless asked for", not opened and not dumped)


# --- saved statistics ---------------------------------------------------------------------
class Saved(Stub):
    """The saved statistics. Of the entry for uncertainty dgJ and model I it is known what it has become; entries gone through (done) are as that one is, others as saved."""

    def __init__(self, G):
        self.G, self.item, self.done = G, None, (lambda q, i: False)

    def vc_len(self): return self.G.S.D
    def vc_item(self, j): return self.G.S.dgs.at(num(j))
    def keys(self): return seq.SymList(self.G.S.D, self.vc_item)
    def values(self): return seq.SymList(self.G.S.D, lambda j: Row(self, self.vc_item(j)))
    def items(self): return seq.SymList(self.G.S.D, lambda j: (self.vc_item(j), Row(self, self.vc_item(j))))
    def vc_contains(self, q): return self.G.S.key(num(q))

    def __getitem__(self, q):
        if not bool(self.vc_contains(q)):
            raise KeyError(q)
        return Row(self, num(q))

    def __setitem__(self, *a): raise Unsupported("replacing a list of statistics")
    def __delitem__(self, *a): raise Unsupported("removing a list of statistics")


class Row(Stub):
    def __init__(self, L, q):
        self.L, self.q = L, q

    def vc_len(self): return self.L.G.W.n

    def vc_item(self, i):
        L, i = self.L, num(i)
        if bool(And(self.q == L.G.S.at(), i == L.G.I)):
            return L.G.S.stat(self.q, i) if L.item is None else L.item
        if bool(L.done(self.q, i)):
            raise Unsupported("an entry that was gone through")
        return L.G.S.stat(self.q, i)

    def __getitem__(self, i):
        if not bool(And(0 <= num(i), num(i) < self.L.G.W.n)):
            raise Unsupported("an index beyond the list")
        return self.vc_item(i)

    def __setitem__(self, i, x):
        L, G, i = self.L, self.L.G, num(i)
        if not bool(And(0 <= i, i < G.W.n)):
            raise Unsupported("an index beyond the list")
        if bool(And(self.q == G.S.at(), i == G.I)):
            L.item = x
        q, old = self.q, L.done
        L.done = lambda a, b: Or(old(a, b), And(num(a) == q, num(b) == i))

    def append(self, *a): raise Unsupported("a longer list")
    def __delitem__(self, *a): raise Unsupported("a shorter list")


def entry_rules(L, done):
    """What the entry has become."""
    G, x = L.G, L.item
    if not bool(done):
        return [("not touched yet", x is None)]
    out = [("restored as an evaluator of the criterion", x is not None and type(x) is G.em)]
    return out + [("with its statistic", num(x.stat) == G.S.stat(G.S.at(), G.I))] if isinstance(x, G.em) else out


def load_loops():
    q = MS + "loadaics"

    def havoc_entry(env, L, done):
        L.done = done
        L.item = L.G.S.evaluator(L.G.S.at(), L.G.I) if bool(done(L.G.S.at(), L.G.I)) else None

    def upto(env):
        G, k = env.g, num(env.k)
        return lambda q, i: G.place(num(q)) < k

    def within(env):
        G, k, q0 = env.g, num(env.k), env.dg
        return lambda q, i: Or(G.place(num(q)) < G.place(num(q0)), And(num(q) == num(q0), num(i) < k))

    def havoc_idx(env):
        G, k = env.g, num(env.k)
        d = arr.asarr(env.self.dgs).at(G.P)
        env.self.dgs_idx.set_layer(lambda x: And(G.P < k, num(x) == d), lambda x: G.P)

    def inv_idx(env):
        return index_rules(env.g, env.self) if bool(env.g.P < env.k) else []
    return {(q, "for", 0): LoopSpec(inv_idx, havoc=havoc_idx, modifies=lambda env: [env.self.dgs_idx]),
            (q, "for", 1): LoopSpec(lambda env: entry_rules(env.g.L, env.g.place(env.g.S.at()) < num(env.k)), havoc=lambda env: havoc_entry(env, env.g.L, upto(env)), modifies=lambda env: [env.g.L]),
            (q, "for", 2): LoopSpec(lambda env: entry_rules(env.g.L, within(env)(env.g.S.at(), env.g.I)), havoc=lambda env: havoc_entry(env, env.g.L, within(env)), modifies=lambda env: [env.g.L])}


def index_rules(G, ms):
    d, x = seq.symdict(ms.dgs_idx), arr.asarr(ms.dgs).at(G.P)
    return [("the index of every uncertainty", And(d.has(x), d.at(x) == G.P))]


@contract("C21", "saved statistics", functions=[MS + "loadaics"], loops=load_loops())
def loaded(v):
    import pickle

    from diffpy.srmise import multimodelselection as mm
    ms = mm.MultimodelSelection()
    G = type("G", (), {})()
    G.W = Models(v)
    G.S = S = Stats(v, G.W)
    G.em, G.I, G.P = S.em, v.int("I", 0), v.int("place", 0)
    G.place = fun("place of", sym.R, sym.I)
    d = S.dgs.snapshot()
    v.assume(forall(1, lambda j: Implies(And(0 <= j, j < S.D), G.place(d.at(j)) == j)))
    v.assume(And(S.J < S.D, G.I < G.W.n, G.P < S.D))
    G.L = L = Saved(G)
    v.p.state["ghost"] = G
    ms.ppe = type("PPE", (), {"error_method": S.em})()
    calls, opened = [], []
    for nm in ("makeaicweights", "makeaicprobs", "makesortedprobs"):
        ms.__dict__[nm] = (lambda nm: lambda: calls.append(nm))(nm)

    class File:
        closed = False

        def close(self):
            self.closed = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    def op(name, mode="r"):
        opened.append((name, mode, File()))
        return opened[-1][2]
    v.patch(vcrt.VC, "open_hook", op)
    read = []
    v.patch(pickle, "load", lambda f, *a: (read.append(f), L)[1])
    v.witness(lambda ev: {"what": "stats", "n": min(4, ev(G.W.n)), "dgs": [ev(S.dgs.at(j)) for j in range(min(4, ev(S.D)))], "corrected": G.em.__name__ == "AICc", "saved": True})
    v.must("load", ms.loadaics, "a file")
    v.expect_covers("end")
    v.cover("end")
    v.prove("the file is read, once", len(opened) == 1 and opened[0][:2] == ("a file", "rb") and read == [opened[0][2]] and opened[0][2].closed)
    v.prove("what was saved is the table", ms.aics is L)
    for nm, c in entry_rules(L, True):
        v.prove(nm, c)
    kept = arr.asarr(ms.dgs)
    v.prove("all its uncertainties", num(kept.shape_[0]) == S.D)
    v.prove("each of them", Not(forall(1, lambda j: Implies(And(0 <= j, j < S.D), Not(kept.at(j) == S.at())))))
    for nm, c in index_rules(G, ms):
        v.prove(nm, c)
    v.prove("then the tables of the models are made", sorted(calls) == sorted(["makeaicweights", "makeaicprobs", "makesortedprobs"]) and calls.index("makesortedprobs") > calls.index("makeaicprobs"))
