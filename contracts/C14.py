"""ModelCovariance on any number of parts, each with any number of parameters."""
from .fn import *  # noqa: F401,F403
from .C10 import fun

MC = "diffpy.srmise.modelcluster.ModelCovariance."
ASSUMPTIONS = ["lemma: every position of a concatenation lies in exactly one piece (induction step discharged in 'positions')",
               "lemma: the running count of free parameters is monotone and never exceeds the position (by induction)",
               "lemma: pairs above the threshold can be numbered in order, each by the count of those before it",
               "model.copy() has the same parts, parameters and flags (C26)",
               "the text form of a part, used in log messages, can be made"]
B = z3.BoolSort()


class CovModel:
    """M parts; part k has npar(k) parameters at positions offall(k) ..; ff(q): flat position q is free;
    rank(q): free positions before q; P(k, j): parameters, T(k, j): transformed ones, sub(k, a, b): gradient."""

    def __init__(self, v, lo=1):
        I, R = sym.I, sym.R
        self.v = v
        self.M = M = v.int("M", lo)
        self.npar, self.off, self.part, self.idx, self.rank = fun("npar", I, I), fun("offall", I, I), fun("part", I, I), fun("idx", I, I), fun("rank", I, I)
        self.ff = fun("free", I, B)
        self.P, self.T, self.sub = fun("P", I, I, R), fun("T", I, I, R), fun("sub", I, I, I, R)
        self.dfail, self.dmiss, self.pfail = fun("dfail", I, B), fun("dmiss", I, B), fun("pfail", I, B)
        self.pv = self.P
        off, npar, part, idx, rank = self.off, self.npar, self.part, self.idx, self.rank
        self.N = N = off(M)
        inp = lambda k: And(0 <= num(k), num(k) < M)
        v.assume(And(off(0) == 0, rank(0) == 0))
        v.assume(forall(1, lambda k: Implies(inp(k), And(npar(k) >= 0, off(num(k) + 1) == off(k) + npar(k))), patterns=lambda k: [off(k)]))
        v.assume(forall(1, lambda k: Implies(inp(k), And(npar(k) >= 0, off(num(k) + 1) == off(k) + npar(k))), patterns=lambda k: [npar(k)]))
        v.assume(forall(2, lambda j, k: Implies(And(0 <= j, j <= k, k <= M), off(j) <= off(k)), patterns=lambda j, k: [[off(j), off(k)]]))
        located = lambda q: Implies(And(0 <= q, q < N), And(0 <= part(q), part(q) < M, 0 <= idx(q), idx(q) < npar(part(q)), off(part(q)) + idx(q) == q))
        v.assume(forall(1, located, patterns=lambda q: [part(q)]))
        v.assume(forall(1, located, patterns=lambda q: [idx(q)]))
        inq = lambda q: And(0 <= num(q), num(q) < N)
        step = lambda q: Implies(inq(q), rank(num(q) + 1) == rank(q) + sym.ite(self.ff(q), 1, 0))
        v.assume(forall(1, step, patterns=lambda q: [rank(q)]))
        v.assume(forall(1, lambda q: Implies(And(0 <= q, q <= N), And(0 <= rank(q), rank(q) <= q)), patterns=lambda q: [rank(q)]))
        v.assume(forall(2, lambda a, b: Implies(And(0 <= a, a <= b, b <= N), rank(a) <= rank(b)), patterns=lambda a, b: [[rank(a), rank(b)]]))
        v.p.state["offsets"] = off
        v.p.state["locate"] = (part, idx)

    def model(self, original=True):
        from diffpy.srmise.modelparts import ModelParts
        m = seq.family(ModelParts, self.M, lambda k: CovPart(self, k, original))
        F = self
        d = m.__dict__
        d["npars"] = lambda count_fixed=True: F.N if count_fixed else F.rank(F.N)
        d["copy"] = lambda: F.model(False)
        return m

    # the maps, as they are for this model
    def mmap(self, k):
        return lambda i: And(0 <= num(i), num(i) < k) if not isinstance(i, tuple) else False, lambda i: Arr((self.npar(i),), lambda j: self.off(i) + j, "i")

    def entry(self, q):
        return (self.part(q), self.idx(q))

    def pair(self, name):
        k, j = self.v.int(name, 0, self.M), self.v.int(name, 0)
        self.v.assume(j < self.npar(k))
        self.v.assume(And(self.part(self.off(k) + j) == k, self.idx(self.off(k) + j) == j))
        return k, j

    def state(self, C):
        """C holds this model and any covariance of its size."""
        C.model = self.model(False)
        self.V = self.v.array("V", (self.N, self.N))
        C.cov = self.V
        F = self
        tup = lambda q: isinstance(q, tuple) and len(q) == 2
        C.mmap = layered(*self.mmap(self.M))
        C.pmap = layered(lambda q: And(0 <= num(q[0]), num(q[0]) < F.M, 0 <= num(q[1]), num(q[1]) < F.npar(q[0])) if tup(q) else False, lambda q: F.off(q[0]) + q[1])
        C.ipmap = layered(lambda q: And(0 <= num(q), num(q) < F.N) if not tup(q) else False, self.entry)


def layered(has, get):
    d = seq.SymDict()
    d.set_layer(has, get)
    return d


class CovPart(Stub):
    def __init__(self, F, k, original):
        self.__dict__.update(F=F, k=k, original=original, vc_ident=("part", k, original))

    def npars(self, count_fixed=True):
        return self.F.npar(self.k) if count_fixed else self.F.rank(self.F.off(num(self.k) + 1)) - self.F.rank(self.F.off(self.k))

    @property
    def free(self):
        F, k = self.F, self.k
        return Arr((F.npar(k),), lambda j: F.ff(F.off(k) + j), "b")

    @property
    def pars(self):
        F, k, pv = self.F, self.k, self.F.pv
        return Arr((F.npar(k),), lambda j: pv(k, j))

    @pars.setter
    def pars(self, a):
        F, k, old = self.F, self.k, self.F.pv
        F.v.prove("only the stored copy of the model is changed", not self.original)
        a = arr.asarr(a).snapshot()
        F.v.prove("as many parameters as before", num(a.shape_[0]) == F.npar(k))
        F.pv = lambda i, j: arr.ite_any(arr._eq(num(i), k), a.at(j), old(i, j))

    def vc_len(self):
        return self.F.npar(self.k)

    symlen = vc_len

    def vc_item(self, j):
        return self.F.pv(self.k, j)

    def __getitem__(self, j):
        F = self.F
        F.v.prove("parameter position within the part", And(0 <= num(j), num(j) < F.npar(self.k)))
        return F.pv(self.k, j)

    def owner(self):
        return CovOwner(self.F, self.k)

    def __str__(self):
        return "a part"


class CovOwner(Stub):
    """The contract of a base function's conversions: the gradient and the parameters at those given."""

    def __init__(self, F, k):
        self.F, self.k = F, k

    def asked(self, pars, a, b):
        F, k = self.F, self.k
        pars = arr.asarr(pars)
        j = F.v.int("j", 0)
        F.v.prove("conversion asked for the part's own parameters, once, between the given formats",
                  And(num(pars.shape_[0]) == F.npar(k), Implies(j < F.npar(k), pars.at(j) == F.P(k, j)), a is F.fin, b is F.fout))

    def transform_derivatives(self, pars, in_format=None, out_format=None):
        F, k = self.F, self.k
        self.asked(pars, in_format, out_format)
        if bool(F.dmiss(k)):
            raise NotImplementedError("no gradient")
        if bool(F.dfail(k)):
            raise ValueError("gradient fails")
        return Arr((F.npar(k), F.npar(k)), lambda a, b: F.sub(k, a, b))

    def transform_parameters(self, pars, in_format=None, out_format=None):
        F, k = self.F, self.k
        self.asked(pars, in_format, out_format)
        if bool(F.pfail(k)):
            raise ValueError("conversion fails")
        return Arr((F.npar(k),), lambda j: F.T(k, j))


# --- setting ---------------------------------------------------------------------
def set_loops():
    def maps(env, k, i=None, m=None):
        """k parts done; within part i, m parameters."""
        F, C = env.g, env.self
        n = F.off(k) if i is None else F.off(i) + m
        mm, pm, im = (seq.symdict(x) for x in (C.mmap, C.pmap, C.ipmap))
        mk = num(k) if i is None else num(i) + 1
        mapped = lambda a, b: And(0 <= a, 0 <= b, b < F.npar(a), a < F.M, (a < k) if i is None else Or(a < i, And(a == num(i), b < m)))
        return [("position", num(env.n) == n),
                ("rows of the parts done", forall(1, lambda a: iff(mm.has(a), And(0 <= a, a < mk)))),
                ("row numbers of the parts done", forall(2, lambda a, j: entry(mm, a, And(0 <= a, a < mk, 0 <= j, j < F.npar(a)), lambda x: And(num(x.shape_[0]) == F.npar(a), x.at(j) == F.off(a) + j)))),
                ("parameters addressed by part", forall(2, lambda a, b: iff(pm.has((a, b)), mapped(a, b)))),
                ("their flat positions", forall(2, lambda a, b: entry(pm, (a, b), mapped(a, b), lambda x: num(x) == F.off(a) + b))),
                ("flat positions", forall(1, lambda q: iff(im.has(q), And(0 <= q, q < n)))),
                ("their parts", forall(1, lambda q: entry(im, q, And(0 <= q, q < n), lambda x: x[0] == F.part(q)))),
                ("their parameters", forall(1, lambda q: entry(im, q, And(0 <= q, q < n), lambda x: x[1] == F.idx(q))))]

    def havoc(env, k, i=None, m=None, mm=True):
        F, C = env.g, env.self
        n = F.off(k) if i is None else F.off(i) + m
        mapped = lambda q: And(0 <= num(q[0]), 0 <= num(q[1]), num(q[1]) < F.npar(q[0]), num(q[0]) < F.M, (num(q[0]) < k) if i is None else Or(num(q[0]) < i, And(num(q[0]) == num(i), num(q[1]) < m))) if isinstance(q, tuple) else False
        if mm:
            C.mmap.set_layer(*F.mmap(num(k)))
        C.pmap.set_layer(mapped, lambda q: F.off(q[0]) + q[1])
        C.ipmap.set_layer(lambda q: And(0 <= num(q), num(q) < n) if not isinstance(q, tuple) else False, F.entry)

    outer = LoopSpec(lambda env: maps(env, env.k), vars={"n": "int"}, havoc=lambda env: havoc(env, env.k),
                     modifies=lambda env: [env.self.mmap, env.self.pmap, env.self.ipmap])
    inner = LoopSpec(lambda env: maps(env, None, env.i, num(env.k)), vars={"n": "int"}, havoc=lambda env: havoc(env, None, env.i, num(env.k), False),
                     modifies=lambda env: [env.self.pmap, env.self.ipmap])

    def cell(env, i, k):
        """Rows before i are filled, and of row i the columns before k."""
        F = env.g
        c = arr.asarr(env.self.cov)
        val = lambda a, b: sym.ite(And(F.ff(a), F.ff(b)), F.V.at(F.rank(a), F.rank(b)), 0)
        done = (lambda a, b: a < k) if i is None else (lambda a, b: Or(a < i, And(a == num(i), b < k)))
        return [("size", And(num(c.shape_[0]) == F.N, num(c.shape_[1]) == F.N)),
                ("free entries take their values, fixed ones are zero", forall(2, lambda a, b: Implies(And(0 <= a, a < F.N, 0 <= b, b < F.N), c.at(a, b) == sym.ite(done(a, b), val(a, b), 0))))]

    def fill(env, i, k):
        F = env.g
        val = lambda a, b: sym.ite(And(F.ff(a), F.ff(b)), F.V.at(F.rank(a), F.rank(b)), 0)
        done = (lambda a, b: num(a) < k) if i is None else (lambda a, b: Or(num(a) < i, And(num(a) == num(i), num(b) < k)))
        a = arr.asarr(env.self.cov)
        a.store.fn = lambda x, y: sym.ite(done(x, y), val(x, y), num(0.0))
        a.store.ver += 1
    content = lambda env: [arr.asarr(env.self.cov)]
    row = LoopSpec(lambda env: [("rows used", num(env.rawi) == env.g.rank(env.k))] + cell(env, None, env.k), vars={"rawi": "int"},
                   havoc=lambda env: fill(env, None, env.k), modifies=content)
    col = LoopSpec(lambda env: [("columns used", num(env.rawj) == env.g.rank(env.k)), ("row", And(num(env.rawi) == env.g.rank(env.i), env.g.ff(env.i)))] + cell(env, env.i, env.k), vars={"rawj": "int"},
                   havoc=lambda env: fill(env, env.i, env.k), modifies=content)
    S = MC + "setcovariance"
    return {(S, "for", 0): outer, (S, "for", 1): inner, (S, "for", 2): row, (S, "for", 3): col}


def entry(d, key, where, cond):
    x = d.at(key)
    return Not(where) if x is None else Implies(where, cond(x))


def iff(a, b):
    B_ = lambda x: z3.BoolVal(x) if isinstance(x, bool) else sym.bt(x)
    return SBool(B_(a) == B_(b))


def before(v):
    """A covariance object that has held anything before."""
    from diffpy.srmise.modelcluster import ModelCovariance
    C = ModelCovariance()
    h = [fun("old%d" % i, sym.I, B) for i in range(3)]
    one = lambda q: num(q[0]) + num(q[1]) if isinstance(q, tuple) else q
    tup = lambda q: isinstance(q, tuple)
    if bool(v.bool("used before")):
        C.mmap = layered(lambda q: False if tup(q) else h[0](q), lambda q: Arr((num(1),), lambda j: num(q), "i"))
        C.pmap = layered(lambda q: h[1](one(q)) if tup(q) else False, lambda q: num(q[0]) + num(q[1]) - 7)
        C.ipmap = layered(lambda q: False if tup(q) else h[2](q), lambda q: (num(q), num(q)))
        C.cov = v.array("oldcov", (v.int("m", 1),) * 2)
        C.model = Stub()
    return C


@contract("C14", "setcovariance", functions=[MC + "setcovariance", MC + "__init__"], loops=set_loops)
def set_contract(v):
    F = CovModel(v)
    v.p.state["ghost"] = F
    full = bool(v.bool("all parameters"))
    S = F.N if full else F.rank(F.N)
    F.V = v.array("V", (S, S))
    if not full:
        v.assume(Not(S == F.N))
    C = before(v)
    m = F.model()
    v.expect_covers("all", "free")
    v.must("set", C.setcovariance, m, F.V)
    v.cover("all" if full else "free")
    a, b = v.int("a", 0, F.N), v.int("b", 0, F.N)
    c = arr.asarr(C.cov)
    v.prove("one row and column per parameter", And(num(c.shape_[0]) == F.N, num(c.shape_[1]) == F.N))
    if full:
        v.prove("kept as given", c.at(a, b) == F.V.at(a, b))
    else:
        v.prove("free entries keep their values", Implies(And(F.ff(a), F.ff(b)), c.at(a, b) == F.V.at(F.rank(a), F.rank(b))))
        v.prove("fixed entries are zero", Implies(Not(And(F.ff(a), F.ff(b))), c.at(a, b) == 0))
    v.prove("the matrix given is not changed nor kept", And(F.V.store.ver == 0, c.store is not F.V.store))
    k, j = F.pair("p")
    mm, pm, im = (seq.symdict(x) for x in (C.mmap, C.pmap, C.ipmap))
    q = pm.at((k, j))
    v.prove("a parameter is addressed by its part", And(pm.has((k, j)), q == F.off(k) + j))
    v.prove("and by its flat position", And(im.has(q), im.at(q)[0] == k, im.at(q)[1] == j))
    v.prove("every flat position belongs to a parameter", And(im.has(a), im.at(a)[0] == F.part(a), im.at(a)[1] == F.idx(a)))
    z, y = v.int("z"), v.int("y")
    v.prove("nothing else is addressed", And(Implies(Or(z < 0, z >= F.M, y < 0, y >= F.npar(z)), Not(SBool(sym.bt(pm.has((z, y)))))), Implies(Or(z < 0, z >= F.N), Not(SBool(sym.bt(im.has(z))))),
                                            Implies(Or(z < 0, z >= F.M), Not(SBool(sym.bt(mm.has(z)))))))
    v.prove("rows of each part", And(mm.has(k), num(mm.at(k).shape_[0]) == F.npar(k), mm.at(k).at(j) == F.off(k) + j))
    v.prove("a copy of the model is kept", C.model is not m and C.model.vc_item(k).original is False)


@contract("C14", "setcovariance refuses other shapes", functions=[MC + "setcovariance"], loops=set_loops)
def refuse_contract(v):
    F = CovModel(v)
    v.p.state["ghost"] = F
    C = before(v)
    old = (C.cov, C.model, C.mmap.layer, C.pmap.layer, C.ipmap.layer)
    a, b = v.int("rows", 0), v.int("cols", 0)
    if bool(v.bool("square")):
        v.assume(And(a == b, Not(a == F.N), Not(a == F.rank(F.N))))
        F.V = v.array("V", (a, b))
    elif bool(v.bool("matrix")):
        v.assume(Not(a == b))
        F.V = v.array("V", (a, b))
    elif bool(v.bool("vector")):
        F.V = v.array("V", (a,))
    else:
        F.V = v.array("V", (a, b, v.int("d", 0)))
    v.refuses("other shapes", ValueError, C.setcovariance, F.model(), F.V)
    v.prove("nothing is changed", all(x is y for x, y in zip(old, (C.cov, C.model, C.mmap.layer, C.pmap.layer, C.ipmap.layer))))


@contract("C14", "positions", functions=[])
def positions(v):
    """Induction step of the location lemma: one more piece."""
    I = sym.I
    off, npar, part, idx = fun("off", I, I), fun("npar", I, I), fun("part", I, I), fun("idx", I, I)
    M, q = v.int("M", 0), v.int("q", 0)
    v.assume(And(npar(M) >= 0, off(num(M) + 1) == off(M) + npar(M), q < off(num(M) + 1)))
    v.assume(Implies(q < off(M), And(0 <= part(q), part(q) < M, 0 <= idx(q), idx(q) < npar(part(q)), off(part(q)) + idx(q) == q)))
    p, i = sym.ite(q < off(M), part(q), M), sym.ite(q < off(M), idx(q), q - off(M))
    v.prove("every position is in some piece", And(0 <= p, p <= M, 0 <= i, i < npar(p), off(p) + i == q))
    a, b, x, y = v.int("a", 0), v.int("b", 0), v.int("x", 0), v.int("y", 0)
    v.assume(And(a < b, x < npar(a), y < npar(b), off(num(a) + 1) == off(a) + npar(a), off(num(a) + 1) <= off(b)))
    v.prove("and in no other", Not(off(a) + x == off(b) + y))


# --- queries ---------------------------------------------------------------------
def held(v):
    from diffpy.srmise.modelcluster import ModelCovariance
    F = CovModel(v)
    C = ModelCovariance()
    F.state(C)
    q = []
    for nm in "ab":
        k, j = F.pair(nm)
        pos = F.off(k) + j
        v.assume(And(0 <= pos, pos < F.N))
        q.append(((k, j) if bool(v.bool("%s by part" % nm)) else pos, pos, k, j))
    return F, C, q


@contract("C14", "queries", functions=[MC + f for f in ("getvalue", "getuncertainty", "getcovariance", "getcorrelation", "get")])
def queries(v):
    F, C, ((qa, a, ka, ja), (qb, b, kb, jb)) = held(v)
    V = F.V
    v.assume(forall(1, lambda i: Implies(And(0 <= i, i < F.N), V.at(i, i) >= 0)))
    v.expect_covers("correlated", "fixed")
    v.prove("value", v.must("value", C.getvalue, qa) == F.P(ka, ja))
    v.prove("covariance", v.must("covariance", C.getcovariance, qa, qb) == V.at(a, b))
    u = v.must("uncertainty", C.getuncertainty, qa)
    v.prove("uncertainty is the square root of the variance", And(u >= 0, u * u == V.at(a, a)))
    g = v.must("get", C.get, qa)
    v.prove("value and uncertainty together", And(len(g) == 2, g[0] == F.P(ka, ja), g[1] >= 0, g[1] * g[1] == V.at(a, a)))
    r = v.must("correlation", C.getcorrelation, qa, qb)
    if bool(Or(V.at(a, a) == 0, V.at(b, b) == 0)):
        v.cover("fixed")
        v.prove("zero for fixed parameters", num(r) == 0)
        return
    v.cover("correlated")
    w = v.must("uncertainty", C.getuncertainty, qb)
    v.prove("covariance over the product of uncertainties", And(u > 0, w > 0, num(r) * u * w == V.at(a, b)))
    v.prove("nothing is changed", V.store.ver == 0 and F.pv is F.P and C.cov is V)


@contract("C14", "queries without a covariance", functions=[MC + f for f in ("getcovariance", "getcorrelation", "correlationwarning", "transform")])
def undefined(v):
    from diffpy.srmise.modelcluster import ModelCovariance
    from diffpy.srmise.srmiseerrors import SrMiseUndefinedCovarianceError as E
    F = CovModel(v)
    C = ModelCovariance()
    F.state(C)
    C.cov = None
    k, j = F.pair("a")
    q = (k, j) if bool(v.bool("by part")) else F.off(k) + j
    v.refuses("covariance", E, C.getcovariance, q, q)
    v.refuses("correlation", E, C.getcorrelation, q, q)
    v.refuses("warnings", E, C.correlationwarning)
    v.refuses("conversion", E, C.transform, "a", "b")
    C.clear()
    v.prove("clearing forgets everything", C.cov is None and C.model is None and not C.mmap and not C.pmap and not C.ipmap)


# --- conversion ------------------------------------------------------------------
def grad(F, done):
    ok = lambda p: And(done(p), Not(Or(F.dmiss(p), F.dfail(p), F.pfail(p))))
    return lambda a, b: sym.ite(And(F.part(a) == F.part(b), ok(F.part(a))), F.sub(F.part(a), F.idx(a), F.idx(b)), sym.ite(num(a) == num(b), 1, 0))


def transform_loop():
    def done(env):
        F = env.g
        return lambda p: And(0 <= F.pos(p), F.pos(p) < env.k, F.elem(F.pos(p)) == p)

    def inv(env):
        F = env.g
        g = arr.asarr(env._loc["g"])
        d = done(env)
        G = grad(F, d)
        return [("size", And(num(g.shape_[0]) == F.N, num(g.shape_[1]) == F.N)),
                ("gradient: the blocks of the parts done, identity elsewhere", forall(2, lambda a, b: Implies(And(0 <= a, a < F.N, 0 <= b, b < F.N), g.at(a, b) == G(a, b)))),
                ("parameters of the parts done are converted", forall(2, lambda p, j: Implies(And(0 <= p, p < F.M, 0 <= j, j < F.npar(p)), F.pv(p, j) == sym.ite(And(d(p), Not(F.pfail(p))), F.T(p, j), F.P(p, j)))))]

    def newg(env):
        F = env.g
        G = grad(F, done(env))
        return Arr((F.N, F.N), lambda a, b: num(G(a, b)) * num(1.0), "f")

    def havoc(env):
        F, d = env.g, done(env)
        F.pv = lambda p, j: sym.ite(And(d(p), Not(F.pfail(p))), F.T(p, j), F.P(p, j))
    return {(MC + "transform", "for", 0): LoopSpec(inv, vars={"g": newg}, havoc=havoc)}


@contract("C14", "transform", functions=[MC + "transform"], loops=transform_loop)
def transform_contract(v):
    from diffpy.srmise.modelcluster import ModelCovariance
    F = CovModel(v)
    v.p.state["ghost"] = F
    C = ModelCovariance()
    F.state(C)
    F.fin, F.fout = "one format", "another"
    M = F.M
    v.expect_covers("all", "peaks", "baseline", "some")
    ident = lambda k: k
    kwds, F.elem, F.pos, F.m = {}, ident, ident, M
    if bool(v.bool("all")):
        nm = "all"
    elif bool(v.bool("peaks")):
        nm, kwds, F.m = "peaks", {"parts": "peaks"}, M - 1
    elif bool(v.bool("baseline")):
        nm, kwds, F.m, F.elem, F.pos = "baseline", {"parts": "baseline"}, num(1), lambda k: M - 1, lambda p: num(p) - (M - 1)
    else:
        nm, F.elem, F.pos, F.m = "some", fun("elem", sym.I, sym.I), fun("pos", sym.I, sym.I), v.int("m", 0)
        v.assume(forall(1, lambda k: Implies(And(0 <= k, k < F.m), And(0 <= F.elem(k), F.elem(k) < M, F.pos(F.elem(k)) == k)), patterns=lambda k: [F.elem(k)]))
        kwds = {"parts": seq.SymList(F.m, F.elem)}
    asked = lambda p: And(0 <= F.pos(p), F.pos(p) < F.m, F.elem(F.pos(p)) == p)
    v.must("convert", C.transform, F.fin, F.fout, **kwds)
    v.cover(nm)
    G = grad(F, asked)
    fs = getattr(arr.asarr(C.cov), "factors", None)
    if fs is None or len(fs) != 3:
        raise core.Unsupported("the new covariance is not a product of three matrices")
    a, b = v.int("a", 0, F.N), v.int("b", 0, F.N)
    v.prove("left factor: the block-diagonal gradient", fs[0].at(a, b) == G(a, b))
    v.prove("middle factor: the covariance before", fs[1].at(a, b) == F.V.at(a, b))
    v.prove("right factor: the transposed gradient", fs[2].at(a, b) == G(b, a))
    p, j = F.pair("p")
    v.prove("parameters of the parts asked for are converted, others are kept", F.pv(p, j) == sym.ite(And(asked(p), Not(F.pfail(p))), F.T(p, j), F.P(p, j)))


# --- warnings --------------------------------------------------------------------
def warn_loops():
    def parts(env, i, j):
        """Pairs before (i, j) in row order are listed; j is None: rows before i."""
        W = env.g
        n = W.R(i) if j is None else W.C(i, j)
        L = seq.as_symlist(env._loc["correlated"])
        return [("one entry per pair above the threshold so far", num(L.n) == n),
                ("the entries", forall(1, lambda q: Implies(And(0 <= q, q < n), W.same(L.fn(q), q))))]
    lst = lambda i, j: (lambda env: seq.SymList(env.g.R(env.k) if j is None else env.g.C(env.i, num(env.i) + 1 + env.k), env.g.listed))
    outer = LoopSpec(lambda env: parts(env, env.k, None), vars={"correlated": lst(0, None)})
    inner = LoopSpec(lambda env: parts(env, env.i, num(env.i) + 1 + env.k), vars={"correlated": lst(0, 1)})
    return {(MC + "correlationwarning", "for", 0): outer, (MC + "correlationwarning", "for", 1): inner}


@contract("C14", "correlationwarning", functions=[MC + "correlationwarning"], loops=warn_loops)
def warn_contract(v):
    from diffpy.srmise.modelcluster import ModelCovariance
    F = CovModel(v)
    C = ModelCovariance()
    F.state(C)
    I, R = sym.I, sym.R
    cor = fun("cor", I, I, R)
    th = v.real("threshold", 0)
    flat = lambda q: F.off(q[0]) + q[1] if isinstance(q, tuple) else q
    C.__dict__["getcorrelation"] = lambda i, j: cor(flat(i), flat(j))
    W = type("W", (), {})()
    W.R, W.C, W.A, W.B = fun("R", I, I), fun("C", I, I, I), fun("A", I, I), fun("B", I, I)
    w = lambda a, b: Or(cor(a, b) > th, -cor(a, b) > th)
    N = F.N
    v.assume(W.R(0) == 0)
    v.assume(forall(1, lambda i: Implies(And(0 <= i, i < N), And(W.C(i, num(i) + 1) == W.R(i), W.R(num(i) + 1) == W.C(i, N))), patterns=lambda i: [W.R(i)]))
    v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < N), And(W.C(i, num(j) + 1) == W.C(i, j) + sym.ite(w(i, j), 1, 0), W.C(i, j) >= 0,
                                                                          Implies(w(i, j), And(W.A(W.C(i, j)) == i, W.B(W.C(i, j)) == j)))), patterns=lambda i, j: [W.C(i, j)]))
    W.listed = lambda q: (F.entry(W.A(q)), F.entry(W.B(q)), cor(W.A(q), W.B(q)))
    w_same = lambda e, q: And(len(e) == 3, len(e[0]) == 2, len(e[1]) == 2, *[x == y for x, y in zip(list(e[0]) + list(e[1]) + [e[2]], list(W.listed(q)[0]) + list(W.listed(q)[1]) + [W.listed(q)[2]])])
    W.same = lambda e, q: w_same(e, q) if type(e) is tuple and len(e) == 3 else False
    v.p.state["ghost"] = W
    L = seq.as_symlist(v.must("warn", C.correlationwarning, th))
    v.prove("one warning per pair above the threshold", num(L.n) == W.R(N))
    q = v.int("q", 0)
    v.assume(q < W.R(N))
    v.prove("each names its two parameters and their correlation, pairs in order", W.same(L.fn(q), q))
