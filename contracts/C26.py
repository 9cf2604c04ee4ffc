"""Copies, equality, slices, names and owners."""
from .clu import *  # noqa: F401,F403
from .clu import MCL, Base, Crit, Peakset, data, slice_of, total_of
from .C15 import any_baseline, view_proofs
from .mp import MP, P1
from .txt import eqv

ASSUMPTIONS = ["list: construction from a sequence and indexing/slicing of the built-in list", "slices of clusters with 0 <= start < stop <= size and no step"]


class Owners:
    """Any number of functions known by their numbers; function i has npars(i) parameters."""

    def __init__(self, v):
        f = z3.Function(v.p.name("npars"), sym.I, sym.I)
        self.npars = lambda i: SNum(f(t(num(i))))

    def get(self, v, name):
        i = v.int(name)
        v.assume(self.npars(i) >= 0)
        return Own(self, i)


class Own(Stub):
    def __init__(self, O, i, names=None):
        self.O, self.id = O, num(i)
        self.vc_ident = ("fn", self.id)
        self.parameterdict = names or {}

    npars = property(lambda self: self.O.npars(self.id))

    def __eq__(self, o):
        return isinstance(o, Own) and bool(self.id == o.id)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def kinds(v):
    from diffpy.srmise.baselines.base import Baseline
    from diffpy.srmise.modelparts import ModelPart
    from diffpy.srmise.peaks.base import Peak
    return Peak if bool(v.bool("peak")) else Baseline if bool(v.bool("baseline")) else ModelPart


def new_part(v, cls, owner, tag=""):
    n = owner.npars
    s = type("S", (), {})()
    s.n, s.owner = n, owner
    s.pars, s.free = v.array("pars" + tag, n), v.array("free" + tag, n, "b")
    s.removable, s.static = v.bool("removable" + tag), v.bool("static" + tag)
    s.part = v.must("make a part", cls, owner, s.pars, s.free, s.removable, s.static)
    return s


def same_owner(a, b):
    return SBool(sym.bt(a.id == b.id))


def case(ev, s, o=None):
    n = min(6, ev(num(s.n)))
    d = {"what": "part", "pars": [ev(s.pars.at(i)) for i in range(n)], "free": [bool(ev(s.free.at(i))) for i in range(n)], "removable": bool(ev(s.removable)), "static": bool(ev(s.static))}
    if o is not None:
        m = min(6, ev(num(o.n)))
        d["other"] = {"same": bool(ev(SBool(sym.bt(s.owner.id == o.owner.id)))), "pars": [ev(o.pars.at(i)) for i in range(m)], "free": [bool(ev(o.free.at(i))) for i in range(m)], "removable": bool(ev(o.removable)), "static": bool(ev(o.static))}
    return d


def as_made(s, p):
    i = lambda f: forall(1, lambda k: Implies(And(0 <= k, k < s.n), f(k)))
    return And(num(p.pars.shape_[0]) == s.n, num(p.free.shape_[0]) == s.n, i(lambda k: p.pars.at(k) == s.pars.at(k)), i(lambda k: p.free.at(k) == s.free.at(k)), eqv(p.removable, s.removable), eqv(p.static_owner, s.static), same_owner(p._owner, s.owner))


@contract("C26", "copies of a part", functions=[P1 + "copy", P1 + "__init__", P1 + "setfree", P1 + "changeowner", P1 + "update"])
def copies(v):
    O = Owners(v)
    cls = kinds(v)
    s = new_part(v, cls, O.get(v, "owner"))
    p = s.part
    v.witness(lambda ev: case(ev, s))
    c = v.must("copy", p.copy)
    v.prove("a copy of the same kind", type(c) is cls and c is not p)
    v.prove("the same function, parameters and flags", And(as_made(s, c), c._owner is s.owner))
    v.prove("the original is as before", as_made(s, p))
    v.prove("no shared parameters or flags", c.pars.store is not p.pars.store and c.free.store is not p.free.store)
    a, b = (c, p) if bool(v.bool("the copy is changed")) else (p, c)
    i = v.int("i", 0)
    if bool(i < s.n):
        v.cover("changed")
        v.must("set a flag", a.setfree, i, v.bool("flag"))
        a.pars[i] = v.real("value")
        a.removable = v.bool("new protection")
        v.must("update", a.update, v.array("values", s.n))
        v.call(a.changeowner, O.get(v, "another"))
        v.prove("a change of one is not visible in the other", as_made(s, b))
    else:
        v.cover("position beyond")
    v.expect_covers("changed", "position beyond")


@contract("C26", "equality of parts", functions=[P1 + "__eq__", P1 + "__ne__"])
def equality(v):
    O = Owners(v)
    cls = kinds(v)
    a, b = new_part(v, cls, O.get(v, "owner")), new_part(v, cls, O.get(v, "owner2"), "2")
    v.witness(lambda ev: case(ev, a, b))
    same = same_owner(a.owner, b.owner)
    all_ = lambda f: forall(1, lambda k: Implies(And(0 <= k, k < a.n), f(k)))
    want = And(same, all_(lambda k: a.pars.at(k) == b.pars.at(k)), all_(lambda k: a.free.at(k) == b.free.at(k)), eqv(a.removable, b.removable))
    e = v.must("compare", lambda: a.part == b.part)
    n = v.must("compare", lambda: a.part != b.part)
    e = SBool(sym.bt(e))
    if bool(e):
        v.cover("equal")
        v.prove("equal parts agree in function, parameters, flags and removability", want)
    else:
        v.cover("unequal")
        v.prove("parts that agree in function, parameters, flags and removability are equal", Not(want))
    v.prove("unequal exactly when not equal", Not(SBool(sym.bt(n)) == e) if not isinstance(n, bool) else Not(e) if n else e)
    for o in (None, 1, "x", [], O):
        v.prove("nothing else equals a part", v.must("compare", lambda: a.part == o) is False and v.must("compare", lambda: a.part != o) is True)
    v.expect_covers("equal", "unequal")


@contract("C26", "names and positions", functions=[P1 + n for n in ("__getitem__", "getfree", "setfree", "__len__", "npars", "owner", "changeowner")])
def names(v):
    O = Owners(v)
    cls = kinds(v)
    k = {"first": v.int("first", 0), "second": v.int("second", 0)}
    o = O.get(v, "owner")
    o.parameterdict = dict(k)
    v.assume(And(k["first"] < o.npars, k["second"] < o.npars))
    s = new_part(v, cls, o)
    p = s.part
    v.prove("the length is the number of parameters", And(num(v.must("length", p.__len__)) == s.n, num(v.must("count", p.npars)) == s.n))
    v.prove("the function", p.owner() is o)
    nm = "first" if bool(v.bool("by the first name")) else "second"
    i = v.int("i")
    v.witness(lambda ev: dict(case(ev, s), what="names", at=ev(i), name=ev(k[nm])))
    v.prove("a parameter by name", num(v.must("read", lambda: p[nm])) == s.pars.at(k[nm]))
    v.prove("a flag by name", SBool(sym.bt(v.must("read", p.getfree, nm))) == s.free.at(k[nm]))
    for f in (lambda: p["unknown"], lambda: p.getfree("unknown"), lambda: p.setfree("unknown", True)):
        v.prove("an unknown name addresses nothing", not v.call(f).ok)
    flag = v.bool("flag")
    if bool(v.bool("set by name")):
        at = k[nm]
        v.must("set", p.setfree, nm, flag)
        v.cover("by name")
    else:
        r = v.call(lambda: p[i])
        inside = And(-s.n <= i, i < s.n)
        v.prove("a position outside the parameters is refused", SBool(sym.bt(inside)) if r.ok else And(Not(inside), isinstance(r.exc, IndexError)))
        if not r.ok:
            v.cover("outside")
            v.prove("for flags too", not v.call(p.getfree, i).ok and not v.call(p.setfree, i, flag).ok)
            v.prove("and nothing changes", as_made(s, p))
            return
        at = sym.ite(i < 0, i + s.n, i)
        v.prove("a parameter by position", num(r.value) == s.pars.at(at))
        v.prove("a flag by position", SBool(sym.bt(v.must("read", p.getfree, i))) == s.free.at(at))
        v.must("set", p.setfree, i, flag)
        v.cover("by position")
    v.expect_covers("by name", "by position", "outside")
    v.prove("the flag set is the one named", forall(1, lambda j: Implies(And(0 <= j, j < s.n), p.free.at(j) == sym.ite(num(j) == at, flag, s.free.at(j)))))
    v.prove("parameters are not touched", forall(1, lambda j: Implies(And(0 <= j, j < s.n), p.pars.at(j) == s.pars.at(j))))


@contract("C26", "changing the owner", functions=[P1 + "changeowner"])
def owners(v):
    from diffpy.srmise.srmiseerrors import SrMiseStaticOwnerError
    O = Owners(v)
    cls = kinds(v)
    s = new_part(v, cls, O.get(v, "owner"))
    o = O.get(v, "another")
    p = s.part
    v.witness(lambda ev: dict(case(ev, s), what="owner", n=min(8, ev(num(o.npars))), same=bool(ev(SBool(sym.bt(o.id == s.owner.id))))))
    r = v.call(p.changeowner, o)
    may = And(num(o.npars) == s.n, Or(Not(s.static), same_owner(o, s.owner)))
    if r.ok:
        v.cover("changed")
        v.prove("only to a function with as many parameters, and never when static", may)
        v.prove("the new function owns the part", same_owner(p._owner, o))
        v.prove("everything else is as before", And(num(p.pars.shape_[0]) == s.n, forall(1, lambda j: Implies(And(0 <= j, j < s.n), And(p.pars.at(j) == s.pars.at(j), p.free.at(j) == s.free.at(j)))), eqv(p.removable, s.removable), eqv(p.static_owner, s.static)))
    else:
        v.cover("refused")
        v.prove("refused only when it must be", And(Not(may), type(r.exc) is SrMiseStaticOwnerError))
        v.prove("nothing changes", as_made(s, p))
    v.expect_covers("changed", "refused")


# --- models -------------------------------------------------------------------------
class ListBase(list):
    """The built-in list with any number of elements: item(k) is the k-th."""

    def __getitem__(self, i):
        return seq.SymList(self.n, self.item)[i]

    vc_len = symlen = lambda self: self.n
    vc_item = lambda self, k: self.item(k)

    def __iter__(self):
        raise core.Unsupported("native iteration over a model")

    def __len__(self):
        raise core.Unsupported("native length of a model")

    def append(self, x):
        self.set(seq.SymList(self.n + 1, (lambda f, n: lambda k: seq.choose(num(k) < n, lambda: f(k), lambda: x))(self.item, self.n)))

    def set(self, s):
        s = seq.as_symlist(s)
        self.__dict__.update(n=num(s.n), item=s.fn)


def model_class(base):
    class Model(base, ListBase):
        def __init__(self, *a, **k):
            # list.__init__
            self.set(a[0] if a else seq.SymList(0, lambda i: None))
    return Model


class Part(Stub):
    """Part k; its copy is another object (C26: copies of a part)."""

    def __init__(self, k, copies=0):
        self.k, self.copies = num(k), copies
        self.vc_ident = ("part %d" % copies, self.k)

    def copy(self):
        return Part(self.k, self.copies + 1)


def models(v):
    from diffpy.srmise.modelparts import ModelParts
    from diffpy.srmise.peaks.base import Peaks
    cls = model_class(Peaks if bool(v.bool("peaks")) else ModelParts)
    m = cls.__new__(cls)
    n = v.int("M", 0)
    m.set(seq.SymList(n, Part))
    return cls, m, n


def no_hidden_state(v, m, n):
    v.prove("the model itself is as before", And(num(m.vc_len()) == n, forall(1, lambda k: m.vc_item(k).k == k if m.vc_item(k).copies == 0 else False)))


@contract("C26", "copies of a model", functions=[MP + "copy"])
def model_copies(v):
    cls, m, n = models(v)
    v.witness(lambda ev: {"what": "model", "n": min(4, ev(n))})
    c = v.must("copy", m.copy)
    v.prove("a model of the same kind", type(c) is cls)
    v.prove("another list", c is not m)
    k = v.int("k", 0)
    v.prove("as many parts", num(c.vc_len()) == n)
    if bool(k < n):
        q = c.vc_item(k)
        v.cover("part")
        v.prove("a copy of each part in its place", And(isinstance(q, Part) and q.copies == 1, q.k == k))
    v.expect_covers("part")
    v.must("change the copy", c.append, Part(v.int("new")))
    no_hidden_state(v, m, n)


@contract("C26", "slices of a model", functions=[MP + "__getitem__"])
def slices(v):
    cls, m, n = models(v)
    k = 0
    while k < 4 and bool(v.bool("another way")):
        k += 1
    a = v.int("start") if bool(v.bool("start given")) else None
    b = v.int("stop") if bool(v.bool("stop given")) else None
    step = [None, 1, 2, -1][k] if k < 4 else None
    v.witness(lambda ev: {"what": "slice", "n": min(6, ev(n)), "start": None if a is None else ev(a), "stop": None if b is None else ev(b), "step": step, "tuple": k == 4})
    v.expect_covers("slice", "tuple")
    if k == 4:
        s = v.must("slice", lambda: m[(a, b)])
        v.cover("tuple")
    else:
        s = v.must("slice", lambda: m[slice(a, b, step)])
        v.cover("slice")
    v.prove("a model of the same kind", type(s) is cls and s is not m)
    lo, st, cnt = arr.slice_bounds(slice(a, b, step), n)
    v.prove("as many parts as a slice has", num(s.vc_len()) == cnt)
    j = v.int("j", 0)
    if bool(j < cnt):
        q = s.vc_item(j)
        v.prove("the same parts, not copies", And(isinstance(q, Part) and q.copies == 0, q.k == num(lo) + j * st))
    no_hidden_state(v, m, n)


@contract("C26", "a part of a model", functions=[MP + "__getitem__"])
def one_part(v):
    cls, m, n = models(v)
    i = v.int("i")
    v.witness(lambda ev: {"what": "item", "n": min(6, ev(n)), "at": ev(i)})
    r = v.call(lambda: m[i])
    v.expect_covers("there", "beyond")
    if r.ok:
        v.cover("there")
        v.prove("the part at the position", And(-n <= i, i < n, isinstance(r.value, Part) and r.value.copies == 0, r.value.k == sym.ite(i < 0, i + n, i)))
    else:
        v.cover("beyond")
        v.prove("refused outside the model", And(isinstance(r.exc, IndexError), Not(And(-n <= i, i < n))))


# --- clusters -----------------------------------------------------------------------
@contract("C26", "copies of a cluster", functions=[MCL + "copy", MCL + "__init__", MCL + "change_slice", MCL + "addexternalpeaks"])
def clusters(v):
    from diffpy.srmise.modelcluster import ModelCluster
    S = data(v)
    lo, hi = slice_of(v, S.N)
    F = Peakset(v)
    n = v.int("peaks", 0)
    ids, total = fun("id", sym.I, sym.I), total_of(v, "total")
    model, mcopy = F.model(n, ids, total), F.model(n, ids, total)
    model.__dict__["copy"] = lambda: mcopy
    bl = any_baseline(v)
    pf = None if bool(v.bool("no peak functions")) else [Stub(), Stub()][:1 if bool(v.bool("one")) else 2]
    mc = v.must("make a cluster", ModelCluster, model, bl, S.r, S.y, S.e, slice(lo, hi), Crit, pf)
    v.witness(lambda ev: {"what": "cluster", "n": min(4, ev(n)), "baseline": bl is not None, "pf": pf and len(pf)})
    c = v.must("copy", mc.copy)
    v.prove("another cluster of the same kind", type(c) is type(mc) and c is not mc)
    v.prove("a copy of the peaks", c.model is mcopy and mc.model is model)
    v.prove("a copy of the baseline", c.baseline is None if bl is None else c.baseline is not bl and getattr(c.baseline, "original", None) is bl)
    v.prove("the same criterion", c.error_method is Crit)
    v.prove("the same peak functions", c.peak_funcs is None if pf is None else c.peak_funcs is not pf and len(c.peak_funcs) == len(pf) and all(a is b for a, b in zip(c.peak_funcs, pf)))
    v.prove("the same data", c.r_data is S.r and c.y_data is S.y and c.y_error is S.e)
    view_proofs(v, c, S, lo, hi, "the copy")
    # changes of one are not visible in the other
    x, y = (c, mc) if bool(v.bool("the copy is changed")) else (mc, c)
    y0 = S.y.snapshot()
    more = F.model(v.int("more", 0), fun("id2", sym.I, sym.I), total_of(v, "added"))
    x.__dict__["replacepeaks"] = lambda *a: None
    v.must("add external peaks", x.addexternalpeaks, more)
    T = type("T", (), {"r": S.r, "e": S.e, "y": y0, "N": S.N})
    l2, h2 = slice_of(v, S.N, "new")
    v.must("change the slice", x.change_slice, slice(l2, h2))
    view_proofs(v, y, T, lo, hi, "the other")
    i = v.int("point", 0)
    v.assume(i < S.N)
    v.prove("the data of the other are as before", And(arr.asarr(y.y_data).at(i) == y0.at(i), arr.asarr(y.r_data).at(i) == S.r.at(i)))
