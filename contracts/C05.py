from ded.contract import Stub
from ded.vcrt import LoopSpec as _LS

from .mp import *  # noqa: F401,F403
from .mp import Family, FamPart, MP, P1

BF = "diffpy.srmise.basefunction.BaseFunction."


class Fn:
    """A base function whose raw value is an arbitrary function of coordinate (elementwise)."""

    def __init__(self, v, n=3):
        from diffpy.srmise.basefunction import BaseFunction
        f = self.f = z3.Function(v.p.name("f"), sym.R, sym.R)
        self.calls = []

        class Any(BaseFunction):
            def __init__(o):
                o.npars = n

            def _valueraw(o, pars, r):
                self.calls.append((pars, r))
                if isinstance(r, SNum):
                    return SNum(f(sym.real(r.t)))
                a = arr.asarr(r).snapshot()
                return Arr(a.shape_, lambda *i: SNum(f(sym.real(num(a.at(*i)).t))))
        self.fn = Any()

    def at(self, x):
        return SNum(self.f(sym.real(num(x).t)))


def sel_range(v, n):
    """The kinds of requested range: everything, or a slice with arbitrary ends."""
    lo, hi = v.int("lo", 0), v.int("hi", 0)
    k = v.int("range kind", 0, 4)
    v.assume(And(lo <= n, hi <= n))
    if bool(k == 0):
        return None, (lambda i: And(0 <= i, i < n))
    if bool(k == 1):
        return slice(None), (lambda i: And(0 <= i, i < n))
    if bool(k == 2):
        return slice(None, hi), (lambda i: And(0 <= i, i < hi))
    return slice(lo, hi), (lambda i: And(lo <= i, i < hi))


def value_case(v, kind):
    F = Fn(v)
    n = v.int("n", 0)
    r = v.array("r", n, kind)
    part = Part(F.fn, v)
    rng, inside = sel_range(v, n)
    out = arr.asarr(v.must("evaluate", F.fn.value, part, r, rng))
    i = v.int("i", 0, n)
    v.prove("as long as the grid", And(out.ndim == 1, num(out.shape_[0]) == n))
    v.prove("the function inside the requested range", Implies(inside(i), out.at(i) == F.at(r.at(i))))
    v.prove("zero outside it", Implies(Not(inside(i)), out.at(i) == 0))
    v.prove("values are floats", out.kind == "f")
    v.prove("the grid is not changed", r.store.ver == 0 and out.store is not r.store)
    v.prove("the part is not changed", part.same())
    v.prove("evaluated at the part's parameters", all(p is part.pars for p, _ in F.calls))


class Part(Stub):
    def __init__(self, owner, v):
        self._owner = owner
        self.pars = self.p0 = v.array("pars", 3)
        self.free = self.f0 = v.array("free", 3, "b")

    def same(self):
        return self.pars is self.p0 and self.free is self.f0 and self.p0.store.ver == 0 and self.f0.store.ver == 0


@contract("C05", "BaseFunction.value on a grid", functions=[BF + "value"])
def value_grid(v):
    value_case(v, "f")


@contract("C05", "BaseFunction.value on an integer grid", functions=[BF + "value"])
def value_int(v):
    value_case(v, "i")


@contract("C05", "BaseFunction.value of a scalar", functions=[BF + "value"])
def value_scalar(v):
    F = Fn(v)
    x = v.real("x")
    part = Part(F.fn, v)
    y = v.must("evaluate", F.fn.value, part, x)
    v.prove("the function's value there", num(y) == F.at(x))
    v.prove("the part is not changed", part.same())


@contract("C05", "BaseFunction.value by another function", functions=[BF + "value"])
def value_owner(v):
    F, G = Fn(v), Fn(v)
    part = Part(G.fn, v)
    scalar = bool(v.bool("scalar"))
    r = v.real("x") if scalar else v.array("r", v.int("n", 0))
    v.refuses("evaluation by a function that does not own the part", ValueError, F.fn.value, part, r)


@contract("C05", "ModelPart.value", functions=[P1 + "value"])
def part_value(v):
    s = mp_real(v)
    p = s.part
    seen = []
    res = v.array("res", v.int("n", 0))

    class O(Stub):
        def value(self, part, r, rng=None):
            seen.append((part, r, rng))
            return res
    p._owner = O()
    r = v.array("r", 5)
    rng = slice(1, 3)
    a = v.must("evaluate", p.value, r, rng)
    b = v.must("evaluate", p.value, r)
    v.prove("a part is evaluated by its owner, over the requested range", len(seen) == 2 and seen[0][0] is p and seen[0][1] is r and seen[0][2] is rng and seen[1][2] is None and a is res and b is res)


def mp_real(v):
    from .mp import real_part
    return real_part(v)


class ValPart(Stub):
    def __init__(self, F, k):
        self.F, self.k = F, k

    def value(self, r, range=None):
        F, k = self.F, self.k
        F.v.prove("every part is evaluated on the given grid and range", (r is F.r) and (range is F.range))
        if F.scalar:
            return SNum(F.pv(t(k), z3.IntVal(0)))
        return Arr((F.n,), lambda i: SNum(F.pv(t(k), t(i))))


def sum_loop():
    def total(env):
        F = env.g
        return sym.fresh_real("total") if F.scalar else arr.base_array("total", (F.n,))

    def inv(env):
        F, k = env.g, env.k
        if F.scalar:
            return [("the sum of the parts so far", num(env.total) == SNum(F.S(t(k), z3.IntVal(0))))]
        tot = arr.asarr(env.total)
        return [("as long as the grid", num(tot.shape_[0]) == F.n),
                ("own storage", tot.store is not F.r.store),
                ("the sum of the parts so far", forall(1, lambda i: Implies(And(0 <= i, i < F.n), tot.at(i) == SNum(F.S(t(k), t(i))))))]
    return {(MP + "value", "for", 0): LoopSpec(inv, vars={"total": total})}


def model_value(v, scalar):
    from diffpy.srmise.modelparts import ModelParts
    F = type("F", (), {})()
    F.v, F.scalar = v, scalar
    F.M, F.n = v.int("M", 0), v.int("n", 0)
    F.pv = z3.Function(v.p.name("part_value"), sym.I, sym.I, sym.R)
    F.S = z3.Function(v.p.name("partial_sum"), sym.I, sym.I, sym.R)
    F.r = v.real("x") if scalar else v.array("r", F.n)
    F.range = None if bool(v.bool("whole")) else slice(v.int("lo", 0), v.int("hi", 0))
    # partial sums by recursion over the parts
    v.assume(forall(1, lambda i: SNum(F.S(z3.IntVal(0), t(i))) == 0, patterns=lambda i: [SNum(F.S(z3.IntVal(0), t(i)))]))
    v.assume(forall(2, lambda k, i: Implies(k >= 0, SNum(F.S(t(num(k) + 1), t(i))) == SNum(F.S(t(k), t(i))) + SNum(F.pv(t(k), t(i)))), patterns=lambda k, i: [SNum(F.pv(t(k), t(i)))]))
    v.p.state["ghost"] = F
    ps = seq.family(ModelParts, F.M, lambda k: ValPart(F, k))
    out = v.must("evaluate", ModelParts.value, ps, F.r, F.range)
    if scalar:
        v.prove("the value of a model is the sum of the values of its parts", num(out) == SNum(F.S(t(F.M), z3.IntVal(0))))
        v.prove("zero for an empty model", Implies(F.M == 0, num(out) == 0))
        return
    out = arr.asarr(out)
    i = v.int("i", 0, F.n)
    v.prove("as long as the grid", num(out.shape_[0]) == F.n)
    v.prove("the value of a model is the sum of the values of its parts", out.at(i) == SNum(F.S(t(F.M), t(i))))
    v.prove("zero for an empty model", Implies(F.M == 0, out.at(i) == 0))
    v.prove("the grid is not changed", F.r.store.ver == 0 and out.store is not F.r.store)


@contract("C05", "ModelParts.value on a grid", functions=[MP + "value"], loops=sum_loop)
def model_grid(v):
    model_value(v, False)


@contract("C05", "ModelParts.value of a scalar", functions=[MP + "value"], loops=sum_loop)
def model_scalar(v):
    model_value(v, True)


SEQ = "diffpy.srmise.baselines.fromsequence.FromSequence."


def sequence_value(v, kind):
    """The interpolant is scipy's (assumed: the same function at every point, elementwise on arrays)."""
    from diffpy.srmise.baselines.fromsequence import FromSequence
    s = FromSequence.__new__(FromSequence)
    s.npars = 0
    f = z3.Function(v.p.name("spline"), sym.R, sym.R)
    s.minx, s.maxx = v.real("minx"), v.real("maxx")
    seen = []

    def spline(x):
        seen.append(x)
        if isinstance(x, SNum):
            return SNum(f(sym.real(x.t)))
        a = arr.asarr(x).snapshot()
        return Arr(a.shape_, lambda i: SNum(f(sym.real(num(a.at(i)).t))))
    s.spline = spline
    e0 = Arr((0,), lambda i: SNum(z3.RealVal(0)))
    at = lambda x: SNum(f(sym.real(num(x).t)))
    if kind == "scalar":
        x = v.real("x")
        y = v.must("evaluate", s._valueraw, e0, x)
        v.prove("the interpolant there", num(y) == at(x))
        return
    n = v.int("n", 0)
    r = v.array("r", n, kind)
    out = arr.asarr(v.must("evaluate", s._valueraw, e0, r))
    i = v.int("i", 0, n)
    v.prove("as long as the grid", And(out.ndim == 1, num(out.shape_[0]) == n))
    v.prove("the interpolant at every point", out.at(i) == at(r.at(i)))
    v.prove("the grid is not changed", r.store.ver == 0)


for _k in ("f", "i", "scalar"):
    contract("C05", "FromSequence._valueraw, %s" % {"f": "grid", "i": "integer grid"}.get(_k, _k), functions=[SEQ + "_valueraw"])(lambda v, _k=_k: sequence_value(v, _k))
