from .fn import *  # noqa: F401,F403
from .fn import BL, G, GR, PEAKS, flags, peak_function, peak_pars, prove_partial, vec

ASSUMPTIONS = ["derivatives of the specification are computed by the textbook rules (sum, product, quotient, chain, exp, sin, cos, sqrt) over the value the real code returns",
               "identities between real expressions are normalised by sympy after checking that denominators are non-zero"]
NAMES = ["position", "width", "area"]


def peak_case(v, kind, grid):
    f = peak_function(v, kind)
    pars, e = peak_pars(v)
    v.assume(e[2] != 0)
    free, fs = flags(v, 3)
    if grid:
        n = v.int("n", 1)
        r = v.array("r", n)
        i = v.int("i", 0, n)
        if kind == "gaussianoverr":
            v.assume(forall(1, lambda k: Implies(And(0 <= k, k < n), r.at(k) != 0)))
            v.assume(r.at(i) != 0)
        at = lambda a: arr.asarr(a).at(i)
    else:
        r = v.real("r")
        if kind == "gaussianoverr":
            v.assume(r != 0)
        at = lambda a: num(a)
    val = v.must("evaluate", f._valueraw, pars, r)
    jac = v.must("differentiate", f._jacobianraw, pars, r, free)
    v.prove("one derivative per parameter", len(jac) == 3)
    for k in range(3):
        if not fs[k]:
            v.prove("a fixed parameter has no derivative", jac[k] is None)
        else:
            v.prove("a free parameter has a derivative", jac[k] is not None)
            if grid:
                v.prove("as long as the grid", num(arr.asarr(jac[k]).shape_[0]) == n)
            prove_partial(v, "d/d" + NAMES[k], at(jac[k]), at(val), e[k])
    v.prove("nothing is changed", pars.store.ver == 0 and free.store.ver == 0)


for _k, _q in PEAKS.items():
    for _g in (False, True):
        contract("C07", "%s, %s" % (_k, "grid" if _g else "scalar"), functions=[_q + "_valueraw", _q + "_jacobianraw", _q + "__init__"])(
            lambda v, k=_k, g=_g: peak_case(v, k, g))


NANO = BL + "nanospherical.NanoSpherical."
POLY = BL + "polynomial.Polynomial."
ARB = BL + "arbitrary.Arbitrary."
SEQ = BL + "fromsequence.FromSequence."


def nano_case(v, grid):
    from diffpy.srmise.baselines.nanospherical import NanoSpherical
    f = NanoSpherical()
    pars, e = vec(v, ["scale", "radius"])
    v.assume(And(e[0] != 0, e[1] != 0))
    free, fs = flags(v, 2)
    if grid:
        n = v.int("n", 1)
        r = v.array("r", n)
        v.assume(forall(2, lambda a, b: Implies(And(0 <= a, a < b, b < n), r.at(a) < r.at(b))))
        i = v.int("i", 0, n)
        x = r.at(i)
        at = lambda a: arr.asarr(a).at(i)
    else:
        r = x = v.real("r")
        at = lambda a: num(a)
    v.expect_covers("inside", "outside")
    val = at(v.must("evaluate", f._valueraw, pars, r))
    jac = v.must("differentiate", f._jacobianraw, pars, r, free)
    R, s = sym.fabs(e[1]), sym.fabs(e[0])
    # the mathematical function: a cubic inside (0, 2R), zero outside; it joins with equal slope at 2R
    f_in = -s * x * (1 - SNum(z3.RealVal("3/4")) * x / R + SNum(z3.RealVal("1/16")) * x * x * x / (R * R * R))
    if bool(And(x > 0, x < 2 * R)):
        v.cover("inside")
        v.prove("the value inside the sphere's diameter", SBool(sym.real(num(val).t) == f_in.t), via=deriv.via_ring)
    else:
        v.cover("outside")
        v.prove("zero outside the sphere's diameter", num(val) == 0)
    F = SNum(z3.If(z3.And(x.t > 0, x.t < 2 * R.t), f_in.t, z3.RealVal(0)))
    v.prove("one derivative per parameter", len(jac) == 2)
    for k, nm in enumerate(["scale", "radius"]):
        if not fs[k]:
            v.prove("a fixed parameter has no derivative", jac[k] is None)
        else:
            v.prove("a free parameter has a derivative", jac[k] is not None)
            prove_partial(v, "d/d" + nm, at(jac[k]), F, e[k])


@contract("C07", "nanospherical, scalar", functions=[NANO + "_valueraw", NANO + "_valueraw2", NANO + "_jacobianraw", NANO + "_jacobianrawscale", NANO + "_jacobianrawradius"])
def nano_scalar(v):
    nano_case(v, False)


@contract("C07", "nanospherical, grid", functions=[NANO + "_valueraw", NANO + "_valueraw2", NANO + "_getdomain", NANO + "_jacobianraw", NANO + "_jacobianrawscale", NANO + "_jacobianrawradius"])
def nano_grid(v):
    nano_case(v, True)


def poly_case(v, degree):
    from diffpy.srmise.baselines.polynomial import Polynomial
    f = Polynomial(degree)
    m = degree + 1
    pars, e = vec(v, ["a%d" % (degree - k) for k in range(m)])
    free, fs = flags(v, m)
    grid = bool(v.bool("grid"))
    if grid:
        n = v.int("n", 1)
        r = v.array("r", n, "i" if bool(v.bool("integer grid")) else "f")
        i = v.int("i", 0, n)
        at = lambda a: arr.asarr(a).at(i)
    else:
        r = v.real("r")
        at = lambda a: num(a)
    val = v.must("evaluate", f._valueraw, pars, r)
    jac = v.must("differentiate", f._jacobianraw, pars, r, free)
    v.prove("one derivative per parameter", len(jac) == m)
    for k in range(m):
        if not fs[k]:
            v.prove("a fixed parameter has no derivative", jac[k] is None)
        else:
            v.prove("a free parameter has a derivative", jac[k] is not None)
            prove_partial(v, "d/da", at(jac[k]), at(val), e[k])


for _d in range(0, 4):
    contract("C07", "polynomial of degree %d" % _d, functions=[POLY + "_valueraw", POLY + "_jacobianraw", POLY + "__init__"])(lambda v, d=_d: poly_case(v, d))


@contract("C07", "no-parameter functions", functions=[POLY + "_jacobianraw", POLY + "__init__", SEQ + "_jacobianraw"])
def no_pars(v):
    from diffpy.srmise.baselines.polynomial import Polynomial
    f = Polynomial(-1)
    r = v.array("r", v.int("n", 0))
    e0 = Arr((0,), lambda i: SNum(z3.RealVal(0)))
    b0 = Arr((0,), lambda i: SBool(z3.BoolVal(True)), "b")
    v.prove("nothing to differentiate", v.must("differentiate", f._jacobianraw, e0, r, b0) == [])
    from diffpy.srmise.baselines.fromsequence import FromSequence
    s = FromSequence.__new__(FromSequence)
    s.npars = 0
    v.prove("nothing to differentiate (sequence)", v.must("differentiate", s._jacobianraw, e0, r, b0) == [])


@contract("C07", "arbitrary baseline", functions=[ARB + "_jacobianraw", ARB + "_valueraw", ARB + "__init__"])
def arbitrary(v):
    from diffpy.srmise.baselines.arbitrary import Arbitrary
    seen = []
    out, jout = v.real("value"), [None, v.real("jac")]
    has = bool(v.bool("has jacobian"))
    f = Arbitrary(2, lambda p, r: (seen.append((p, r)), out)[1], (lambda p, r, fr: (seen.append((p, r, fr)), jout)[1]) if has else None)
    pars, e = vec(v, ["a", "b"])
    free, fs = flags(v, 2)
    r = v.array("r", v.int("n", 0))
    v.prove("the value is the supplied function's", v.must("evaluate", f._valueraw, pars, r) is out and seen[-1][0] is pars and seen[-1][1] is r)
    if not has and any(fs):
        v.refuses("derivatives that were not supplied", NotImplementedError, f._jacobianraw, pars, r, free)
        return
    j = v.must("differentiate", f._jacobianraw, pars, r, free)
    if has:
        v.prove("derivatives are the supplied ones, for exactly these free parameters", j is jout and seen[-1][0] is pars and seen[-1][1] is r and seen[-1][2] is free)
    else:
        v.prove("fixed parameters have no derivative", list(j) == [None, None])


def poly_loop():
    return {(POLY + "_jacobianraw", "for", 0): LoopSpec(lambda env: env.g.inv(env.jacobian, env.k), vars={"jacobian": lambda env: env.g.havoc(env)})}


@contract("C07", "polynomial of any degree", functions=[POLY + "_valueraw", POLY + "_jacobianraw"], loops=poly_loop)
def poly_any(v):
    """numpy's polyval is the sum of pars[i] x**(N-1-i), whose derivative in pars[K] is x**(N-1-K)."""
    from diffpy.srmise.baselines.polynomial import Polynomial
    f = Polynomial.__new__(Polynomial)
    N = v.int("npars", 1)
    f.npars, f.degree = N, N - 1
    pars, free = v.array("pars", N), v.array("free", N, "b")
    grid = bool(v.bool("grid"))
    n = v.int("n", 1)
    r = v.array("r", n) if grid else v.real("r")
    K, i = v.int("K", 0, N), v.int("i", 0, n)
    want = lambda x: sym.SNum(sym.POW(sym.real(num(x).t), sym.real((N - 1 - K).t)))

    def make():
        return arr.base_array("power", (n,)) if grid else sym.fresh_real("power")

    def check(a):
        if grid:
            a = arr.asarr(a)
            return [("as long as the grid", num(a.shape_[0]) == n), ("x to the power of its position from the end", forall(1, lambda j: Implies(And(0 <= j, j < n), a.at(j) == want(r.at(j)))))]
        return [("x to the power of its position from the end", num(a) == want(r))]
    v.p.state["ghost"] = Watch(v, N, K, lambda j: free.at(j), make, check)
    val = v.must("evaluate", f._valueraw, pars, r)
    spec = arr.NP.polyval(pars, r)
    v.prove("the value is the polynomial with these coefficients", (arr.asarr(val).at(i) == arr.asarr(spec).at(i)) if grid else (num(val) == spec))
    jac = seq.as_symlist(v.must("differentiate", f._jacobianraw, pars, r, free))
    v.prove("one derivative per parameter", num(jac.n) == N)
    a = jac.fn(K)
    if a is None:
        v.prove("only fixed parameters have no derivative", Not(free.at(K)))
        return
    v.prove("a fixed parameter has no derivative", free.at(K))
    v.prove("d/da is x to the power of the parameter's position from the end", (arr.asarr(a).at(i) == want(r.at(i))) if grid else (num(a) == want(r)))


BF = "diffpy.srmise.basefunction.BaseFunction."


def jac_loop():
    return {(BF + "jacobian", "for", 0): LoopSpec(lambda env: env.g.inv(env.output, env.k), vars={"output": lambda env: env.g.havoc(env)})}


@contract("C07", "BaseFunction.jacobian on a grid", functions=[BF + "jacobian"], loops=jac_loop)
def jac_grid(v):
    from diffpy.srmise.basefunction import BaseFunction
    from .C05 import sel_range
    N, n = v.int("npars", 0), v.int("n", 0)
    D = z3.Function(v.p.name("derivative"), sym.I, sym.R, sym.R)
    free, pars = v.array("free", N, "b"), v.array("pars", N)
    r = v.array("r", n, "i" if bool(v.bool("integer grid")) else "f")
    rng, inside = sel_range(v, n)
    seen = []

    class Any(BaseFunction):
        def __init__(o):
            o.npars = N

        def _jacobianraw(o, p, x, fr):
            seen.append((p, fr))
            x = arr.asarr(x).snapshot()
            return seq.SymList(N, lambda k: Arr(x.shape_, lambda j: SNum(D(t(k), sym.real(num(x.at(j)).t)))) if bool(free.at(k)) else None)
    f = Any()
    part = type("P", (Stub,), {"__init__": lambda s: None})()
    part._owner, part.pars, part.free = f, pars, free
    K, i = v.int("K", 0, N), v.int("i", 0, n)
    want = lambda j: sym.ite(inside(j), SNum(D(t(K), sym.real(num(r.at(j)).t))), SNum(z3.RealVal(0)))

    def check(a):
        a = arr.asarr(a)
        return [("as long as the grid", num(a.shape_[0]) == n), ("floats", a.kind == "f"),
                ("the derivative inside the range, zero outside", forall(1, lambda j: Implies(And(0 <= j, j < n), a.at(j) == want(j))))]
    v.p.state["ghost"] = Watch(v, N, K, lambda j: free.at(j), lambda: arr.base_array("entry", (n,)), check)
    out = seq.as_symlist(v.must("differentiate", f.jacobian, part, r, rng))
    v.prove("one entry per parameter", num(out.n) == N)
    v.assume(K < N)
    a = out.fn(K)
    if a is None:
        v.prove("only fixed parameters have no derivative", Not(free.at(K)))
        return
    a = arr.asarr(a)
    v.prove("a fixed parameter has no derivative", free.at(K))
    v.prove("as long as the grid", num(a.shape_[0]) == n)
    v.prove("the derivative inside the requested range, zero outside", a.at(i) == want(i))
    v.prove("evaluated at the part's parameters and flags", all(p is pars and fr is free for p, fr in seen))
    v.prove("nothing is changed", r.store.ver == 0 and pars.store.ver == 0 and free.store.ver == 0)


@contract("C07", "BaseFunction.jacobian of a scalar, and by another function", functions=[BF + "jacobian"])
def jac_scalar(v):
    from diffpy.srmise.basefunction import BaseFunction
    res = [v.real("a"), None, v.real("b")]

    class Any(BaseFunction):
        def __init__(o):
            o.npars = 3

        def _jacobianraw(o, p, x, fr):
            assert p is part.pars and fr is part.free and x is r
            return res
    f, g = Any(), Any()
    part = type("P", (Stub,), {"__init__": lambda s: None})()
    part._owner, part.pars, part.free = f, v.array("pars", 3), v.array("free", 3, "b")
    r = v.real("r")
    out = v.must("differentiate", f.jacobian, part, r)
    v.prove("the derivatives there", list(out) == res if len(out) != 3 else all(x is y for x, y in zip(out, res)))
    v.refuses("differentiation by a function that does not own the part", ValueError, g.jacobian, part, r)
