"""Scaling.  A peak is (mu, sigma, area): its value at x is area/(sigma sqrt(2 pi) [|x|]) exp(-(x-mu)^2/(2 sigma^2))
("closed form", proved of the real values), so scaling is an identity between exponents and amplitudes."""
from ded import axioms

from .fn import *  # noqa: F401,F403
from .fn import G, GR, PEAKS, PK, peak_function, root_lemma, vec
from .C08 import preferred, vec_of

ASSUMPTIONS = ["exp(a) exp(b) = exp(a + b), exp(log s) = s, log(1/s) = -log s, used at the terms the code computes",
               "divisions by zero follow IEEE arithmetic with a zero of unknown sign (both are considered)"]
PI = SNum(sym.PI)


def E(x, m):
    """exponent of the closed form"""
    return -(x - m[0]) * (x - m[0]) / (2 * m[1] * m[1])


def closed(v, kind):
    v.expect_covers("end")
    f = peak_function(v, kind)
    pars, e = vec(v, ["position", "width", "area"])
    v.assume(And(preferred(f, "internal", e), SNum(sym.SIN(e[1].t)) + 1 > 0))
    x = v.real("x")
    if kind == "gaussianoverr":
        v.assume(x != 0)
    out = arr.asarr(v.must("convert", f.transform_parameters, pars, "internal", "mu_sigma_area"))
    m = [num(out.at(k)) for k in range(3)]
    val = num(v.must("evaluate", f._valueraw, pars, x))
    with sym.spec_mode():
        a = sym.fabs(x) if kind == "gaussianoverr" else num(1)
        ex = sym.fexp(E(x, m))
        amp = val / ex
        lhs, rhs = amp * amp * (m[1] * m[1] * 2 * PI * a * a), m[2] * m[2]
    v.prove("the standard deviation is positive and within the maximum width", And(m[1] > 0, m[1] * num(f.sigma2fwhm) <= f.maxwidth))
    # the exponential the code computes is the closed form's: equal arguments
    apps = [z for z in axioms.apps([val.t]) if z.decl().name() == "exp"]
    for z in apps:
        v.prove("the exponent", SBool(z.arg(0) == t(E(x, m))), via=deriv.via_ring)
        v.assume(SBool(z == ex.t))
    v.prove("the value is not negative", val >= 0)
    v.prove("amplitude, squared", SBool(sym.real((lhs).t) == sym.real(rhs.t)), via=deriv.via_ring)
    v.cover("end")


for _k, _q in PEAKS.items():
    contract("C11", "%s, closed form of the value" % _k, functions=[_q + "_valueraw", _q + "_transform_parametersraw"])(lambda v, k=_k: closed(v, k))


class World:
    """The function's conversions through their contract (C08), its maximum through its contract (C29)."""

    def __init__(self, v, kind):
        from diffpy.srmise.srmiseerrors import SrMiseTransformationError
        self.v, self.kind = v, kind
        self.f = f = peak_function(v, kind)
        self.pars, self.e = vec(v, ["position", "width", "area"])
        self.m = [v.real(n) for n in ("mu", "sigma", "a")]
        v.assume(And(self.m[1] > 0, self.m[1] * num(f.sigma2fwhm) <= f.maxwidth, self.m[2] >= 0, self.m[0] == self.e[0], self.m[2] == self.e[2], preferred(f, "internal", self.e)))
        self.meaning = []
        self.max = None

        def convert(pars, in_format, out_format):
            i, o = in_format, out_format
            p = arr.asarr(pars)
            if i == "internal" and o == "mu_sigma_area":
                if bool(And(*[p.at(k) == self.e[k] for k in range(3)])):
                    return vec_of(list(self.m))[0].copy()
            if i == "mu_sigma_area" and o == "internal":
                q = [num(p.at(k)) for k in range(3)]
                if any(sym.nan_of(z) is not None for z in q):
                    raise core.Unsupported("not a number reaches the conversion")
                if bool(q[1] * num(f.sigma2fwhm) > f.maxwidth):
                    raise SrMiseTransformationError("too wide")
                out, oe = vec(v, ["new position", "new width", "new area"])
                self.meaning.append((out, q, oe))
                return out
            raise core.Unsupported("conversion %s -> %s of other parameters" % (i, o))
        f._transform_parametersraw = convert

        def maximum(pars):
            p = arr.asarr(pars)
            if not bool(And(*[p.at(k) == self.e[k] for k in range(3)])):
                raise core.Unsupported("maximum of other parameters")
            mu, sg = self.m[0], self.m[1]
            if kind == "gaussian":
                return vec_of([mu, v.real("ymax")])[0]
            if bool(mu * mu <= 4 * sg * sg):
                raise ValueError("no maximum")
            if self.max is None:
                r = self.max = v.real("rmax")
                v.assume(And(r * r - mu * r + sg * sg == 0, r * r > sg * sg, Implies(mu > 0, r > 0), Implies(mu < 0, r < 0)))
            return vec_of([self.max, v.real("ymax")])[0]
        f.max = maximum


def products(v, what, left, right):
    """sum(left) == sum(right) by the ring; hence the products of their exponentials agree."""
    with sym.spec_mode():
        a, b = sum(left[1:], left[0]), sum(right[1:], right[0])
    v.prove("%s: exponents" % what, SBool(sym.real(num(a).t) == sym.real(num(b).t)), via=deriv.via_ring)
    with sym.spec_mode():
        p = lambda l: l[0] if len(l) == 1 else l[0] * p(l[1:])
        v.assume(p([sym.fexp(x) for x in left]) == p([sym.fexp(x) for x in right]))


def scaling(v, kind):
    from diffpy.srmise.srmiseerrors import SrMiseScalingError
    w = World(v, kind)
    f, m = w.f, w.m
    v.p.state["ieee"] = True
    v.expect_covers("scaled", "refused", "one", "non-positive", "too wide")
    x, s = v.real("x"), v.real("scale")
    v.witness(lambda ev: {"part": {"f": ["g" if kind == "gaussian" else "gr", max(1e-3, ev(num(f.maxwidth)))], "pars": [ev(z) for z in w.e], "free": [True] * 3}, "x": ev(x) or 0.5, "scale": ev(s), "tr": False})
    if kind == "gaussianoverr":
        v.assume(x != 0)
    r = v.call(f.scale_at, w.pars, x, s)
    v.prove("the parameters given are not changed", w.pars.store.ver == 0)
    if not r.ok:
        v.prove("only fails with a scaling error", isinstance(r.exc, SrMiseScalingError))
        v.prove("a factor of one is never refused", s != 1)
        v.cover("non-positive" if bool(s <= 0) else "refused")
        if w.meaning or r.exc.__context__ is not None:
            v.cover("too wide")
        return
    v.prove("non-positive factors are refused", s > 0)
    q = arr.asarr(r.value)
    v.prove("three parameters", num(q.shape_[0]) == 3)
    if bool(s == 1):
        v.cover("one")
        v.prove("a factor of one changes nothing", And(*[q.at(k) == w.e[k] for k in range(3)]))
        return
    hit = [z for z in w.meaning if z[0] is q or bool(And(*[q.at(k) == z[2][k] for k in range(3)]))]
    if not hit:
        raise core.Unsupported("the new parameters were not obtained by a conversion")
    n = hit[-1][1]
    v.p.state["ieee"] = False
    with sym.spec_mode():
        v.prove("the new standard deviation is positive", n[1] > 0)
        L = sym.flog(s)
        v.assume(sym.fexp(L) == s)
        v.assume(SNum(sym.LOG(z3.simplify((1 / s).t))) == -L)
        for z in axioms.apps([t(z) for z in n]):
            if z.decl().name() == "log":
                v.prove("logarithm of the inverse factor", SBool(z.arg(0) == (1 / s).t))
                v.assume(SBool(z == -L.t))
        sub = lambda z: SNum(z3.substitute(num(z).t, *[(g, -L.t) for g in axioms.apps([t(y) for y in n]) if g.decl().name() == "log"]))
        n = [sub(z) for z in n]
        n1 = v.real("sigma2")
        A1, A2 = m[2] * n[1], n[2] * m[1]  # amplitudes area/sigma, over a common denominator
        if kind == "gaussian":
            v.prove("the position of the maximum is kept", n[0] == m[0])
            v.prove("the height of the maximum is kept", SBool(A1.t == A2.t), via=deriv.via_ring)
            products(v, "value", [E(x, n)], [L, E(x, m)])
            v.prove("the value is multiplied by the factor", n[2] * sym.fexp(E(x, n)) * m[1] == s * m[2] * sym.fexp(E(x, m)) * n[1])
        else:
            rm = w.max
            v.prove("a peak without a maximum is not scaled", rm is not None)
            v.prove("the new maximum is where it was: root", SBool((rm * rm - n[0] * rm + n[1] * n[1]).t == 0), via=deriv.via_ring)
            v.prove("the new maximum is where it was: it is the maximum", rm * rm > n[1] * n[1])
            v.prove("the area stays non-negative", n[2] >= 0)
            exps = [z for z in axioms.apps([n[2].t]) if z.decl().name() == "exp"]
            e1, e2 = E(rm, m), E(rm, n)
            X1, X2 = sym.fexp(e1), sym.fexp(e2)
            for z in exps:
                for want, val in ((e1, X1), (e2, X2), (e1 - e2, X1 / X2), (e2 - e1, X2 / X1), (-e1, 1 / X1), (-e2, 1 / X2)):
                    if deriv.identity(v.p, z.arg(0), want.t) is True:
                        v.assume(SBool(z == val.t))
                        break
                else:
                    v.prove("the exponential of a known exponent", False)
            v.prove("the height of the maximum is kept", n[2] * X2 * m[1] == m[2] * X1 * n[1])
            products(v, "value", [E(x, n), e1], [L, E(x, m), e2])
            v.prove("the value is multiplied by the factor", n[2] * sym.fexp(E(x, n)) * m[1] == s * m[2] * sym.fexp(E(x, m)) * n[1])
    v.cover("scaled")


for _k, _q in PEAKS.items():
    contract("C11", "%s, scaling" % _k, functions=[_q + "scale_at"])(lambda v, k=_k: scaling(v, k))


@contract("C11", "the maximum is unique", functions=[])
def unique(v):
    """Lemma: the contract of the maximum over r determines it."""
    a, b, mu, s = v.real("a"), v.real("b"), v.real("mu"), v.real("sigma")
    v.assume(s > 0)
    v.assume(And(*[And(z * z - mu * z + s * s == 0, z * z > s * s) for z in (a, b)]))
    v.prove("two distinct roots have product sigma^2", Implies(a != b, a * b == s * s))
    v.prove("unique", a == b)


class AnyOwner(Stub):
    def __init__(self, v, n):
        self.v, self.npars, self.calls, self.out = v, n, [], None

    def scale_at(self, pars, x, scale):
        from diffpy.srmise.srmiseerrors import SrMiseScalingError
        self.calls.append((arr.asarr(pars).copy(), x, scale))
        if bool(self.v.bool("possible")):
            self.out = self.v.array("scaled", self.npars)
            return self.out
        raise SrMiseScalingError("not possible")


@contract("C11", "Peak.scale_at", functions=[PK + "base.Peak.scale_at"])
def guard(v):
    from diffpy.srmise.peaks.base import Peak
    v.expect_covers("scaled", "all fixed", "impossible", "fixed parameter")
    n = v.int("npars", 1)
    o = AnyOwner(v, n)
    pars, free = v.array("pars", n), v.array("free", n, "b")
    p = v.must("construct", Peak, o, pars, free)
    x, s = v.real("x"), v.real("scale")
    p0, f0 = p.pars.copy(), p.free.copy()
    r = v.must("scale", p.scale_at, x, s)
    q = arr.asarr(p.pars)
    i = v.int("i", 0, n)
    v.prove("as many parameters and flags as before", And(num(q.shape_[0]) == n, num(p.free.shape_[0]) == n))
    v.prove("flags are kept", p.free.at(i) == f0.at(i))
    v.prove("fixed parameters are kept", Implies(Not(free.at(i)), q.at(i) == p0.at(i)))
    for c in o.calls:
        v.prove("the function is asked about this peak, coordinate and factor", And(num(c[1]) == x, num(c[2]) == s, c[0].at(i) == p0.at(i)))
    v.prove("asked at most once", len(o.calls) <= 1)
    alters = lambda: forall(1, lambda k: Implies(And(0 <= k, k < n, Not(f0.at(k))), o.out.at(k) == p0.at(k)))
    if bool(r):
        v.cover("scaled")
        v.prove("some parameter is free", Not(forall(1, lambda k: Implies(And(0 <= k, k < n), Not(f0.at(k))))))
        v.prove("the peak has the scaled parameters", And(o.out is not None, q.at(i) == o.out.at(i)))
    else:
        v.prove("a failure changes nothing", q.at(i) == p0.at(i))
        if not o.calls:
            v.cover("all fixed")
            v.prove("not tried only when everything is fixed", forall(1, lambda k: Implies(And(0 <= k, k < n), Not(f0.at(k)))))
        elif o.out is not None:
            v.cover("fixed parameter")
            v.prove("a possible scaling is refused only when a fixed parameter would change", Not(alters()))
        else:
            v.cover("impossible")
