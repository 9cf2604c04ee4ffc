from .fn import *  # noqa: F401,F403
from .fn import G, GR, PEAKS, peak_function, vec
from .C08 import preferred, vec_of
from .C11 import E

ASSUMPTIONS = ["the exponential is increasing; a function with non-positive (non-negative) derivative on an interval does not increase (decrease) on it"]


def maximum(v, kind):
    f = peak_function(v, kind)
    pars, e = vec(v, ["position", "width", "area"])
    v.assume(And(preferred(f, "internal", e), SNum(sym.SIN(e[1].t)) + 1 > 0))
    v.witness(lambda ev: {"f": ["g" if kind == "gaussian" else "gr", max(1e-3, ev(num(f.maxwidth)))], "pars": [ev(z) for z in e], "r": [], "y": [], "tr": False})
    m = [v.real(n) for n in ("mu", "sigma", "a")]

    def convert(p, in_format, out_format):
        p = arr.asarr(p)
        if (in_format, out_format) != ("internal", "mu_sigma_area") or not bool(And(*[p.at(k) == e[k] for k in range(3)])):
            raise core.Unsupported("another conversion")
        return vec_of(list(m))[0].copy()
    # the conversion and the value by their contracts (C08; closed form, C11)
    v.assume(And(m[1] > 0, m[2] >= 0, m[0] == e[0], m[2] == e[2]))
    f._transform_parametersraw = convert
    asked = []
    VAL = z3.Function("value_at", z3.RealSort(), z3.RealSort())

    def value(p, x):
        p = arr.asarr(p)
        v.prove("the value is asked for the peak's own parameters", And(*[p.at(k) == e[k] for k in range(3)]))
        asked.append(num(x))
        return SNum(VAL(sym.real(t(num(x)))))
    f._valueraw = value
    mu, sg, a = m
    r = v.call(f.max, pars)
    v.prove("the parameters given are not changed", pars.store.ver == 0)
    if kind == "gaussian":
        v.expect_covers("maximum")
        v.prove("a Gaussian always has a maximum", r.ok)
        q = arr.asarr(r.value)
        v.prove("coordinate and value", And(num(q.shape_[0]) == 2, q.at(0) == mu, num(q.at(1)) == SNum(VAL(sym.real(t(num(q.at(0))))))))
        x = v.real("x")
        with sym.spec_mode():
            v.prove("the exponent is largest there", E(x, m) <= E(num(q.at(0)), m))
        v.cover("maximum")
        return
    v.expect_covers("maximum", "refused")
    if not r.ok:
        v.cover("refused")
        v.prove("only a value error", isinstance(r.exc, ValueError))
        # no interior maximum: the derivative does not change sign on either side of zero (it vanishes at most at one point)
        x = v.real("x")
        v.assume(x != 0)
        with sym.spec_mode():
            v.prove("refused only when the value is monotonic on each side of zero", x * x - mu * x + sg * sg >= 0)
        return
    v.cover("maximum")
    q = arr.asarr(r.value)
    rm = num(q.at(0))
    v.prove("coordinate and value", And(num(q.shape_[0]) == 2, num(q.at(1)) == SNum(VAL(sym.real(rm.t)))))
    v.prove("a maximum exists", mu * mu > 4 * sg * sg)
    R = v.real("rmax")
    v.assume(SBool(R.t == sym.real(rm.t)))
    other = mu - R
    v.prove("stationary", SBool(sym.real((rm * rm - mu * rm + sg * sg).t) == 0), via=lambda p, phi: stationary(p, phi, mu))
    v.prove("on the side of the position", And(Implies(mu > 0, R > 0), Implies(mu < 0, R < 0)))
    v.prove("the outer of the two stationary points", Implies(mu > 0, R > other) if bool(mu > 0) else R < other)
    v.prove("the contract used for scaling", R * R > sg * sg)
    # sign of the derivative: d/dx log(exp(-(x-mu)^2/2 sigma^2)/|x|) = -(x^2 - mu x + sigma^2)/(x sigma^2)
    x = v.real("x")
    v.assume(x * mu > 0)
    D = x * x - mu * x + sg * sg
    v.prove("stationary", R * R - mu * R + sg * sg == 0)
    v.prove("the two stationary points are the only sign changes", D == (x - R) * (x - other))
    if bool(mu > 0):
        v.prove("rising up to the maximum, falling after it", And(Implies(And(other <= x, x <= R), D <= 0), Implies(x >= R, D >= 0)))
    else:
        v.prove("rising up to the maximum, falling after it", And(Implies(And(R <= x, x <= other), D <= 0), Implies(x <= R, D >= 0)))


def stationary(p, phi, mu):
    """Both signs of the position, the sign function replaced by its value."""
    return deriv.via_ring(p, phi)


@contract("C29", "logarithmic derivative over r", functions=[])
def logderiv(v):
    """Lemma: the sign of the derivative of the closed form over r is that of -x (x^2 - mu x + sigma^2)."""
    mu, sg, a, x = v.real("mu"), v.real("sigma"), v.real("a"), v.real("x")
    v.assume(And(sg > 0, a >= 0, x != 0))
    with sym.spec_mode():
        for s in (1, -1):
            F = a / (s * x * sg) * sym.fexp(-(x - mu) * (x - mu) / (2 * sg * sg))
            d, side = deriv.diff(sym.real(F.t), x.t)
            want = -(a / (s * x * sg) * sym.fexp(-(x - mu) * (x - mu) / (2 * sg * sg))) * (x * x - mu * x + sg * sg) / (x * sg * sg)
            v.prove("derivative, %s x" % ("positive" if s == 1 else "negative"), SBool(d == sym.real(want.t)), via=deriv.via_ring)


for _k, _q in PEAKS.items():
    contract("C29", "%s, maximum" % _k, functions=[_q + "max"])(lambda v, k=_k: maximum(v, k))


def estimate(v, kind):
    from diffpy.srmise.srmiseerrors import SrMiseEstimationError
    v.expect_covers("lengths", "too few", "as wide as allowed", "narrower")
    f = peak_function(v, kind)
    n, k = v.int("n", 0), v.int("k", 0)
    r, y = v.array("r", k), v.array("y", n)
    pos = arr.selection(y > 0)
    # the grid increases; used at the first and last positive points (the enumeration of positions is increasing)
    v.assume(Implies(And(num(pos.n) > 0, n == k), r.at(pos.sel(0)) <= r.at(pos.sel(num(pos.n) - 1))))
    o = v.call(f.estimate_parameters, r, y)
    v.prove("the data are not changed", r.store.ver == 0 and y.store.ver == 0)
    if not o.ok:
        v.prove("only fails with an estimation error", isinstance(o.exc, SrMiseEstimationError))
        v.prove("fails only for unequal lengths or fewer than three positive points", Or(n != k, num(pos.n) < 3))
        v.cover("lengths" if bool(n != k) else "too few")
        return
    v.prove("equal lengths", n == k)
    v.prove("at least three positive points", num(pos.n) >= 3)
    q = arr.asarr(o.value)
    w = num(q.at(1))
    v.prove("three parameters", num(q.shape_[0]) == 3)
    v.prove("the angular width is in the preferred range", And(-SNum(sym.PI) / 2 <= w, w <= SNum(sym.PI) / 2))
    with sym.spec_mode():
        W = num(f.maxwidth)
        v.prove("the width in natural units does not exceed the maximum width", W * W * (SNum(sym.SIN(w.t)) + 1) / 2 <= W * W)
    v.cover("as wide as allowed" if bool(w == SNum(sym.PI) / 2) else "narrower")


for _k, _q in PEAKS.items():
    contract("C29", "%s, estimate" % _k, functions=[_q + "estimate_parameters"], feas_ms=300)(lambda v, k=_k: estimate(v, k))
