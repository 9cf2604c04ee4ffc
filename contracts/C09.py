from . import C08 as c08
from .fn import *  # noqa: F401,F403
from .fn import PEAKS, peak_function, root_lemma, roots, vec

ASSUMPTIONS = ["derivatives of the specification are computed by the textbook rules over the parameters the real conversion returns",
               "gradients are checked in the interior of the range where the conversion is differentiable: width above zero and below the maximum, non-zero internal area"]
BF = "diffpy.srmise.basefunction.BaseFunction."


@contract("C09", "format names are resolved", functions=[BF + "transform_derivatives"], max_paths=100000)
def formats(v):
    c08.resolution(v, "transform_derivatives")


def gradient(v, kind, a, b):
    v.expect_covers("end")
    f = peak_function(v, kind)
    v.prove("the documented ratio of full width and standard deviation is positive", num(f.sigma2fwhm) > 0)
    pars, e = vec(v, ["position", "width", "area"])
    if a == "internal":
        v.assume(And(SNum(sym.SIN(e[1].t)) > -1, e[2] != 0))
    else:
        w = e[1] if a == "pwa" else e[1] * num(f.sigma2fwhm)
        v.assume(And(w > 0, w < f.maxwidth))
    g = arr.asarr(v.must("gradient", f.transform_derivatives, pars, a, b))
    v.prove("a square matrix", And(g.ndim == 2, num(g.shape_[0]) == 3, num(g.shape_[1]) == 3))
    if a == b:
        for i in range(3):
            for j in range(3):
                v.prove("identity when the formats are the same", g.at(i, j) == (1 if i == j else 0))
        v.cover("end")
        return
    with sym.spec_mode():
        if a == "internal":
            # away from the ends of the preferred range the restoring shift is locally constant
            half = SNum(sym.PI)
            n = SNum(sym.floor((e[1] + half / 2) / half).t)
    out = arr.asarr(v.must("convert", f.transform_parameters, pars, a, b))
    for i in range(3):
        oi = num(out.at(i))
        if a == "internal" and i == 1:
            # by C08 the sine of the restored angular width is that of the given one: width^2 = W^2 (sin + 1) / 2
            W, s = f.maxwidth, num(f.sigma2fwhm)
            want = SNum(sym.SQRT(((SNum(sym.SIN(e[1].t)) + 1) * W * W / 2).t)) / (1 if b == "pwa" else s)
            v.assume(And(Implies(n % 2 == 0, SNum(sym.SIN((e[1] - half * n).t)) == SNum(sym.SIN(e[1].t))),
                         Implies(n % 2 == 1, SNum(sym.SIN((half * n - e[1]).t)) == SNum(sym.SIN(e[1].t)))))
            v.prove("the converted width is the width of the angular width", oi == want)
            oi = want
        for j in range(3):
            d, side = deriv.diff(sym.t(oi), e[j].t)
            for nm, c in side:
                v.prove("d out[%d]/d in[%d]: %s" % (i, j, nm), SBool(c))
            via = deriv.via_ring
            if i == j == 1:
                W, r2 = f.maxwidth, SNum(sym.SQRT(z3.RealVal(2)))
                cand = [(2 * w, W * W), (2 * w / W, W)] if b == "internal" else [(W, r2)]
                for x in roots(SNum(d)):
                    for y in roots(g.at(1, 1)):
                        for nu, de in cand:
                            if via is deriv.via_ring:
                                via = root_lemma(v, x, y, nu, de) or via
            v.prove("entry [%d,%d] is the partial derivative" % (i, j), SBool(sym.real(t(num(g.at(i, j)))) == d), via=via)
    v.prove("the input is not changed", pars.store.ver == 0)
    v.cover("end")


for _k, _q in PEAKS.items():
    for _a in c08.FORMATS:
        for _b in c08.FORMATS:
            contract("C09", "%s, %s to %s" % (_k, _a, _b), functions=[_q + "_transform_derivativesraw", _q + "_transform_parametersraw", BF + "transform_derivatives"])(
                lambda v, k=_k, a=_a, b=_b: gradient(v, k, a, b))


def baseline(v, which):
    from diffpy.srmise.baselines.nanospherical import NanoSpherical
    from diffpy.srmise.baselines.polynomial import Polynomial
    f = NanoSpherical() if which == "nanospherical" else Polynomial(2)
    n = 2 if which == "nanospherical" else 3
    pars, e = vec(v, ["p%d" % k for k in range(n)])
    for i, o in ((None, None), ("internal", "default_output"), ("default_input", "internal")):
        g = arr.asarr(v.must("gradient", f.transform_derivatives, pars, i, o))
        for a in range(n):
            for b in range(n):
                v.prove("identity", And(num(g.shape_[0]) == n, g.at(a, b) == (1 if a == b else 0)))
    for i, o in ((c08.UNKNOWN, "internal"), ("internal", c08.UNKNOWN)):
        v.refuses("unknown format", ValueError, f.transform_derivatives, pars, i, o)


for _w in ("polynomial", "nanospherical"):
    contract("C09", _w, functions=[BF + "transform_derivatives"])(lambda v, w=_w: baseline(v, w))
