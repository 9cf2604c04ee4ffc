from .fn import *  # noqa: F401,F403
from .fn import BL, G, GR, PEAKS, peak_function, vec

ASSUMPTIONS = ["sin(x + 2 pi k) = sin(x) and sin(pi + 2 pi k - x) = sin(x) for integer k, used at the shift the code itself applies"]
BF = "diffpy.srmise.basefunction.BaseFunction."
FORMATS = ["internal", "pwa", "mu_sigma_area"]
UNKNOWN = "no such format"


@contract("C08", "format names are resolved", functions=[BF + "transform_parameters"], max_paths=100000)
def formats(v):
    resolution(v, "transform_parameters")


def resolution(v, method):
    """One arbitrary pair of names and defaults (all combinations by forking)."""
    from diffpy.srmise.basefunction import BaseFunction
    v.expect_covers("accepted", "refused")
    calls = []

    class Any(BaseFunction):
        def _transform_parametersraw(o, pars, in_format, out_format):
            calls.append((pars, in_format, out_format))
            return "converted"
        _transform_derivativesraw = _transform_parametersraw
    names = [None, "default_input", "default_output", "a", "b", UNKNOWN]

    def choose(label, options):
        k = v.int(label, 0, len(options))
        for n, o in enumerate(options[:-1]):
            if bool(k == n):
                return o
        return options[-1]
    di, do = choose("default_input", ["a", "b"]), choose("default_output", ["a", "b"])
    f = Any({"p": 0, "q": 1}, ["a", "b"], {"default_input": di, "default_output": do}, {})
    i, o = choose("in", names + ["not given"]), choose("out", names + ["not given"])
    want = [{None: d, "not given": d, "default_input": di, "default_output": do}.get(x, x) for x, d in ((i, di), (o, do))]
    kw = {}
    if i != "not given":
        kw["in_format"] = i
    if o != "not given":
        kw["out_format"] = o
    pars = object()
    tag = "%s->%s" % (i, o)
    go = lambda: getattr(f, method)(pars, **kw)
    if UNKNOWN in want:
        v.cover("refused")
        v.refuses("an unknown format", ValueError, go)
        v.prove("nothing was converted", not calls)
        return
    v.cover("accepted")
    r = v.must("convert", go)
    if method == "transform_derivatives" and want[0] == want[1]:
        a = arr.asarr(r)
        v.prove("identity when the formats are the same", And(a.ndim == 2, num(a.shape_[0]) == 2, num(a.shape_[1]) == 2, *[a.at(x, y) == (1 if x == y else 0) for x in (0, 1) for y in (0, 1)]))
    else:
        v.prove("converted once, between the named formats", len(calls) == 1 and calls[0][0] is pars and list(calls[0][1:]) == want and r == "converted")


def refusing(v, f, npars):
    """Every built-in conversion refuses unknown formats, and does not touch its input."""
    a, e = vec(v, ["p%d" % k for k in range(npars)])
    for i, o in ((UNKNOWN, "internal"), ("internal", UNKNOWN), (UNKNOWN, UNKNOWN)):
        v.refuses("unknown format", ValueError, f.transform_parameters, a, i, o)
    v.prove("the input is not changed", a.store.ver == 0)


def sin(x):
    return SNum(sym.SIN(num(x).t))


def preferred(f, fmt, e):
    W = f.maxwidth
    lo = {"internal": -SNum(sym.PI) / 2, "pwa": 0, "mu_sigma_area": 0}[fmt]
    hi = {"internal": SNum(sym.PI) / 2, "pwa": W, "mu_sigma_area": W / f.sigma2fwhm}[fmt]
    return And(lo <= e[1], e[1] <= hi, e[2] >= 0)


def prepare(v, kind):
    f = peak_function(v, kind)
    s = f.sigma2fwhm
    v.prove("standard deviation and full width differ by 2 sqrt(2 log 2)", And(num(s) > 0, num(s) * num(s) == 8 * SNum(sym.LOG(z3.RealVal(2)))))
    return f


def roundtrip(v, kind, a, b):
    v.expect_covers("end")
    f = prepare(v, kind)
    pars, e = vec(v, ["position", "width", "area"])
    v.assume(preferred(f, a, e))
    mid = arr.asarr(v.must("convert", f.transform_parameters, pars, a, b))
    m = [num(mid.at(k)) for k in range(3)]
    W, s = f.maxwidth, num(f.sigma2fwhm)
    v.prove("position and area are kept", And(num(mid.shape_[0]) == 3, m[0] == e[0], m[2] == e[2]))
    w2 = {"internal": lambda x: W * W * (sin(x) + 1) / 2, "pwa": lambda x: x * x, "mu_sigma_area": lambda x: s * s * x * x}
    if b == "internal":
        x = w2[a](e[1]) * 2 / (W * W) - 1
        v.prove("the squared width relative to the maximum is the sine of the angular width", SBool(sin(m[1]).t == x.t))
    else:
        v.prove("widths agree in the documented units", And(m[1] >= 0, w2[b](m[1]) == w2[a](e[1])))
    v.prove("the result is in its preferred range", preferred(f, b, m))
    # back, from values related as just proved (fresh names keep the queries small)
    pars2, e2 = vec(v, ["position2", "width2", "area2"])
    v.assume(And(e2[0] == e[0], e2[2] == e[2], e2[1] == m[1], preferred(f, b, e2)))
    back = arr.asarr(v.must("convert back", f.transform_parameters, pars2, b, a))
    z = [num(back.at(k)) for k in range(3)]
    v.prove("back again: position and area", And(z[0] == e[0], z[2] == e[2]))
    v.prove("back again: width", z[1] == e[1])
    v.prove("the input is not changed", And(pars.store.ver == 0, pars2.store.ver == 0))
    v.cover("end")


for _k, _q in PEAKS.items():
    for _a in FORMATS:
        for _b in FORMATS:
            if _a != "internal" or _b != "internal":
                contract("C08", "%s, %s and back via %s" % (_k, _a, _b), functions=[_q + "_transform_parametersraw", BF + "transform_parameters"])(
                    lambda v, k=_k, a=_a, b=_b: roundtrip(v, k, a, b))


def restore(v, kind):
    """internal -> internal keeps the function and reaches the preferred range, from anywhere."""
    v.expect_covers("end")
    f = prepare(v, kind)
    pars, e = vec(v, ["position", "width", "area"])
    out = arr.asarr(v.must("restore", f.transform_parameters, pars, "internal", "internal"))
    o = [num(out.at(k)) for k in range(3)]
    v.prove("the result is in the preferred range", preferred(f, "internal", o))
    v.prove("the position is kept and the area becomes non-negative", And(o[0] == e[0], o[2] == sym.fabs(e[2])))
    half = SNum(sym.PI)
    n = SNum(sym.floor((e[1] + half / 2) / half).t)
    # the trusted fact about the sine, at the shift by whole half turns into the preferred range
    v.assume(And(Implies(n % 2 == 0, sin(e[1] - half * n) == sin(e[1])), Implies(n % 2 == 1, sin(half * n - e[1]) == sin(e[1]))))
    v.prove("the sine of the angular width is kept", sin(o[1]) == sin(e[1]))
    x = v.real("x")
    v.assume(And(x != 0, sin(e[1]) + 1 > 0))
    outv, _ = vec_of(o)
    a = v.must("evaluate", f._valueraw, pars, x)
    b = v.must("evaluate", f._valueraw, outv, x)
    v.prove("the value is the same at every coordinate", num(a) == num(b))
    v.prove("the input is not changed", pars.store.ver == 0)
    v.cover("end")


def vec_of(e):
    return Arr((len(e),), lambda i: arr.pick(e, i) if isinstance(i, SNum) else e[int(i)]), e


for _k, _q in PEAKS.items():
    contract("C08", "%s, restoring the preferred range" % _k, functions=[_q + "_transform_parametersraw", _q + "_valueraw"])(lambda v, k=_k: restore(v, k))


def toowide(v, kind):
    from diffpy.srmise.srmiseerrors import SrMiseTransformationError
    f = prepare(v, kind)
    pars, e = vec(v, ["position", "width", "area"])
    v.assume(e[1] >= 0)
    v.expect_covers("refused", "accepted")
    for fmt in ("pwa", "mu_sigma_area"):
        for out in FORMATS:
            if out == fmt:
                continue
            fwhm = e[1] if fmt == "pwa" else e[1] * num(f.sigma2fwhm)
            r = v.call(f.transform_parameters, pars, fmt, out)
            v.prove("from %s: refused exactly above the maximum width" % fmt,
                    Implies(fwhm > f.maxwidth, isinstance(r.exc, SrMiseTransformationError)))
            v.prove("from %s: accepted up to the maximum width" % fmt, Implies(fwhm <= f.maxwidth, r.ok))
    refusing(v, f, 3)
    v.cover("refused" if bool(e[1] > f.maxwidth) else "accepted")


for _k, _q in PEAKS.items():
    contract("C08", "%s, refusals" % _k, functions=[_q + "_transform_parametersraw"])(lambda v, k=_k: toowide(v, k))


def baseline_case(v, which):
    if which == "polynomial":
        from diffpy.srmise.baselines.polynomial import Polynomial
        f = Polynomial(2)
        n = 3
    elif which == "nanospherical":
        from diffpy.srmise.baselines.nanospherical import NanoSpherical
        f = NanoSpherical()
        n = 2
    elif which == "arbitrary":
        from diffpy.srmise.baselines.arbitrary import Arbitrary
        f = Arbitrary(2, lambda p, r: r)
        n = 2
    else:
        from diffpy.srmise.baselines.fromsequence import FromSequence
        f = object.__new__(FromSequence)
        f.parformats, f.default_formats, f.npars = ["internal"], {"default_input": "internal", "default_output": "internal"}, 0
        n = 0
    pars, e = vec(v, ["p%d" % k for k in range(n)])
    for i, o in ((None, None), ("internal", "internal"), ("default_input", "default_output")):
        out = arr.asarr(v.must("convert", f.transform_parameters, pars, i, o))
        v.prove("as many parameters", num(out.shape_[0]) == n)
        for k in range(n):
            v.prove("the parameters are kept" + (", apart from their sign" if which == "nanospherical" else ""),
                    out.at(k) == (sym.fabs(e[k]) if which == "nanospherical" else e[k]))
        v.prove("the input is not changed", pars.store.ver == 0 and out.store is not pars.store)
    if which == "nanospherical":
        x = v.real("x")
        v.assume(And(e[1] != 0))
        a, b = v.must("evaluate", f._valueraw, pars, x), v.must("evaluate", f._valueraw, out, x)
        v.prove("the value is the same at every coordinate", num(a) == num(b))
    refusing(v, f, n)


for _w, _c in (("polynomial", "polynomial.Polynomial."), ("nanospherical", "nanospherical.NanoSpherical."), ("arbitrary", "arbitrary.Arbitrary."), ("fromsequence", "fromsequence.FromSequence.")):
    contract("C08", _w, functions=[BL + _c + "_transform_parametersraw"])(lambda v, w=_w: baseline_case(v, w))
