"""Extraction settings, their defaults and the extraction range."""
import z3

from ded import arr, core, seq, sym
from ded.arr import Arr
from ded.contract import Stub, contract
from ded.core import Unsupported
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t
from ded.vcrt import LoopSpec

ASSUMPTIONS = ["coordinates of data are in ascending order, and there are at least two points", "numpy: np.array copies; max and min of data",
               "find_qmax returns a number or raises (its estimate is not specified)", "an estimating baseline function returns parameters, or refuses with one of its two documented errors"]
PE, PDF = "diffpy.srmise.peakextraction.PeakExtraction.", "diffpy.srmise.pdfpeakextraction.PDFPeakExtraction."
NAMES = ("effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method")
MORE = ("filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample")


def kinds():
    from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
    from diffpy.srmise.peakextraction import PeakExtraction
    return PeakExtraction, PDFPeakExtraction


def pick(v, what, options):
    """One of the options."""
    for o in options[:-1]:
        if bool(v.bool(what)):
            return o
    return options[-1]


def grid(v, n):
    x = v.array("x", n)
    v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), x.at(i) < x.at(j))))
    return x


# --- data ---------------------------------------------------------------------------
@contract("C18", "setting data", functions=[PE + "setdata", PDF + "setdata", PE + "__init__", PDF + "__init__", PE + "clear", PDF + "clear"])
def setting(v):
    from diffpy.srmise import pdfpeakextraction
    PE_, PDF_ = kinds()
    cls = PDF_ if bool(v.bool("pdf")) else PE_
    n = [v.int("n%d" % i, 0) for i in range(4)]
    a = [v.array(nm, k) for nm, k in zip(("x", "y", "dx", "dy"), n)]
    given = [True, True, bool(v.bool("dx given")), bool(v.bool("dy given"))]
    fails, found = bool(v.bool("no qmax")), v.real("found")
    seen = []

    def find_qmax(x, y, *r):
        seen.append((x, y))
        if fails:
            raise ValueError("no qmax")
        return found, v.real("dq")
    v.patch(pdfpeakextraction, "find_qmax", find_qmax)
    p = v.must("make", cls)
    names = NAMES + (("qmax", "nyquist", "supersample", "scale") if cls is PDF_ else ())
    v.prove("nothing is set at first", all(getattr(p, k) is None for k in NAMES + ("x", "y", "dx", "dy", "extracted", "extraction_type") + (MORE if cls is PDF_ else ())))
    v.prove("the settings there are", sorted(p.extractvars) == sorted(names))
    if cls is PDF_:
        p.qmax_fromdata = v.real("earlier")
    v.witness(lambda ev: {"what": "data", "pdf": cls is PDF_, "n": [min(6, ev(k)) for k in n], "given": given, "real": not fails})
    r = v.call(p.setdata, a[0], a[1], *[q if g else None for q, g in zip(a[2:], given[2:])])
    want = And(n[0] == n[1], Implies(given[2], n[2] == n[0]), Implies(given[3], n[3] == n[0]))
    v.expect_covers("set", "refused")
    if not r.ok:
        v.cover("refused")
        v.prove("only unequal lengths are refused", Not(want))
        v.prove("refused with a value error", isinstance(r.exc, ValueError))
        return
    v.cover("set")
    v.prove("unequal lengths are refused", want)
    i = v.int("i", 0)
    v.assume(i < n[0])
    for nm, q, g in zip(("x", "y", "dx", "dy"), a, given):
        s = arr.asarr(getattr(p, nm))
        v.prove("as many " + nm, num(s.shape_[0]) == n[0])
        v.prove("the values of " + nm, s.at(i) == (q.at(i) if g else 0))
        if g:
            v.prove("a copy of " + nm, s.store is not q.store)
    if cls is PDF_:
        v.prove("qmax is determined from these data", len(seen) == 1 and seen[0][0] is p.x and seen[0][1] is p.y)
        v.prove("qmax of earlier data is forgotten", p.qmax_fromdata is None if fails else num(p.qmax_fromdata) == found)


# --- the range ------------------------------------------------------------------------
def range_loops():
    def low(env):
        p = env.self
        x, n = arr.asarr(p.x), arr.asarr(p.x).shape_[0]
        k = num(env.low_idx)
        return [("within the data", And(0 <= k, k <= n)), ("everything passed is below the range", forall(1, lambda j: Implies(And(0 <= j, j < k), And(x.at(j) < p.rng[0]))))]

    def high(env):
        p = env.self
        x, n = arr.asarr(p.x), arr.asarr(p.x).shape_[0]
        k = num(env.hi_idx)
        return [("within the data", And(0 <= k, k <= n)), ("everything passed is above the range", forall(1, lambda j: Implies(And(k <= j, j < n), x.at(j) > p.rng[1]))),
                ("not before the first", env.low_idx <= k)]
    return {(PE + "getrangeslice", "while", 0): LoopSpec(low, vars={"low_idx": "int"}), (PE + "getrangeslice", "while", 1): LoopSpec(high, vars={"hi_idx": "int"})}


@contract("C18", "the extraction range", functions=[PE + "getrangeslice"], loops=range_loops())
def ranges(v):
    p = kinds()[0]()
    n = v.int("n", 1)
    x = grid(v, n)
    p.x, p.rng = x, [v.real("low"), v.real("high")]
    v.witness(lambda ev: {"what": "range", "x": [ev(x.at(i)) for i in range(min(8, ev(n)))], "rng": [ev(q) for q in p.rng]})
    v.expect_covers("some", "none")
    before = x.snapshot()
    s = v.must("range", p.getrangeslice)
    i = v.int("i", 0)
    v.assume(i < n)
    v.prove("a slice of the data", And(isinstance(s, slice), s.step in (None, 1), num(s.start) >= 0, num(s.stop) >= 0, num(s.stop) <= n))
    inside = And(num(s.start) <= i, i < num(s.stop))
    if bool(inside):
        v.cover("some")
        v.prove("every selected point lies within the range", And(p.rng[0] <= x.at(i), x.at(i) <= p.rng[1]))
    else:
        v.cover("none")
        v.prove("every point within the range is selected", Not(And(p.rng[0] <= x.at(i), x.at(i) <= p.rng[1])))
    v.prove("the data are not changed", x.at(i) == before.at(i))


# --- settings -------------------------------------------------------------------------
@contract("C18", "changing settings", functions=[PE + "setvars", PDF + "setvars"])
def changing(v):
    PE_, PDF_ = kinds()
    cls = PDF_ if bool(v.bool("pdf")) else PE_
    p = cls()
    calls = []
    p.__dict__["defaultvars"] = lambda *a: calls.append(a)
    known = list(NAMES) + (["qmax", "nyquist", "supersample", "scale"] if cls is PDF_ else [])
    first, second = pick(v, "name", known), pick(v, "another name", ["none", "cres", "rng"])
    val = {k: Stub() for k in known}
    if "supersample" in val:
        val["supersample"] = v.real("supersample")
        val["qmax"] = "automatic" if bool(v.bool("automatic")) else v.real("qmax")
        p.qmax_fromdata = None if bool(v.bool("no qmax in the data")) else v.real("from the data")
        if bool(v.bool("called dg")):
            val["dg"] = Stub()
    kw = {first: val[first]}
    if second != "none":
        kw[second] = val[second]
    if "dg" in val:
        kw["dg"] = val["dg"]
    bad = pick(v, "unknown", [None, "unknown", "x", "extracted", "dG"] + ([] if cls is PDF_ else ["qmax", "dg"]))
    if bad is not None:
        kw[bad] = Stub()
    old = {k: getattr(p, k) for k in known}
    quiet = v.bool("quiet")

    def case(ev):
        ss = ev(val["supersample"]) if "supersample" in kw else None
        return {"what": "set", "pdf": cls is PDF_, "names": list(kw), "supersample": ss, "automatic": val.get("qmax") == "automatic", "fromdata": getattr(p, "qmax_fromdata", None) is not None}
    v.witness(case)
    from diffpy.srmise.srmiseerrors import SrMiseQmaxError
    r = v.call(p.setvars, quiet, **dict(kw))
    both = "dg" in val and "effective_dy" in kw
    nomax = kw.get("qmax") == "automatic" and cls is PDF_ and p.qmax_fromdata is None
    few = kw["supersample"] < 1 if "supersample" in kw and cls is PDF_ else False
    v.expect_covers("set", "refused")
    if not r.ok:
        v.cover("refused")
        v.prove("only what must be is refused", True if bad is not None or both or nomax else few)
        v.prove("refused with a value error, or the error for missing qmax", isinstance(r.exc, ValueError) or (nomax and isinstance(r.exc, SrMiseQmaxError)))
        return
    v.cover("set")
    v.prove("an unknown setting is refused", bad is None)
    v.prove("an alias together with its setting is refused", not both)
    v.prove("qmax that cannot be determined is refused", not nomax)
    v.prove("too little supersampling is refused", Not(few) if not isinstance(few, bool) else not few)
    want = dict(old)
    want.update({("effective_dy" if k == "dg" else k): w for k, w in kw.items()})
    if want.get("qmax") == "automatic":
        want["qmax"] = p.qmax_fromdata
    for k in known:
        got = getattr(p, k)
        v.prove("exactly the settings given are set", got is want[k] or (isinstance(got, SNum) and isinstance(want[k], SNum) and num(got) == num(want[k])))
    v.prove("then the others get their defaults", calls == [()])


# --- defaults -------------------------------------------------------------------------
class Baselines:
    """A baseline that is there, or is to be estimated: parameters, or refused in either way."""

    def __init__(self, v, how, log):
        self.how, self.log, self.v = how, log, v
        self.result = Base()

    def make(self):
        if self.how == "none":
            return None
        if self.how == "given":
            return self.result
        return Estimated(self)


class Base:
    pass


class Estimated:
    def __init__(self, B):
        self.B = B

    def estimate_parameters(self, r, y):
        from diffpy.srmise.srmiseerrors import SrMiseEstimationError
        self.B.log.append((r, y))
        if self.B.how == "refuses":
            raise SrMiseEstimationError("no estimate")
        if self.B.how == "cannot":
            raise NotImplementedError()
        self.B.pars = object()
        return self.B.pars

    def actualize(self, pars, in_format="default_input", *a, **k):
        self.B.made = (pars, in_format)
        return self.B.result


def prepared(v, cls=None):
    p = (cls or kinds()[0])()
    n = v.int("n", 1)
    p.x, p.y, p.dx, p.dy = grid(v, n), v.array("y", n), v.array("dx", n), v.array("dy", n)
    return p, n


def spread(v, p, n):
    """max - min of y, by their defining property."""
    hi, lo = v.real("greatest"), v.real("least")
    i, j = v.int("at most", 0), v.int("at least", 0)
    v.assume(And(i < n, j < n, hi == p.y.at(i), lo == p.y.at(j), forall(1, lambda k: Implies(And(0 <= k, k < n), And(lo <= p.y.at(k), p.y.at(k) <= hi)))))
    return hi - lo


def base_case(p, n, state, args):
    return lambda ev: {"what": "default", "x": [ev(p.x.at(i)) for i in range(min(6, ev(n)))], "y": [ev(p.y.at(i)) for i in range(min(6, ev(n)))], "dy": [ev(p.dy.at(i)) for i in range(min(6, ev(n)))], "state": state, "args": list(args)}


@contract("C18", "defaults of uncertainty and resolution", functions=[PE + "defaultvars"])
def uncertainty(v):
    p, n = prepared(v)
    quiet_rest(p)
    how = pick(v, "uncertainty", ["unset", "scalar", "sequence"])
    s = v.real("scalar")
    given = v.array("given", n)
    p.effective_dy = None if how == "unset" else s if how == "scalar" else given
    cres = None if bool(v.bool("no resolution")) else v.real("cres")
    p.cres = cres
    args = [a for a in ("effective_dy", "cres") if bool(v.bool("reset " + a))]
    v.witness(base_case(p, n, {"effective_dy": how, "cres": None if cres is None else 1.0}, args))
    rest = others(p, ("effective_dy", "cres"))
    v.must("defaults", p.defaultvars, *args)
    v.expect_covers("from the data", "from the spread", "broadcast", "kept")
    i = v.int("i", 0)
    v.assume(i < n)
    e = p.effective_dy
    if how == "unset" or "effective_dy" in args:
        e = arr.asarr(e)
        v.prove("an uncertainty for every point", num(e.shape_[0]) == n)
        if bool(forall(1, lambda k: Implies(And(0 <= k, k < n), p.dy.at(k) > 0))):
            v.cover("from the data")
            v.prove("unset uncertainties are those of the data, when all are positive", e.at(i) == p.dy.at(i))
        else:
            v.cover("from the spread")
            v.prove("otherwise a twentieth of the spread of the data", e.at(i) == spread(v, p, n) / 20)
    elif how == "scalar" and bool(s > 0):
        v.cover("broadcast")
        e = arr.asarr(e)
        v.prove("an uncertainty for every point", num(e.shape_[0]) == n)
        v.prove("a positive number is the uncertainty of every point", e.at(i) == s)
    else:
        v.cover("kept")
        v.prove("uncertainties that are set are kept", num(e) == s if how == "scalar" else e is given and e.at(i) == given.at(i))
    if cres is None or "cres" in args:
        v.prove("unset resolution is four times the average spacing", num(p.cres) * n == 4 * (p.x.at(n - 1) - p.x.at(0)))
    else:
        v.prove("resolution that is set is kept", num(p.cres) == cres)
    v.prove("nothing else is changed", rest())


def quiet_rest(p):
    """Everything set, to something of its own."""
    for k in NAMES:
        setattr(p, k, Base())
    p.rng = (p.x.at(0), p.x.at(0))
    p.cres, p.effective_dy = num(1), Base()
    p.extracted, p.extraction_type = Base(), Base()


def others(p, names):
    keep = {k: w for k, w in p.__dict__.items() if k not in names}
    return lambda: all(p.__dict__[k] is w for k, w in keep.items())


@contract("C18", "defaults of range, functions, criterion and peaks", functions=[PE + "defaultvars"])
def plain(v):
    from diffpy.srmise.modelevaluators.aic import AIC
    from diffpy.srmise.peaks.base import Peaks
    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
    p, n = prepared(v)
    v.assume(n >= 2)
    quiet_rest(p)
    unset = [a for a in ("pf", "error_method", "initial_peaks") if bool(v.bool("no " + a))]
    rng = pick(v, "range", ["none", "full", "low", "high", "empty"])
    lo, hi = v.real("low"), v.real("high")
    kind = tuple if bool(v.bool("a tuple")) else list
    p.rng = given = None if rng == "none" else kind((lo if rng in ("full", "high") else None, hi if rng in ("full", "low") else None))
    args = [a for a in ("pf", "error_method", "initial_peaks", "rng") if bool(v.bool("reset " + a))]
    for k in unset:
        setattr(p, k, None)
    was = {k: getattr(p, k) for k in ("pf", "error_method", "initial_peaks")}
    v.witness(base_case(p, n, {"unset": unset, "rng": None if given is None else [None if q is None else 1.5 for q in given], "tuple": kind is tuple}, args))
    rest = others(p, ("pf", "error_method", "initial_peaks", "rng"))
    v.must("defaults", p.defaultvars, *args)
    v.expect_covers("end")
    v.cover("end")
    x0, x1 = p.x.at(0), p.x.at(n - 1)
    full = rng == "none" or "rng" in args
    v.prove("the range is completed from the data", And(len(p.rng) == 2, num(p.rng[0]) == (x0 if full or rng in ("low", "empty") else lo), num(p.rng[1]) == (x1 if full or rng in ("high", "empty") else hi)))
    for k in ("pf", "error_method", "initial_peaks"):
        if k not in unset and k not in args:
            v.prove("a setting that is set is kept", getattr(p, k) is was[k])
    if "pf" in unset + args:
        v.prove("unset peak functions: one Gaussian over r as wide as the data", And(len(p.pf) == 1, type(p.pf[0]) is GaussianOverR, num(p.pf[0].maxwidth) == x1 - x0))
    if "error_method" in unset + args:
        v.prove("unset criterion: AIC", p.error_method is AIC)
    if "initial_peaks" in unset + args:
        v.prove("unset peaks: none", type(p.initial_peaks) is Peaks and list.__len__(p.initial_peaks) == 0 if isinstance(p.initial_peaks, list) else False)
    v.prove("nothing else is changed", rest())


@contract("C18", "defaults of the baseline", functions=[PE + "defaultvars"])
def baselines(v):
    from diffpy.srmise.baselines.base import Baseline
    from diffpy.srmise.baselines.polynomial import Polynomial
    p, n = prepared(v)
    quiet_rest(p)
    log = []
    B = Baselines(v, pick(v, "baseline", ["none", "given", "estimate", "refuses", "cannot"]), log)
    given = p.baseline = B.make()
    p.rng = None if bool(v.bool("no range")) else [v.real("low"), None]
    lo, hi = v.int("first", 0), v.int("last", 0)
    v.assume(And(lo <= hi, hi <= n))
    ranges = []

    def getrangeslice():
        ranges.append(list(p.rng))
        return slice(lo, hi)
    p.__dict__["getrangeslice"] = getrangeslice
    args = ["baseline"] if bool(v.bool("reset")) else []
    v.witness(base_case(p, n, {"baseline": B.how}, args))
    rest = others(p, ("baseline", "rng"))
    v.must("defaults", p.defaultvars, *args)
    v.expect_covers("kept", "estimated", "flat")
    if B.how == "given" and not args:
        v.cover("kept")
        v.prove("a baseline that is set is kept", p.baseline is given)
    elif B.how == "estimate" and not args:
        v.cover("estimated")
        v.prove("the baseline of the estimated parameters", p.baseline is B.result and B.made == (B.pars, "internal"))
    else:
        v.cover("flat")
        b = p.baseline
        v.prove("otherwise a baseline without parameters", type(b) is Baseline and type(b.owner()) is Polynomial and b.owner().npars == 0 and len(b) == 0)
    if B.how in ("estimate", "refuses", "cannot") and not args:
        v.prove("estimated once, from the data in the range", len(log) == 1 and len(ranges) == 1)
        r, y = map(arr.asarr, log[0])
        i = v.int("i", 0)
        v.prove("all points of the range", And(num(r.shape_[0]) == hi - lo, num(y.shape_[0]) == hi - lo))
        v.prove("and only they", Implies(i < hi - lo, And(r.at(i) == p.x.at(lo + i), y.at(i) == p.y.at(lo + i))) if bool(i < hi - lo) else True)
        v.prove("when the range is known", all(q is not None for q in ranges[0]))
    v.prove("nothing else is changed", rest())


@contract("C18", "defaults for data from a PDF", functions=[PDF + "defaultvars"])
def pdf(v):
    from diffpy.srmise import peakextraction
    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
    p, n = prepared(v, kinds()[1])
    quiet_rest(p)
    calls = []
    v.patch(peakextraction.PeakExtraction, "defaultvars", lambda self, *a: calls.append((self, a)))
    opt = lambda nm: None if bool(v.bool("no " + nm)) else v.real(nm)
    p.qmax, p.qmax_reportedbypdf, p.qmax_fromdata = opt("qmax"), opt("reported qmax"), opt("qmax of the data")
    unset = [a for a in ("cres", "pf") if bool(v.bool("no " + a))]
    p.nyquist = None if bool(v.bool("no nyquist")) else v.bool("nyquist")
    if bool(v.bool("no scale")):
        p.scale = None
        p.supersample = None
    else:
        p.scale, p.supersample = v.bool("scale"), v.real("supersample")
    for k in unset:
        setattr(p, k, None)
    names = ("qmax", "nyquist", "supersample", "cres", "pf", "effective_dy", "dg")
    args = list(pick(v, "reset", [(), names[:6], ("dg",), ("dg", "effective_dy")] + [(a,) for a in names[:6]] + [("scale", "rng")]))
    was = {k: getattr(p, k) for k in ("qmax", "nyquist", "scale", "supersample", "cres", "pf")}
    q = p.qmax_reportedbypdf if p.qmax_reportedbypdf is not None else p.qmax_fromdata if p.qmax_fromdata is not None else num(0)
    v.witness(lambda ev: {"what": "pdf", "qmax": [None if w is None else ev(w) for w in (was["qmax"], p.qmax_reportedbypdf, p.qmax_fromdata)], "unset": [k for k in was if was[k] is None and k != "qmax"], "args": args})
    rest = others(p, tuple(was))
    v.must("defaults", p.defaultvars, *args)
    v.expect_covers("from qmax", "no qmax")
    q = q if was["qmax"] is None or "qmax" in args else was["qmax"]
    v.prove("qmax: what is set, reported, or found in the data, in this order, or none", num(p.qmax) == q)
    some = bool(num(q) > 0)
    v.cover("from qmax" if some else "no qmax")
    same = lambda a, b: a is b or (isinstance(a, (SBool, bool)) and SBool(sym.bt(a)) == SBool(sym.bt(b))) or (isinstance(a, SNum) and isinstance(b, SNum) and num(a) == b)
    v.prove("nyquist sampling: what is set, or whether there is a qmax", p.nyquist is some if was["nyquist"] is None or "nyquist" in args else same(p.nyquist, was["nyquist"]))
    v.prove("no scaling unless set", p.scale is False if was["scale"] is None or "scale" in args else same(p.scale, was["scale"]))
    v.prove("four-fold supersampling unless set", num(p.supersample) == 4 if was["supersample"] is None or "supersample" in args else num(p.supersample) == was["supersample"])
    reset = was["cres"] is None or "cres" in args
    if reset and some:
        v.prove("the resolution is that of qmax", num(p.cres) == SNum(sym.PI) / q)
    else:
        v.prove("resolution that is set is kept for now", p.cres is was["cres"])
    if was["pf"] is None or "pf" in args:
        v.prove("unset peak functions: one Gaussian over r of width 0.7", And(len(p.pf) == 1, type(p.pf[0]) is GaussianOverR, num(p.pf[0].maxwidth) == sym.num(0.7)))
    else:
        v.prove("peak functions that are set are kept", p.pf is was["pf"])
    v.prove("the other defaults follow", len(calls) == 1 and calls[0][0] is p)
    base = {a for a in calls[0][1] if a in NAMES}
    want = {a for a in args if a in NAMES} - {"pf"} | ({"effective_dy"} if "dg" in args else set())
    if some:
        want -= {"cres"}
    v.prove("for what was asked for", base == want)
    v.prove("nothing else is changed", rest())
