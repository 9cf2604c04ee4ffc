import re

from .txt import *  # noqa: F401,F403
from .txt import TEXT_ASSUMPTIONS

ASSUMPTIONS = TEXT_ASSUMPTIONS + ["a finite number printed with a limited precision format reads back as a function of the number and the format (six significant digits for %g), and its text has one of the forms of %g",
                                  "functions, peaks and baselines are written and restored by their own texts as in C22, which have no line starting with #",
                                  "change_slice is C15's; pickle restores equal objects"]
PE = "diffpy.srmise.peakextraction.PeakExtraction."
PP = "diffpy.srmise.pdfpeakextraction.PDFPeakExtraction."
MC = "diffpy.srmise.modelcluster.ModelCluster."
PS = "diffpy.srmise.peakstability.PeakStability."


# --- texts with an unknown number of lines -----------------------------------------
def same_text(a, b):
    """The two texts are the same, numbers being compared by value and format."""
    p = core.path()
    if not (isinstance(a, str) and isinstance(b, str)) or vcrt._TOK.sub("?", a) != vcrt._TOK.sub("?", b):
        return SBool(z3.BoolVal(False))
    cs = []
    for x, y in zip(vcrt._TOK.findall(a), vcrt._TOK.findall(b)):
        if p.lossy.get(x) != p.lossy.get(y):
            return SBool(z3.BoolVal(False))
        cs.append(eqv(p.tokens[x], p.tokens[y]))
    return And(*cs) if cs else SBool(z3.BoolVal(True))


class Lines(Stub):
    """The list of lines of a text, one block of which has an unknown number of lines."""

    def __init__(self):
        self.pieces = []
        self.at = None
        self.n = 0
        self.fn = None

    def append(self, s):
        self.pieces.append(s)

    def extend(self, s):
        if seq.SymList in type(s).__mro__ or vcrt.is_symseq(s):
            if self.at is not None:
                raise core.Unsupported("a second block of lines")
            s = seq.as_symlist(s)
            self.block(s.n, s.fn)
        else:
            self.pieces.extend(s)

    def __iadd__(self, s):
        self.extend(s)
        return self

    def block(self, n, fn):
        self.at, self.n, self.fn = len(self.pieces), n, fn

    def tail(self):
        return self.pieces[self.at:]

    def vc_join(self, sep):
        if self.at is None:
            return sep.join(self.pieces)
        if not core.path().valid(sym.bt(num(self.n) > 0)):
            raise core.Unsupported("a block of lines that may be empty")
        return sep.join(self.pieces[:self.at] + [sym.token_for(vcrt.Joined(sep, seq.SymList(self.n, self.fn)))] + self.tail())


def write_loop():
    def inv(env):
        L, G = env.lines, env.g
        if L.at is None:
            return [("nothing is written yet", num(env.k) == 0)]
        return [("one line for each point so far", num(L.n) + len(L.tail()) == env.k)] + [("the line of the point", same_text(s, G.row(num(L.n) + i))) for i, s in enumerate(L.tail())]
    return LoopSpec(inv, havoc=lambda env: env.lines.block(env.k, env.g.row), modifies=lambda env: [env.lines])


def read_loop():
    def inv(env):
        G = env.g
        out = [("the damaged line is still to come", Or(env.k <= G.bad))] if G.bad is not None else []
        for nm, L in G.lists.items():
            c = G.cols[nm]
            out.append(("as many values as lines so far: " + nm, num(L.n) == env.k))
            out.append(("the values of the lines so far: " + nm, forall(1, lambda i: Implies(And(0 <= i, i < env.k), num(L.fn(i)) == rounded(c.at(i))))))
        return out

    def havoc(env):
        G = env.g
        for nm, L in G.lists.items():
            L.n, L.fn = env.k, (lambda c: lambda i: rounded(c.at(i)))(G.cols[nm])
            L.parts = L.base = None
            L.ver += 1
    return LoopSpec(inv, havoc=havoc, modifies=lambda env: list(env.g.lists.values()))


LOOPS = lambda: {(PE + "writestr", "for", 3): write_loop(), (PE + "readstr", "for", 3): read_loop(), (MC + "writestr", "for", 3): write_loop(), (MC + "factory", "for", 3): read_loop()}


def rounded(x):
    """x to six significant digits."""
    return vcrt.printed("%g", num(x))


class Columns:
    """The columns of data of a saved object: {name in the reading code: values}."""

    def __init__(self, v, cols, where):
        self.cols, self.lists, self.bad = cols, {}, None
        self.rowfn = lambda i: " ".join(vcrt.VC.mod("%g", c.at(i)) for c in cols.values())
        v.p.state["ghost"] = self

        def mk(nm):
            def make():
                self.lists[nm] = seq.SymList(0, lambda i: num(0.0))
                return self.lists[nm]
            return make
        new = {(where[1], nm): mk(nm) for nm in cols}
        new[(where[0], "lines")] = Lines
        v.patch(vcrt.VC, "newlists", new)

    def row(self, i):
        return self.rowfn(i)


def same_column(v, what, a, c, n):
    if c is None:
        v.prove(what + ": unset stays unset", a is None)
        return
    v.prove(what + ": restored", a is not None)
    a = arr.asarr(a)
    v.prove(what + ": one value for each point", num(a.shape_[0]) == n)
    i = v.int("i", 0)
    v.assume(i < n)
    v.prove(what + ": six significant digits", num(a.at(i)) == rounded(c.at(i)))


# --- functions and parts known by their texts ---------------------------------------
class F_(Stub):
    """A function, known by its text."""

    def __init__(self, text, base=None):
        self.text, self.base = text, base

    def writestr(self, baselist):
        if self not in baselist or (self.base is not None and self.base not in baselist):
            raise ValueError("not in the list")
        return self.text


class P_(Stub):
    def __init__(self, text, f):
        self.text, self.f = text, f

    def owner(self):
        return self.f

    def writestr(self, lst):
        return self.text + "owner=%d\n" % lst.index(self.f)


class Back(Stub):
    """What was restored from a text."""

    def __init__(self, text, at=None, owner=None):
        self.text, self.at_, self.owner_ = text, at, owner

    def owner(self):
        return self.owner_


def fn_text(i):
    return "function=F%d\nqmax=%d # 1\n" % (i, i)


def factories(v, log):
    from diffpy.srmise.baselines.base import Baseline
    from diffpy.srmise.basefunction import BaseFunction
    from diffpy.srmise.peaks.base import Peak

    def function(s, lst):
        b = Back(s[max(s.find("function="), 0):].strip(), len(lst))
        return b

    def part(kind):
        def f(s, lst):
            ls = s.strip().split("\n")
            k = int(ls[-1].split("=")[1])
            b = Back("\n".join(ls[:-1]), None, lst[k])
            b.kind = kind
            return b
        return f
    v.patch(BaseFunction, "factory", staticmethod(function))
    v.patch(Peak, "factory", staticmethod(part("peak")))
    v.patch(Baseline, "factory", staticmethod(part("baseline")))


def peaks_list(ps):
    from diffpy.srmise.peaks.base import Peaks

    class L(list):
        pass
    return L(ps)


def no_slices(v):
    from diffpy.srmise.modelcluster import ModelCluster
    v.patch(ModelCluster, "change_slice", lambda self, s: self.__dict__.__setitem__("slice", s))


def criterion(v):
    from diffpy.srmise.modelevaluators.aic import AIC
    from diffpy.srmise.modelevaluators.aicc import AICc
    return AIC if bool(v.bool("AIC")) else AICc if bool(v.bool("AICc")) else None


def new_cluster(v, cols, model=None, baseline=None, crit=None, pf=None):
    from diffpy.srmise.modelcluster import ModelCluster
    from diffpy.srmise.peaks.base import Peaks
    lo, hi = v.int("start", 0), v.int("stop", 0)
    return ModelCluster(peaks_list([]) if model is None else model, baseline, *(list(cols.values()) + [slice(lo, hi, None), crit, pf])), lo, hi


CW = {"what": "cluster", "funcs": [["gr", 0.7]], "file": False, "cluster": {"peaks": [{"f": 0, "pars": [1.25, 0.5, 1 / 3], "free": [True, False, True], "removable": True, "static": False}], "baseline": {"f": ["poly", 1], "pars": [0.1, 0.2], "free": [True, False], "removable": False, "static": True}, "crit": "AIC", "pf": [0], "slice": [1, 2], "int": False, "data": [[1.0, 2.0, 3.0], [2.0, 1 / 3, 1e-7], [3.0, 123456789.0, 1.0]]}}
XW = {"what": "extraction", "funcs": [["gr", 0.7], ["tr", 0, 20.0]], "file": True, "pdf": True, "data": [[1.0, 2.0, 0.25, 0.5, 3.0], [2.0, 1 / 3, 0.0, 0.125, 1e-7], [3.0, 123456789.0, 1e5, 0.0, 1.0]], "edy": True, "baseline": ["part", CW["cluster"]["baseline"]], "initial": CW["cluster"]["peaks"], "pf": [1, 0], "cres": 1 / 3, "crit": "AICc", "rng": [None, 1 / 3], "type": "fit", "meta": ["a.gr", True, 1 / 3, None, False, True, 2.5], "extracted": CW["cluster"]}


@contract("C23", "cluster: any number of points", functions=[MC + "writestr", MC + "factory", MC + "__init__"], loops=LOOPS)
def cluster_data(v):
    from diffpy.srmise.modelcluster import ModelCluster
    no_slices(v)
    n = v.int("n", 1)
    cols = {"r_data": v.array("r", n), "y_data": v.array("y", n), "y_error": v.array("dy", n)}
    G = Columns(v, cols, (MC + "writestr", MC + "factory"))
    crit = criterion(v)
    mc, lo, hi = new_cluster(v, cols, crit=crit)
    v.witness(lambda ev: CW)
    kw = {}
    if bool(v.bool("functions given")):
        kw = {"pfbaselist": [], "blfbaselist": []}
        v.cover("given functions")
    else:
        v.cover("own functions")
    v.expect_covers("given functions", "own functions")
    s = v.must("write", mc.writestr, **kw)
    q = v.must("read", ModelCluster.factory, s, **kw)
    v.prove("a model cluster", type(q) is ModelCluster)
    for nm in cols:
        same_column(v, nm, getattr(q, nm), cols[nm], n)
    v.prove("the slice", And(num(q.slice.start) == lo, num(q.slice.stop) == hi, q.slice.step is None))
    v.prove("the criterion", q.error_method is crit)
    v.prove("no baseline, no peaks, no peak functions", q.baseline is None and len(q.model) == 0 and q.peak_funcs is None)


def structure(v, what="", counts=2):
    """Functions for peaks and baselines, possibly one built on another."""
    pf = [F_(fn_text(0))]
    pf.append(F_(fn_text(1), pf[0] if bool(v.bool("built on the other")) else None))
    bf = F_("function=B\n")
    return pf, bf


def peaks_of(v, pf, name):
    """None to two peaks of the functions."""
    out = []
    for i in range(2):
        if not bool(v.bool("%s another" % name)):
            break
        out.append(P_("pars=[%d, 2]\nfree=[1]\n" % i, pf[0 if bool(v.bool("%s first function" % name)) else 1]))
    return out


def restored_part(v, what, p, q, kind, single=True):
    v.prove(what + ": from its own text", q.text.strip() == p.text.strip())
    v.prove(what + ": the same kind", q.kind == kind)
    v.prove(what + ": of its own function", q.owner().text.strip() == p.owner().text.strip())


def restored_parts(v, what, ps, qs):
    v.prove(what + ": as many", len(qs) == len(ps))
    for p, q in zip(ps, qs):
        restored_part(v, what, p, q, "peak")


def funcs(v, pf):
    """A list of peak functions, or none."""
    k = 0
    while k < 3 and bool(v.bool("another choice of peak functions")):
        k += 1
    return [None, [], [pf[1]], [pf[1], pf[0]]][k]


def restored_funcs(v, what, fs, qs):
    if fs is None:
        v.prove(what + ": none", qs is None)
        return
    v.prove(what + ": the same ones in order", qs is not None and [q.text.strip() for q in qs] == [f.text.strip() for f in fs])


def two_points(v, names):
    return {nm: v.array(nm, 2) for nm in names}


@contract("C23", "cluster: functions and parts", functions=[MC + "writestr", MC + "factory", "diffpy.srmise.basefunction.BaseFunction.safefunctionlist", "diffpy.srmise.basefunction.BaseFunction.safefunction"],
          bounded="at most two peaks and two peak functions, one of which may be built on the other; two points")
def cluster_parts(v):
    from diffpy.srmise.basefunction import BaseFunction
    from diffpy.srmise.modelcluster import ModelCluster
    no_slices(v)
    factories(v, [])
    pf, bf = structure(v)
    peaks = peaks_of(v, pf, "peak")
    bl = P_("pars=[1]\n", bf) if bool(v.bool("baseline")) else None
    fs = funcs(v, pf)
    mc, lo, hi = new_cluster(v, two_points(v, ["r", "y", "dy"]), peaks_list(peaks), bl, None, fs)
    v.witness(lambda ev: CW)
    given = bool(v.bool("functions given"))
    if given:
        pl, bb = BaseFunction.safefunctionlist(pf), [F_("function=other\n"), bf]
        s = v.must("write", mc.writestr, pfbaselist=pl, blfbaselist=bb)
        v.prove("given functions are not written again", "function=" not in s)
        q = v.must("read", ModelCluster.factory, s, pfbaselist=pl, blfbaselist=bb)
    else:
        s = v.must("write", mc.writestr)
        q = v.must("read", ModelCluster.factory, s)
    restored_parts(v, "peaks", peaks, q.model)
    restored_funcs(v, "peak functions", fs, q.peak_funcs)
    if bl is None:
        v.prove("no baseline", q.baseline is None)
    else:
        restored_part(v, "baseline", bl, q.baseline, "baseline")


# --- extractions --------------------------------------------------------------------
NAMES = ["x", "y", "dx", "dy", "effective_dy"]
FORMS = ["-0.333333", "5", "1e-05", "1.23457e+07", "0.25"]


def printed_form(v, s, value):
    """The text s where the resolution is a numeral of one of the forms that %g prints."""
    m = re.search(r"cres=(zVC\d+z)", s)
    if not m:
        return s
    tok = m.group(1)
    v.prove("the resolution is printed to six digits or more", tok not in v.p.lossy or re.fullmatch(r"%(\.([6-9]|1\d))?g", v.p.lossy[tok]) is not None)
    k = 0
    while k < len(FORMS) - 1 and bool(v.bool("another form")):
        k += 1
    v.p.tokens[FORMS[k]] = v.p.tokens[tok]
    if tok in v.p.lossy:
        v.p.lossy[FORMS[k]] = v.p.lossy[tok]
    return s.replace(tok, FORMS[k])


def new_extraction(cls="peakextraction.PeakExtraction"):
    import importlib
    m, c = cls.split(".")
    return getattr(importlib.import_module("diffpy.srmise." + m), c)()


def quiet_user(v):
    import getpass
    v.patch(getpass, "getuser", lambda: "user")


def limits(v):
    if not bool(v.bool("range set")):
        return None
    return [v.real("low") if bool(v.bool("low set")) else None, v.real("high") if bool(v.bool("high set")) else None]


def same_limits(v, a, b):
    if a is None:
        v.prove("the range stays unset", b is None)
        return
    v.prove("the range", isinstance(b, list) and len(b) == 2)
    for x, y in zip(a, b):
        v.prove("the limits of the range", (y is None) if x is None else (y is not None and eqv(x, y)))


@contract("C23", "extraction: any number of points", functions=[PE + "writestr", PE + "readstr", PE + "writemetadata", PE + "readmetadata"], loops=LOOPS)
def extraction_data(v):
    quiet_user(v)
    n = v.int("n", 1)
    p = new_extraction()
    cols = {}
    for nm in NAMES:
        if bool(v.bool(nm + " set")):
            cols["self." + nm] = v.array(nm, n)
            setattr(p, nm, cols["self." + nm])
    Columns(v, cols, (PE + "writestr", PE + "readstr"))
    v.witness(lambda ev: XW)
    v.expect_covers("all", "some", "none")
    v.cover("all" if len(cols) == 5 else "none" if not cols else "some")
    s = v.must("write", p.writestr)
    q = new_extraction()
    for nm in NAMES:
        setattr(q, nm, "something before")
    v.must("read", q.readstr, s)
    for nm in NAMES:
        same_column(v, nm, getattr(q, nm), cols.get("self." + nm), n)


@contract("C23", "extraction: settings", functions=[PE + "writestr", PE + "readstr"])
def settings(v):
    quiet_user(v)
    p = new_extraction()
    cr = v.real("cres") if bool(v.bool("cres set")) else None
    crit = criterion(v)
    rg = limits(v)
    ty = "fit" if bool(v.bool("extracted by fit")) else None
    p.cres, p.error_method, p.rng, p.extraction_type = cr, crit, rg, ty
    p.initial_peaks = None
    v.witness(lambda ev: XW)
    s = printed_form(v, v.must("write", p.writestr), cr)
    q = new_extraction()
    q.cres = q.error_method = q.rng = q.extraction_type = q.baseline = q.pf = q.initial_peaks = q.extracted = "something before"
    v.must("read", q.readstr, s)
    v.prove("the resolution", q.cres is None if cr is None else q.cres is not None and Or(num(q.cres) == rounded(cr), num(q.cres) == cr))
    v.prove("the criterion", q.error_method is crit)
    same_limits(v, rg, q.rng)
    v.prove("the kind of extraction", q.extraction_type == ty)
    v.prove("what is unset stays unset", q.baseline is None and q.pf is None and q.initial_peaks is None and q.extracted is None)


@contract("C23", "extraction: functions and parts", functions=[PE + "writestr", PE + "readstr", MC + "writestr", MC + "factory"], max_paths=20000,
          bounded="at most two peaks in each place and two peak functions, one of which may be built on the other; two points")
def extraction_parts(v):
    from diffpy.srmise.basefunction import BaseFunction
    quiet_user(v)
    no_slices(v)
    factories(v, [])
    p = new_extraction()
    pf, bf = structure(v)

    class BF_(F_, BaseFunction):
        def __hash__(self):
            return id(self)
    bf = BF_.__new__(BF_)
    bf.__dict__.update(text="function=B\n", base=None)
    bl = P_("pars=[1]\n", bf)
    kind = "none" if bool(v.bool("no baseline")) else "function" if bool(v.bool("a baseline function")) else "part"
    p.baseline = {"none": None, "function": bf, "part": bl}[kind]
    ip = None if bool(v.bool("no initial peaks")) else peaks_of(v, pf, "initial")
    p.initial_peaks = None if ip is None else peaks_list(ip)
    ex = None
    if bool(v.bool("extracted")):
        peaks = peaks_of(v, pf, "extracted")
        own = P_("pars=[3]\n", bf if bool(v.bool("same baseline function")) else F_("function=B2\n")) if bool(v.bool("extracted baseline")) else None
        ex, lo, hi = new_cluster(v, two_points(v, ["cr", "cy", "cdy"]), peaks_list(peaks), own, None, [pf[0]])
        p.pf = fs = [pf[1]]
    else:
        p.pf = fs = funcs(v, pf)
    p.extracted = ex
    v.witness(lambda ev: XW)
    s = v.must("write", p.writestr)
    q = new_extraction()
    v.must("read", q.readstr, s)
    if kind == "none":
        v.prove("no baseline", q.baseline is None)
    elif kind == "function":
        v.prove("the baseline function", q.baseline.text.strip() == bf.text.strip())
    else:
        restored_part(v, "baseline", bl, q.baseline, "baseline")
    if ip is None:
        v.prove("no initial peaks", q.initial_peaks is None)
    else:
        v.prove("initial peaks", q.initial_peaks is not None)
        restored_parts(v, "initial peaks", ip, q.initial_peaks)
    restored_funcs(v, "peak functions", fs, q.pf)
    if ex is None:
        v.prove("nothing extracted", q.extracted is None)
        return
    e = q.extracted
    v.prove("an extracted cluster", e is not None)
    restored_parts(v, "extracted peaks", peaks, e.model)
    restored_funcs(v, "extracted peak functions", [pf[0]], e.peak_funcs)
    v.prove("the extracted slice", And(num(e.slice.start) == lo, num(e.slice.stop) == hi))
    if own is None:
        v.prove("no extracted baseline", e.baseline is None)
    else:
        restored_part(v, "extracted baseline", own, e.baseline, "baseline")
    fns = {}
    for x in list(q.pf or []) + list(e.peak_funcs) + [y.owner() for y in list(q.initial_peaks or []) + list(e.model)]:
        v.prove("one object for each function", fns.setdefault(x.text, x) is x)


@contract("C23", "more than ten functions and peaks", functions=[PE + "writestr", PE + "readstr", MC + "writestr", MC + "factory"], bounded="thirteen peak functions and thirteen peaks")
def many(v):
    from diffpy.srmise.modelcluster import ModelCluster
    quiet_user(v)
    no_slices(v)
    factories(v, [])
    pf = [F_(fn_text(i)) for i in range(13)]
    ps = [P_("pars=[%d, 2]\nfree=[1]\n" % i, pf[12 - i]) for i in range(13)]
    v.witness(lambda ev: dict(XW, funcs=[["gr", 0.5 + 0.1 * i] for i in range(13)], pf=list(range(13)), initial=[dict(CW["cluster"]["peaks"][0], f=12 - i) for i in range(13)], extracted=None))
    if bool(v.bool("cluster")):
        mc, lo, hi = new_cluster(v, two_points(v, ["r", "y", "dy"]), peaks_list(ps), None, None, pf)
        q = v.must("read", ModelCluster.factory, v.must("write", mc.writestr))
        restored_parts(v, "peaks", ps, q.model)
        restored_funcs(v, "peak functions", pf, q.peak_funcs)
    else:
        p, q = new_extraction(), new_extraction()
        p.pf, p.initial_peaks = pf, peaks_list(ps)
        v.must("read", q.readstr, v.must("write", p.writestr))
        restored_parts(v, "initial peaks", ps, q.initial_peaks)
        restored_funcs(v, "peak functions", pf, q.pf)


class AnyText(sym.Sym):
    """Any text; it prints as a token and reads back as itself."""

    def __repr__(self):
        return sym.token_for(self)


@contract("C23", "PDF metadata", functions=[PP + "writemetadata", PP + "readmetadata", PE + "writemetadata", PE + "readmetadata"])
def metadata(v):
    p, q = new_extraction("pdfpeakextraction.PDFPeakExtraction"), new_extraction("pdfpeakextraction.PDFPeakExtraction")
    vals = {"filename": AnyText() if bool(v.bool("file")) else None, "nyquist": v.bool("nyquist"), "qmax": v.real("qmax") if bool(v.bool("qmax set")) else None,
            "qmax_reportedbypdf": v.real("reported") if bool(v.bool("qmax reported")) else None, "qmax_fromdata": v.bool("from data"), "scale": v.bool("scale"), "supersample": v.real("supersample")}
    np_texts(v, "diffpy.srmise.pdfpeakextraction") if bool(v.bool("elements of arrays")) else None
    for k, x in vals.items():
        setattr(p, k, x)
        setattr(q, k, "something before")
    v.witness(lambda ev: XW)
    s = v.must("write", p.writemetadata)
    if bool(v.bool("one missing")):
        v.cover("incomplete")
        from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
        ls = [ln for ln in s.strip().split("\n")]
        k = 0
        while k < len(ls) - 1 and bool(v.bool("a later one")):
            k += 1
        del ls[k]
        r = v.call(q.readmetadata, "\n".join(ls))
        v.prove("incomplete metadata are refused", type(r.exc) is SrMiseDataFormatError)
        return
    v.cover("complete")
    v.expect_covers("complete", "incomplete")
    v.must("read", q.readmetadata, s)
    for k, x in vals.items():
        y = getattr(q, k)
        v.prove(k, y is x if x is None or isinstance(x, AnyText) else y is not None and eqv(y, x))


# --- damaged data -------------------------------------------------------------------
def damage(v, G, n, s):
    """The text s with one line of data damaged."""
    m = v.p.tokens
    tok = [t_ for t_ in vcrt._TOK.findall(s) if isinstance(m[t_], vcrt.Joined)]
    v.prove("one line for each point", len(tok) == 1 and num(m[tok[0]].s.n) == n)
    fn = m[tok[0]].s.fn
    b = v.int("damaged", 0)
    how = "more" if bool(v.bool("more")) else "fewer" if bool(v.bool("fewer")) else "text" if bool(v.bool("text")) else "empty"
    if how == "empty":
        v.assume(And(0 < b, b < n - 1))
    v.assume(b < n)
    v.cover(how)
    G.bad = b

    def line(i):
        if not bool(num(i) == b):
            return fn(i)
        fs = fn(i).split()
        return {"more": " ".join(fs + ["1"]), "fewer": " ".join(fs[:-1]), "text": " ".join(fs[:-1] + ["abc"]), "empty": ""}[how]
    m["zVC999999z"] = vcrt.Joined("\n", seq.SymList(n, line))
    return how, s.replace(tok[0], "zVC999999z")


BADW = dict(XW, what="bad", line=1, how="more")


@contract("C23", "damaged clusters are refused", functions=[MC + "factory", MC + "writestr"], loops=LOOPS)
def bad_cluster(v):
    from diffpy.srmise.modelcluster import ModelCluster
    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
    no_slices(v)
    n = v.int("n", 1)
    cols = {"r_data": v.array("r", n), "y_data": v.array("y", n), "y_error": v.array("dy", n)}
    G = Columns(v, cols, (MC + "writestr", MC + "factory"))
    mc, lo, hi = new_cluster(v, cols)
    v.expect_covers("more", "fewer", "empty", "text")
    s = v.must("write", mc.writestr)
    how, s = damage(v, G, n, s)
    v.witness(lambda ev: dict(BADW, how=how, **{"in": "cluster"}))
    r = v.call(ModelCluster.factory, s)
    v.prove("refused as badly formatted", type(r.exc) is SrMiseDataFormatError)


@contract("C23", "damaged extractions are refused", functions=[PE + "readstr", PE + "read", PE + "writestr"], loops=LOOPS)
def bad_extraction(v):
    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError
    quiet_user(v)
    n = v.int("n", 1)
    p, q = new_extraction(), new_extraction()
    cols = {}
    for nm in NAMES[:4]:
        cols["self." + nm] = v.array(nm, n)
        setattr(p, nm, cols["self." + nm])
    G = Columns(v, cols, (PE + "writestr", PE + "readstr"))
    v.expect_covers("more", "fewer", "empty", "text")
    s = v.must("write", p.writestr)
    how, s = damage(v, G, n, s)
    file = bool(v.bool("from a file"))
    v.witness(lambda ev: dict(BADW, how=how, file=file, **{"in": "extraction"}))
    if file:
        files(v, {"f": s})
        r = v.call(q.read, "f")
        v.prove("a badly formatted file is refused", type(r.exc) in (SrMiseFileError, SrMiseDataFormatError))
    else:
        r = v.call(q.readstr, s)
        v.prove("refused as badly formatted", type(r.exc) is SrMiseDataFormatError)


def files(v, content):
    class Out:
        def __init__(self, name):
            self.name = name
            content[name] = ""

        def write(self, s):
            content[self.name] += s

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class In(Out):
        def __init__(self, s):
            self.s = s

        def read(self):
            return self.s

    def op(name, mode="r", *a, **k):
        if "w" in mode:
            return Out(name)
        if name not in content:
            raise OSError("no such file")
        return In(content[name].encode() if "b" in mode else content[name])
    v.patch(vcrt.VC, "open_hook", op)


@contract("C23", "extraction: files", functions=[PE + "write", PE + "read"])
def through_file(v):
    p, q = new_extraction(), new_extraction()
    seen = []
    p.writestr = lambda: "any text\nof lines"
    q.readstr = lambda s: seen.append(s)
    content = {"other": "x"}
    files(v, content)
    v.witness(lambda ev: XW)
    v.must("write", p.write, "name")
    v.prove("one file with the text", content == {"other": "x", "name": "any text\nof lines"})
    r = v.must("read", q.read, "name")
    v.prove("the text of the file is read", seen == ["any text\nof lines"])
    v.prove("the extraction itself is returned", r is q)


# --- stability ----------------------------------------------------------------------
@contract("C23", "stability results", functions=[PS + "save", PS + "load"], bounded="one or two results")
def stability(v):
    import pickle

    from diffpy.srmise import peakstability as m
    bf = Stub()
    made = []

    class Bl:
        def __init__(self, **k):
            self.__dict__.update(k)

        def owner(self):
            return bf

    def actualize(in_format=None, **k):
        v.prove("values are restored as they are kept", in_format == "internal")
        made.append(Bl(**k))
        return made[-1]
    bf.actualize = actualize
    as_function = bool(v.bool("the baseline is a function"))
    if as_function:
        bf.estimate_parameters = lambda *a: None
    q, S = m.PeakStability(), m.PeakStability()
    store, text = {}, []

    class Ppe(Stub):
        def __init__(self):
            self.baseline = "none yet"

        def writestr(self):
            return "text of the extraction"

        def readstr(self, s):
            text.append(s)
            self.baseline = bf if as_function else Bl()
    v.patch(m, "PDFPeakExtraction", Ppe)
    S.ppe = Ppe()
    res = []
    for i in range(2 if bool(v.bool("two")) else 1):
        bl = None if bool(v.bool("no baseline %d" % i)) else Bl(pars=v.array("pars", v.int("npars", 0)), free=v.array("free", v.int("nfree", 0), "b"), removable=v.bool("removable"), static_owner=v.bool("static"))
        res.append([v.real("uncertainty"), Stub(), bl, v.real("spacing")])
    S.results = [list(r) for r in res]
    files(v, {})
    v.patch(pickle, "dump", lambda o, f: store.__setitem__("o", o))
    v.patch(pickle, "load", lambda f: store["o"])

    def op(name, mode):
        v.prove("a binary file", "b" in mode)

        class F:
            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        return F()
    v.patch(vcrt.VC, "open_hook", op)
    cur = []
    q.setcurrent = cur.append
    v.witness(lambda ev: {"what": "stability", "funcs": [], "file": True, "nresults": 2, "seed": 5})
    v.must("save", S.save, "f")
    v.prove("saving changes nothing", len(S.results) == len(res) and all(a is b for x, y in zip(S.results, res) for a, b in zip(x, y)))
    v.must("load", q.load, "f")
    v.prove("the extraction is restored from its own text", text == ["text of the extraction"] and isinstance(q.ppe, Ppe))
    v.prove("as many results", len(q.results) == len(res))
    for a, b in zip(res, q.results):
        v.prove("uncertainty and spacing", And(eqv(a[0], b[0]), eqv(a[3], b[3])))
        v.prove("the peaks", a[1] is b[1])
        if a[2] is None:
            v.prove("no baseline", b[2] is None)
        else:
            v.prove("the baseline with all its values", b[2] is not None and all(getattr(b[2], k) is getattr(a[2], k) for k in ("pars", "free")))
            v.prove("the baseline's flags", And(eqv(b[2].removable, a[2].removable), eqv(b[2].static_owner, a[2].static_owner)))
    v.prove("the first result is shown", cur == [0])
