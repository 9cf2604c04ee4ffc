"""Fitting, PDF extraction and estimating single peaks: which data and settings they use, and what they leave alone."""
import z3

from ded import arr, core, seq, sym
from ded.arr import Arr
from ded.contract import Stub, contract
from ded.core import Unsupported
from ded.seq import SymList
from ded.sym import And, Implies, Not, Or, SBool, SNum, bt, forall, num, t
from ded.vcrt import LoopSpec
from .C10 import fun
from .C18 import pick
from .C31 import Bl, Boom, Value

PE = "diffpy.srmise.peakextraction.PeakExtraction."
PDF = "diffpy.srmise.pdfpeakextraction.PDFPeakExtraction."
ASSUMPTIONS = ["settings are complete and the extraction range is a non-empty slice of the data (C18); resampling and error scales follow C19",
               "clustering follows C01-C03, model clusters follow C15-C17, ripples follow C24; fits return",
               "fitting does not add parameters to a model that has some, pruning to none (C16)",
               "the extraction range is wider than one sampling interval",
               "an inner extraction follows C31: it has a result with a baseline of its own"]


class Part(Stub):
    def __init__(self, S, owner, name, static=False):
        self.S, self._owner, self.name, self.static, self.changes = S, owner, name, static, []

    def owner(self):
        return self._owner

    def changeowner(self, o):
        if self.static:
            raise self.S.M.SrMiseStaticOwnerError("static")
        self.changes.append(o)
        self._owner = o


class Model(Stub):
    """A collection of peaks."""

    def __init__(self, S, items, of=None):
        self.S, self.items, self.of, self.log = S, items, of, []
        self.v = Value("peaks") if of is None else of.v

    def copy(self):
        return Model(self.S, list(self.items), of=self)

    def root(self):
        return self if self.of is None else self.of.root()

    def value(self, x):
        return self.v.value(x)

    def at(self, x):
        return self.v.at(x)

    def vc_len(self):
        return len(self.items)

    symlen = vc_len

    def vc_item(self, i):
        return self.items[int(i)]

    def __getitem__(self, i):
        return self.items[i]

    def __iter__(self):
        return iter(self.items)

    def extend(self, peaks):
        self.log.append(("extend", peaks))

    def sort(self, key=None, **k):
        self.log.append(("sort", key))


class Cov(Stub):
    pass


def world(v, M):
    """M: the module whose code runs."""
    S = type("S", (), {})()
    S.v, S.M = v, M
    v.p.state["ghost"] = S
    L = v.int("points", 2)
    S.X, S.Y, S.E = v.array("x", L), v.array("y", L), v.array("dy", L)
    v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < L), S.X.at(i) < S.X.at(j))))
    v.assume(S.X.at(0) < S.X.at(L - 1))
    S.L, S.lo, S.hi = L, v.int("lo", 0), v.int("hi", 0)
    v.assume(And(S.lo < S.hi, S.hi <= L))
    S.n = arr.simp(S.hi - S.lo)
    S.bl, S.ip = Bl(), Model(S, [])
    S.crit, S.pf, S.cres = type("Crit", (Stub,), {}), [Stub(), Stub()], v.real("cres", 0)
    S.order, S.made = [], []

    class Tracer(Stub):
        call = v.int("calls", 0)

        def pushc(self):
            self.call = self.call + 1

        def popc(self):
            self.call = self.call - 1

        def emit(self, *m):
            S.order.append(("emit", m))
    S.tracer = Tracer()
    S.calls = S.tracer.call
    log = Stub()
    log.__dict__["tracer"] = S.tracer
    v.patch(M, "srmiselog", log)

    class MC(Stub):
        def __init__(self, model, baseline=None, r_data=None, y_data=None, y_error=None, slice=None, error_method=None, peak_funcs=None):
            self.args = (model, baseline, r_data, y_data, y_error, slice, error_method, peak_funcs)
            self.model, self.baseline, self.log = model, baseline, []
            S.made.append(self)

        def fit(self, *a, **k):
            if a:
                raise Unsupported("fit with positional arguments")
            if S.fails is not None and len(S.made) + len(self.log) > S.fails:
                raise Boom()
            self.log.append(("fit", k))
            S.fitted(self, S.free > 0)

        def prune(self):
            self.log.append(("prune", {}))
            S.fitted(self, num(0) == 0)

        def npars(self, count_baseline=True, count_fixed=True):
            if count_fixed or not count_baseline:
                raise Unsupported("another count")
            if S.turn is None:
                S.turn = S.free
            return S.free

        def replacepeaks(self, peaks, *a):
            self.log.append(("replacepeaks", (peaks,) + a))
    S.MC, S.fails = MC, None
    S.fitted = lambda m, some: None
    S.free, S.turn = v.int('free', 0), None
    v.patch(M, "ModelCluster", MC)
    v.patch(M, "ModelCovariance", Cov)
    return S


def extractor(S, cls, **more):
    pe = cls.__new__(cls)
    d = dict(x=S.X, y=S.Y, dx=None, dy=None, effective_dy=S.E, cres=S.cres, pf=S.pf, baseline=S.bl, error_method=S.crit, initial_peaks=S.ip,
             rng=[S.v.real("from"), S.v.real("to")], extracted=None, extraction_type=None)
    d.update(more)
    for k, x in d.items():
        setattr(pe, k, x)
    S.settings = {k: x for k, x in d.items() if k not in ("extracted", "extraction_type")}
    pe.__dict__["clearcalc"] = lambda: (S.order.append("clear"), pe.__dict__.update(extracted=None, extraction_type=None))[0]
    pe.__dict__["defaultvars"] = lambda *a: S.order.append("defaults")
    pe.__dict__["getrangeslice"] = lambda: slice(S.lo, S.hi)
    S.pe = pe
    return pe


def kept(S, but=()):
    v, pe = S.v, S.pe
    v.prove("the settings are untouched", all(getattr(pe, k) is x for k, x in S.settings.items() if k not in but))
    v.prove("the settings were completed first", "defaults" in S.order)
    v.prove("the trace counter is as it was", num(S.tracer.call) == S.calls)
    v.prove("the initial peaks are untouched", not S.ip.log)


def inrange(S, what, got, *want):
    """Each of got is one of want over the range."""
    v = S.v
    q = v.int("q", 0)
    for name, a, f in zip(("coordinates", "values", "uncertainties"), got, want):
        if not isinstance(a, arr.Arr) and not hasattr(a, "vc_len"):
            v.prove("%s: %s" % (what, name), False)
            continue
        a = arr.asarr(a)
        v.prove("%s: %s" % (what, name), And(num(a.vc_len()) == S.n, Implies(q < S.n, a.at(q) == f(q + S.lo))))


# --- fitting initial peaks ----------------------------------------------------------
@contract("C32", "fitting initial peaks", functions=[PE + "fit_single"])
def fit_single(v):
    from diffpy.srmise import peakextraction as M
    S = world(v, M)
    pe = extractor(S, M.PeakExtraction, extracted=Stub(), extraction_type="before")
    cov = v.must("fit", pe.fit_single)
    kept(S)
    m = pe.extracted
    v.prove("one model is fitted", len(S.made) == 1 and m is S.made[0])
    model, bl, x, y, e, sl, crit, pf = m.args
    v.prove("a copy of the initial peaks is fitted", isinstance(model, Model) and model is not S.ip and model.root() is S.ip)
    v.prove("with a copy of the baseline", isinstance(bl, Bl) and bl is not S.bl and bl.root is S.bl)
    inrange(S, "fitted", (x, y, e), S.X.at, S.Y.at, S.E.at)
    v.prove("over the whole range", sl is None)
    v.prove("with the criterion and peak functions", crit is S.crit and pf is S.pf)
    ok = len(m.log) == 1 and m.log[0][0] == "fit"
    v.prove("it is fitted once", ok)
    k = m.log[0][1] if ok else {}
    v.prove("with the baseline, without estimating peaks", k.get("fitbaseline") is True and k.get("estimate") is False and not k.get("justify", False))
    v.prove("the covariance of the fit is returned", isinstance(cov, Cov) and k.get("cov") is cov)
    v.prove("the kind of extraction is recorded", pe.extraction_type == "fit_single")


# --- PDF ----------------------------------------------------------------------------
class Inner(Stub):
    """The extraction PDF extraction uses."""
    S = None

    def __init__(self, newvars=[]):
        S = Inner.S
        self.data, self.vars, self.ran, self.extracted = None, {}, [], None
        S.inner.append(self)

    def setdata(self, x, y, dx=None, dy=None):
        self.data = (x, y, dx, dy)

    def setvars(self, quiet=False, **k):
        self.vars.update(k)

    def extract_single(self, recursion_depth=1):
        S = Inner.S
        if S.fails is not None:
            raise Boom()
        self.ran.append(("extract_single", recursion_depth))
        S.own = Bl("found")
        self.extracted = S.first = S.MC(Model(S, S.found), S.own)
        S.made.pop()
        return S.cov1

    def fit_single(self):
        S = Inner.S
        self.ran.append(("fit_single",))
        self.extracted = S.first = S.MC(Model(S, []), Bl("fitted"))
        S.made.pop()
        return S.cov1


def pdf(v):
    from diffpy.srmise import pdfpeakextraction as M
    S = world(v, M)
    Inner.S = S
    S.inner, S.cov1, S.found = [], Cov(), []
    v.patch(M, "PeakExtraction", Inner)
    v.assume(S.X.at(S.lo) < S.X.at(S.hi - 1))
    S.qmax = num(0) if bool(v.bool("no qmax")) else v.real("qmax", 0)
    if not z3.is_int_value(t(S.qmax)):
        v.assume(S.qmax > 0)
        S.finite = True
    else:
        S.finite = False
    S.nyquist = pick(v, "nyquist", [True, False])
    S.super = v.real("supersample")
    v.assume(S.super >= 1)
    pe = extractor(S, M.PDFPeakExtraction, qmax=S.qmax if S.finite else 0, nyquist=S.nyquist, supersample=S.super, scale=True)
    S.resampled = []

    def resampledata(dr, eps=None):
        r = tuple(v.array("%s%d" % (k, len(S.resampled)), v.int("m", 1)) for k in ("r", "yr", "dxr", "dyr"))
        v.assume(r[0].at(0) < r[0].at(num(r[0].vc_len()) - 1))
        S.resampled.append((dr, r))
        return r
    pe.__dict__["resampledata"] = resampledata
    scale = fun("errorscale", sym.R, sym.R)
    pe.__dict__["errorscale"] = lambda dr: scale(sym.real(t(num(dr))))
    S.scale = scale
    S.dr = (S.X.at(S.L - 1) - S.X.at(0)) / (S.L - 1)
    S.rate = SNum(sym.PI) / S.qmax if S.finite else S.dr
    return S, pe


def sampled(S, what, data, got_e, dr=None, scaled=False):
    """data (x, y), got_e: those of the range, or resampled at dr."""
    v = S.v
    if dr is None:
        v.prove("%s: the data as they are" % what, not S.resampled)
        f = (lambda i: S.scale(sym.real(t(S.dr))) * S.E.at(i)) if scaled else S.E.at
        inrange(S, what, (data[0], data[1], got_e), S.X.at, S.Y.at, f)
    else:
        ok = len(S.resampled) >= 1
        v.prove("%s: resampled data" % what, ok and data[0] is S.resampled[0][1][0] and data[1] is S.resampled[0][1][1] and got_e is S.resampled[0][1][3])
        if ok:
            v.prove("%s: the spacing of resampled data" % what, num(S.resampled[0][0]) == dr)


def inner_settings(S, e):
    v, I = S.v, S.inner[0]
    k = I.vars
    v.prove("the settings are passed on", k.get("pf") is S.pf and k.get("baseline") is S.bl and k.get("error_method") is S.crit and k.get("initial_peaks") is S.ip and "rng" not in k)
    v.prove("the resolution is passed on", num(k["cres"]) == S.cres if "cres" in k else False)


@contract("C32", "fitting a PDF", functions=[PDF + "fit"])
def pdf_fit(v):
    S, pe = pdf(v)
    v.expect_covers("resampled", "as they are")
    cov = v.must("fit", pe.fit)
    kept(S)
    v.prove("one fit", len(S.inner) == 1 and S.inner[0].ran == [("fit_single",)])
    I = S.inner[0]
    inner_settings(S, None)
    e = I.vars.get("effective_dy")
    if S.finite and S.nyquist:
        v.cover("resampled")
        sampled(S, "fitted", I.data, e, dr=S.rate)
    else:
        v.cover("as they are")
        sampled(S, "fitted", I.data, e)
    v.prove("the result is that of the fit", pe.extracted is I.extracted and pe.extraction_type == "fit" and cov is S.cov1)


def nyquist_loop():
    def inv(env):
        S = env.g
        r = [("a model cluster is sampled", isinstance(env.ext, S.MC))]
        return r if S.turn is None else r + [("there are fewer free parameters at each turn", S.free < S.turn)]

    def ext(env):
        S = env.g
        return S.MC(S.first.model, S.own)

    def havoc(env):
        S = env.g
        # resampling before is no matter
        S.free = S.v.int("free", 0)
        S.turn = None
        del S.made[:]
        S.loop = True
        S.n_before = len(S.resampled)
    return {(PDF + "_extract", "while", 0): LoopSpec(inv, vars={"ext": ext}, havoc=havoc)}


def extraction(v, found):
    S, pe = pdf(v)
    v.expect_covers("no ripples", "every point", "rate", "too many")
    S.loop = False
    S.free = v.int("parameters", 0)

    def fitted(m, some):
        # nothing is added to a model that has parameters
        f = v.int("left", 0)
        v.assume(Implies(some, f <= S.free))
        S.free = f
    S.fitted = fitted
    owners = [Stub(), Stub()]
    from diffpy.srmise.peaks import terminationripples as tr

    class Ripples(Stub):
        def __init__(self, base, qmax, extension=4.0, supersample=5.0):
            self.base, self.qmax = base, qmax
    v.patch(tr, "TerminationRipples", Ripples)
    rippled = Ripples(owners[0], None)
    kinds = [pick(v, "peak %d" % i, ["a", "b", "static", "rippled"]) for i in range(found)]
    S.found = [Part(S, {"a": owners[0], "b": owners[1], "static": owners[0], "rippled": rippled}[k], i, static=k == "static") for i, k in enumerate(kinds)]
    cov = v.must("extract", pe.extract)
    kept(S)
    v.prove("one inner extraction at the top level", len(S.inner) == 1 and S.inner[0].ran == [("extract_single", 1)])
    I = S.inner[0]
    inner_settings(S, None)
    e = I.vars.get("effective_dy")
    many = S.rate / S.dr < S.super
    if not S.finite:
        sampled(S, "searched", I.data, e)
        r1 = None
    elif bool(many):
        sampled(S, "searched", I.data, e, dr=S.rate / S.super)
    else:
        sampled(S, "searched", I.data, e, scaled=True) if not S.resampled[1:] and not (S.loop and S.resampled) else inrange(S, "searched", (I.data[0], I.data[1], e), S.X.at, S.Y.at, lambda i: S.scale(sym.real(t(S.dr))) * S.E.at(i))
    m = pe.extracted
    v.prove("the kind of extraction is recorded", pe.extraction_type == "extract")
    ok = isinstance(m, S.MC) and bool(m.log) and m.log[-1][0] == "fit"
    v.prove("the result is fitted last", ok)
    k = m.log[-1][1] if ok else {}
    v.prove("the final fit includes the baseline", k.get("fitbaseline") is True)
    v.prove("the covariance of the final fit is returned", isinstance(cov, Cov) and k.get("cov") is cov and cov is not S.cov1)
    v.prove("the result is traced", ("emit", (m,)) in S.order)
    v.prove("the result has the baseline found", m.baseline is S.own)
    model = m.model
    v.prove("the result has the peaks found", isinstance(model, Model) and [id(p) for p in model.items] == [id(p) for p in S.found])
    for p, kind in zip(S.found, kinds):
        if not S.finite or kind in ("static", "rippled"):
            v.prove("peaks stay as they are", not p.changes)
        else:
            o = p.owner()
            v.prove("a peak has ripples once", len(p.changes) == 1 and isinstance(o, Ripples) and o.base is owners["ab".index(kind)])
            v.prove("ripples are those of the highest frequency", num(o.qmax) == S.qmax if isinstance(o, Ripples) else False)
    if not S.finite:
        v.cover("no ripples")
        v.prove("without a highest frequency the model found is fitted", m is S.first and len(m.log) == 1)
        return
    v.prove("the model is sampled with the criterion and functions", m.args[5] is None and m.args[6] is S.crit and m.args[7] is S.pf)
    data = m.args[2:5]
    if not S.nyquist:
        v.cover("every point")
        v.prove("the model is pruned on the data searched", [l[0] for l in m.log] == ["prune", "fit"] and data[0] is I.data[0] and data[1] is I.data[1] and data[2] is e)
        return
    v.prove("the model is fitted and pruned on the sampled data", [l[0] for l in m.log] == ["fit", "prune", "fit"] and S.loop)
    dr, new = S.resampled[-1]
    v.prove("the model has the sampled data", len(S.resampled) == S.n_before + 1 and data[0] is new[0] and data[1] is new[1] and data[2] is new[3])
    width = arr.asarr(I.data[0])
    w = width.at(num(width.vc_len()) - 1) - width.at(0)
    if bool(num(dr) == S.rate):
        v.cover("rate")
    else:
        v.cover("too many")
        v.prove("oversampled only where the model has as many free parameters as samples", And(S.turn * S.rate >= w, S.turn > 0))
        v.prove("oversampled as little as possible", num(dr) * S.turn == num(0.9999) * w)


@contract("C32", "extracting from a PDF: two peaks", functions=[PDF + "extract", PDF + "_extract"], loops=nyquist_loop(), bounded="models of two peaks")
def pdf_extract(v):
    extraction(v, 2)


@contract("C32", "extracting from a PDF", functions=[PDF + "extract", PDF + "_extract"], loops=nyquist_loop())
def pdf_extract_none(v):
    # the peaks themselves: the contract below
    extraction(v, 0)


class Owner(SNum):
    """The function of a peak, by its number."""

    def __init__(self, S, k):
        SNum.__init__(self, t(num(k)))
        self.S = S

    def vc_isinstance(self, cls):
        if cls is not self.S.Ripples:
            raise Unsupported("another class of functions")
        return self.S.rip(SNum(self.t))


class Any(Stub):
    """The j-th peak of a model."""

    def __init__(self, S, j):
        self.S, self.j = S, num(j)

    def owner(self):
        return Owner(self.S, self.S.owned(self.j))

    def changeowner(self, o):
        S, j = self.S, self.j
        if bool(S.static(j)):
            raise S.M.SrMiseStaticOwnerError("static")
        if not isinstance(o, S.Ripples):
            raise Unsupported("another owner")
        ch, base, qm = S.now
        S.now = (lambda q: Or(num(q) == j, ch(q)), lambda q: sym.ite(num(q) == j, num(o.base), base(q)), lambda q: sym.ite(num(q) == j, num(o.qmax), qm(q)))


def ripple_loops():
    f = PDF + "_extract"

    def made(env):
        S = env.g
        d, o = seq.symdict(env.tfuncs), env.owners
        k = num(env.k)

        def right(i):
            r = d.at(o.fn(i))
            return And(True if d.has(o.fn(i)) is True else SBool(bt(d.has(o.fn(i)))), r.base == o.fn(i), r.qmax == S.qmax)
        if isinstance(env.k, int) and env.k == 0:
            return []
        return [("every owner so far has ripples", forall(1, lambda i: Implies(And(0 <= i, i < k), right(i))))]

    def some(env):
        S = env.g
        has, base, qm = fun("has", sym.I, z3.BoolSort()), fun("base", sym.I, sym.I), fun("highest", sym.I, sym.R)
        env.tfuncs.set_layer(lambda q: SBool(has(num(q)).t), lambda q: S.Ripples(base(num(q)), qm(num(q))))

    def changed(env):
        S = env.g
        ch, base, qm = S.now
        k = num(env.k)
        want = lambda j: And(j < k, Not(S.static(j)), Not(S.rip(S.owned(j))))
        return [("exactly the peaks so far that can have ripples have some", forall(1, lambda j: Implies(And(0 <= j, j < S.many), And(ch(j) == want(j), Implies(ch(j), And(base(j) == S.owned(j), qm(j) == S.qmax))))))]

    def any_change(env):
        S = env.g
        B = z3.BoolSort()
        c, b, q = fun("changed", sym.I, B), fun("base", sym.I, sym.I), fun("highest", sym.I, sym.R)
        S.now = (lambda j: SBool(c(num(j)).t), lambda j: b(num(j)), lambda j: q(num(j)))
    return {(f, "for", 0): LoopSpec(made, havoc=some, modifies=lambda env: [env.tfuncs]), (f, "for", 1): LoopSpec(changed, havoc=any_change)}


@contract("C32", "every peak gets ripples", functions=[PDF + "extract", PDF + "_extract"], loops=ripple_loops())
def ripples(v):
    S, pe = pdf(v)
    if not S.finite or S.nyquist:
        v.assume(num(0) == 1)
    from diffpy.srmise.peaks import terminationripples as tr
    B = z3.BoolSort()

    class Ripples(Stub):
        def __init__(self, base, qmax, extension=4.0, supersample=5.0):
            self.base, self.qmax = num(base), num(qmax)

        @staticmethod
        def vc_merge(c, a, b):
            return Ripples(SNum(z3.If(c, a.base.t, b.base.t)), SNum(z3.If(c, sym.real(a.qmax.t), sym.real(b.qmax.t))))
    S.Ripples = Ripples
    v.patch(tr, "TerminationRipples", Ripples)
    S.many = n = v.int("peaks", 0)
    S.owned = fun("owner", sym.I, sym.I)
    st, rp = fun("static", sym.I, B), fun("rippled", sym.I, B)
    S.static, S.rip = (lambda j: SBool(st(num(j)).t)), (lambda o: SBool(rp(num(o)).t))
    S.now = (lambda j: num(0) == 1, lambda j: num(-1), lambda j: num(-1))
    model = SymList(n, lambda j: Any(S, j))

    class Found(Inner):
        def extract_single(self, recursion_depth=1):
            r = Inner.extract_single(self, recursion_depth)
            self.extracted.model = model
            return r
    v.patch(S.M, "PeakExtraction", Found)
    v.must("extract", pe.extract)
    ch, base, qm = S.now
    j = v.int("j", 0)
    v.prove("every peak that can have ripples has them, of its own function, once", Implies(j < n, And(ch(j) == And(Not(S.static(j)), Not(S.rip(S.owned(j)))), Implies(ch(j), And(base(j) == S.owned(j), qm(j) == S.qmax)))))
    v.prove("the result has the peaks found", pe.extracted.model is model)


@contract("C32", "an extraction from a PDF that fails", functions=[PDF + "extract", PDF + "_extract"])
def pdf_failure(v):
    S, pe = pdf(v)
    S.fails = 0
    r = v.call(pe.extract)
    v.prove("a failure is reported", not r.ok and isinstance(r.exc, Boom))
    kept(S)


# --- single peaks -------------------------------------------------------------------
@contract("C32", "estimating a peak", functions=[PE + "estimate_peak", PE + "add_peaks"])
def estimating(v):
    from diffpy.srmise import peakextraction as M
    S = world(v, M)
    v.expect_covers("outside", "found", "none")
    before = bool(v.bool("after an extraction"))
    ext = None
    if before:
        m = v.int("cluster", 1)
        xs, ys, es, vs = (v.array(k, m) for k in ("r_cluster", "y_cluster", "error_cluster", "model"))
        ext = S.MC(Model(S, []))
        S.made.pop()
        ext.__dict__.update(r_cluster=xs, y_cluster=ys, error_cluster=es, value=lambda: vs)
        X, Y, E, n = xs.at, (lambda i: ys.at(i) - vs.at(i)), es.at, m
    else:
        X, E, n = (lambda i: S.X.at(num(i) + S.lo)), (lambda i: S.E.at(num(i) + S.lo)), S.n
        Y = lambda i: S.Y.at(num(i) + S.lo) - S.bl.at(X(i)) - S.ip.at(X(i))
    some = bool(v.bool("a peak is there"))
    add = pick(v, "add", [None, True, False])
    x = v.real("where")

    class DC(Stub):
        def __init__(self, cx, cy, res):
            cx, cy = arr.asarr(cx), arr.asarr(cy)
            q = v.int("q", 0)
            v.prove("the residual is clustered", And(num(cx.vc_len()) == n, num(cy.vc_len()) == n, Implies(q < n, And(cx.at(q) == X(q), cy.at(q) == Y(q)))))
            v.prove("at the resolution set", num(res) == S.cres)
            self.state, self.near = 0, None

        def makeclusters(self):
            self.state = 1

        def find_nearest_cluster2(self, where):
            v.prove("all clusters are searched", self.state == 1)
            v.prove("for the one nearest to the coordinate", num(where) == x)
            self.near = v.int("nearest", 0)
            return [self.near, v.real("distance")]

        def cut(self, i):
            v.prove("the nearest cluster is used", self.near is not None and num(i) == self.near)
            self.a, self.b = v.int("a", 0), v.int("b", 0)
            v.assume(And(self.a < self.b, self.b <= n))
            S.cut = (self.a, self.b)
            return slice(self.a, self.b)
    v.patch(M, "DataClusters", DC)
    peaks = [Part(S, None, 0)] if some else []
    S.fitted = lambda m, some: setattr(m, "model", S.new)
    S.new = Model(S, peaks)
    pe = extractor(S, M.PeakExtraction, extracted=ext)
    r = v.call(pe.estimate_peak, x) if add is None else v.call(pe.estimate_peak, x, add)
    if not r.ok:
        v.cover("outside")
        v.prove("only a coordinate outside the data is refused", And(isinstance(r.exc, ValueError), Or(x < X(0), x > X(n - 1))))
        v.prove("a refusal adds nothing", not S.ip.log and (ext is None or not ext.log))
    else:
        v.prove("a coordinate outside the data is refused", And(X(0) <= x, x <= X(n - 1)))
        ok = len(S.made) == 1
        v.prove("one model is fitted", ok)
        mc = S.made[0]
        a, b = S.cut
        q = v.int("q", 0)
        arrays = [arr.asarr(k) for k in mc.args[2:5]]
        v.prove("no other peaks and no baseline", mc.args[0] is None and mc.args[1] is None)
        v.prove("over the data of the nearest cluster", And(mc.args[5] is None, *[And(num(k.vc_len()) == b - a, Implies(q < b - a, k.at(q) == f(q + a))) for k, f in zip(arrays, (X, Y, E))]))
        v.prove("with the criterion and peak functions", mc.args[6] is S.crit and mc.args[7] is S.pf)
        if some:
            v.cover("found")
            v.prove("the peak is returned", r.value is peaks[0])
        else:
            v.cover("none")
            v.prove("nothing is returned if there is none", r.value is None)
        wanted = some and add is not False
        if before:
            v.prove("a peak is added to the model extracted, if wanted", ext.log == ([("replacepeaks", (S.new,))] if wanted else []) and not S.ip.log)
        else:
            v.prove("a peak is added to the initial peaks, if wanted, in order", S.ip.log == ([("extend", S.new), ("sort", "position")] if wanted else []))
    v.prove("the settings are the same objects", all(getattr(pe, k) is z for k, z in S.settings.items()))
    v.prove("the model extracted stays", pe.extracted is ext and pe.extraction_type is None)


@contract("C32", "adding peaks", functions=[PE + "add_peaks"])
def adding(v):
    from diffpy.srmise import peakextraction as M
    S = world(v, M)
    pe = extractor(S, M.PeakExtraction, initial_peaks=None)
    pe.__dict__["setvars"] = lambda *a, **k: (S.order.append(("set", a, k)), pe.__dict__.update(initial_peaks=S.ip))[0]
    new = Model(S, [Part(S, None, 0)])
    v.must("add", pe.add_peaks, new)
    v.prove("initial peaks are made when there are none", [o for o in S.order if o[0] == "set"] == [("set", ("initial_peaks",), {})])
    v.prove("they are added in order", S.ip.log == [("extend", new), ("sort", "position")])
