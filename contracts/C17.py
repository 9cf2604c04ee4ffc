"""Fits are accepted only when they do not make things worse."""
from .clu import *  # noqa: F401,F403
from .clu import MCL, B, Base, Crit, IdPeak, Peakset, data, slice_of, total_of
from .C10 import fun

ASSUMPTIONS = ["a model's fit either raises a fit error or changes its parameters (C13); sorting, cleaning and quality are their own contracts (C10, C16, C12)",
               "qualities are numbers", "copies of a model or baseline are independent of it (C26)"]


class Mod(Stub):
    """A model: how many peaks, and how often it has been changed."""

    def __init__(self, n, copyof=None, baseline=None):
        self.n, self.ver, self.copyof, self.log, self.fitted = n, 0, copyof, [], self
        self.baseline = baseline

    def vc_len(self):
        return self.n

    symlen = vc_len

    def copy(self):
        return Mod(self.n, (self, self.ver))

    def npars(self, count_baseline=True, count_fixed=True):
        raise core.Unsupported("number of parameters of the model")

    def sort(self, reverse=False, key="position"):
        self.ver += 1
        self.log.append("sort" if key == "position" and not reverse else "sorted otherwise")

    def __iter__(self):
        raise core.Unsupported("iteration over the model")


class Bl(Base):
    ver = 0
    copyof = None

    def npars(self, count_fixed=True):
        return self.nfix if count_fixed else self.nfree

    def copy(self):
        b = Bl.__new__(Bl)
        b.f, b.ident, b.nfree, b.nfix = self.f, self.ident, self.nfree, self.nfix
        b.copyof = (self, self.ver)
        return b


def same(now, before, ver):
    """now is `before` as it was at version ver."""
    if before is None or now is None:
        return now is before
    return (now is before and now.ver == ver) or (now.copyof is not None and now.copyof[0] is before and now.copyof[1] == ver and now.ver == 0)


class Qual(Stub):
    def __init__(self, W, stat, of):
        self.W, self.stat, self.of = W, stat, of

    def growth_justified(self, fit, k):
        self.W.asked.append((self, fit, k))
        return self.W.justified

    def __lt__(self, o):
        return self.stat < o.stat

    def __gt__(self, o):
        return self.stat > o.stat

    def __le__(self, o):
        return self.stat <= o.stat

    def __ge__(self, o):
        return self.stat >= o.stat


@contract("C17", "fit", functions=[MCL + "fit"])
def fit(v):
    from diffpy.srmise import modelcluster
    from diffpy.srmise.srmiseerrors import SrMiseEstimationError, SrMiseFitError
    MCm = modelcluster.ModelCluster
    W = type("W", (), {})()
    W.asked, W.justified = [], v.bool("more peaks justified")
    S = data(v)
    mc = MCm.__new__(MCm)
    lo, hi = slice_of(v, S.N)
    mc.slice, mc.size = slice(lo, hi), hi - lo
    mc.r_data, mc.y_data, mc.y_error = S.r, S.y, S.e
    mc.r_cluster, mc.y_cluster, mc.error_cluster = S.r[lo:hi], S.y[lo:hi], S.e[lo:hi]
    mc.last_fit_size = last = v.int("last fit size", 0)
    n0 = v.int("peaks", 0)
    M = Mod(n0)
    mc.model = M
    bl = None
    if bool(v.bool("has baseline")):
        bl = Bl("bl")
        bl.nfree, bl.nfix = v.int("free parameters of the baseline", 0), v.int("its parameters", 0)
    mc.baseline = bl
    pf = [type("PF", (Stub,), {})() for _ in "ab"]
    for f in pf:
        f.npars = v.int("parameters of a function", 1)
    mc.peak_funcs = pf
    mc.never_fit = bool(v.bool("never fit"))
    pre = {"ver": 0, "model": M}

    def estimatepeak():
        if bool(v.bool("estimation impossible")):
            raise SrMiseEstimationError("no")
        if bool(v.bool("a first peak is found")):
            M.n = num(1)
            M.ver += 1
            pre["ver"] = M.ver
            return True
        return False
    mc.__dict__["estimatepeak"] = estimatepeak
    quals = {}

    def quality(evaluator=None, **kw):
        if kw or evaluator is not None:
            raise core.Unsupported("another quality")
        m, b = mc.model, mc.baseline
        root = lambda x: (id(x), x.ver) if x is not None and (x.copyof is None or x.ver) else x and (id(x.copyof[0]), x.copyof[1])
        key = (root(m), root(b))
        if key not in quals:
            quals[key] = v.real("quality")
        return Qual(W, quals[key], (m, m.ver, b, None if b is None else b.ver))
    mc.__dict__["quality"] = quality
    cleaned = []

    def cleanfit():
        m = mc.model
        cleaned.append((m, list(m.log)))
        k = v.int("cleaned away", 0)
        v.assume(k <= num(m.n))
        m.n = num(m.n) - k
        m.ver += 1
        return k
    mc.__dict__["cleanfit"] = cleanfit
    fits = []

    def fitting(obj, parts):
        def f(r, y, y_error, range=None, ntrials=0, cov=None, cov_format="default_output"):
            fits.append((obj, parts, r, asarr(y).snapshot(), y_error, range, ntrials, cov, cov_format, [(p, p.ver) for p in parts]))
            for p in parts:
                p.ver += 1
            if bool(v.bool("the optimiser fails")):
                raise SrMiseFitError("failed")
        return f

    class MP(Stub):
        """Model parts: those of a model, then the baseline."""

        def __init__(self, items):
            self.parts = [items]
            self.fit = fitting(self, self.parts)

        def append(self, p):
            self.parts.append(p)

        def vc_len(self):
            return num(self.parts[0].n) + len(self.parts) - 1

        def __getitem__(self, i):
            if len(self.parts) == 2:
                if isinstance(i, slice) and i == slice(None, -1):
                    return ("peaks of", self.parts[0])
                if i == -1:
                    return self.parts[1]
            raise core.Unsupported("another part of the model parts")

    def Peaks(x=()):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "peaks of":
            m = Mod(x[1].n)
            m.fitted = x[1]
            return m
        raise core.Unsupported("a model made in another way")
    v.patch(modelcluster, "ModelParts", MP)
    v.patch(modelcluster, "Peaks", Peaks)
    M.fit = fitting(M, [M])
    justify, fitbaseline, estimate = (bool(v.bool(x)) for x in ("justify", "fit the baseline", "estimate"))
    cov, fmt, trials = type("Cov", (Stub,), {})(), "fmt", v.int("trials", 0)
    v.expect_covers("never", "no model", "optimiser failed", "worse", "not justified", "accepted", "baseline too")
    r = v.must("fit", mc.fit, justify, trials, fitbaseline, estimate, cov, fmt)
    unchanged = lambda ver: same(mc.model, M, ver) and same(mc.baseline, bl, 0)
    if mc.never_fit:
        v.cover("never")
        v.prove("a cluster marked so is never fitted", r is None and not fits and unchanged(0) and pre["ver"] == 0 and num(mc.last_fit_size) is not None and mc.last_fit_size is last)
        return
    if not fits:
        v.cover("no model")
        v.prove("not fitted only without a model", And(n0 == 0, r is None, unchanged(0)))
        v.prove("and then nothing changes", mc.last_fit_size is last)
        return
    v.prove("fitted once", len(fits) == 1)
    obj, parts, fr, fy, fe, frange, ft, fcov, ffmt, was = fits[0]
    withbl = bl is not None and fitbaseline and bool(bl.nfree > 0)
    v.prove("the model fitted is the current one, with the baseline when asked", parts[0] is M and was[0] == (M, pre["ver"]) and (len(parts) == 2 and parts[1] is bl if withbl else len(parts) == 1))
    i = v.int("i", 0, S.N)
    want = S.y.at(i) - (0 if bl is None or withbl else bl.at(S.r.at(i)))
    v.prove("to the data less what is not fitted, over the cluster", And(fr is S.r, fe is S.e, num(frange.start) == lo, num(frange.stop) == hi, fy.at(i) == want, num(ft) == trials))
    v.prove("the fit is remembered", num(mc.last_fit_size) == hi - lo)
    q0 = quals.get(((id(M), pre["ver"]), (id(bl), 0) if bl is not None else None))
    v.prove("the quality before the fit is known", q0 is not None)
    if q0 is None:
        return
    failed = not cleaned
    if r is None:
        v.prove("a failed fit restores the peaks and the baseline", unchanged(pre["ver"]))
        if failed:
            v.cover("optimiser failed")
            return
    v.prove("the fitted model is put in order, then cleaned", len(cleaned) == 1 and cleaned[0][1] == ["sort"] and not failed)
    m = cleaned[0][0]
    v.prove("what is cleaned is the fitted model", getattr(m, "fitted", m) is M)
    q1 = [q for k, q in quals.items() if k[0] == (id(m), m.ver) and k[1] == ((id(bl), bl.ver) if bl is not None else None)]
    v.prove("the quality after the fit is known", len(q1) == 1)
    if len(q1) != 1:
        return
    q1 = q1[0]
    kmin = sym.ite(pf[0].npars < pf[1].npars, pf[0].npars, pf[1].npars)
    npre = num(1) if pre["ver"] else n0
    lone = And(justify, num(m.n) == 1, npre > 0)
    reject = And(lone, W.justified)
    if r is None:
        v.cover("worse" if not W.asked else "not justified")
        v.prove("a fit is undone only when it is worse, or more peaks would be justified", Or(q1 < q0, reject))
        return
    v.cover("accepted")
    if withbl:
        v.cover("baseline too")
    v.prove("the fitted model is kept", mc.model is m and mc.baseline is bl)
    v.prove("the quality returned is that of the accepted model", isinstance(r, Qual) and r.of == (m, m.ver, bl, None if bl is None else bl.ver))
    v.prove("and is not worse than before", q1 >= q0)
    v.prove("no single peak is accepted that more peaks would justify", Not(reject))
    for a in W.asked:
        v.prove("justification is asked for the smallest function", And(a[1] is mc, num(a[2]) == kmin))


@contract("C17", "never_fit", functions=[MCL + "change_slice", MCL + "__init__"])
def never(v):
    from diffpy.srmise.modelcluster import ModelCluster
    S = data(v)
    lo, hi = slice_of(v, S.N)
    bl = Base("bl") if bool(v.bool("baseline")) else None
    F = Peakset(v)
    mc = v.must("make a cluster", ModelCluster, F.model(v.int("peaks", 0), fun("id", sym.I, sym.I)), bl, S.r, S.y, S.e, slice(lo, hi), Crit, [])
    below = lambda i: S.y.at(i) - (bl.at(S.r.at(i)) if bl is not None else 0) < S.e.at(i)
    over = lambda a, b: forall(1, lambda i: Implies(And(a <= i, i < b), below(i)))
    nf = SBool(sym.bt(mc.never_fit))
    v.expect_covers("stays", "lost", "first", "not first")
    yes = bool(nf)
    v.cover("first" if yes else "not first")
    i = v.int("i", 0)
    if yes:
        v.prove("marked only if the data are below the uncertainty", Implies(And(lo <= i, i < hi), below(i)))
    else:
        v.prove("marked if the data are below the uncertainty", Not(over(lo, hi)))
    lo2, hi2 = slice_of(v, S.N, "new")
    v.must("change the slice", mc.change_slice, slice(lo2, hi2))
    nf2 = bool(SBool(sym.bt(mc.never_fit)))
    if not yes:
        v.prove("a cluster once above stays fit for fitting", not nf2)
    elif nf2:
        v.cover("stays")
        v.prove("it stays marked only if the data it grew through are below", And(Implies(And(lo2 <= i, i < lo), below(i)), Implies(And(hi <= i, i < hi2), below(i))))
    else:
        v.cover("lost")
        v.prove("it stays marked if the data it grew through are below", Not(And(over(lo2, lo), over(hi, hi2))))


@contract("C17", "contingent_fit", functions=[MCL + "contingent_fit"])
def contingent(v):
    from diffpy.srmise.modelcluster import ModelCluster
    mc = ModelCluster.__new__(ModelCluster)
    mc.size, mc.last_fit_size = v.int("size", 1), v.int("last", 0)
    mc.never_fit = bool(v.bool("never fit"))
    calls, out = [], object()
    mc.__dict__["fit"] = lambda *a, **k: (calls.append((a, k)), out)[1]
    least, thr = v.int("minpoints", 0), v.real("threshold")
    v.expect_covers("fit", "no fit")
    r = v.must("conditional fit", mc.contingent_fit, least, thr)
    due = And(not mc.never_fit, Or(And(mc.last_fit_size > 0, sym.num(mc.size) >= thr * mc.last_fit_size), And(mc.last_fit_size == 0, mc.size >= least)))
    if calls:
        v.cover("fit")
        v.prove("refit only when due", due)
        v.prove("once, asking for justification", len(calls) == 1 and (calls[0] == ((), {"justify": True}) or calls[0] == ((True,), {})) and r is out)
    else:
        v.cover("no fit")
        v.prove("refit whenever due", Not(due))
        v.prove("no result then", r is None)


@contract("C17", "reduce_to", functions=[MCL + "reduce_to"])
def reduce_to(v):
    from diffpy.srmise.modelcluster import ModelCluster
    mc = ModelCluster.__new__(ModelCluster)
    W = type("W", (), {})()
    W.asked, W.justified = [], v.bool("more peaks justified")
    M = Mod(v.int("peaks", 0))
    at, bl = v.real("value there"), v.real("baseline there")
    M.value = lambda x: at
    adj = []

    def match_at(x, y):
        adj.append((x, y))
        M.ver += 1
    M.match_at = match_at
    mc.model = M
    mc.baseline = None
    mc.__dict__["valuebl"] = lambda x=None: bl
    mc.__dict__["value"] = lambda x=None: at + bl
    x, y = v.real("x"), v.real("y")
    pf = type("PF", (Stub,), {})()
    pf.npars = v.int("parameters of a function", 1)
    mc.peak_funcs = [pf]
    fits = []

    def fit(*a, **k):
        if a or k:
            raise core.Unsupported("fitting with options")
        fits.append(1)
        if bool(v.bool("the fit fails")):
            mc.model = Mod(M.n, (M, M.ver))
            return None
        M.ver += 1
        return Qual(W, v.real("quality"), (M, M.ver, None, None))
    mc.__dict__["fit"] = fit
    v.expect_covers("nothing to do", "failed", "not justified", "reduced")
    r = v.must("reduce", mc.reduce_to, x, y)
    if not adj and not fits:
        v.cover("nothing to do")
        v.prove("nothing is done only when the model is already below", And(r is None, Or(at < y, at + bl < y)))
        v.prove("and then the peaks stay", same(mc.model, M, 0))
        return
    v.prove("scaled to the requested height less the baseline", And(len(adj) == 1 and len(fits) == 1, adj[0][0] == x, adj[0][1] == y - bl))
    if r is None:
        v.cover("not justified" if W.asked else "failed")
        v.prove("a reduction that fails, or that more peaks would justify, is undone", same(mc.model, M, 0))
        if W.asked:
            v.prove("undone only then", W.justified)
        return
    v.cover("reduced")
    v.prove("kept only when no more peaks are justified", And(Not(W.justified), mc.model is M and isinstance(r, Qual) and r.of == (M, M.ver, None, None)))
