"""Edits of the peaks of a cluster keep the protected ones."""
from .clu import *  # noqa: F401,F403
from .clu import MCL, B, Base, Crit, IdPeak, Peakset, data, slice_of, total_of
from .C10 import fun

ASSUMPTIONS = ["sorting a model puts its peaks in position order and changes nothing else (C10)", "positions are numbers (NaN positions: bounded replay)",
               "the peaks of the cluster are in position order before cleaning (fit sorts first)"]


def edited(v, F, n, name="id"):
    """A cluster over any data whose model has n peaks numbered 0..n-1."""
    from diffpy.srmise.modelcluster import ModelCluster
    mc = ModelCluster.__new__(ModelCluster)
    S = data(v)
    lo, hi = slice_of(v, S.N)
    mc.slice, mc.size = slice(lo, hi), hi - lo
    mc.r_data, mc.y_data, mc.y_error = S.r, S.y, S.e
    mc.r_cluster, mc.y_cluster, mc.error_cluster = S.r[lo:hi], S.y[lo:hi], S.e[lo:hi]
    mc.model = F.model(n, lambda j: num(j))
    mc.baseline = None
    return mc, S, lo, hi


def u_of(p):
    return p.u if isinstance(p, IdPeak) else num(-99)


def replace_loop():
    def inv(env):
        E = env.g
        return [("all so far may be removed", forall(1, lambda j: Implies(And(0 <= j, j < env.k), E.F.rem(E.lo + j))))]
    return {(MCL + "replacepeaks", "for", 0): LoopSpec(inv)}


def replace_checks(v, E, mc, model, r, n, lo, hi, m, newid, what):
    q = v.int("q", 0)
    if not r.ok:
        v.cover(what + " refused")
        v.prove(what + ": refused with a value error", isinstance(r.exc, ValueError))
        v.prove(what + ": a refused edit changes nothing", And(mc.model is model, num(model.vc_len()) == n, Implies(q < n, u_of(model.vc_item(q)) == q)) if E.log == [] else False)
        return
    v.cover(what + " done")
    v.prove(what + ": no protected peak is removed", Implies(And(lo <= q, q < hi), E.F.rem(q)))
    v.prove(what + ": the same model object", mc.model is model)
    v.prove(what + ": the number of peaks", num(model.vc_len()) == n - (hi - lo) + m)
    got = lambda j: u_of(model.vc_item(j))
    v.prove(what + ": every other peak stays", And(Implies(And(q < lo), got(q) == q), Implies(And(q >= hi, q < n), got(q - (hi - lo) + m) == q)))
    if newid is not None:
        v.prove(what + ": every new peak is there", Implies(q < m, got(lo + q) == newid(q)))
    v.prove(what + ": put in position order", E.log == [("sort", "position", num(model.vc_len()))] or (len(E.log) == 1 and E.log[0][:2] == ("sort", "position")))


def ghost(v, F, lo, model):
    E = type("E", (), {})()
    E.F, E.lo, E.log = F, lo, []
    model.__dict__["sort"] = lambda reverse=False, key="position": E.log.append(("sort", None if reverse else key, model.vc_len()))
    v.p.state["ghost"] = E
    return E


@contract("C16", "replacepeaks", functions=[MCL + "replacepeaks"], loops=replace_loop)
def replacepeaks(v):
    F = Peakset(v)
    n, m = v.int("n", 0), v.int("new", 0)
    mc, S, _, _ = edited(v, F, n)
    lo, hi = v.int("lo", 0), v.int("hi", 0)
    v.assume(And(lo <= hi, hi <= n))
    model = mc.model
    E = ghost(v, F, lo, model)
    newid = fun("newid", sym.I, sym.I)
    new = F.model(m, newid)
    v.expect_covers("replace refused", "replace done", "by default")
    if bool(v.bool("nothing to delete")):
        v.assume(And(lo == 0, hi == 0))
        v.cover("by default")
        r = v.call(mc.replacepeaks, new)
    else:
        r = v.call(mc.replacepeaks, new, slice(lo, hi))
    replace_checks(v, E, mc, model, r, n, lo, hi, m, newid, "replace")


@contract("C16", "deletepeak", functions=[MCL + "deletepeak", MCL + "replacepeaks"], loops=replace_loop)
def deletepeak(v):
    F = Peakset(v)
    n = v.int("n", 1)
    mc, S, _, _ = edited(v, F, n)
    k = v.int("k", 0, n)
    model = mc.model
    E = ghost(v, F, k, model)
    v.expect_covers("delete refused", "delete done")
    r = v.call(mc.deletepeak, k)
    replace_checks(v, E, mc, model, r, n, k, k + 1, 0, None, "delete")


# --- cleaning -----------------------------------------------------------------------
def clean_loop():
    def inv(env):
        E, k = env.g, env.k
        gone = env.loop.it
        at = gone.vc_item
        n = num(E.n)
        first = isinstance(k, int) and k == 0
        last = num(E.n) if first else at(num(k) - 1)
        return [("one fewer each time", num(E.model.vc_len()) == n - k),
                ("those before the last one removed are untouched", forall(1, lambda j: Implies(And(0 <= j, j < n - k, Or(num(k) == 0, j < last)), u_of(E.model.vc_item(j)) == j)))]

    def havoc(env):
        E, k = env.g, env.k
        n = arr.simp(num(E.n) - k)
        cur = fun("cur", sym.I, sym.I)
        seq.set_family(E.model, n, lambda j: IdPeak(E.F, cur(j)))
    return {(MCL + "cleanfit", "for", 0): LoopSpec(inv, havoc=havoc, modifies=lambda env: [env.g.model])}


@contract("C16", "cleanfit", functions=[MCL + "cleanfit"], loops=clean_loop)
def cleanfit(v):
    F = Peakset(v)
    n = v.int("n", 0)
    mc, S, lo, hi = edited(v, F, n)
    model = mc.model
    v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i <= j, j < n), F.pos(i) <= F.pos(j))))
    v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < S.N), S.r.at(i) < S.r.at(j))))
    E = type("E", (), {})()
    E.F, E.n, E.model = F, n, model
    v.p.state["ghost"] = E
    q = v.int("q", 0)
    v.assume(q < hi - lo)
    x, e = S.r.at(lo + q), S.e.at(lo + q)
    deld = []
    orig = type(model).__delitem__

    def delitem(self, i):
        if isinstance(i, slice):
            raise core.Unsupported("removal of several at once")
        u = u_of(self.vc_item(i))
        deld.append(u)
        nan = F.nanpar(u)
        v.prove("a protected peak is removed only if its parameters are not numbers", Or(F.rem(u), nan))
        v.prove("a peak with numbers is removed only outside the cluster", Or(nan, F.pos(u) < S.r.at(lo), F.pos(u) >= S.r.at(hi - 1)))
        v.prove("a peak with numbers is removed only if it contributes less than the uncertainty everywhere in it", Or(nan, F.at(u, x) < e))
        orig(self, i)
    type(model).__delitem__ = delitem
    r = v.must("clean", mc.cleanfit)
    v.prove("no other edit of the peaks", mc.model is model)
    v.prove("as many are gone as it says", num(r) == n - num(model.vc_len()))


# --- pruning ------------------------------------------------------------------------
class Qual:
    """The quality of some model: any value, as comparisons need."""

    def __init__(self, x):
        self.stat = x

    def __lt__(self, o):
        return bool(self.stat < o.stat)

    def __gt__(self, o):
        return bool(self.stat > o.stat)

    def __le__(self, o):
        return bool(self.stat <= o.stat)

    def __ge__(self, o):
        return bool(self.stat >= o.stat)


class P1:
    """A peak with a number."""

    def __init__(self, tag, removable, pos=None):
        self.tag, self.removable = tag, removable
        self.pars = [2.0 + tag if pos is None else pos]
        self.free = [True]

    def copy(self):
        return P1(self.tag, self.removable, self.pars[0])

    def __getitem__(self, key):
        return self.pars[0]

    def value(self, r, range=None):
        return 0.0 * r

    def npars(self, count_fixed=True):
        return 1

    def owner(self):
        return None


def prune_any(v, n):
    """Pruning with any protected peaks, any outcome of every fit and any qualities."""
    import numpy
    from diffpy.srmise import modelcluster, modelparts
    from diffpy.srmise.peaks import base
    MCm, Peaks = modelcluster.ModelCluster, base.Peaks
    for m in (modelcluster, modelparts, base):
        v.patch(m, "np", numpy)
    prot = [bool(v.bool("protected %d" % i)) for i in range(n)]
    ps = [P1(i, not prot[i]) for i in range(n)]
    r = numpy.linspace(1.0, 2.0 + n, 12)
    y = numpy.ones(12)
    v.patch(MCm, "quality", lambda self, *a, **k: Qual(v.real("quality")))

    def fit(self, *a, **k):
        # what the contract of fit leaves open: revert, or any new positions and any unprotected peaks cleaned
        if bool(v.bool("the fit fails")):
            self.model = self.model.copy()
            return None
        for i, p in enumerate(list(self.model)):
            p.pars[0] += 0.01
        if len(self.model) and self.model[0].removable and bool(v.bool("cleaned")):
            del self.model[0]
        return Qual(v.real("fitted"))
    v.patch(MCm, "fit", fit)
    mc = MCm(Peaks(ps), None, r, y, y, None, None, [])
    v.must("prune", mc.prune)
    left = [p.tag for p in mc.model]
    v.prove("every protected peak is still there", all(i in left for i in range(n) if prot[i]))
    v.prove("no peak appears twice or from nowhere", len(set(left)) == len(left) and all(0 <= i < n for i in left))
    pos = [p.pars[0] for p in mc.model]
    v.prove("in position order", pos == sorted(pos))


@contract("C16", "prune_two_peaks", functions=[MCL + "prune", MCL + "_prune"], bounded="models of two peaks; every pattern of protection, fit outcome and quality", budget=300)
def prune2(v):
    prune_any(v, 2)


@contract("C16", "prune_up_to_one_peak", functions=[MCL + "prune", MCL + "_prune"], bounded="models of at most one peak; every pattern of protection, fit outcome and quality")
def prune1(v):
    prune_any(v, 1 if bool(v.bool("one peak")) else 0)
