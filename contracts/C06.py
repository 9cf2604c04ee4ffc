from .mp import *  # noqa: F401,F403
from .mp import MP, P1
from .C05 import sel_range

MOD = "diffpy.srmise.modelparts"
ASSUMPTIONS = ["scipy's leastsq may answer anything it likes, except that the solution it returns is numeric and as long as the start",
               "leastsq passes the extra arguments unchanged to the residual and Jacobian it was given",
               "the parts' values, derivatives and flattening are those of C04, C05 and C07"]


def bounds(rng, n):
    lo, hi = (0, n) if rng is None or (rng.start is None and rng.stop is None) else (rng.start if rng.start is not None else 0, rng.stop if rng.stop is not None else n)
    return num(lo), num(hi)


class Data:
    def __init__(self, v, n=None):
        self.n = v.int("n", 0) if n is None else n
        n = self.n
        self.y, self.e = v.array("y", n), v.array("err", n)
        self.r = v.array("r", n)
        v.assume(forall(1, lambda i: Implies(And(0 <= i, i < n), self.e.at(i) != 0)))

    def same(self):
        return all(a.store.ver == 0 for a in (self.r, self.y, self.e))


def residual_case(v, scalar):
    from diffpy.srmise.modelparts import ModelParts
    D = Data(v, None)
    seen = []
    m = ModelParts.__new__(ModelParts)
    x = v.array("freepars", v.int("nfree", 0))
    if scalar:
        r, y, e = v.real("r"), v.real("y"), v.real("err")
        v.assume(e != 0)
        rng, inside = None, None
        total = v.real("model")
    else:
        r, y, e = D.r, D.y, D.e
        rng, inside = sel_range(v, D.n)
        total = v.array("model", D.n)

    def value(rr, range=None):
        seen.append(("value", rr, range))
        return total
    m.pack_freepars = lambda f: seen.append(("pack", f))
    m.value = value
    out = v.must("residual", m.residual, x, r, y, e, rng)
    v.prove("evaluated at exactly the given parameters, on the given grid and range",
            len(seen) == 2 and seen[0][0] == "pack" and seen[0][1] is x and seen[1][0] == "value" and seen[1][1] is r)
    if scalar:
        v.prove("(expected - model) / uncertainty", num(out) * e == y - total)
        return
    v.prove("the model is evaluated over the range", same_range(seen[1][2], rng, D.n))
    out = arr.asarr(out)
    lo, hi = bounds(rng, D.n)
    k = sym.ite(hi > lo, hi - lo, 0)
    v.prove("one residual per point of the range", And(out.ndim == 1, num(out.shape_[0]) == k))
    i = v.int("i", 0)
    v.assume(i < k)
    v.prove("(expected - model) / uncertainty", out.at(i) * e.at(lo + i) == y.at(lo + i) - total.at(lo + i))
    v.prove("the data are not changed", D.same() and x.store.ver == 0 and total.store.ver == 0)


def same_range(a, b, n):
    if a is b:
        return True
    la, ha = bounds(a, n)
    lb, hb = bounds(b, n)
    return And(la == lb, ha == hb)


@contract("C06", "ModelParts.residual on a grid", functions=[MP + "residual"])
def residual_grid(v):
    residual_case(v, False)


@contract("C06", "ModelParts.residual of a scalar", functions=[MP + "residual"])
def residual_scalar(v):
    residual_case(v, True)


class JacPart(Stub):
    """Part k: one derivative per parameter, None for a fixed one (C07)."""

    def __init__(self, F, k):
        self.F, self.k = F, k

    def jacobian(self, r, range=None):
        F, k = self.F, self.k
        F.v.prove("differentiated at the given parameters, on the given grid", F.packed is F.x and r is F.r)
        F.v.prove("differentiated over the given range", True if F.scalar else same_range(range, F.rng, F.n))
        return F.rows(F.offall(k), F.npar(k))


class Flat:
    """M parts with npar(k) parameters each; parameter q of the flat order is free or not, with derivative d(q, .)."""

    def __init__(self, v, scalar):
        from diffpy.srmise.modelparts import ModelParts
        self.v, self.scalar = v, scalar
        fam = Family(v)
        self.M, self.npar, self.offall = fam.M, fam.npar, fam.offall
        p = v.p
        fr, d = z3.Function(p.name("free"), sym.I, z3.BoolSort()), z3.Function(p.name("d"), sym.I, sym.I, sym.R)
        self.free = lambda q: SBool(fr(t(num(q))))
        self.d = lambda q, i: SNum(d(t(num(q)), t(num(i))))
        self.n = v.int("n", 0)
        # (the totals are non-decreasing: by induction, as for the free ones in C04)
        v.assume(forall(1, lambda k: Implies(And(0 <= k, k <= self.M), self.offall(k) >= 0), patterns=lambda k: [self.offall(k)]))
        self.ps = seq.family(ModelParts, self.M, lambda k: JacPart(self, k))
        self.packed = None
        self.ps.__dict__["pack_freepars"] = self.pack

    def pack(self, x):
        self.packed = x

    def row(self, q):
        return self.d(q, 0) if self.scalar else Arr((self.n,), lambda i: self.d(q, i))

    def rows(self, off, cnt):
        return seq.SymList(cnt, lambda i: seq.Opt(self.free(num(off) + i), self.row(num(off) + i)))


def jac_loop():
    def inv(env):
        F, k = env.g, env.k
        L = seq.as_symlist(env.tempJac)
        if not isinstance(L.n, SNum) and L.n == 0:
            return [("one entry per parameter so far", F.offall(k) == 0)]
        q = lambda j: And(0 <= j, j < F.offall(k))
        fs = [("one entry per parameter so far", num(L.n) == F.offall(k)),
              ("fixed parameters have no entry", forall(1, lambda j: Implies(q(j), L.fn(j).present.t == F.free(j).t)))]
        if F.scalar:
            return fs + [("the entries are the parts' derivatives in order", forall(1, lambda j: Implies(And(q(j), F.free(j)), num(L.fn(j).value) == F.d(j, 0))))]
        return fs + [("rows as long as the grid", forall(1, lambda j: Implies(And(q(j), F.free(j)), num(L.fn(j).value.shape_[0]) == F.n))),
                     ("the rows are the parts' derivatives in order", forall(2, lambda j, i: Implies(And(q(j), F.free(j), 0 <= i, i < F.n), L.fn(j).value.at(i) == F.d(j, i))))]
    return {(MP + "residual_jacobian", "for", 0): LoopSpec(inv, vars={"tempJac": lambda env: env.g.rows(0, env.g.offall(env.k))})}


def jacobian_case(v, scalar):
    F = Flat(v, scalar)
    v.p.state["ghost"] = F
    D = Data(v, F.n)
    nfree = v.int("nfree", 0)
    F.x = x = v.array("freepars", nfree)
    if scalar:
        F.r, y, e = v.real("r"), v.real("y"), v.real("err")
        v.assume(e != 0)
        F.rng = None
    else:
        F.r, y, e = D.r, D.y, D.e
        F.rng, _ = sel_range(v, F.n)
    if bool(nfree == 0):
        v.refuses("a Jacobian without free parameters", ValueError, F.ps.residual_jacobian, x, F.r, y, e, F.rng)
        v.prove("nothing is evaluated", F.packed is None)
        return
    # the free parameters in order: the increasing enumeration of the free positions
    s = arr.selection(Arr((F.offall(F.M),), lambda q: F.free(q), "b"))
    v.assume(num(s.n) == nfree)  # as many as were given
    out = arr.asarr(v.must("Jacobian", F.ps.residual_jacobian, x, F.r, y, e, F.rng))
    q = v.int("flat position of a free parameter", 0, F.offall(F.M))
    v.assume(F.free(q))
    j = s.rank(q)
    v.prove("it is one of the free ones, and they are ordered", And(0 <= j, j < nfree, s.sel(j) == q))
    if scalar:
        v.prove("one entry per free parameter", And(out.ndim == 1, num(out.shape_[0]) == nfree))
        v.prove("minus the derivative over the uncertainty", out.at(j) * e == -F.d(q, 0))
        return
    lo, hi = bounds(F.rng, F.n)
    k = sym.ite(hi > lo, hi - lo, 0)
    v.prove("one row per free parameter and one column per point of the range", And(out.ndim == 2, num(out.shape_[0]) == nfree, num(out.shape_[1]) == k))
    i = v.int("i", 0)
    v.assume(i < k)
    v.prove("minus the model derivative over the uncertainty, in the order of flattening", out.at(j, i) * e.at(lo + i) == -F.d(q, lo + i))
    v.prove("the data are not changed", D.same() and x.store.ver == 0)


@contract("C06", "ModelParts.residual_jacobian on a grid", functions=[MP + "residual_jacobian"], loops=jac_loop)
def jacobian_grid(v):
    jacobian_case(v, False)


@contract("C06", "ModelParts.residual_jacobian of a scalar", functions=[MP + "residual_jacobian"], loops=jac_loop)
def jacobian_scalar(v):
    jacobian_case(v, True)


# --- fit ----------------------------------------------------------------------------
class FitPart(Stub):
    """Part k; its owner's internal conversion restores the preferred range (C08)."""

    def __init__(self, F, k):
        self.__dict__.update(F=F, k=num(k))

    @property
    def pars(self):
        cur = self.F.cur
        return Arr((self.F.np_(self.k),), lambda i: cur(self.k, i))

    @pars.setter
    def pars(self, a):
        F, k = self.F, self.k
        a = arr.asarr(a).snapshot()
        F.v.prove("a part keeps its number of parameters", And(a.ndim == 1, num(a.shape_[0]) == F.np_(k)))
        cur = F.cur
        F.cur = lambda j, i: sym.ite(num(j) == k, a.at(i), cur(j, i))

    def __setattr__(self, n, val):
        if n != "pars":
            raise core.Unsupported("the code sets %r of a part" % n)
        object.__setattr__(self, n, val)

    def owner(self):
        return FitOwner(self.F, self.k)


class FitOwner(Stub):
    def __init__(self, F, k):
        self.F, self.k = F, k

    def transform_parameters(self, pars, in_format, out_format):
        F, k = self.F, self.k
        a = arr.asarr(pars)
        F.v.prove("only the preferred range is restored", (in_format, out_format) == ("internal", "internal"))
        F.v.prove("a part's own parameters are restored", forall(1, lambda i: Implies(And(0 <= i, i < F.np_(k)), a.at(i) == F.fitted(k, i))))
        return Arr((F.np_(k),), lambda i: F.restored(k, i))


class FitWorld:
    def __init__(self, v, n):
        from diffpy.srmise.modelparts import ModelParts
        self.v = v
        self.D = Data(v, n)
        M, p = v.int("M", 0), v.p
        self.M = M
        np_, P, S, T = z3.Function(p.name("npars"), sym.I, sym.I), *[z3.Function(p.name(x), sym.I, sym.I, sym.R) for x in ("P", "fitted", "restored")]
        f2 = lambda f: lambda j, i: SNum(f(t(num(j)), t(num(i))))
        self.np_ = lambda k: SNum(np_(t(num(k))))
        v.assume(forall(1, lambda k: Implies(And(0 <= k, k < M), self.np_(k) >= 0), patterns=lambda k: [self.np_(k)]))
        self.cur = self.original = f2(P)
        self.fitted, self.restored = f2(S), f2(T)
        self.nfree = v.int("nfree", 0)
        self.x0 = v.array("start", self.nfree)
        self.sol = v.array("solution", self.nfree)
        self.log = []
        self.ps = seq.family(ModelParts, M, lambda k: FitPart(self, k))
        d = self.ps.__dict__
        d["unpack_freepars"] = lambda: self.x0.copy()
        d["pack_freepars"] = self.pack
        d["residual"] = lambda *a, **k: self.note("residual", a, k)
        d["residual_jacobian"] = lambda *a, **k: self.note("jacobian", a, k)

    def note(self, what, a, k):
        x, r, y, e, rng = (list(a) + [k.get(n) for n in ("freepars", "r", "y_expected", "y_error", "range")[len(a):]])
        self.seen = (what, x, r, y, e, rng)
        return self.seen

    def pack(self, x):
        x = arr.asarr(x)
        self.v.prove("the parameters become the optimiser's solution", And(num(x.shape_[0]) == self.nfree, forall(1, lambda i: Implies(And(0 <= i, i < self.nfree), x.at(i) == self.sol.at(i)))))
        self.log.append("packed")
        self.cur = self.fitted

    def leastsq(self, func, x0, args=(), Dfun=None, full_output=False, col_deriv=False, **kw):
        v, D = self.v, self.D
        v.prove("the optimiser is asked for everything it knows", bool(full_output))
        x0 = arr.asarr(x0)
        v.prove("it starts from the present free parameters", And(num(x0.shape_[0]) == self.nfree, forall(1, lambda i: Implies(And(0 <= i, i < self.nfree), x0.at(i) == self.x0.at(i)))))
        v.prove("nothing is changed before the optimiser runs", self.cur is self.original)
        probe = v.array("probe", self.nfree)

        def right(s, what):
            return And(s[0] == what, s[1] is probe, s[2] is D.r, s[3] is D.y, s[4] is D.e, same_range(s[5], self.rng, D.n))
        v.prove("the residual of exactly these data over the range is minimised", right(func(probe, *args), "residual"))
        if Dfun is not None:
            v.prove("with its own Jacobian, one row per parameter", And(right(Dfun(probe, *args), "jacobian"), bool(col_deriv)))
        self.log.append("optimised" if Dfun is not None else "optimised without derivatives")
        n = len(self.log)
        if Dfun is not None and bool(v.bool("no derivatives")):
            raise NotImplementedError("no derivatives")
        if bool(v.bool("the optimiser fails")):
            raise RuntimeError("optimiser")
        self.failed = False
        self.ier = v.int("ier")
        D.fvec = v.array("fvec", v.int("points", 0))
        v.assume(num(D.fvec.shape_[0]) > self.nfree)
        self.pcov = None if bool(v.bool("singular")) else v.array("curvature", (self.nfree, self.nfree))
        return self.sol, self.pcov, {"fvec": D.fvec, "nfev": 3}, "message", self.ier

    def all_are(self, f):
        return forall(2, lambda j, i: Implies(And(0 <= j, j < self.M, 0 <= i, i < self.np_(j)), self.cur(j, i) == f(j, i)))


class Cov(Stub):
    def __init__(self, F):
        self.F, self.got = F, []

    def clear(self):
        self.got.append(("clear",))

    def setcovariance(self, model, m):
        F = self.F
        m = arr.asarr(m)
        F.v.prove("the covariance is for this model", model is F.ps)
        i, j = F.v.int("i", 0, F.nfree), F.v.int("j", 0, F.nfree)
        fv = F.D.fvec
        with sym.spec_mode():
            ss = arr.register_sum(fv.shape_[0], lambda q: fv.at(q) * fv.at(q))
        F.v.prove("one entry per pair of free parameters", And(m.ndim == 2, num(m.shape_[0]) == F.nfree, num(m.shape_[1]) == F.nfree))
        F.v.prove("curvature times residual variance", m.at(i, j) * (num(fv.shape_[0]) - F.nfree) == F.pcov.at(i, j) * ss)
        self.got.append(("set",))

    def transform(self, in_format="internal", out_format="internal"):
        from diffpy.srmise.srmiseerrors import SrMiseUndefinedCovarianceError
        self.got.append(("transform", in_format, out_format))
        self.F.v.prove("converted at the restored parameters", self.F.all_are(self.F.restored))
        if self.got[0] == ("clear",):
            raise SrMiseUndefinedCovarianceError("undefined")


def fit_loop():
    def havoc(env):
        f = z3.Function(core.path().name("cur"), sym.I, sym.I, sym.R)
        env.g.cur = lambda j, i: SNum(f(t(num(j)), t(num(i))))

    def inv(env):
        F, k = env.g, env.k
        return [("parts so far are restored, the others as fitted", F.all_are(lambda j, i: sym.ite(num(j) < k, F.restored(j, i), F.fitted(j, i))))]
    sp = lambda: LoopSpec(inv, havoc=havoc)
    return {(MP + "fit", "for", i): sp() for i in range(3)}  # (plotting loops are not reached)


@contract("C06", "ModelParts.fit", functions=[MP + "fit"], loops=fit_loop)
def fit_contract(v):
    from diffpy.srmise import modelparts
    from diffpy.srmise.srmiseerrors import SrMiseFitError
    v.expect_covers("too few points", "nothing to fit", "optimiser fails", "fit does not converge", "fitted", "covariance", "singular")
    n = v.int("n", 0)
    F = FitWorld(v, n)
    v.p.state["ghost"] = F
    D = F.D
    F.rng, _ = sel_range(v, n)
    F.failed, F.pcov, F.ier = None, None, None
    v.patch(modelparts, "leastsq", F.leastsq)
    cov = Cov(F) if bool(v.bool("covariance wanted")) else None
    few, none = F.nfree >= n, F.nfree == 0
    out = v.call(F.ps.fit, D.r, D.y, D.e, F.rng, 7, cov, "some format")
    v.prove("the data are not changed", D.same())
    if bool(few):
        v.cover("too few points")
        v.prove("at least as many free parameters as points: refused", isinstance(out.exc, SrMiseFitError))
        v.prove("and nothing is done", And(not F.log, F.cur is F.original, cov is None or not cov.got))
        return
    if bool(none):
        v.cover("nothing to fit")
        v.prove("no free parameters: not an error", out.ok)
        v.prove("and the model is untouched", And(not F.log, F.cur is F.original))
        return
    if F.failed is None:
        v.cover("optimiser fails")
        v.prove("the optimiser was tried", len(F.log) >= 1)
        v.prove("a failing optimiser is reported as a fit error", isinstance(out.exc, SrMiseFitError))
        return
    good = And(F.ier >= 1, F.ier <= 4)
    if not bool(good):
        v.cover("fit does not converge")
        v.prove("an unsuccessful fit is reported as a fit error", isinstance(out.exc, SrMiseFitError))
        return
    v.prove("a successful fit is no error", out.ok)
    v.cover("fitted")
    v.prove("derivatives are used unless they do not exist", F.log in (["optimised", "packed"], ["optimised", "optimised without derivatives", "packed"]))
    v.prove("the model has the optimiser's solution, in its preferred range", F.all_are(F.restored))
    if cov is not None:
        v.cover("singular" if F.pcov is None else "covariance")
        v.prove("the covariance is stored (or cleared when there is none) and converted", cov.got == [("clear",) if F.pcov is None else ("set",), ("transform", "internal", "some format")])
