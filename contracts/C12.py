from .ev import *  # noqa: F401,F403
from .ev import BASE, Fit, KINDS, evaluator, need, penalty


def evaluate_case(v, kind):
    fit = Fit(v)
    ev = evaluator(kind)()
    v.expect_covers("evaluated", "refused", "too few points")
    cached = bool(v.bool("chi-square known"))
    if cached:
        ev.chisq = known = v.real("known chi-square")
    cf, ks = bool(v.bool("count_fixed")), v.int("kshift")
    k = (fit.nall if cf else fit.nfree) + ks
    r = v.call(ev.evaluate, fit, count_fixed=cf, kshift=ks)
    from diffpy.srmise.srmiseerrors import SrMiseModelEvaluatorError
    if not r.ok:
        v.cover("refused")
        v.prove("only a negative number of parameters is refused", And(isinstance(r.exc, SrMiseModelEvaluatorError), k < 0))
        v.prove("nothing is recorded when refused", ev.stat is None)
        return
    v.cover("evaluated")
    v.prove("a negative number of parameters is refused", k >= 0)
    n = sym.ite(fit.size < need(kind, k), need(kind, k), fit.size)
    if bool(fit.size < need(kind, k)):
        v.cover("too few points")
    chi = known if cached else fit.chisq()
    if not cached:
        v.prove("chi-square is the sum of squared differences over squared uncertainties", num(ev.chisq) == chi)
    v.prove("the statistic is chi-square plus the criterion's penalty", num(r.value) == chi + penalty(kind, k, n))
    v.prove("the statistic is kept", num(ev.stat) == num(r.value))
    v.prove("chi-square is kept", num(ev.chisq) == chi)
    v.prove("the fit is not changed", fit.unchanged())


def growth_case(v, kind):
    fit = Fit(v)
    ev = evaluator(kind)()
    v.expect_covers("justified", "not justified")
    cached = bool(v.bool("chi-square known"))
    if cached:
        ev.chisq = known = v.real("known chi-square")
    kp = v.int("k_prime")
    k1 = fit.nfree + kp
    v.assume(k1 >= 0)
    g = v.must("growth", ev.growth_justified, fit, kp)
    chi = known if cached else fit.chisq()
    n1 = need(kind, k1)
    n = sym.ite(fit.size < need(kind, fit.nfree), need(kind, fit.nfree), fit.size)
    with sym.spec_mode():
        want = And(fit.size >= n1, penalty(kind, k1, n) - penalty(kind, fit.nfree, n) < chi)
    got = bool(g)
    v.cover("justified" if got else "not justified")
    v.prove("growth is justified exactly when there are enough points and the extra penalty is below chi-square", want if got else Not(want))
    v.prove("the fit is not changed", fit.unchanged())


def penalty_case(v, kind):
    ev = evaluator(kind)()
    k, n = v.int("k", 0), v.int("n")
    v.prove("points needed", num(v.must("minpoints", ev.minpoints, k)) == need(kind, k))
    v.assume(n >= need(kind, k))
    p = v.must("penalty", ev.parpenalty, k, n) if kind == "AICc" else v.must("penalty", ev.parpenalty, k)
    v.prove("penalty", num(p) == penalty(kind, k, n))


for _k, _q in KINDS.items():
    contract("C12", "%s.evaluate" % _k, functions=[_q + "evaluate", _q + "minpoints", _q + "parpenalty", BASE + "chi_squared"])(lambda v, k=_k: evaluate_case(v, k))
    contract("C12", "%s.growth_justified" % _k, functions=[_q + "growth_justified", _q + "minpoints", _q + "parpenalty", BASE + "chi_squared"])(lambda v, k=_k: growth_case(v, k))
    contract("C12", "%s penalty" % _k, functions=[_q + "parpenalty", _q + "minpoints"])(lambda v, k=_k: penalty_case(v, k))


@contract("C12", "chi_squared", functions=[BASE + "chi_squared"])
def chi(v):
    fit = Fit(v)
    ev = evaluator("AIC")()
    c = v.must("chi-square", ev.chi_squared, fit.fitted, fit.y_cluster, fit.error_cluster)
    v.prove("chi-square is the sum of squared differences over squared uncertainties", And(num(c) == fit.chisq(), num(ev.chisq) == num(c)))
    v.prove("chi-square is not negative", num(c) >= 0)
