import math

from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.modelevaluators.base import ModelEvaluator

RULE = "random statistics (with ties, large spreads and negative values); all operator pairs, refusals, weights and probabilities against their definitions; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        n = rng.choice([1, 2, 3, 5, 9])
        s = rng.choice([1, 10, 1000])
        st = [rng.choice([rng.uniform(-s, s), float(rng.randrange(-3, 4))]) for _ in range(n)]
        if rng.random() < 0.3:
            x = rng.choice(st)
            st.append(x + rng.choice([-1, 1]) * abs(x) * rng.choice([1e-15, 3e-14, 1e-12, 1e-9, 1e-6]))
        yield {"kind": rng.choice(["AIC", "AICc", "up", "down"]), "stats": st}


def check(c):
    mk = {"AIC": AIC, "AICc": AICc, "up": lambda: ModelEvaluator("M", True), "down": lambda: ModelEvaluator("M", False)}[c["kind"]]
    es = []
    for s in c["stats"]:
        e = mk()
        e.stat = s
        es.append(e)
    sg = 1 if c["kind"] == "up" else -1
    for a in es:
        for b in es:
            x, y = sg * a.stat, sg * b.stat
            if ((a < b), (a <= b), (a == b), (a != b), (a > b), (a >= b)) != (x < y, x <= y, x == y, x != y, x > y, x >= y):
                return "comparison of statistics %r and %r" % (a.stat, b.stat)
    other = AICc() if c["kind"] == "AIC" else AIC()
    other.stat = 1.0
    blank = mk()
    for x, y in ((es[0], other), (es[0], blank), (blank, es[0]), (blank, mk())):
        for op in ("lt", "le", "eq", "ne", "gt", "ge"):
            try:
                getattr(x, "__%s__" % op)(y)
                return "comparison %s of different or unevaluated criteria accepted" % op
            except AssertionError:
                pass
    if c["kind"] in ("AIC", "AICc"):
        w, p = list(mk.akaikeweights(es)), list(mk.akaikeprobs(es))
        best = min(c["stats"])
        want = [math.exp(-(s - best) / 2) for s in c["stats"]]
        if any(abs(a - b) > 1e-12 for a, b in zip(w, want)) or len(w) != len(want):
            return "weights %r, want %r" % (w, want)
        if abs(sum(p) - 1) > 1e-9 or any(abs(a - b / sum(want)) > 1e-12 for a, b in zip(p, want)) or len(p) != len(want):
            return "probabilities %r" % (p,)
    if [e.stat for e in es] != c["stats"]:
        return "statistics changed"
