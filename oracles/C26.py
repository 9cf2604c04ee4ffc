from .mcutil import *
from diffpy.srmise.srmiseerrors import SrMiseStaticOwnerError

RULE = "parts of every built-in kind and of plain kinds with any number of parameters, flags and protections: copied and changed on either side, compared with near-equal parts, addressed by name and position (inside and outside), given other owners; models sliced with every kind of slice and copied; clusters with and without baseline and peak functions copied, then changed; non-trivial: distinct case"


class Owner:
    def __init__(self, n, names=None):
        self.npars, self.parameterdict = n, names or {}


def cases(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        what = rng.choice(["part"] * 3 + ["names", "owner", "model", "slice", "item", "cluster"])
        n = rng.choice([0, 1, 2, 3, 5])
        vals = lambda k: [rng.choice([0.0, 1.0, -1.0, 2.5]) for _ in range(k)]
        d = {"what": what, "pars": vals(n), "free": [rng.random() < 0.5 for _ in range(n)], "removable": rng.random() < 0.5, "static": rng.random() < 0.3, "kind": rng.randrange(3), "seed": rng.randrange(10 ** 6)}
        if what == "part" and rng.random() < 0.7:
            o = dict(same=rng.random() < 0.8, pars=list(d["pars"]), free=list(d["free"]), removable=d["removable"], static=rng.random() < 0.5)
            m = rng.randrange(6)
            if m == 0:
                o["removable"] = not o["removable"]
            if n and m == 1:
                o["pars"][rng.randrange(n)] += rng.choice([1.0, 1e-12, -3.0])
            if n and m == 2:
                i = rng.randrange(n)
                o["free"][i] = not o["free"][i]
            if m == 3:
                k = rng.choice([0, 1, 3])
                o.update(same=False, pars=vals(k), free=[True] * k)
            d["other"] = o
        if what == "names":
            if not n:
                continue
            d.update(at=rng.randint(-n - 2, n + 1), name=rng.randrange(n))
        if what == "owner":
            d.update(n=rng.choice([n, n, n + 1, 0]), same=rng.random() < 0.3)
        if what in ("model", "slice", "item"):
            d["n"] = rng.choice([0, 1, 2, 3, 6])
            b = lambda: rng.choice([None, rng.randint(-8, 8)])
            d.update(start=b(), stop=b(), step=rng.choice([None, 1, 2, -1, -2, 3]), tuple=rng.random() < 0.3, at=rng.randint(-8, 8))
        if what == "cluster":
            d.update(n=rng.choice([0, 1, 3]), baseline=rng.random() < 0.7, pf=rng.choice([None, 1, 2]))
        yield d


def bad(case, text, got=None):
    return "%s: %s %r" % (case["what"], text, str(got)[:300])


def look(p):
    return (type(p), id(p._owner), tuple(map(float, p.pars)), tuple(map(bool, p.free)), bool(p.removable), bool(p.static_owner))


def check(case):
    what, rng = case["what"], __import__("random").Random(case.get("seed", 1))
    cls = [ModelPart, Peak, Baseline][case.get("kind", 0)]
    if what in ("part", "names", "owner"):
        n = len(case["pars"])
        own = Owner(n)
        a = cls(own, case["pars"], case["free"], case["removable"], case["static"])
        was = (cls, id(own), tuple(map(float, case["pars"])), tuple(case["free"]), case["removable"], case["static"])
        if look(a) != was:
            return bad(case, "a part is not what it was made from", (look(a), was))
    if what == "part":
        c = a.copy()
        if c is a or look(c) != was or look(a) != was:
            return bad(case, "the copy differs", (look(c), was))
        if not (a == c) or (a != c):
            return bad(case, "a copy is not equal")
        x, y = (a, c) if rng.random() < 0.5 else (c, a)
        for i in range(n):
            if rng.random() < 0.5:
                x.pars[i] += 1
            if rng.random() < 0.5:
                x.setfree(i, not x.getfree(i))
        x.update(np.array([7.5] * n))
        x.removable = not x.removable
        try:
            x.changeowner(Owner(n))
        except SrMiseStaticOwnerError:
            pass
        if look(y) != was:
            return bad(case, "a change of one is visible in the other", (look(y), was))
        for o in (None, 1, "x", [], own):
            if (y == o) is not False or (y != o) is not True:
                return bad(case, "equal to something that is no part", o)
        o = case.get("other")
        if o:
            m = len(o["pars"])
            b = cls(own if o["same"] and m == n else Owner(m), o["pars"], o["free"], o["removable"], o["static"])
            want = b._owner is own and list(map(float, o["pars"])) == list(map(float, case["pars"])) and o["free"] == case["free"] and o["removable"] == case["removable"]
            for s, e in ((y == b, want), (b == y, want), (y != b, not want)):
                if bool(s) != e:
                    return bad(case, "equality", (look(y), look(b), s))
    if what == "names":
        own.parameterdict = {"named": case["name"]}
        k = case["name"]
        if float(a["named"]) != case["pars"][k] or bool(a.getfree("named")) != case["free"][k]:
            return bad(case, "by name", (a["named"], a.getfree("named")))
        for f in (lambda: a["unknown"], lambda: a.getfree("unknown"), lambda: a.setfree("unknown", True)):
            try:
                f()
            except Exception:
                continue
            return bad(case, "an unknown name is accepted")
        i = case["at"]
        flag = rng.random() < 0.5
        want = list(case["free"])
        if -n <= i < n:
            if float(a[i]) != case["pars"][i] or bool(a.getfree(i)) != case["free"][i]:
                return bad(case, "by position", (a[i], a.getfree(i)))
            a.setfree(i, flag)
            want[i] = flag
        else:
            for f in (lambda: a[i], lambda: a.getfree(i), lambda: a.setfree(i, flag)):
                try:
                    f()
                except IndexError:
                    continue
                return bad(case, "a position outside is accepted", i)
        a.setfree("named", not flag)
        want[k] = not flag
        if look(a)[2] != was[2] or list(look(a)[3]) != want:
            return bad(case, "the flags set", (look(a), want))
        if len(a) != n or a.npars() != n or a.owner() is not own:
            return bad(case, "length or owner")
    if what == "owner":
        o = own if case["same"] else Owner(case["n"])
        may = o.npars == n and (o is own or not case["static"])
        try:
            a.changeowner(o)
            done = True
        except SrMiseStaticOwnerError:
            done = False
        if done != may:
            return bad(case, "the owner was%s changed" % ("" if done else " not"))
        if look(a) != was[:1] + (id(o if done else own),) + was[2:]:
            return bad(case, "the owner or something else", look(a))
    if what in ("model", "slice", "item"):
        owners = [Owner(2), Owner(2)]
        C = [ModelParts, Peaks][rng.randrange(2)]
        base = [Peak(owners[i % 2], [float(i), 1.0]) for i in range(case["n"])]
        m = C(base)
        before = [look(p) for p in m]
        if what == "model":
            c = m.copy()
            if type(c) is not C or c is m or len(c) != len(m):
                return bad(case, "the copy is of another kind", type(c))
            for p, q in zip(m, c):
                if p is q or look(p) != look(q):
                    return bad(case, "a part of the copy", (look(p), look(q)))
            for q in c:
                q.pars[0] += 5
                q.setfree(0, False)
            c.append(Peak(owners[0], [9.0, 9.0]))
            if [look(p) for p in m] != before:
                return bad(case, "a change of the copy is visible")
        if what == "slice":
            s = m[(case["start"], case["stop"])] if case["tuple"] else m[slice(case["start"], case["stop"], case["step"])]
            want = base[slice(case["start"], case["stop"], None if case["tuple"] else case["step"])]
            if type(s) is not C or s is m or len(s) != len(want) or any(p is not q for p, q in zip(s, want)):
                return bad(case, "the slice", (type(s), len(s), len(want)))
            s.append(Peak(owners[0], [9.0, 9.0]))
        if what == "item":
            i = case["at"]
            try:
                p = m[i]
            except IndexError:
                p = None
            if p is not (base[i] if -len(base) <= i < len(base) else None):
                return bad(case, "the part", p)
        if len(m) != len(base) or any(p is not q for p, q in zip(m, base)):
            return bad(case, "the model changed")
    if what == "cluster":
        owners = {}
        r = np.linspace(1, 6, 12)
        y, e = np.array([rng.uniform(0, 4) for _ in r]), np.array([rng.uniform(0.5, 2) for _ in r])
        ps = rpeaks(rng, list(r), (case["n"],))
        b = rbase(rng) if case["baseline"] else None
        b = part(b, Baseline, owners) if b else None
        pf = None if case["pf"] is None else [func(["g", 0.7]), func(["gr", 0.7])][:case["pf"]]
        lo = rng.randrange(12)
        hi = rng.randint(lo + 1, 12)
        mc = ModelCluster(peaks_of(ps, owners), b, r, y, e, slice(lo, hi), rng.choice([AIC, AICc]), pf)
        before = full(mc)
        c = mc.copy()
        if type(c) is not type(mc) or c is mc or full(c) != before or full(mc) != before:
            return bad(case, "the copy differs", (full(c), before))
        if c.model is mc.model or any(p is q for p, q in zip(c.model, mc.model)) or (b is not None and c.baseline is mc.baseline) or (pf is not None and c.peak_funcs is mc.peak_funcs):
            return bad(case, "the copy shares parts")
        x, z = (c, mc) if rng.random() < 0.5 else (mc, c)
        x.addexternalpeaks(peaks_of(rpeaks(rng, list(r), (1, 2)), owners))
        for p in x.model:
            p.pars[0] += 0.25
            p.setfree(0, not p.getfree(0))
        if x.baseline is not None and len(x.baseline):
            x.baseline.pars[:] = 0
        if x.peak_funcs is not None:
            x.peak_funcs.append(func(["g", 0.3]))
        x.change_slice(slice(0, rng.randint(1, 12)))
        if len(x.model):
            x.deletepeak(0) if hasattr(x, "deletepeak") and x.model[0].removable else None
        if full(z) != before:
            return bad(case, "a change of one is visible in the other", (full(z), before))


def full(mc):
    return state(mc) + (None if mc.peak_funcs is None else [id(f) for f in mc.peak_funcs], list(mc.r_cluster), list(mc.y_cluster), list(mc.error_cluster), mc.size)


WITNESS = [
    dict(what="cluster", n=2, baseline=True, pf=None, seed=3),
    dict(what="cluster", n=0, baseline=True, pf=2, seed=4),
]
