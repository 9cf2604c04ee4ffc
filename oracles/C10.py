from .mputil import *
from diffpy.srmise.peaks.terminationripples import TerminationRipples

RULE = "random peak lists (equal positions, fixed parameters, peaks at the matching coordinate) sorted and matched to random heights; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        ps = rmodel(rng, ("g", "gr"), (1, 2, 2, 3, 5))
        for d in ps:
            d["pars"][2] = abs(d["pars"][2])
            if rng.random() < 0.5:
                d["free"] = [True] * 3
        if rng.random() < 0.4:
            for d in ps:
                d["f"] = ["g", 3.0]
                d["free"] = rng.choice([[True] * 3, [True] * 3, [False, True, True], [True, False, True], [False] * 3])
        yield {"parts": ps, "x": rng.choice([rng.uniform(0.2, 9), ps[0]["pars"][0], ps[0]["pars"][0] + rng.uniform(-1, 1)]),
               "y": rng.choice([1, 1, 1, -1]) * rng.uniform(0.01, 5), "rel": rng.random() < 0.7, "key": rng.choice(["position", "width", "area", 0, 1]),
               "bad": rng.randrange(len(ps)) if rng.random() < 0.15 else None}


class Failing(Peak):
    """A peak whose scaling fails with an error nobody expects."""

    def scale_at(self, x, scale):
        raise RuntimeError("unexpected")


def check(c):
    owners = {}
    ps = [part(d, owners=owners) for d in c["parts"]]
    if c.get("bad") is not None:
        p = ps[c["bad"]]
        ps[c["bad"]] = Failing(p.owner(), p.pars, p.free)
    pk = Peaks(ps)
    o = list(pk.argsort(c["key"]))
    keys = [float(p[c["key"]]) for p in ps]
    if sorted(o) != list(range(len(ps))) or any(keys[a] > keys[b] for a, b in zip(o, o[1:])):
        return "argsort of %r: %r" % (keys, o)
    if list(pk) != ps or any(a is not b for a, b in zip(pk, ps)):
        return "argsort changed the list"
    pk.sort(key=c["key"])
    got = [float(p[c["key"]]) for p in pk]
    if any(a > b for a, b in zip(got, got[1:])) or sorted(map(id, pk)) != sorted(map(id, ps)):
        return "sort of %r: %r" % (keys, got)
    pk.sort()
    if any(a["position"] > b["position"] for a, b in zip(pk, pk[1:])) or sorted(map(id, pk)) != sorted(map(id, ps)):
        return "sort by position"
    before = list(pk)
    pars = [p.pars.copy() for p in pk]
    frees = [p.free.copy() for p in pk]
    x = c["x"]
    h = float(pk.value(x))
    y = h * abs(c["y"]) if c["rel"] and c["y"] > 0 else c["y"]
    # which peaks can be scaled by the common factor (on copies)
    each = None
    if c.get("bad") is not None and pk.match_at(x, y):
        return "a peak that cannot be scaled is ignored" if len(pk) == 1 else None
    if h != 0 and c.get("bad") is None:
        cp = Peaks([p.copy() for p in pk])
        each = [bool(p.scale_at(x, y / h)) for p in cp]
    r = pk.match_at(x, y) if c.get("bad") is None else False
    if len(pk) != len(before) or any(a is not b for a, b in zip(pk, before)):
        return "matching replaced peaks of the list"
    for p, q, fr in zip(pk, pars, frees):
        if np.any((p.pars != q) & ~fr) or not np.array_equal(p.free, fr):
            return "a fixed parameter changed from %r to %r" % (list(q), list(p.pars))
        if not np.all(np.isfinite(p.pars)):
            return "not a number"
    if not r:
        if any(not np.array_equal(p.pars, q) for p, q in zip(pk, pars)):
            return "nothing was reported scaled, but parameters changed"
    if each is not None and all(each):
        if not r or abs(float(pk.value(x)) - y) > 1e-6 * abs(y) + 1e-12:
            return "every peak scales, but the height at %r is %r instead of %r" % (x, float(pk.value(x)), y)
    if r and each is not None and not all(each) and any(each):
        fixed = sum(float(p.value(x)) for p, s in zip(pk, each) if not s)
        if fixed < y * (1 - 1e-9) and fixed < h * (1 - 1e-9):
            # the second attempt scales the others so that the total matches, or leaves them alone
            s2 = (y - fixed) / (h - fixed)
            cp = Peaks([p.copy() for p in before])
            for q, p0 in zip(cp, pars):
                q.pars = p0.copy()
            ok = [q.scale_at(x, s2) for q, s in zip(cp, each) if s]
            if all(ok) and abs(float(pk.value(x)) - y) > 1e-6 * abs(y) + 1e-12:
                return "the peaks that scale do not make up the height: %r instead of %r" % (float(pk.value(x)), y)
