from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.base import BaselineFunction
from diffpy.srmise.peaks.base import PeakFunction

RULE = "definitions of plain, peak and baseline functions with 0-5 parameters: repeated, shifted, missing and non-numeric indices, names that are no strings, missing defaults and undeclared formats; requests over forests of functions of any depth with shared bases and repetitions; non-trivial: distinct case"


def cases(rng, tier):
    for _ in range(4000 if tier == "quick" else 40000):
        if rng.random() < 0.6:
            n = rng.choice([0, 1, 2, 3, 5])
            values = list(range(n))
            rng.shuffle(values)
            m = rng.randrange(5)
            if n and m == 1:
                values[rng.randrange(n)] = rng.choice([-1, n, 0, 1, 7])
            odd = rng.randrange(n) if n and m == 2 else None
            strings = [True] * n
            if n and m == 3:
                strings[rng.randrange(n)] = False
            has = [rng.random() < 0.9, rng.random() < 0.9]
            declared = [rng.random() < 0.9 for _ in range(sum(has) + rng.choice([0, 0, 1]))]
            yield {"what": "define", "kind": rng.randrange(3), "position": n > 0 and rng.random() < 0.7, "strings": strings, "values": values, "odd": odd, "oddity": rng.randrange(5), "has": has, "declared": declared}
        else:
            n = rng.choice([1, 2, 4, 8])
            base = [[i, rng.randrange(i) if i and rng.random() < 0.7 else None] for i in range(n)]
            yield {"what": "order", "base": base, "ask": [rng.randrange(n) for _ in range(rng.choice([0, 1, 2, 5, 10]))]}


def check(case):
    if case["what"] == "define":
        n = len(case["values"])
        names = ["p%d" % k if s else k for k, s in enumerate(case["strings"])]
        position = None
        if case["position"]:
            for k, s in enumerate(case["strings"]):
                if s:
                    names[k], position = "position", k
                    break
        vals = list(case["values"])
        if case["odd"] is not None:
            vals[case["odd"]] = [None, "x", 0.5, (1,), 1j][case.get("oddity", 0)]
        pd = dict(zip(names, vals))
        formats = ["internal"] + ["f%d" % k for k, d in enumerate(case["declared"]) if d]
        keys = [k for k, h in zip(("default_input", "default_output"), case["has"]) if h]
        keys += ["other%d" % k for k in range(len(case["declared"]) - len(keys))]
        df = {k: "f%d" % i for i, k in enumerate(keys)}
        cls = [BaseFunction, PeakFunction, BaselineFunction][case["kind"]]
        try:
            used = sorted(vals) == list(range(n))
        except TypeError:
            used = False
        want = all(isinstance(k, str) for k in pd) and used and "default_input" in df and "default_output" in df and all(f in formats for f in df.values()) and (case["kind"] != 1 or "position" in pd)
        meta, b = {}, object()
        try:
            f = cls(pd, formats, df, meta, b)
        except ValueError:
            return None if not want else "refused: %r %r %r" % (pd, formats, df)
        except Exception as e:
            return "%s instead of a value error for %r %r %r" % (type(e).__name__, pd, formats, df)
        if not want:
            return "accepted: %r %r %r (%s)" % (pd, formats, df, cls.__name__)
        if f.parameterdict != pd or f.npars != n or f.parformats != formats or f.default_formats != df or f.base is not b or f.metadict is not meta:
            return "the definition is not kept"
        return None
    fs = {}
    bases = dict(map(tuple, case["base"]))

    def make(i):
        if i not in fs:
            b = bases.get(i)
            fs[i] = BaseFunction({}, ["internal"], {"default_input": "internal", "default_output": "internal"}, {}, None if b is None else make(b))
        return fs[i]
    ask = [make(i) for i in case["ask"]]
    out = BaseFunction.safefunctionlist(list(ask))
    want = set()
    for f in ask:
        while f is not None:
            want.add(id(f))
            f = f.base
    if len(out) != len(want) or {id(f) for f in out} != want:
        return "%d functions listed, %d needed" % (len(out), len(want))
    at = {id(f): k for k, f in enumerate(out)}
    for f in out:
        if f.base is not None and at[id(f.base)] > at[id(f)]:
            return "a base is listed after what is built on it"


WITNESS = [{"what": "define", "kind": 0, "position": False, "strings": [True, True], "values": [0, 1], "odd": 1, "oddity": 0, "has": [True, True], "declared": [True, True]}]
