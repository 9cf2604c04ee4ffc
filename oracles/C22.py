import os
import shutil
import tempfile

import numpy as np
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.base import Peak
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError

RULE = "random functions, peaks and baselines written against random function lists and read back, references and values tampered with, sequences read from files; non-trivial: distinct case"
ATTRS = ("maxwidth", "qmax", "extension", "supersample", "degree", "npars", "c1", "c2", "c3", "c4", "sigma2fwhm", "minx", "maxx")


def num(rng):
    return rng.choice([0.1, 1 / 3, -2.5, 1e-7, 1e22, 3, rng.uniform(-5, 5), rng.uniform(-1, 1) * 10 ** rng.randint(-12, 12)])


def cases(rng, tier):
    for _ in range(4000 if tier == "quick" else 40000):
        w = rng.choice(["part", "part", "function", "function", "badbase", "badvalue", "file"])
        c = {"what": w, "nf": rng.randint(1, 5)}
        c["at"] = rng.randrange(c["nf"])
        if w == "part":
            c.update(kind=rng.choice(["peak", "baseline"]), pars=[num(rng) for _ in range(rng.choice([0, 1, 3, 3, 4, 7]))], removable=rng.random() < 0.5, static=rng.random() < 0.5)
            c["free"] = [rng.random() < 0.5 for _ in c["pars"]]
        elif w == "function":
            k = c["kind"] = rng.choice(["gaussian", "gaussianoverr", "terminationripples", "polynomial", "nanospherical", "fromsequence", "arbitrary"])
            pos = lambda: abs(num(rng)) or 1.0
            c["args"] = {"gaussian": [pos()], "gaussianoverr": [pos()], "terminationripples": [pos(), pos(), pos()], "polynomial": [rng.randint(-2, 9)], "arbitrary": [rng.randint(0, 5)]}.get(k, [])
            if k == "fromsequence":
                x = sorted(set(num(rng) for _ in range(rng.randint(5, 9))))
                while len(x) < 4:
                    x.append(x[-1] + 1 + abs(x[-1]))
                c["args"] = [x, [num(rng) for _ in x]]
                c["arr"] = rng.random() < 0.6
        elif w == "file":
            c["head"] = "".join("#%s\n" % rng.choice(["", " comment", "12 3"]) for _ in range(rng.choice([0, 0, 1, 2])))
            x0 = rng.choice([0.5, 12.25, -3, 100])
            c["rows"] = [[x0 + 0.5 * i, rng.uniform(-5, 5)] for i in range(rng.randint(4, 8))]
        else:
            c["ref"] = rng.choice([-1, -2, 0, 1, 2, 7])
            c["bad"] = rng.choice(["", "nothing", "[1,", "1/0", "foo(3)"])
        yield c


def functions(c):
    base = [GaussianOverR(0.7), Polynomial(1), Gaussian(1.5), NanoSpherical(), TerminationRipples(Gaussian(0.3), 20.0)]
    return base[:c["nf"]]


def alike(f, g, base=None):
    if type(f) is not type(g):
        return "type %s became %s" % (type(f).__name__, type(g).__name__)
    if g.base is not f.base:
        return "another base"
    for a in ATTRS:
        if hasattr(f, a) and getattr(f, a) != getattr(g, a):
            return "%s: %r became %r" % (a, getattr(f, a), getattr(g, a))
    if f.parameterdict != g.parameterdict or f.parformats != g.parformats or f.default_formats != g.default_formats:
        return "another definition"
    if list(f.metadict) != list(g.metadict):
        return "other defining values"
    for k in f.metadict:
        if not np.array_equal(np.asarray(f.metadict[k][0], dtype=object), np.asarray(g.metadict[k][0], dtype=object)):
            return "%s: %r became %r" % (k, f.metadict[k][0], g.metadict[k][0])


def refused(f, exc):
    try:
        f()
    except Exception as e:
        return None if type(e) is exc else "%s instead of %s" % (type(e).__name__, exc.__name__)
    return "accepted instead of %s" % exc.__name__


def check(c):
    fs = functions(c)
    if c["what"] == "part":
        cls = {"peak": Peak, "baseline": Baseline}[c["kind"]]
        o = Arbitrary(len(c["pars"]), None)
        at = min(c["at"], len(fs))
        lst = fs[:at] + [o] + fs[at:]
        p = cls(o, c["pars"], c["free"], c["removable"], c["static"])
        s = p.writestr(lst)
        q = cls.factory(s, lst)
        if type(q) is not cls or q.owner() is not o or not np.array_equal(q.pars, p.pars) or not np.array_equal(q.free, p.free) or q.removable != c["removable"] or q.static_owner != c["static"]:
            return "restored part differs: %r became %r" % (s, q.writestr(lst))
        if q.pars.dtype != float or q.free.dtype != bool:
            return "other kinds of arrays"
        r = refused(lambda: cls.factory(s, lst[:at]), ValueError) or refused(lambda: cls.factory(s.replace("owner=%d" % at, "owner=-1"), lst), ValueError)
        if r:
            return "reference outside the list: " + r
        r = refused(lambda: p.writestr(fs), ValueError)
        if r:
            return "unknown owner: " + r
        for bad in (s + "nothing\n", "nothing\n" + s, s.replace("removable=", "removable=["), s.replace("pars=[", "pars=[what,")):
            r = refused(lambda: cls.factory(bad, lst), SrMiseDataFormatError)
            if r:
                return "malformed %r: %s" % (bad, r)
    elif c["what"] == "function":
        k, a = c["kind"], list(c["args"])
        if k == "fromsequence" and not a:
            a = [[1.0, 2.0, 3.5, 4.0], [0.1, 0.2, 0.3, 0.0]]
        if k == "fromsequence" and c.get("arr", True):
            a = [np.array(z, dtype=float) for z in a]
        at = c["at"] % len(fs)
        f = {"gaussian": Gaussian, "gaussianoverr": GaussianOverR, "polynomial": Polynomial, "nanospherical": NanoSpherical, "fromsequence": FromSequence,
             "arbitrary": lambda n: Arbitrary(n, None), "terminationripples": lambda q, e, s: TerminationRipples([GaussianOverR(0.7), Gaussian(1.5)][at % 2], q, e, s)}[k](*a)
        lst = list(fs)
        if f.base is not None:
            lst.insert(at, f.base)
        s = f.writestr(lst)
        r = alike(f, BaseFunction.factory(s, lst))
        if r:
            return "%s: %s" % (k, r)
        if f.base is not None:
            r = refused(lambda: f.writestr(fs), ValueError) or refused(lambda: BaseFunction.factory(s, lst[:at]), ValueError)
            if r:
                return "base outside the list: " + r
    elif c["what"] == "badbase":
        g = GaussianOverR(0.7)
        s = TerminationRipples(g, 20.0).writestr([g])
        ref = c.get("ref", 1)
        lst = [g] * c.get("nf", 1)
        if not 0 <= ref < len(lst):
            return refused(lambda: BaseFunction.factory(s.replace("base=0", "base=%d" % ref), lst), ValueError)
        if BaseFunction.factory(s.replace("base=0", "base=%d" % ref), lst).base is not lst[ref]:
            return "another base"
    elif c["what"] == "badvalue":
        s = Gaussian(0.7).writestr([])
        return refused(lambda: BaseFunction.factory(s.replace("maxwidth=0.7", "maxwidth=" + c.get("bad", "what")), []), SrMiseDataFormatError)
    else:
        d = tempfile.mkdtemp(prefix="c22.")
        try:
            fn = os.path.join(d, "a.dat")
            with open(fn, "w") as fh:
                fh.write(c["head"] + "".join("%r %r\n" % tuple(r) for r in c["rows"]))
            for f in (FromSequence(fn), FromSequence(file=fn)):
                for j, k in enumerate("xy"):
                    if not np.array_equal(f.metadict[k][0], [r[j] for r in c["rows"]]):
                        return "file: %s is %r, written %r" % (k, f.metadict[k][0], [r[j] for r in c["rows"]])
        finally:
            shutil.rmtree(d)
