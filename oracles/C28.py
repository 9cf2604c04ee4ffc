import logging
import os
import shutil
import tempfile

import numpy as np
from diffpy.srmise import srmiselog as L
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.srmiseerrors import SrMiseLogError

RULE = "level changes, live plotting requests, counter histories with emissions under filters, traces of real clusters written and read back; non-trivial: distinct case"
NAMES = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}
ODD = [0, 1, None, "True", "", 2.0, [], [True], True, False]
CONDS = ["True", "False", "self.counter == 2", "self.recursion >= 1", "len(args) == 1 or self.call > 1", "self.counter % 2 == 0", "self.call == 1", "len(args) > 1"]


def cases(rng, tier):
    for _ in range(4000 if tier == "quick" else 40000):
        w = rng.choice(["live", "level", "level", "levels", "counters", "counters", "emit", "trace", "make"])
        c = {"what": w}
        lv = lambda: rng.choice(list(NAMES) + [0, 1, 5, 10, 20, 25, 30, 50, 60])
        if w == "live":
            c.update(lp=rng.choice(ODD), w=rng.choice(ODD))
        elif w == "level":
            c.update(f=rng.choice(["setlevel", "setfilelevel"]), arg=lv(), file=rng.random() < 0.7, logger=rng.choice([0, 1, 10, 20, 30, 50]), root=rng.choice([10, 30]))
        elif w == "levels":
            c.update(ops=[(rng.choice(["setlevel", "setfilelevel"]), lv()) for _ in range(rng.randint(2, 6))], msgs=[rng.choice([1, 5, 10, 15, 20, 30, 40, 50]) for _ in range(3)])
        elif w == "counters":
            c.update(ops=[rng.choice(["pushc", "popc", "pushr", "popr", "emit", "emit", "pushc"]) for _ in range(rng.randint(3, 14))], filter=[rng.choice(CONDS) for _ in range(rng.choice([1, 1, 2, 3]))], store=rng.random() < 0.8)
        elif w == "emit":
            c.update(store=rng.random() < 0.6, write=rng.random() < 0.6, filter=[rng.choice(CONDS) for _ in range(rng.choice([1, 1, 2]))], n=rng.randint(1, 3), times=rng.randint(1, 5))
        elif w == "trace":
            c.update(counter=rng.randint(0, 12), recursion=rng.randint(0, 12), k=rng.randint(0, 4), npint=rng.random() < 0.5, peaks=rng.randint(0, 3), file=rng.random() < 0.5)
        else:
            c.update(k=rng.randint(1, 3))
        c["seed"] = rng.randrange(10 ** 6)
        yield c


def cluster(rs, npk, sl=None):
    r = np.linspace(1, 9, 30)
    pf, bf = GaussianOverR(0.7), Polynomial(1)
    ps = Peaks([pf.actualize([2 + rs.rand() * 6, 0.3, 1 + rs.rand()], in_format="pwa") for _ in range(npk)])
    bl = bf.actualize([0.1, 0.2])
    y = bl.value(r) + (ps.value(r) if npk else 0 * r)
    c = ModelCluster(ps, bl, r, y, np.ones(len(r)) * 0.5, None, AIC, [pf])
    c.slice = slice(3, 20, None) if sl is None else sl
    c.change_slice(c.slice)
    return c


class Fake:
    def __init__(self):
        self.r_data, self.slice, self.model = np.arange(4.0), slice(0, 4, None), []

    def copy(self):
        return Fake()

    def change_slice(self, s):
        pass

    def replacepeaks(self, *a):
        pass

    def writestr(self, **k):
        return "none"


def quiet(f, *a):
    try:
        return "ok", f(*a)
    except Exception as e:
        return "raised", e


def live(c):
    old = L.liveplots, L.wait
    try:
        L.liveplots, L.wait = False, True
        k, x = quiet(L.liveplotting, c["lp"], c["w"])
        good = isinstance(c["lp"], bool), isinstance(c["w"], bool)
        if all(good):
            if k != "ok" or L.liveplots is not c["lp"] or L.wait is not c["w"]:
                return "live plotting is not as asked"
        else:
            if k == "ok" or type(x) is not ValueError:
                return "live plotting accepts %r, %r" % (c["lp"], c["w"])
            if not isinstance(L.liveplots, bool) or not isinstance(L.wait, bool) or (not good[1] and L.wait is not True):
                return "a refused request changes the setting"
    finally:
        L.liveplots, L.wait = old
    return None


def with_logging(f):
    d = tempfile.mkdtemp()
    old = L.logger.level, L.ch.level, L.fh, logging.root.level, L.ch.stream, list(L.logger.handlers), logging.root.manager.disable
    logging.disable(logging.NOTSET)
    L.ch.stream = open(os.devnull, "w")
    try:
        return f(d)
    finally:
        L.ch.stream.close()
        if L.fh is not None and L.fh is not old[2]:
            L.fh.close()
        L.logger.setLevel(old[0])
        L.ch.setLevel(old[1])
        L.fh = old[2]
        logging.root.setLevel(old[3])
        L.ch.stream = old[4]
        L.logger.handlers[:] = old[5]
        logging.disable(old[6])
        shutil.rmtree(d)


def level(c):
    def go(d):
        L.fh = None
        if c["file"]:
            L.addfilelog(os.path.join(d, "log"))
        logging.root.setLevel(c.get("root", 30) or 30)
        L.logger.setLevel(c.get("logger", 20))
        before = max(1, L.logger.getEffectiveLevel()) if L.logger.level or logging.root.level else 0
        ch0 = L.ch.level
        k, x = quiet(getattr(L, c["f"]), c["arg"])
        if c["f"] == "setfilelevel" and not c["file"]:
            if k == "ok" or type(x) is not SrMiseLogError:
                return "setting a file level without a file log is not refused"
            return None
        if k != "ok":
            return "a level of %r is refused: %r" % (c["arg"], x)
        n = NAMES.get(c["arg"], c["arg"])
        h, o = (L.ch, L.fh) if c["f"] == "setlevel" else (L.fh, L.ch)
        if h.level != n:
            return "the handler does not have the level %r" % (c["arg"],)
        if (o is L.ch and o.level != ch0) or (o is not None and o is L.fh and o.level != 20):
            return "another handler's level changed"
        after = L.logger.getEffectiveLevel()
        if after > n and after > 1:
            return "the logger (%d) holds back what the handler (%d) asks for" % (after, n)
        if after > before:
            return "the logger became stricter"
        if before <= n and after != before and max(after, 1) != before:
            return "the logger changed without need"
        return None
    return with_logging(go)


def levels(c):
    def go(d):
        fn = os.path.join(d, "log")
        L.addfilelog(fn)
        want = {"setlevel": 20, "setfilelevel": 20}
        L.ch.setLevel(20)
        L.logger.setLevel(20)
        low = 20
        for f, a in c["ops"]:
            getattr(L, f)(a)
            want[f] = NAMES.get(a, a)
            low = min(low, want[f])
        n = 0
        for m in c["msgs"]:
            L.logger.log(m, "m%d" % n)
            n += 1
        L.fh.flush()
        got = open(fn).read().split()
        exp = ["m%d" % i for i, m in enumerate(c["msgs"]) if m >= want["setfilelevel"]]
        if got != exp:
            return "the file log holds %r, expected %r" % (got, exp)
        if L.ch.level != want["setlevel"]:
            return "the console's level is not the last one asked for"
        return None
    return with_logging(go)


def counters(c):
    T = L.TracePeaks(filter=c.get("filter", ["True"]), store=c.get("store", True))
    if (T.call, T.counter, T.recursion) != (0, 0, 0):
        return "a new tracer has counted something"
    call = counter = rec = stored = 0
    for op in c["ops"]:
        if op == "emit":
            class S:
                pass
            s = S()
            s.call, s.counter, s.recursion = call, counter, rec
            yes = all(eval(f, {"self": s, "args": (1,)}) for f in c.get("filter", ["True"]))
            T.emit(Fake())
            if yes:
                counter += 1
                stored += 1
        else:
            x = getattr(T, op)()
            if op == "pushc":
                if call == 0:
                    counter = rec = 0
                call += 1
            elif op == "popc":
                call -= 1
            elif op == "pushr":
                rec += 1
            else:
                rec -= 1
            if x != (call if op.endswith("c") else rec):
                return "%s does not return the new depth" % op
        if (T.call, T.counter, T.recursion) != (call, counter, rec):
            return "counters (call, counter, recursion) are %r, expected %r after %s" % ((T.call, T.counter, T.recursion), (call, counter, rec), op)
    if len(T.trace) != (stored if c.get("store", True) else 0):
        return "%d traces stored, expected %d" % (len(T.trace), stored)
    return None


def emit(c):
    d = tempfile.mkdtemp()
    try:
        base = os.path.join(d, "sub", "base") if c["write"] else None
        T = L.TracePeaks(filter=c["filter"], store=c["store"], filebase=base)
        T.pushc()
        n = 0
        for _ in range(c.get("times", 3)):
            class S:
                pass
            s = S()
            s.call, s.counter, s.recursion = T.call, T.counter, T.recursion
            if all(eval(f, {"self": s, "args": (1,) * c["n"]}) for f in c["filter"]):
                n += 1
            T.emit(*[Fake() for _ in range(c["n"])])
            if T.counter != n:
                return "%d traces counted, expected %d" % (T.counter, n)
        if len(T.trace) != (n if c["store"] else 0):
            return "%d traces stored, expected %d" % (len(T.trace), n if c["store"] else 0)
        if [t["counter"] for t in T.trace] != list(range(len(T.trace))):
            return "stored traces have other counters"
        fs = sorted(os.listdir(os.path.dirname(base))) if base else []
        if fs != sorted("base_%d" % i for i in range(n if c["write"] else 0)):
            return "files written: %r for %d traces" % (fs, n)
    finally:
        shutil.rmtree(d)
    return None


def trace(c):
    rs = np.random.RandomState(c.get("seed", 1))
    mc = cluster(rs, c.get("peaks", 2))
    t = np.int64 if c.get("npint") else int
    tr = {"mc": mc, "counter": t(c["counter"]), "recursion": t(c["recursion"]), "clusters": [slice(t(3 * i), t(3 * i + 2), None) for i in range(c["k"])]}
    T = L.TracePeaks()
    if c.get("file"):
        d = tempfile.mkdtemp()
        try:
            T.filebase = os.path.join(d, "b")
            T.write(tr)
            fn = os.path.join(d, "b_%d" % c["counter"])
            if not os.path.exists(fn):
                return "the trace is not in the file of its counter"
            k, q = quiet(T.read, fn)
        finally:
            shutil.rmtree(d)
    else:
        k, q = quiet(T.readstr, T.writestr(tr))
    if k != "ok":
        return "a written trace is not read back: %r" % (q,)
    for f in ("counter", "recursion"):
        if q[f] != c[f]:
            return "the %s is read back as %r, not %r" % (f, q[f], c[f])
    if [(s.start, s.stop, s.step) for s in q["clusters"]] != [(s.start, s.stop, s.step) for s in tr["clusters"]]:
        return "the clusters are read back as %r" % (q["clusters"],)
    if len(q["mc"].model) != len(mc.model):
        return "the model cluster has %d peaks instead of %d" % (len(q["mc"].model), len(mc.model))
    return None


def make(c):
    rs = np.random.RandomState(c.get("seed", 1))
    ms = [cluster(rs, 1 + i, slice(2 * i, 9 + 2 * i, None)) for i in range(c["k"])]
    T = L.TracePeaks()
    T.pushc()
    T.pushr()
    before = [(m.slice, len(m.model)) for m in ms]
    T.filter, T.store = ["True"], True
    T.emit(*ms)
    q = T.trace[0]
    if (q["counter"], q["recursion"]) != (0, 1):
        return "the trace has counters %r" % ((q["counter"], q["recursion"]),)
    if q["clusters"] != [b[0] for b in before] or [(m.slice, len(m.model)) for m in ms] != before:
        return "the trace does not hold the regions of its clusters"
    if len(q["mc"].model) != sum(b[1] for b in before):
        return "the trace's model has %d peaks" % len(q["mc"].model)
    if len(q["mc"].r_cluster) != len(ms[0].r_data):
        return "the trace's model does not cover the data"
    return None


def check(c):
    c = dict(c)
    return {"live": live, "level": level, "levels": levels, "counters": counters, "emit": emit, "trace": trace, "make": make}[c["what"]](c)
