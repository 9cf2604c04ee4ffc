from .txt import *  # noqa: F401,F403
from .txt import TEXT_ASSUMPTIONS

ASSUMPTIONS = TEXT_ASSUMPTIONS + ["logging: a handler or logger has the level it was last given; a logger with level 0 is as strict as the root logger",
                                  "saving and restoring the model cluster of a trace is C23's"]
SL = "diffpy.srmise.srmiselog."
TP = SL + "TracePeaks."


def mod():
    import logging
    logging.disable(logging.NOTSET)
    from diffpy.srmise import srmiselog
    return srmiselog


ODD = [0, 1, None, "True", "", 2.0, [], [True]]


@contract("C28", "live plotting", functions=[SL + "liveplotting"])
def live(v):
    m = mod()
    lp0, w0 = v.bool("shown before"), v.bool("waited before")
    v.patch(m, "liveplots", lp0)
    v.patch(m, "wait", w0)
    args, good = [], []
    for nm in ("lp", "w"):
        if bool(v.bool(nm + " boolean")):
            args.append(bool(v.bool(nm)))
            good.append(True)
        else:
            i = 0
            while i < len(ODD) - 1 and bool(v.bool("another value")):
                i += 1
            args.append(ODD[i])
            good.append(False)
    v.witness(lambda ev: {"what": "live", "lp": args[0], "w": args[1]})
    v.expect_covers("set", "refused")
    r = v.call(m.liveplotting, *args)
    if all(good):
        v.cover("set")
        v.prove("accepted", r.ok)
        v.prove("both are as asked", m.liveplots is args[0] and m.wait is args[1])
    else:
        v.cover("refused")
        v.prove("refused with a value error", type(r.exc) is ValueError)
        v.prove("no value that is not a boolean is taken over", (m.liveplots is lp0 or (good[0] and m.liveplots is args[0])) and (m.wait is w0 or (good[1] and m.wait is args[1])))


class Handler(Stub):
    def __init__(self, level):
        self.level = level
        self.n = 0

    def setLevel(self, level):
        self.level, self.n = level, self.n + 1


class Logger(Handler):
    def __init__(self, v):
        Handler.__init__(self, v.int("logger level", 0))
        self.root = v.int("root level", 0)
        self.first = self.level

    def getEffectiveLevel(self):
        return sym.ite(num(self.level) == 0, self.root, self.level)

    def isEnabledFor(self, level):
        return num(level) >= self.getEffectiveLevel()


class Levels(dict):
    """the table of level names: looking a number up in it finds nothing"""

    def get(self, key, default=None):
        return default if isinstance(key, sym.SNum) else dict.get(self, key, default)

    def __contains__(self, key):
        return False if isinstance(key, sym.SNum) else dict.__contains__(self, key)

    vc_contains = __contains__

    def __getitem__(self, key):
        if isinstance(key, sym.SNum):
            raise KeyError(key)
        return dict.__getitem__(self, key)


def level_case(v, f, handler):
    m = mod()
    v.patch(m, "LEVELS", Levels(m.LEVELS))
    lg, c, h = Logger(v), Handler(v.int("console level", 0)), Handler(v.int("file level", 0))
    v.patch(m, "logger", lg)
    v.patch(m, "ch", c)
    has = bool(v.bool("file log"))
    v.patch(m, "fh", h if has else None)
    if bool(v.bool("by name")):
        names = ["debug", "info", "warning", "error", "critical"]
        want = [10, 20, 30, 40, 50]
        i = 0
        while i < 4 and bool(v.bool("another name")):
            i += 1
        arg, n = names[i], want[i]
    else:
        arg = n = v.int("level", 0)
    v.witness(lambda ev: {"what": "level", "f": f, "arg": arg if isinstance(arg, str) else ev(arg), "file": has, "logger": ev(lg.first), "root": ev(lg.root)})
    target = c if handler == "ch" else h
    other = h if handler == "ch" else c
    before, kept = lg.getEffectiveLevel(), other.level
    r = v.call(getattr(m, f), arg)
    if handler == "fh" and not has:
        v.cover("no file log")
        from diffpy.srmise.srmiseerrors import SrMiseLogError
        v.prove("refused without a file log", type(r.exc) is SrMiseLogError)
        v.prove("nothing is changed", c.n + h.n + lg.n == 0)
        return
    v.cover("set")
    v.prove("accepted", r.ok)
    v.prove("the handler has the level", num(target.level) == n)
    v.prove("the other handler keeps its level", other.n == 0 or num(other.level) == kept)
    after = lg.getEffectiveLevel()
    v.prove("the logger lets through what the handler asks for", Or(after <= n, after <= 1))
    v.prove("the logger becomes no stricter", after <= sym.ite(before > 1, before, 1))
    v.prove("the logger changes only when it has to", Implies(before <= n, after == before))
    v.prove("the same handlers", m.ch is c and (m.fh is h if has else m.fh is None) and m.logger is lg)


@contract("C28", "console level", functions=[SL + "setlevel"])
def console(v):
    v.expect_covers("set")
    level_case(v, "setlevel", "ch")


@contract("C28", "file level", functions=[SL + "setfilelevel"])
def filelevel(v):
    v.expect_covers("set", "no file log")
    level_case(v, "setfilelevel", "fh")


def tracer(v, **k):
    m = mod()
    t_ = m.TracePeaks(**k)
    t_.call, t_.counter, t_.recursion = v.int("call", 0), v.int("counter", 0), v.int("recursion", 0)
    return t_


@contract("C28", "trace counters", functions=[TP + n for n in ("pushc", "popc", "pushr", "popr", "reset_trace", "__init__")])
def counters(v):
    T = mod().TracePeaks()
    v.prove("a new tracer has counted nothing", And(num(T.call) == 0, num(T.counter) == 0, num(T.recursion) == 0))
    T = tracer(v)
    c, n, r = T.call, T.counter, T.recursion
    v.witness(lambda ev: {"what": "counters", "ops": ["pushc"] * min(5, ev(c)) + ["pushr"] * min(5, ev(r)) + ["emit"] * min(3, ev(n)) + ["pushc", "popc", "pushr", "popr"]})
    v.expect_covers("outermost", "nested")
    a = v.must("push a call", T.pushc)
    v.prove("the new depth is returned", num(a) == T.call)
    if bool(c == 0):
        v.cover("outermost")
        v.prove("everything restarts with an outermost call", And(num(T.call) == 1, num(T.counter) == 0, num(T.recursion) == 0))
        n = r = 0
    else:
        v.cover("nested")
        v.prove("one deeper, nothing else changes", And(num(T.call) == c + 1, num(T.counter) == n, num(T.recursion) == r))
    d = T.call
    a = v.must("push a recursion", T.pushr)
    v.prove("one level more", And(num(T.recursion) == num(r) + 1, num(a) == T.recursion, num(T.call) == d, num(T.counter) == n))
    a = v.must("pop a recursion", T.popr)
    v.prove("the level before", And(num(T.recursion) == r, num(a) == T.recursion, num(T.call) == d, num(T.counter) == n))
    a = v.must("pop a call", T.popc)
    v.prove("the depth before", And(num(T.call) == c, num(a) == T.call, num(T.counter) == n, num(T.recursion) == r))
    T.call, T.counter, T.recursion = v.int("x"), v.int("y"), v.int("z")
    v.must("reset", T.reset_trace)
    v.prove("all counters restart", And(num(T.call) == 0, num(T.counter) == 0, num(T.recursion) == 0))


@contract("C28", "emission", functions=[TP + "emit", TP + "__init__"])
def emission(v):
    store = bool(v.bool("store"))
    write = bool(v.bool("write"))
    T = tracer(v, store=store)
    T.filebase = "base" if write else None
    c, n, r = T.call, T.counter, T.recursion
    old = list(T.trace)
    seen, written = [], []
    cl = [Stub(), Stub()]
    v.witness(lambda ev: {"what": "emit", "store": store, "write": write, "filter": ["True"], "n": 2})

    def make(*a, **k):
        seen.append((a, k))
        v.prove("the counter is not advanced before the trace is made", num(T.counter) == n)
        return {"trace": len(seen)}

    def wr(tr):
        written.append(tr)
        v.prove("the file is numbered with the trace's counter", num(T.counter) == n)
    T.maketrace, T.write = make, wr
    admit = v.bool("admitted")
    code = []

    def ev(s):
        code.append(s)
        return admit
    from ded import vcrt
    v.patch(vcrt.VC, "eval_hook", ev)
    v.expect_covers("admitted", "not admitted")
    v.must("emit", T.emit, *cl)
    v.prove("the filter decides", len(code) == 1 and code[0] is T.filter)
    same = And(num(T.call) == c, num(T.recursion) == r)
    if bool(admit):
        v.cover("admitted")
        v.prove("one trace of the given clusters", len(seen) == 1 and len(seen[0][0]) == 2 and all(x is y for x, y in zip(seen[0][0], cl)) and not seen[0][1])
        v.prove("stored exactly when asked for", len(T.trace) == (1 if store else 0) + len(old) and (not store or T.trace[-1] == {"trace": 1}))
        v.prove("written exactly when a file is named", len(written) == (1 if write else 0) and (not write or written[0] == {"trace": 1}))
        v.prove("counted", And(num(T.counter) == n + 1, same))
    else:
        v.cover("not admitted")
        v.prove("nothing happens", And(len(seen) + len(written) == 0, len(T.trace) == len(old), num(T.counter) == n, same))


@contract("C28", "filters", functions=[TP + "setfilter", TP + "getfilter", TP + "emit"], bounded="filters of one to three conditions on the counters, which are arbitrary")
def filters(v):
    conds = {"True": lambda T: True, "False": lambda T: False, "self.counter == 2": lambda T: num(T.counter) == 2, "self.recursion >= 1": lambda T: num(T.recursion) >= 1, "len(args) == 1 or self.call > 1": lambda T: num(T.call) > 1}
    names = list(conds)
    f = []
    for i in range(3):
        j = 0
        while j < len(names) - 1 and bool(v.bool("another condition")):
            j += 1
        f.append(names[j])
        if not bool(v.bool("one more")):
            break
    T = tracer(v, filter=f)
    T.maketrace = lambda *a, **k: {}
    n = T.counter
    want = And(*[conds[x](T) for x in f])
    v.witness(lambda ev: {"what": "emit", "store": True, "write": False, "filter": f, "n": 4})
    v.must("emit", T.emit, Stub(), Stub())
    v.prove("counted exactly when every condition holds", num(T.counter) == sym.ite(SBool(sym.bt(want)), n + 1, n))


class Cluster(Stub):
    """A model cluster known by its identity; written and restored as in C23."""

    def __init__(self, text):
        self.text = text

    def writestr(self, **k):
        return self.text


@contract("C28", "traces are read back", functions=[TP + n for n in ("writestr", "write", "readstr", "read")])
def read_back(v):
    import diffpy.srmise.modelcluster as mcm
    from ded import vcrt
    T = tracer(v)
    n = v.int("number of clusters", 0)
    lo, hi = v.array("start", n, "i"), v.array("stop", n, "i")
    one = bool(v.bool("a known number"))
    if one:
        k = 2
        pairs = [(v.int("a", 0), v.int("b", 0)) for _ in range(k)]
        clusters = [slice(a, b, None) for a, b in pairs]
    else:
        clusters = seq.SymList(n, lambda i: slice(lo.at(i), hi.at(i), None))
    body = "peak_funcs=[0]\n# PeakFunction 0\nclusters=none of this\ncounter=77\n### start data\n#L r y dy\n1 2 3\n"
    mc, back = Cluster(body), object()
    got = []

    def factory(s, **kw):
        got.append((s, kw))
        return back
    v.patch(mcm.ModelCluster, "factory", staticmethod(factory))
    tr = {"mc": mc, "clusters": clusters, "recursion": v.int("its recursion", 0), "counter": v.int("its counter", 0)}
    v.witness(lambda ev: {"what": "trace", "counter": 5, "recursion": 3, "k": 2})
    if bool(v.bool("through a file")):
        T.filebase = "base"
        files = {}

        class Out:
            def __init__(self, name):
                self.name, self.parts = name, []

            def write(self, s):
                self.parts.append(s)
                files[self.name] = "".join(self.parts)

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        class In(Out):
            def __init__(self, data):
                self.data = data

            def read(self):
                return self.data

        def op(name, mode="r", *a, **kw):
            if "w" in mode:
                return Out(name)
            return In(files[name].encode() if "b" in mode else files[name])
        v.patch(vcrt.VC, "open_hook", op)
        v.must("write", T.write, tr)
        v.prove("one file, named after the base", len(files) == 1 and list(files)[0].startswith("base_"))
        name = list(files)[0]
        tok = name[len("base_"):]
        v.prove("the file is numbered with the trace's counter", SBool(sym.bt(num(v.p.tokens[tok]) == tr["counter"])) if tok in v.p.tokens else False)
        q = v.must("read", T.read, name)
        v.cover("file")
    else:
        s = v.must("write", T.writestr, tr)
        q = v.must("read", T.readstr, s)
        v.cover("text")
    v.expect_covers("file", "text")
    v.prove("its own counter", num(q["counter"]) == tr["counter"])
    v.prove("its own recursion level", num(q["recursion"]) == tr["recursion"])
    v.prove("its model cluster", q["mc"] is back and len(got) == 1 and not got[0][1])
    v.prove("the model cluster's whole text", got[0][0].strip() == body.strip())
    cs = q["clusters"]
    if one:
        v.prove("as many clusters", len(cs) == len(clusters))
        for (a, b), c in zip(pairs, cs):
            v.prove("the same clusters", And(num(c.start) == a, num(c.stop) == b, c.step is None))
    else:
        cs = seq.as_symlist(cs)
        v.prove("as many clusters", num(cs.n) == n)
        i = v.int("i", 0)
        if v.p.feasible(sym.bt(i < n)):
            v.assume(i < n)
            c = cs.fn(i)
            v.prove("the same clusters", And(num(c.start) == lo.at(i), num(c.stop) == hi.at(i), c.step is None))


class Mc(Stub):
    """A cluster as far as traces need it."""

    def __init__(self, log, s, n=None, model=None):
        self.log, self.slice, self.r_data, self.model = log, s, n, model

    def copy(self):
        c = Mc(self.log, self.slice, self.r_data, self.model)
        self.log.append(("copy", self, c))
        return c

    def change_slice(self, s):
        self.log.append(("slice", self, self.slice, s))
        self.slice = s

    def replacepeaks(self, peaks, delslice=slice(0, 0)):
        self.log.append(("add", self, peaks, delslice))


@contract("C28", "a trace of clusters", functions=[TP + "maketrace"], bounded="one to three clusters")
def make(v):
    T = tracer(v)
    log = []
    k = 1 if bool(v.bool("one")) else 2 if bool(v.bool("two")) else 3
    n = v.int("n", 1)
    r = v.array("r", n)
    ms = [Mc(log, slice(v.int("a", 0), v.int("b", 0)), r, ["peaks %d" % i]) for i in range(k)]
    slices = [m.slice for m in ms]
    v.witness(lambda ev: {"what": "make", "k": k})
    tr = v.must("make", T.maketrace, *ms)
    v.prove("the state of the counters", And(num(tr["counter"]) == T.counter, num(tr["recursion"]) == T.recursion))
    v.prove("the regions of the clusters", len(tr["clusters"]) == k and all(a is b for a, b in zip(tr["clusters"], slices)))
    v.prove("a copy of the first cluster", [e[1:] for e in log if e[0] == "copy"] == [(ms[0], tr["mc"])] and all(m.slice is s for m, s in zip(ms, slices)))
    s = [e for e in log if e[0] == "slice"]
    v.prove("over all data, as if never cut", len(s) == 1 and s[0][1] is tr["mc"] and s[0][2] is None)
    lo, hi, st = v.p and __import__("ded.vcrt", fromlist=["VC"]).VC.indices(s[0][3], n)
    v.prove("over all data", And(num(lo) == 0, num(hi) == n))
    v.prove("with the peaks of all clusters", [e[1:] for e in log if e[0] == "add"] == [(tr["mc"], m.model, slice(0, 0)) for m in ms[1:]])
