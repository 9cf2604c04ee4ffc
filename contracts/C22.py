from .txt import *  # noqa: F401,F403
from .txt import BF, MPT, TEXT_ASSUMPTIONS, Fn, Functions, eqv, np_texts, seq_equal

ASSUMPTIONS = TEXT_ASSUMPTIONS + ["constructing the spline of a sequence baseline is scipy's; it is a function of the two sequences",
                                  "an Arbitrary baseline function is covered with no callables (callables have no text that can be read back)"]
KINDS = {"peak": ("diffpy.srmise.peaks.base", "Peak"), "baseline": ("diffpy.srmise.baselines.base", "Baseline")}


def get(mod, name):
    import importlib
    return getattr(importlib.import_module(mod), name)


def a_part(v, kind):
    cls = get(*KINDS[kind])
    np_texts(v, "diffpy.srmise.modelparts", KINDS[kind][0])
    fs = Functions(v)
    o = fs.member()
    n = o.npars
    pars, free = v.array("pars", n), v.array("free", n, "b")
    part = cls(o, pars, free, v.bool("removable"), v.bool("static"))
    return fs, o, part, cls


def witness(v, kind, fs, o, part):
    v.witness(lambda ev: {"what": "part", "kind": kind, "nf": max(1, min(4, ev(fs.n))), "at": max(0, min(3, ev(num(1)) - 1)), "pars": [0.1, -2.5, 1e-7], "free": [True, False, True],
                          "removable": bool(ev(part.removable)), "static": bool(ev(part.static_owner))})


def same_part(v, a, b, cls):
    v.prove("the same type", type(b) is cls)
    v.prove("the same owner", sym.SBool(sym.bt(a.owner().id == b.owner().id)))
    n = a.owner().npars
    for nm in ("pars", "free"):
        x, y = arr.asarr(getattr(a, nm)), arr.asarr(getattr(b, nm))
        v.prove("as many " + nm, num(x.shape_[0]) == y.shape_[0])
        i = v.int("i", 0)
        with core.under(sym.bt(i < n)):
            xi, yi = x.at(i), y.at(i)
        v.prove("the same " + nm, Implies(i < n, eqv(xi, yi)))
    v.prove("the same removable flag", eqv(a.removable, b.removable))
    v.prove("the same static flag", eqv(a.static_owner, b.static_owner))


def round_trip(v, kind):
    fs, o, part, cls = a_part(v, kind)
    witness(v, kind, fs, o, part)
    v.expect_covers("end")
    s = v.must("write", part.writestr, fs)
    v.prove("a text", isinstance(s, str))
    q = v.must("read back", cls.factory, s, fs)
    same_part(v, part, q, cls)
    v.prove("the parameters are not shared", arr.asarr(q.pars).store is not arr.asarr(part.pars).store)
    v.cover("end")


def bad_reference(v, kind):
    fs, o, part, cls = a_part(v, kind)
    witness(v, kind, fs, o, part)
    v.expect_covers("beyond", "negative")
    s = v.must("write", part.writestr, fs)
    m = v.int("shorter", 0)
    k = v.int("reference")
    if bool(k < 0):
        v.cover("negative")
    else:
        v.assume(k >= m)
        v.cover("beyond")
    g = Functions(v, m)
    lines = ["owner=" + sym.token_for(k) if ln.startswith("owner=") else ln for ln in s.splitlines()]
    v.prove("the owner is given by its position", lines != s.splitlines())
    r = v.call(cls.factory, "\n".join(lines) + "\n", g)
    v.prove("a reference outside the list is refused with a value error", type(r.exc) is ValueError)
    # writing against a list that does not have the owner
    r = v.call(part_of(v, cls, fs.stranger()).writestr, fs)
    v.prove("an owner outside the list is refused with a value error", type(r.exc) is ValueError)


def part_of(v, cls, o):
    return cls(o, v.array("p", o.npars), None, True, False)


def malformed(v, kind):
    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
    fs, o, part, cls = a_part(v, kind)
    witness(v, kind, fs, o, part)
    v.expect_covers("no value", "unreadable")
    s = v.must("write", part.writestr, fs)
    lines = s.splitlines()
    at = 0
    while at < len(lines) - 1 and bool(v.bool("later than %d" % at)):
        at += 1
    if bool(v.bool("no value")):
        lines.insert(at, "anything")
        v.cover("no value")
    else:
        key = lines[at].split("=")[0]
        exc = [ValueError, SyntaxError, NameError, KeyError, type("Other", (Exception,), {})]
        e = exc[0]
        for c in exc[1:]:
            if bool(v.bool("exception")):
                e = c
        lines[at] = key + "=#unreadable"
        g = vcrt_eval(e)
        v.patch(core_vc(), "eval_hook", g)
        v.cover("unreadable")
    r = v.call(cls.factory, "\n".join(lines), fs)
    v.prove("malformed text is refused with the data format error", type(r.exc) is SrMiseDataFormatError)


def core_vc():
    from ded import vcrt
    return vcrt.VC


def vcrt_eval(e):
    from ded import vcrt
    import sys

    def ev(s):
        if "#unreadable" in s:
            raise e("cannot be evaluated")
        return vcrt.text_eval(s, sys._getframe(2).f_globals)
    return ev


for _k, (_m, _c) in KINDS.items():
    _f = [MPT + "writestr", MPT + "__init__", "%s.%s.factory" % (_m, _c)]
    contract("C22", "%s: written and read back" % _k, functions=_f)(lambda v, k=_k: round_trip(v, k))
    contract("C22", "%s: references outside the list" % _k, functions=_f)(lambda v, k=_k: bad_reference(v, k))
    contract("C22", "%s: malformed text" % _k, functions=_f)(lambda v, k=_k: malformed(v, k))


# --- functions ---------------------------------------------------------------------------
def poly_loops():
    class Names(Stub):
        """The parameter names of a polynomial (C27): as many as the degree plus one."""
        def __init__(self, n):
            self.n = n

        def symlen(self):
            return self.n

        def __setitem__(self, k, i):
            pass  # an arbitrary further name
    P, A = "diffpy.srmise.baselines.polynomial.Polynomial.__init__", "diffpy.srmise.baselines.arbitrary.Arbitrary.__init__"
    sp = lambda: LoopSpec(lambda env: [], vars={"parameterdict": lambda env: Names(env.loop.n)})
    return {(P, "for", 0): sp(), (A, "for", 0): sp()}


def make_function(v, kind):
    """(function, list of functions, its base)."""
    fs = Functions(v)
    if kind in ("gaussian", "gaussianoverr"):
        from .fn import peak_function
        return peak_function(v, kind), fs, None
    if kind == "terminationripples":
        base = fs.member()
        q, e, s = v.real("qmax"), v.real("extension"), v.real("supersample")
        return get("diffpy.srmise.peaks.terminationripples", "TerminationRipples")(base, q, e, s), fs, base
    if kind == "nanospherical":
        return get("diffpy.srmise.baselines.nanospherical", "NanoSpherical")(), fs, None
    if kind in ("polynomial", "arbitrary"):
        B = get("diffpy.srmise.baselines.base", "BaselineFunction")

        def init(self, parameterdict, parformats, default_formats, metadict, base=None, Cache=None):
            # the definition is kept as given (C27 checks its validation)
            self.parameterdict, self.parformats, self.default_formats, self.metadict, self.base = parameterdict, parformats, default_formats, metadict, base
            self.npars = vcrt.VC.b_len(parameterdict)
        v.patch(B, "__init__", init)
        n = v.int("n", 0 if kind == "arbitrary" else None)
        if kind == "arbitrary":
            return get("diffpy.srmise.baselines.arbitrary", "Arbitrary")(n, None), fs, None
        return get("diffpy.srmise.baselines.polynomial", "Polynomial")(n), fs, None
    m = get("diffpy.srmise.baselines.fromsequence", "spi")
    v.patch(m, "InterpolatedUnivariateSpline", lambda x, y: ("spline", x, y))
    n = v.int("n", 1)
    x, y = v.array("x", n), v.array("y", n)
    np_texts(v, "diffpy.srmise.baselines.fromsequence")
    f = get("diffpy.srmise.baselines.fromsequence", "FromSequence")
    if bool(v.bool("by name")):
        return f(x=x, y=y), fs, None
    return f(x, y), fs, None


def function_case(v, kind):
    from diffpy.srmise.basefunction import BaseFunction
    np_texts(v, "diffpy.srmise.basefunction")
    f, fs, base = make_function(v, kind)
    v.witness(lambda ev: {"what": "function", "kind": kind, "args": {"gaussian": [0.7], "gaussianoverr": [0.7], "terminationripples": [20.0, 4.0, 5.0], "polynomial": [3], "arbitrary": [2]}.get(kind, []), "nf": 3, "at": 2})
    s = v.must("write", f.writestr, fs)
    v.prove("a text", isinstance(s, str))
    g = v.must("read back", BaseFunction.factory, s, fs)
    v.prove("the same type", type(g) is type(f))
    if base is None:
        v.prove("no base", f.base is None and g.base is None)
    else:
        v.prove("the same base", sym.SBool(sym.bt(g.base.id == base.id)))
    v.prove("the same attributes", set(vars(f)) == set(vars(g)))
    for k, x in vars(f).items():
        y = vars(g)[k]
        if isinstance(x, (SNum, SBool, int, float)):
            v.prove("the same " + k, eqv(x, y))
    v.prove("the same number of defining values", list(f.metadict) == list(g.metadict))
    for k, (x, _) in f.metadict.items():
        y = g.metadict[k][0]
        if isinstance(x, (Arr, seq.SymList)):
            seq_equal(v, k, x, y)
        else:
            v.prove("the same defining value " + k, eqv(x, y))
    if kind == "fromsequence":
        seq_equal(v, "the spline's coordinates", f.spline[1], g.spline[1])
        seq_equal(v, "the spline's values", f.spline[2], g.spline[2])
    # the text of the restored one is the same again: nothing is lost on the way
    r = v.call(g.writestr, fs)
    v.prove("the restored function can be written", r.ok)


FILES = {"gaussian": "peaks.gaussian.Gaussian", "gaussianoverr": "peaks.gaussianoverr.GaussianOverR", "terminationripples": "peaks.terminationripples.TerminationRipples",
         "nanospherical": "baselines.nanospherical.NanoSpherical", "polynomial": "baselines.polynomial.Polynomial", "arbitrary": "baselines.arbitrary.Arbitrary", "fromsequence": "baselines.fromsequence.FromSequence"}
for _k, _q in FILES.items():
    contract("C22", "%s: written and read back" % _k, loops=poly_loops,
             functions=[BF + "writestr", BF + "factory", "diffpy.srmise.%s.__init__" % _q, "diffpy.srmise.%s.getmodule" % _q] + (["diffpy.srmise.%s.xyrepr" % _q] if _k == "fromsequence" else []))(lambda v, k=_k: function_case(v, k))


@contract("C22", "functions: references outside the list", functions=[BF + "writestr", BF + "factory"])
def bad_base(v):
    from diffpy.srmise.basefunction import BaseFunction
    np_texts(v, "diffpy.srmise.basefunction")
    f, fs, base = make_function(v, "terminationripples")
    v.witness(lambda ev: {"what": "badbase"})
    v.expect_covers("beyond", "negative")
    s = v.must("write", f.writestr, fs)
    m, k = v.int("shorter", 0), v.int("reference")
    if bool(k < 0):
        v.cover("negative")
    else:
        v.assume(k >= m)
        v.cover("beyond")
    lines = ["base=" + sym.token_for(k) if ln.startswith("base=") else ln for ln in s.splitlines()]
    v.prove("the base is given by its position", lines != s.splitlines())
    r = v.call(BaseFunction.factory, "\n".join(lines) + "\n", Functions(v, m))
    v.prove("a reference outside the list is refused with a value error", type(r.exc) is ValueError)
    f.base = fs.stranger()
    r = v.call(f.writestr, fs)
    v.prove("a base outside the list is refused with a value error", type(r.exc) is ValueError)


@contract("C22", "functions: malformed text", functions=[BF + "factory"])
def bad_value(v):
    from diffpy.srmise.basefunction import BaseFunction
    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
    f, fs, base = make_function(v, "terminationripples")
    v.witness(lambda ev: {"what": "badvalue"})
    lines = v.must("write", f.writestr, fs).splitlines()
    at = 0
    while at < len(lines) - 1 and bool(v.bool("later than %d" % at)):
        at += 1
    exc = [ValueError, SyntaxError, NameError, KeyError, type("Other", (Exception,), {})]
    e = exc[0]
    for c in exc[1:]:
        if bool(v.bool("exception")):
            e = c
    lines[at] = lines[at].split("=")[0] + "=#unreadable"
    v.patch(core_vc(), "eval_hook", vcrt_eval(e))
    r = v.call(BaseFunction.factory, "\n".join(lines), fs)
    v.prove("malformed text is refused with the data format error", type(r.exc) is SrMiseDataFormatError)


class File:
    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contract("C22", "fromsequence: read from a file", functions=["diffpy.srmise.baselines.fromsequence.FromSequence.readxy"], bounded="up to two comment lines and one to three data lines, any numbers")
def from_file(v):
    m = get("diffpy.srmise.baselines.fromsequence", "spi")
    v.patch(m, "InterpolatedUnivariateSpline", lambda x, y: ("spline", x, y))
    head = "" if not bool(v.bool("comment")) else "# a 1\n" if not bool(v.bool("two comments")) else "#\n#b\n"
    rows = 1 if not bool(v.bool("more")) else 2 if not bool(v.bool("three")) else 3
    xy = [(v.real("x"), v.real("y")) for _ in range(rows)]
    text = head + "".join("%s %s\n" % (sym.token_for(a), sym.token_for(b)) for a, b in xy)
    opened = []

    def op(name, mode="r", *a, **k):
        opened.append(name)
        return File(text.encode() if "b" in mode else text)
    v.patch(core_vc(), "open_hook", op)
    v.witness(lambda ev: {"what": "file", "head": head, "rows": [[12.5 + i, float(i * i)] for i in range(4)]})
    f = v.must("read", get("diffpy.srmise.baselines.fromsequence", "FromSequence"), "the file")
    v.prove("the named file", opened == ["the file"])
    x, y = (arr.asarr(f.metadict[k][0]) for k in "xy")
    v.prove("all rows", And(num(x.shape_[0]) == rows, num(y.shape_[0]) == rows))
    for i, (a, b) in enumerate(xy):
        v.prove("the numbers of the file", And(x.at(i) == a, y.at(i) == b))
