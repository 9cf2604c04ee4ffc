"""PDF data sets: reading, writing, declared variables, copies."""
import re

from .C23 import FORMS, Columns, Lines, files, rounded, same_text
from .C10 import fun
from .C18 import pick
from .txt import *  # noqa: F401,F403
from .txt import TEXT_ASSUMPTIONS

MOD = "diffpy.srmise.pdfdataset."
DS = MOD + "PDFDataSet."
ASSUMPTIONS = TEXT_ASSUMPTIONS + ["a finite number printed with a limited precision format reads back as a function of the number and the format (six significant digits for %g, two decimals for %.2f), and its text has one of the forms that are tried here",
                                  "one value in each of four columns for each point, when a data set is written", "names of metadata are words and their values are finite numbers", "copy.deepcopy makes independent equal copies"]
STALE = ("robs", "Gobs", "drobs", "dGobs", "stype", "qmax", "qdamp", "qbroad", "spdiameter", "dscale", "rmin", "rmax", "filename", "metadata")
FRESH = dict(robs=[], Gobs=[], drobs=[], dGobs=[], stype="X", qmax=0.0, qdamp=0.001, qbroad=0.0, spdiameter=None, dscale=1.0, rmin=None, rmax=None, filename=None, metadata={})
COLS = ("robs", "Gobs", "drobs", "dGobs")
ODD = ["nan", "-Inf", "Infinity", "1e999"]


def new(name="a", stale=False):
    from diffpy.srmise.pdfdataset import PDFDataSet
    d = PDFDataSet(name)
    if stale:
        for k in STALE:
            setattr(d, k, "something before")
        d.metadata = {"before": 1.0}
    return d


class Table:
    """The points of a text: two values each, and uncertainties which may be missing, odd or not positive."""

    def __init__(self, v, n, cols, full):
        self.v, self.n, self.cols = v, n, cols
        self.lists = {}
        self.bad = None
        self.good, self.has = {}, {}
        for nm in COLS[2:]:
            self.good[nm] = fun("good so far " + nm, sym.I, z3.BoolSort())
            v.assume(self.good[nm](0))
        self.full = full
        self.wide, self.odd = {}, {}
        for nm in COLS[2:]:
            self.wide[nm] = (lambda i: SBool(z3.BoolVal(True))) if full else fun("written " + nm, sym.I, z3.BoolSort())
            self.odd[nm] = (lambda i: SBool(z3.BoolVal(False))) if full else fun("odd " + nm, sym.I, z3.BoolSort())

        def mk(nm):
            def make():
                self.lists[nm] = seq.SymList(0, lambda i: num(0.0))
                return self.lists[nm]
            return make
        new_ = {(DS + "clear", "self." + nm): mk(nm) for nm in COLS}
        new_[(DS + "writeStr", "lines")] = Lines
        v.patch(vcrt.VC, "newlists", new_)
        v.p.state["ghost"] = self

    def value(self, nm, i):
        return rounded(self.cols[nm].at(i)) if self.full else num(self.cols[nm].at(i))

    def fine(self, nm, i):
        """A valid uncertainty is written there."""
        w = self.wide[COLS[2]](i)
        if nm == COLS[3]:
            w = And(w, self.wide[nm](i))
        return And(w, Not(self.odd[nm](i)), self.value(nm, i) > 0)

    def step(self, k):
        for nm in COLS[2:]:
            self.v.assume(self.good[nm](num(k) + 1) == And(self.good[nm](k), self.fine(nm, k)))

    def row(self, i):
        """The line of a data set that is written."""
        return " ".join(vcrt.VC.mod("%g", self.cols[nm].at(i)) for nm in COLS)

    def line(self, i):
        """A line of any text of data."""
        if self.bad is not None and bool(num(i) == self.bad[0]):
            return self.bad[1](i)
        s = [sym.token_for(num(self.cols[nm].at(i))) for nm in COLS]
        out = s[:2]
        for j, nm in enumerate(COLS[2:]):
            if not bool(self.wide[nm](i)):
                return " ".join(out)
            if bool(self.odd[nm](i)):
                out.append(self.oddtext)
            else:
                out.append(s[2 + j])
        return "  ".join(out) + self.rest


def loops():
    def write_inv(env):
        L, G = env.lines, env.g
        if L.at is None:
            return [("nothing is written yet", num(env.k) == 0)]
        return [("one line for each point so far", num(L.n) + len(L.tail()) == env.k)] + [("the line of the point", same_text(s, G.row(num(L.n) + i))) for i, s in enumerate(L.tail())]

    def read_inv(env):
        G, k = env.g, num(env.k)
        out = [("the damaged line is still to come", k <= G.bad[0])] if G.bad is not None else []
        for nm in COLS:
            L = G.lists[nm]
            ok = SBool(z3.BoolVal(True)) if nm in COLS[:2] else G.good[nm](k)
            if core.path().valid(z3.Not(bt(ok))):
                continue
            out.append(("as many values as lines so far: " + nm, Implies(ok, num(L.n) == k)))
            out.append(("the values of the lines so far: " + nm, forall(1, lambda i: Implies(And(ok, 0 <= i, i < k), num(L.fn(i)) == G.value(nm, i)))))
        for nm, flag in (("drobs", env.has_drobs), ("dGobs", env.has_dGobs)):
            out.append(("valid so far: " + nm, SBool(bt(flag)) == G.good[nm](k)))
        return out

    def havoc(env):
        G, k = env.g, num(env.k)
        G.step(k)
        for nm in COLS:
            L = G.lists[nm]
            if nm in COLS[:2]:
                L.n, L.fn = k, (lambda nm: lambda i: G.value(nm, i))(nm)
            else:
                ok, m = G.good[nm](k), sym.fresh_int("few")
                core.path().assume(bt(m >= 0))
                L.n, L.fn = sym.ite(bt(ok), k, m), (lambda nm, F: lambda i: sym.ite(bt(ok), G.value(nm, i), SNum(F(t(num(i))))))(nm, z3.Function(core.path().name("left " + nm), sym.I, sym.R))
            L.parts = L.base = None
            L.ver += 1
    return {(DS + "writeStr", "for", 1): LoopSpec(write_inv, havoc=lambda env: env.lines.block(env.k, env.g.row), modifies=lambda env: [env.lines]),
            (DS + "readStr", "for", 0): LoopSpec(read_inv, vars={"has_drobs": "bool", "has_dGobs": "bool"}, havoc=havoc, modifies=lambda env: list(env.g.lists.values()))}


bt = sym.bt


def data_rules(v, G, d):
    n = G.n
    i = v.int("i", 0)
    v.assume(i < n)
    for nm in COLS:
        a = seq.as_symlist(getattr(d, nm))
        v.prove(nm + ": one value for each point", num(a.n) == n)
        x = num(a.fn(i))
        if nm in COLS[:2]:
            v.prove(nm + ": the value written", x == G.value(nm, i))
        elif bool(G.good[nm](n)):
            v.cover("valid")
            v.prove(nm + ": the value written, as all are valid", x == G.value(nm, i))
        else:
            v.cover("not valid")
            v.prove(nm + ": zero, as not all are valid", x == 0)
    v.prove("the range of the data", And(num(d.rmin) == G.value("robs", 0), num(d.rmax) == G.value("robs", n - 1)))


HEAD = "History written: Thu Jan  1 00:00:00 1970\nproduced by somebody\n##### PDFgui\nstype=N  neutron scattering\nqmax=25.50\nqdamp=0.05\nqbroad=1e-05\ndscale=2\n"
W = {"what": "read", "lines": [["1", "2", "3", "4"], ["2", "3"], ["3", "1", "-1", "nan"]]}


def any_table(v, full=False):
    n = v.int("n", 1)
    return Table(v, n, {nm: v.array(nm, n) for nm in COLS}, full)


@contract("C25", "reading: any number of points", functions=[DS + "readStr", DS + "clear"], loops=loops())
def reading(v):
    G = any_table(v)
    G.oddtext, G.rest, head = ODD[0], "", HEAD
    how = pick(v, "variant", ODD[1:] + ["more columns", "metadata", "no header", "plain"])
    if how in ODD:
        G.oddtext = how
    elif how == "more columns":
        G.rest = "  5"
    elif how != "plain":
        head = HEAD + "# metadata\nT=3\n" if how == "metadata" else ""
    v.witness(lambda ev: W)
    v.expect_covers("valid", "not valid")
    d = new(stale=True)
    tok = sym.token_for(vcrt.Joined("\n", seq.SymList(G.n, G.line)))
    r = v.must("read", d.readStr, head + "##### start data\n#L r(A) G(r) d_r d_Gr\n" + tok + "\n")
    v.prove("the data set itself is returned", r is d)
    data_rules(v, G, d)
    if head:
        v.prove("the header is read", (d.stype, d.qmax, d.qdamp, d.qbroad, d.dscale) == ("N", 25.5, 0.05, 1e-05, 2.0))
    else:
        v.prove("everything before is forgotten", all(getattr(d, k) == FRESH[k] for k in ("stype", "qmax", "qdamp", "qbroad", "dscale", "spdiameter")))
    v.prove("everything else before is forgotten", d.filename is None and d.spdiameter is None and d.metadata == ({"T": 3.0} if "metadata" in head else {}))


@contract("C25", "damaged data are refused", functions=[DS + "readStr", DS + "read"], loops=loops())
def damaged(v):
    from diffpy.srmise.pdfdataset import PDFDataFormatError
    from diffpy.srmise.srmiseerrors import SrMiseFileError
    G = any_table(v)
    G.oddtext, G.rest = ODD[0], ""
    b = v.int("damaged", 0)
    v.assume(b < G.n)
    how = "text" if bool(v.bool("text")) else "one value" if bool(v.bool("one")) else "nothing"
    one = lambda i: sym.token_for(num(G.cols["robs"].at(i)))
    G.bad = (b, {"text": lambda i: one(i) + " abc", "one value": one, "nothing": lambda i: ""}[how])
    v.expect_covers("from a file", "from a text")
    s = "##### start data\n" + sym.token_for(vcrt.Joined("\n", seq.SymList(G.n, G.line))) + "\n"
    v.witness(lambda ev: dict(W, how=how, line=1, what="bad"))
    d = new(stale=True)
    if bool(v.bool("from a file")):
        v.cover("from a file")
        files(v, {"f": s})
        r = v.call(d.read, "f")
        v.prove("refused as a bad file", type(r.exc) is SrMiseFileError)
    else:
        v.cover("from a text")
        r = v.call(d.readStr, s)
        v.prove("refused as badly formatted", type(r.exc) is PDFDataFormatError)


# --- written and read again -----------------------------------------------------------
USERS = ["user", "xray7", "neutron"]


def written(v, d, user=USERS[0]):
    from diffpy.srmise import pdfdataset as m
    v.patch(m, "getuser", lambda: user)
    return v.must("write", d.writeStr)


TWO = ["5.00", "-12.25", "0.00", "123456.75"]


def numerals(v, s, names, which=None):
    """The text where each of the numbers is a numeral, one of them of any form."""
    out = {}
    for j, nm in enumerate(names):
        m = re.search(r"^%s=(zVC\d+z)" % nm, s, re.M)
        if not m:
            continue
        tok = m.group(1)
        fmt = v.p.lossy.get(tok)
        forms = FORMS if fmt != "%.2f" else TWO
        k = 0
        if nm == which:
            while k < len(forms) - 1 and bool(v.bool("another form")):
                k += 1
        # a numeral of its own
        mant, e, ex = forms[k].partition("e")
        text = ("%s%d" % (mant, 31 + j) if "." in mant and fmt != "%.2f" else "%d%s" % (31 + j, mant) if not mant.startswith("-") else "-%d%s" % (31 + j, mant[1:])) + e + ex
        v.p.tokens[text] = v.p.tokens[tok]
        if fmt is not None:
            v.p.lossy[text] = fmt
        out[nm] = fmt
        s = s.replace(tok, text)
    return s, out


def same_printed(v, nm, fmt, a, x):
    v.prove(nm + ": to the printed precision", num(a) == (num(x) if fmt is None else vcrt.printed(fmt, x)))
    v.prove(nm + ": printed precisely enough", fmt is None or re.fullmatch(r"%(\.([6-9]|1\d))?g|%\.([2-9]|1\d)f", fmt) is not None)
    if nm != "qmax":
        v.prove(nm + ": six significant digits", fmt is None or fmt.endswith("g"))


@contract("C25", "writing and reading again: any number of points", functions=[DS + "writeStr", DS + "readStr", DS + "write", DS + "read"], loops=loops())
def round_trip(v):
    G = any_table(v, True)
    a, b = new(), new(stale=True)
    for nm in COLS:
        setattr(a, nm, seq.SymList(G.n, (lambda c: lambda i: c.at(i))(G.cols[nm])))
    names = ["qdamp", "qbroad", "dscale"]
    want = {nm: v.real(nm) for nm in ["qmax"] + names}
    if bool(v.bool("no qmax")):
        v.assume(want["qmax"] == 0)
    else:
        v.assume(want["qmax"] != 0)
        names = ["qmax"] + names
    for nm, x in want.items():
        setattr(a, nm, x)
    v.witness(lambda ev: {"what": "trip", "qmax": 1 / 3, "seed": 1, "n": 3})
    v.expect_covers("valid", "not valid")
    how = pick(v, "variant", names + ["neutron " + u for u in USERS] + USERS)
    if how.startswith("neutron "):
        a.stype = "N"
    s, fmts = numerals(v, written(v, a, how.split()[-1] if how not in names else USERS[0]), names, how)
    v.must("read", b.readStr, s)
    v.prove("the scattering type", b.stype == a.stype)
    for nm, x in want.items():
        if nm in fmts:
            same_printed(v, nm, fmts[nm], getattr(b, nm), x)
        else:
            v.prove(nm + ": no correction", And(nm == "qmax", num(b.qmax) == 0, num(x) == 0))
    v.prove("no metadata", b.metadata == {})
    data_rules(v, G, b)
    v.prove("what is written is not changed", all(getattr(a, nm) is x for nm, x in want.items()) and a.metadata == {})


@contract("C25", "metadata", functions=[DS + "writeStr", DS + "readStr"], bounded="up to three entries of metadata", loops=loops())
def metadata(v):
    G = any_table(v, True)
    a, b = new(), new(stale=True)
    for nm in COLS:
        setattr(a, nm, seq.SymList(G.n, (lambda c: lambda i: c.at(i))(G.cols[nm])))
    keys = ["temperature", "x_1", "qmax"][:1 if bool(v.bool("one")) else 2 if bool(v.bool("two")) else 3]
    a.metadata = dict((k, v.real(k)) for k in keys)
    v.witness(lambda ev: {"what": "trip", "qmax": 1 / 3, "seed": 1, "n": 3, "meta": {k: 1.5 for k in keys}})
    s = written(v, a)
    head, at, tail = s.partition("metadata")
    tail, fmts = numerals(v, tail, keys, pick(v, "variant", keys))
    head, _ = numerals(v, head, ["qdamp"])
    v.must("read", b.readStr, head + at + tail)
    v.prove("the same names", sorted(b.metadata) == sorted(keys))
    for k in keys:
        if k in b.metadata:
            v.prove("the value, exactly", And(num(b.metadata[k]) == a.metadata[k]))
    v.prove("metadata are not settings", num(b.qmax) == 0)


@contract("C25", "files", functions=[DS + "write", DS + "read"])
def through_file(v):
    a, b = new(), new(stale=True)
    seen = []
    a.writeStr = lambda: "any text\nof lines"
    b.readStr = lambda s: seen.append(s)
    content = {"other": "x"}
    files(v, content)
    v.witness(lambda ev: {"what": "trip", "qmax": 1.0, "seed": 1, "n": 3, "file": True})
    v.must("write", a.write, "name")
    v.prove("one file with the text", content == {"other": "x", "name": "any text\nof lines"})
    r = v.must("read", b.read, "name")
    v.prove("the text of the file is read", seen == ["any text\nof lines"])
    v.prove("the data set itself is returned", r is b)
    import os
    v.prove("the file is remembered", b.filename == os.path.abspath("name"))


# --- variables --------------------------------------------------------------------------
class Declared(Stub):
    """Any collection of names, of which only one matters."""

    def __init__(self, v, name):
        self.v, self.name, self.yes = v, name, v.bool("declared")

    def vc_contains(self, x):
        if type(x) is not str:
            raise Unsupported("a name that is no text")
        self.v.prove("the bare name is looked up", x == self.name)
        return self.yes

    __contains__ = lambda self, x: bool(self.vc_contains(x))


Unsupported = core.Unsupported


@contract("C25", "declared variables", functions=[DS + "setvar", DS + "getvar"])
def variables(v):
    from diffpy.srmise.pdfdataset import PDFDataSet
    from diffpy.srmise.srmiseerrors import SrMisePDFKeyError
    v.prove("what is declared", sorted(PDFDataSet.refinableVars) == ["dscale", "qbroad", "qdamp"])
    d = new()
    keep = dict(d.__dict__)
    x = v.int("value") if bool(v.bool("an integer")) else v.real("value")
    name = "qmax" if bool(v.bool("an attribute")) else "anything"
    D = Declared(v, name)
    v.patch(PDFDataSet, "refinableVars", D)
    v.witness(lambda ev: {"what": "variables", "name": "qdamp", "value": 1.5})
    v.expect_covers("set", "refused")
    padded = name if bool(v.bool("bare")) else "  %s \t" % name
    r = v.call(d.setvar, padded, x)
    if not r.ok:
        v.cover("refused")
        v.prove("only undeclared names are refused", Not(D.yes))
        v.prove("with the documented error", type(r.exc) is SrMisePDFKeyError)
        v.prove("nothing is set", all(d.__dict__[k] is w for k, w in keep.items()) and len(keep) == len(d.__dict__))
        r = v.call(d.getvar, padded)
        v.prove("nor can it be read", not r.ok and type(r.exc) is SrMisePDFKeyError)
        return
    v.cover("set")
    v.prove("undeclared names are refused", D.yes)
    y = getattr(d, name)
    v.prove("the value", num(y) == x)
    v.prove("a float", (isinstance(y, float) or (isinstance(y, SNum) and not sym.isint(y.t))))
    v.prove("nothing else is set", all(d.__dict__[k] is w for k, w in keep.items() if k != name) and set(d.__dict__) == set(keep) | {name})
    v.prove("the value is read", v.must("read", d.getvar, padded) is y)


# --- copies -----------------------------------------------------------------------------
@contract("C25", "copies and clearing", functions=[DS + "copy", DS + "clear", DS + "__init__"])
def copies(v):
    from diffpy.srmise.pdfdataset import PDFDataSet
    a = new("name")
    v.prove("nothing is known at first", all(getattr(a, k) == FRESH[k] for k in STALE) and a.name == "name")
    v.witness(lambda ev: {"what": "copy", "seed": 1})
    for k in STALE:
        setattr(a, k, Stub())
    a.metadata = {"T": 1.0, "list": [1, 2]}
    keep = dict(a.__dict__)
    how = "new" if bool(v.bool("new")) else "other" if bool(v.bool("other")) else "itself"
    other = None if how == "new" else a if how == "itself" else new("other", True)
    c = v.must("copy", a.copy) if how == "new" and bool(v.bool("by default")) else v.must("copy", a.copy, other)
    v.prove("the copy", type(c) is PDFDataSet and (c is other if how != "new" else c is not a))
    v.prove("has every value", all(getattr(c, k) is keep[k] for k in STALE if k != "metadata") and c.metadata == {"T": 1.0, "list": [1, 2]})
    v.prove("the original is unchanged", all(a.__dict__[k] is w for k, w in keep.items() if how != "itself" or k != "metadata") and a.metadata == {"T": 1.0, "list": [1, 2]})
    if how != "itself":
        v.prove("metadata are independent", c.metadata is not a.metadata and c.metadata["list"] is not a.metadata["list"])
        v.prove("the name", c.name == ("name" if how == "new" else "other"))
    v.must("clear", c.clear)
    v.prove("clearing forgets everything", all(getattr(c, k) == FRESH[k] for k in STALE))
    if how != "itself":
        v.prove("the original keeps everything", all(a.__dict__[k] is w for k, w in keep.items()) and a.metadata == {"T": 1.0, "list": [1, 2]})
