import copy
import math
import os
import tempfile

from diffpy.srmise import pdfdataset as M
from diffpy.srmise.pdfdataset import PDFDataFormatError, PDFDataSet
from diffpy.srmise.srmiseerrors import SrMiseFileError, SrMisePDFKeyError
from oracle_run import Skip

RULE = "data sets of 1-20 points with any values, uncertainties that are missing, zero, negative, not finite or odd on any line, any user name, up to five metadata, written through texts and files into data sets that held something else; headers with and without each setting; non-trivial: distinct case"
ODD = ["nan", "NaN", "inf", "-Inf", "Infinity", "1e999", "0", "-1", "-0.0"]
FRESH = dict(robs=[], Gobs=[], drobs=[], dGobs=[], stype="X", qmax=0.0, qdamp=0.001, qbroad=0.0, spdiameter=None, dscale=1.0, rmin=None, rmax=None, filename=None, metadata={})
HEADS = [("", {}), ("stype=N  neutron scattering\nqmax=25.5\nqdamp=0.05\nqbroad=1e-05\ndscale=2\n", dict(stype="N", qmax=25.5, qdamp=0.05, qbroad=1e-05, dscale=2.0)),
         ("produced by neutron\nstype=X  x-ray scattering\nqmax=0   correction not applied\n", dict(stype="X", qmax=0.0)),
         ("# neutron data\nQmax = 17\nqsig=.25\nqalp = 3.\n", dict(stype="N", qmax=17.0, qdamp=0.25, qbroad=3.0)),
         ("PDFgetX2\nspdiameter=30\ntemp = 300\ndoping=0.5\n", dict(stype="X", spdiameter=30.0, metadata={"temperature": 300.0, "doping": 0.5})),
         ("dscale=0.5\n# metadata\nalpha = 1e-3\nqmax=4\nb_2=-7\n", dict(dscale=0.5, metadata={"alpha": 1e-3, "qmax": 4.0, "b_2": -7.0}))]
NAMES = ["qdamp", "qbroad", "dscale", "qmax", "robs", "metadata", "rmin", "__dict__", "spdiameter", "", "QDAMP", "q damp", "stype", "refinableVars", "name", "foo"]


def number(rng):
    return rng.choice([0.0, rng.uniform(-100, 100), rng.gauss(0, 1), rng.uniform(0, 1) * 10 ** rng.randint(-12, 12), float(rng.randint(-5, 2000)), 1 / 3])


def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 25000):
        k = rng.choice(["trip", "trip", "read", "read", "bad", "variables", "copy"])
        c = {"what": k, "seed": rng.randrange(10 ** 6)}
        n = rng.choice([1, 2, 3, rng.randint(1, 20)])
        if k == "trip":
            c.update(stype=rng.choice("XN"), user=rng.choice(["user", "xray7", "neutron", "PDFgetN", "a b"]), file=rng.random() < 0.3, data=[[number(rng) for _ in range(2)] + [abs(number(rng)) if rng.random() < 0.9 else number(rng) for _ in range(2)] for _ in range(n)],
                     qmax=rng.choice([0.0, rng.uniform(0, 50), 1 / 3, 20.0]), qdamp=number(rng), qbroad=number(rng), dscale=number(rng), meta={rng.choice(["temperature", "T", "x", "a_1", "qmax", "stype", "Z9"]): number(rng) for _ in range(rng.choice([0, 0, 1, 2, 5]))})
            if rng.random() < 0.15:
                c["data"][rng.randrange(n)][rng.choice([2, 3])] = rng.choice(["nan", "inf", "-inf"])
        elif k in ("read", "bad"):
            ls = []
            few, odd = rng.choice([0, 0, 0.2]), rng.choice([0, 0, 0.2])
            for _ in range(n):
                l = ["%r" % number(rng), "%r" % number(rng)]
                if rng.random() >= few:
                    l.append(rng.choice(ODD) if rng.random() < odd else "%r" % (abs(number(rng)) + 1e-3))
                    if rng.random() >= few:
                        l.append(rng.choice(ODD) if rng.random() < odd else "%r" % (abs(number(rng)) + 1e-3))
                        if rng.random() < 0.1:
                            l.append("7")
                ls.append(l)
            c.update(lines=ls, head=rng.randrange(len(HEADS)), mark=rng.random() < 0.7)
            if k == "bad":
                c.update(how=rng.choice(["text", "one value", "nothing"]), line=rng.randrange(n), file=rng.random() < 0.5)
        elif k == "variables":
            c.update(name=rng.choice(NAMES[:3] + NAMES), pad=rng.choice(["", " ", "\t "]), value=rng.choice([1, 2.5, -3, "1.5", "abc", True, 0]))
        yield c


def g(x, fmt="%g"):
    return float(fmt % x)


def stale(name="old"):
    d = PDFDataSet(name)
    d.readStr("stype=N\nqmax=3\nqdamp=4\nqbroad=5\ndscale=6\nspdiameter=7\n# metadata\nold=1\n##### start data\n1 2 3 4\n5 6 7 8\n")
    d.filename = "old"
    return d


def fine(x):
    try:
        x = float(x)
    except ValueError:
        return False
    return 0 < x < math.inf


def columns(d, rows):
    """rows: printed texts of every line."""
    n = len(rows)
    for j, nm in enumerate(("robs", "Gobs", "drobs", "dGobs")):
        a = getattr(d, nm)
        if len(a) != n:
            return "%d values of %s for %d points" % (len(a), nm, n)
        ok = j < 2 or all(len(r) > j and fine(r[j]) for r in rows)
        want = [float(r[j]) for r in rows] if ok else [0.0] * n
        if list(a) != want and not any(math.isnan(x) for x in want):
            return "%s %s rather than %s" % (nm, a, want)
    if (d.rmin, d.rmax) != (float(rows[0][0]), float(rows[-1][0])):
        return "range %s to %s" % (d.rmin, d.rmax)


def check(c):
    return {"trip": check_trip, "read": check_read, "bad": check_bad, "variables": check_variables, "copy": check_copy}[c["what"]](c)


def through(t, file, d):
    if not file:
        return d.readStr(t)
    with tempfile.TemporaryDirectory() as w:
        f = os.path.join(w, "x.gr")
        with open(f, "w") as o:
            o.write(t)
        r = d.read(f)
        if d.filename != os.path.abspath(f):
            raise AssertionError("file name %s" % d.filename)
        return r


def check_trip(c):
    d = PDFDataSet("a")
    data = c.get("data") or [[1.0, 2.0, 0.5, 0.25], [2.0, 1 / 3, 1e-7, 1e5], [3.0, -4.0, 1.0, 2.0]][:int(c.get("n", 3))]
    data = [[float(x) for x in r] for r in data]
    if not data or any(len(r) != 4 for r in data):
        raise Skip()
    for j, nm in enumerate(("robs", "Gobs", "drobs", "dGobs")):
        setattr(d, nm, [r[j] for r in data])
    d.stype = c.get("stype", "X")
    sets = {k: float(c.get(k, v)) for k, v in (("qmax", 1 / 3), ("qdamp", 0.01), ("qbroad", 1e-5), ("dscale", 2.0))}
    meta = {str(k): float(v) for k, v in (c.get("meta") or {}).items()}
    if d.stype not in "XN" or not all(math.isfinite(x) and abs(x) < 1e15 for x in list(sets.values()) + list(meta.values()) + [r[j] for r in data for j in (0, 1)]):
        raise Skip()
    for k, x in sets.items():
        setattr(d, k, x)
    d.metadata = dict(meta)
    was, M.getuser = M.getuser, (lambda: c.get("user", "user"))
    try:
        before = copy.deepcopy(d.__dict__)
        if c.get("file"):
            with tempfile.TemporaryDirectory() as w:
                f = os.path.join(w, "x.gr")
                d.write(f)
                t = open(f).read()
        else:
            t = d.writeStr()
    finally:
        M.getuser = was
    if d.__dict__ != before and not any(math.isnan(x) for r in data for x in r):
        return "writing changes the data set"
    e = stale()
    r = through(t, c.get("file"), e)
    if r is not e:
        return "read returns %s" % r
    if e.stype != d.stype:
        return "scattering type %s rather than %s, written by %s" % (e.stype, d.stype, c.get("user"))
    for k, x in sets.items():
        y = getattr(e, k)
        if type(y) is not float or (y != g(x) and abs(y - x) > 1e-5 * abs(x) and not (k == "qmax" and abs(y - x) <= 0.00501)):
            return "%s %s rather than %s" % (k, y, x)
    if e.metadata != meta:
        return "metadata %s rather than %s" % (e.metadata, meta)
    if e.spdiameter is not None or (not c.get("file") and e.filename is not None):
        return "something is left from before"
    return columns(e, [["%g" % x for x in r] for r in data])


def text(c):
    ls = [[str(x) for x in l] for l in c["lines"]]
    if not ls or any(len(l) < 2 for l in ls):
        raise Skip()
    h = int(c.get("head", 0)) % len(HEADS)
    head, want = HEADS[h]
    mark = c.get("mark", True) or h
    return ls, head + ("##### start data\n#L r(A) G(r) d_r d_Gr\n" if mark else ""), want


def check_read(c):
    ls, head, want = text(c)
    d = stale()
    if not math.isfinite(float(ls[0][0])):
        raise Skip()
    d.readStr(head + "\n".join("  ".join(l) for l in ls) + "\n")
    for k, x in FRESH.items():
        if k not in ("robs", "Gobs", "drobs", "dGobs", "rmin", "rmax") and getattr(d, k) != want.get(k, x):
            return "%s %s rather than %s" % (k, getattr(d, k), want.get(k, x))
    return columns(d, ls)


def check_bad(c):
    ls, head, want = text(c)
    i = int(c["line"]) % len(ls)
    if not math.isfinite(float(ls[0][0])) or (c["how"] == "nothing" and i in (0, len(ls) - 1) and len(ls) > 1):
        raise Skip()
    ls[i] = {"text": [ls[i][0], "abc"], "one value": ls[i][:1], "nothing": []}[c["how"]]
    t = head + "\n".join("  ".join(l) for l in ls) + "\n"
    d = stale()
    try:
        through(t, c.get("file"), d)
    except (PDFDataFormatError, SrMiseFileError) as e:
        return None if type(e) is (SrMiseFileError if c.get("file") else PDFDataFormatError) else "refused with %s" % type(e).__name__
    return "damaged data are accepted: %s" % d.robs


def check_variables(c):
    d, nm, x = PDFDataSet("a"), str(c["name"]), c["value"]
    before = dict(d.__dict__)
    ok = nm in ("qdamp", "qbroad", "dscale")
    try:
        v = float(x)
    except ValueError:
        v = None
    pad = str(c.get("pad", ""))
    if pad.strip():
        raise Skip()
    try:
        d.setvar(pad + nm + pad, x)
        done = True
    except (SrMisePDFKeyError, ValueError) as e:
        done = False
        if v is not None and type(e) is not SrMisePDFKeyError:
            return "refused with %s" % type(e).__name__
    if done != (ok and v is not None):
        return "setting %r to %r %s" % (nm, x, "is accepted" if done else "is refused")
    if not done and d.__dict__ != before:
        return "something is set"
    if done:
        y = d.getvar(pad + nm)
        if type(y) is not float or y != v or type(getattr(d, nm)) is not float:
            return "%r rather than %r" % (y, v)
        if any(d.__dict__[k] != w for k, w in before.items() if k != nm) or len(d.__dict__) != len(before):
            return "something else is set"
    elif not ok:
        try:
            return "%r can be read: %r" % (nm, d.getvar(nm))
        except SrMisePDFKeyError:
            pass


def check_copy(c):
    import random
    rng = random.Random(int(c.get("seed", 1)))
    d = stale("orig")
    for k in FRESH:
        if rng.random() < 0.5 and k not in ("robs", "Gobs", "drobs", "dGobs", "metadata"):
            setattr(d, k, rng.random())
    d.metadata = {"T": rng.random(), "more": [1, 2]}
    before = copy.deepcopy(d.__dict__)
    how = rng.choice(["new", "other", "itself"])
    o = None if how == "new" else d if how == "itself" else stale("other")
    e = d.copy(o) if how != "new" or rng.random() < 0.5 else d.copy()
    if type(e) is not PDFDataSet or (how == "new") == (e is o):
        return "no data set is returned"
    if d.__dict__ != before:
        return "the original is changed by copying to %s" % how
    for k in FRESH:
        if getattr(e, k) != before[k]:
            return "%s of the copy: %s rather than %s" % (k, getattr(e, k), before[k])
    if how != "itself":
        if e.name != ("orig" if how == "new" else "other"):
            return "named %s" % e.name
        e.metadata["more"].append(3)
        e.metadata["T"] = None
        if d.__dict__ != before:
            return "metadata are shared"
        e.clear()
        if d.__dict__ != before:
            return "clearing the copy changes the original"
    else:
        e.clear()
    for k, x in FRESH.items():
        if getattr(e, k) != x:
            return "%s is %s after clearing" % (k, getattr(e, k))
