import os
import shutil
import tempfile

import numpy as np
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.peakstability import PeakStability
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError

from .C22 import alike
from .mputil import func, rpars, rspec

RULE = "random extractions, model clusters and stability results, with anything unset, written to text and file and read back, and with damaged data lines; non-trivial: distinct case"
CRIT = {"AIC": AIC, "AICc": AICc, "None": None}


def value(rng):
    return rng.choice([rng.uniform(-5, 5), rng.uniform(-1, 1) * 10 ** rng.randint(-9, 12), 0.1, 1 / 3, float(rng.randint(-3, 3)), 1e-7, 123456789.0])


def rpk(rng, funcs):
    i = rng.randrange(len(funcs))
    return {"f": i, "pars": [value(rng) for _ in "abc"], "free": [rng.random() < 0.7 for _ in "abc"], "removable": rng.random() < 0.6, "static": rng.random() < 0.3}


def rfuncs(rng):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4, 4, 13])):
        k = rng.choice(["g", "gr", "gr", "tr"])
        if k == "tr" and out:
            out.append(["tr", rng.randrange(len(out)), rng.uniform(5, 30)])
        else:
            out.append([rng.choice(["g", "gr"]), rng.choice([0.5, 0.7, 1 / 3, rng.uniform(0.1, 3)])])
    return out


def rbl(rng):
    s = rspec(rng, ("poly", "nano", "seq"))
    n = len(rpars(rng, s))
    return {"f": s, "pars": [value(rng) for _ in range(n)], "free": [rng.random() < 0.7 for _ in range(n)], "removable": rng.random() < 0.6, "static": rng.random() < 0.3}


def rcluster(rng, fs, same=None):
    n = rng.choice([1, 2, 5, 20])
    lo = rng.randint(0, n - 1)
    return {"peaks": [rpk(rng, fs) for _ in range(rng.choice([0, 1, 2, 4, 12]))], "baseline": rng.choice([None, same, rbl(rng)]), "crit": rng.choice(["AIC", "AICc", "None"]),
            "pf": rng.choice([None, "", [rng.randrange(len(fs)) for _ in range(rng.randint(1, 3))], list(range(len(fs)))]), "slice": [lo, rng.randint(lo + 1, n)], "int": rng.random() < 0.3,
            "data": [[value(rng) for _ in range(3)] for _ in range(n)]}


def cases(rng, tier):
    for _ in range(4000 if tier == "quick" else 40000):
        w = rng.choice(["extraction", "extraction", "extraction", "cluster", "cluster", "bad", "stability"])
        fs = rfuncs(rng)
        c = {"what": w, "funcs": fs, "file": rng.random() < 0.3}
        if w == "cluster":
            c["cluster"] = rcluster(rng, fs)
        elif w == "stability":
            c["nresults"], c["seed"] = rng.randint(1, 3), rng.randrange(10 ** 6)
        else:
            c["pdf"] = rng.random() < 0.7
            n = rng.choice([2, 3, 8, 30])
            c["data"] = rng.choice([None, "all", "all"]) and [[value(rng) for _ in range(5)] for _ in range(n)]
            if w == "bad" and c["data"] is None:
                c["data"] = [[1.0, 2.0, 0.0, 0.0, 1.0], [2.0, 3.0, 0.0, 0.0, 1.0]]
            c["edy"] = rng.random() < 0.6
            c["baseline"] = rng.choice([None, "function", "part", "part"]) and [rng.choice(["function", "part"]), rbl(rng)]
            c["initial"] = rng.choice([None, "", [rpk(rng, fs) for _ in range(rng.choice([1, 2, 11]))]])
            c["pf"] = rng.choice([None, "", [rng.randrange(len(fs)) for _ in range(rng.randint(1, 3))], list(range(len(fs)))])
            c["cres"] = rng.choice([None, 0.125, 1e-5, 12345678.9, rng.uniform(0, 2), 5])
            c["crit"] = rng.choice(["AIC", "AICc", "None"])
            c["rng"] = rng.choice([None, [None, None], [None, 3.5], [1 / 3, None], [0.1, 7.0]])
            c["type"] = rng.choice([None, "extract_single", "fit"])
            c["meta"] = [rng.choice([None, "a.gr", "/x y/#b=1.gr", "it's \"q\".gr", "name\n# Metadata\nqmax=3"]), rng.random() < 0.5, rng.choice([None, 20.0, 1 / 3, 0.0]), rng.choice([None, 25.1]), rng.random() < 0.5, rng.random() < 0.5, rng.choice([4.0, 2.5, 1 / 3])]
            c["extracted"] = rng.choice([None, 1, 1]) and rcluster(rng, fs, c["baseline"] and c["baseline"][1])
        if w == "bad":
            c["line"] = rng.randrange(len(c["data"]))
            c["how"] = rng.choice(["more", "fewer", "empty", "text"])
            c["in"] = rng.choice(["extraction", "cluster", "nested"])
        yield c


def functions(c):
    out = []
    for s in c["funcs"]:
        out.append(TerminationRipples(out[s[1]], s[2]) if s[0] == "tr" else func(s))
    return out


class Maker:
    def __init__(self, c):
        self.c, self.fs, self.owners = c, functions(c), {}

    def peak(self, d):
        return Peak(self.fs[d["f"]], d["pars"], d["free"], d["removable"], d["static"])

    def bf(self, d):
        k = str(d["f"])
        if k not in self.owners:
            self.owners[k] = func(d["f"])
        return self.owners[k]

    def bl(self, d):
        return Baseline(self.bf(d), d["pars"], d["free"], d["removable"], d["static"])

    def cluster(self, d):
        a = np.array(d["data"], float)
        pf = None if d["pf"] is None else [self.fs[i] for i in d["pf"]]
        m = ModelCluster(Peaks([self.peak(p) for p in d["peaks"]]), None if d["baseline"] is None else self.bl(d["baseline"]), a[:, 0], a[:, 1], a[:, 2], None, CRIT[d["crit"]], pf)
        t = np.int64 if d["int"] else int
        m.change_slice(slice(t(d["slice"][0]), t(d["slice"][1]), None))
        return m

    def extraction(self):
        c = self.c
        p = (PDFPeakExtraction if c["pdf"] else PeakExtraction)()
        if c["data"] is not None:
            a = np.array(c["data"], float)
            p.setdata(a[:, 0], a[:, 1], a[:, 2], a[:, 3])
            if c["edy"]:
                p.effective_dy = a[:, 4].copy()
        if c["baseline"] is not None:
            p.baseline = self.bf(c["baseline"][1]) if c["baseline"][0] == "function" else self.bl(c["baseline"][1])
        p.initial_peaks = None if c["initial"] is None else Peaks([self.peak(q) for q in c["initial"]])
        p.pf = None if c["pf"] is None else [self.fs[i] for i in c["pf"]]
        p.cres, p.error_method = c["cres"], CRIT[c["crit"]]
        p.rng = c["rng"] and list(c["rng"])
        p.extraction_type = c["type"]
        if c["pdf"]:
            p.filename, p.nyquist, p.qmax, p.qmax_reportedbypdf, p.qmax_fromdata, p.scale, p.supersample = c["meta"]
        if c["extracted"] is not None:
            p.extracted = self.cluster(c["extracted"])
        return p


def funcs_alike(f, g):
    if (f is None) != (g is None):
        return "function %r became %r" % (f, g)
    if f is None:
        return None
    if type(f) is not type(g):
        return "type %s became %s" % (type(f).__name__, type(g).__name__)
    if (f.base is None) != (g.base is None):
        return "another base"
    if f.base is not None:
        r = funcs_alike(f.base, g.base)
        if r:
            return r
        b, g.base = g.base, f.base
        try:
            return alike(f, g)
        finally:
            g.base = b
    return alike(f, g)


def part_alike(p, q):
    if type(p) is not type(q):
        return "%r became %r" % (type(p), type(q))
    if not (np.array_equal(p.pars, q.pars) and np.array_equal(p.free, q.free) and p.removable == q.removable and p.static_owner == q.static_owner):
        return "part %s became %s" % (p, q)
    return funcs_alike(p.owner(), q.owner())


def list_alike(a, b, f, what):
    if (a is None) != (b is None):
        return "%s: %r became %r" % (what, a, b)
    if a is None:
        return None
    if len(a) != len(b):
        return "%s: %d became %d" % (what, len(a), len(b))
    for x, y in zip(a, b):
        r = f(x, y)
        if r:
            return what + ": " + r
    for i in range(len(a)):  # shared functions stay shared
        for j in range(i):
            o = (lambda x: x.owner() if hasattr(x, "owner") else x)
            if (o(a[i]) is o(a[j])) != (o(b[i]) is o(b[j])):
                return what + ": functions are shared differently"
    return None


def data_alike(a, b, what):
    if (a is None) != (b is None):
        return "%s: %r became %r" % (what, a, b)
    if a is None:
        return None
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= 5.01e-6 * np.abs(a)):
        return "%s: other values" % what
    return None


def clusters_alike(m, q):
    if (m is None) != (q is None):
        return "cluster %r became %r" % (m, q)
    if m is None:
        return None
    r = list_alike(m.model, q.model, part_alike, "peaks") or list_alike(m.peak_funcs, q.peak_funcs, funcs_alike, "peak functions")
    if r:
        return r
    if (m.baseline is None) != (q.baseline is None):
        return "baseline %s became %s" % (m.baseline, q.baseline)
    if m.baseline is not None:
        r = part_alike(m.baseline, q.baseline)
        if r:
            return "baseline: " + r
    if m.error_method is not q.error_method:
        return "criterion %r became %r" % (m.error_method, q.error_method)
    if (m.slice.start, m.slice.stop, m.slice.step) != (q.slice.start, q.slice.stop, q.slice.step):
        return "slice %r became %r" % (m.slice, q.slice)
    return data_alike(m.r_data, q.r_data, "coordinates") or data_alike(m.y_data, q.y_data, "values") or data_alike(m.y_error, q.y_error, "uncertainties") or data_alike(m.r_cluster, q.r_cluster, "cluster")


def again(p, new, text, c):
    """p written and read back into new."""
    if not c["file"]:
        s = p.writestr()
        if text:
            s = text(s)
        new.readstr(s)
        return new
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, "saved.pwa")
        p.write(fn)
        if text:
            with open(fn) as f:
                s = f.read()
            with open(fn, "w") as f:
                f.write(text(s))
        new.read(fn)
        return new
    finally:
        shutil.rmtree(d)


def extraction(c):
    m = Maker(c)
    p = m.extraction()
    new = type(p)()
    new.readstr(PDFPeakExtraction().writestr() if c["pdf"] else PeakExtraction().writestr())
    q = again(p, new, None, c)
    for a in ("x", "y", "dx", "dy", "effective_dy"):
        r = data_alike(getattr(p, a), getattr(q, a), a)
        if r:
            return r
    r = list_alike(p.pf, q.pf, funcs_alike, "pf") or list_alike(p.initial_peaks, q.initial_peaks, part_alike, "initial peaks")
    if r:
        return r
    if (p.baseline is None) != (q.baseline is None):
        return "baseline %s became %s" % (p.baseline, q.baseline)
    if p.baseline is not None:
        r = part_alike(p.baseline, q.baseline) if hasattr(p.baseline, "owner") else funcs_alike(p.baseline, q.baseline)
        if r:
            return "baseline: " + r
    if (p.cres is None) != (q.cres is None) or (p.cres is not None and not abs(p.cres - q.cres) <= 5.01e-6 * abs(p.cres)):
        return "cres %r became %r" % (p.cres, q.cres)
    if p.error_method is not q.error_method or p.rng != q.rng or p.extraction_type != q.extraction_type:
        return "criterion, range or extraction type became %r, %r, %r" % (q.error_method, q.rng, q.extraction_type)
    if c["pdf"]:
        got = [q.filename, q.nyquist, q.qmax, q.qmax_reportedbypdf, q.qmax_fromdata, q.scale, q.supersample]
        if got != c["meta"] or [type(x) for x in got] != [type(x) for x in c["meta"]]:
            return "metadata %r became %r" % (c["meta"], got)
    r = clusters_alike(p.extracted, q.extracted)
    if r:
        return "extracted: " + r
    if p.extracted is not None and p.initial_peaks and q.extracted.model:
        for i, a in enumerate(p.initial_peaks):
            for j, b in enumerate(p.extracted.model):
                if (a.owner() is b.owner()) != (q.initial_peaks[i].owner() is q.extracted.model[j].owner()):
                    return "functions are shared differently between initial and extracted peaks"
    return None


def damage(c):
    n = [0]

    def text(s):
        ls = s.split("\n")
        out = []
        inside = False
        mark = "##### start data" if c["in"] == "extraction" else "### start data"
        for ln in ls:
            if inside and ln and not ln.startswith("#") and n[0] >= 0:
                if n[0] == c["line"]:
                    f = ln.split()
                    ln = {"more": ln + " 1.5", "fewer": " ".join(f[:-1]), "empty": "", "text": " ".join(f[:-1] + ["abc"])}[c["how"]]
                    n[0] = -1
                else:
                    n[0] += 1
            if inside and ln.startswith("##### Results"):
                inside = False
            if ln == mark:
                inside = True
            out.append(ln)
        return "\n".join(out)
    return text, n


def bad(c):
    m = Maker(c)
    f, n = damage(c)
    if c["in"] != "extraction":
        d = c["extracted"] or {"peaks": [], "baseline": None, "crit": "AIC", "pf": None, "slice": [0, 1], "int": False, "data": [[1.0, 2.0, 3.0]] * 3}
        c["line"] %= len(d["data"])
        if c["how"] == "empty" and c["line"] in (0, len(d["data"]) - 1):
            return None  # an empty line at either end carries no data
        want = (SrMiseDataFormatError,)
        if c["in"] == "cluster":
            s = f(m.cluster(d).writestr())
            what = lambda: ModelCluster.factory(s)
        else:
            c["extracted"] = d
            p = m.extraction()
            what = lambda: again(p, type(p)(), f, c)
            if c["file"]:
                want = (SrMiseDataFormatError, SrMiseFileError)
    else:
        c["extracted"] = None
        if c["how"] == "empty" and c["line"] in (0, len(c["data"]) - 1):
            return None
        p = m.extraction()
        what = lambda: again(p, type(p)(), f, c)
        want = (SrMiseDataFormatError,) if not c["file"] else (SrMiseDataFormatError, SrMiseFileError)
    try:
        what()
    except Exception as e:
        try:
            str(e)
        except Exception as x:
            return "the refusal cannot be printed: %s" % x
        return None if isinstance(e, want) else "badly formatted data raise %s: %s" % (type(e).__name__, e)
    return "badly formatted data are accepted (line %d: %s)" % (c["line"], c["how"])


def stability(c):
    rs = np.random.RandomState(c["seed"])
    x = np.linspace(1, 6, 40)
    p = PDFPeakExtraction()
    p.setdata(x, np.exp(-((x - 3) ** 2) / 0.1) + 0.1 * rs.rand(40))
    p.setvars(qmax=0.0, pf=[func(["gr", 0.7])], rng=[float(x[0]), float(x[-1])])
    ps = PeakStability()
    ps.setppe(p)
    bf = p.baseline.owner() if rs.rand() < 0.5 else func(["poly", 1])
    if bf is not p.baseline.owner():
        p.baseline = bf.actualize([0.1, 0.2], in_format="internal")
    for i in range(c["nresults"]):
        pk = Peaks([p.pf[0].actualize(list(rs.rand(3) + 1), in_format="internal", free=list(rs.rand(3) < 0.5)) for _ in range(rs.randint(0, 4))])
        bl = None if rs.rand() < 0.3 else bf.actualize(list(rs.rand(bf.npars)), in_format="internal", free=list(rs.rand(bf.npars) < 0.5), removable=bool(rs.rand() < 0.5))
        ps.results.append([float(rs.rand()), pk, bl, float(x[1] - x[0])])
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, "s")
        ps.save(fn)
        q = PeakStability()
        q.load(fn)
    finally:
        shutil.rmtree(d)
    if len(q.results) != len(ps.results):
        return "%d results became %d" % (len(ps.results), len(q.results))
    for a, b in zip(ps.results, q.results):
        if a[0] != b[0] or a[3] != b[3]:
            return "uncertainty or spacing changed"
        r = list_alike(a[1], b[1], part_alike, "peaks")
        if r:
            return r
        if (a[2] is None) != (b[2] is None):
            return "baseline %s became %s" % (a[2], b[2])
        if a[2] is not None:
            r = part_alike(a[2], b[2])
            if r:
                return "baseline: " + r
    return data_alike(ps.ppe.x, q.ppe.x, "x") or data_alike(ps.ppe.y, q.ppe.y, "y")


def cluster(c):
    m = Maker(c)
    a = m.cluster(c["cluster"])
    r = clusters_alike(a, ModelCluster.factory(a.writestr()))
    if r:
        return r
    from diffpy.srmise.basefunction import BaseFunction
    pl = BaseFunction.safefunctionlist(list(m.fs))
    bl = BaseFunction.safefunctionlist(list(m.owners.values()))
    q = ModelCluster.factory(a.writestr(pfbaselist=pl, blfbaselist=bl), pfbaselist=pl, blfbaselist=bl)
    r = clusters_alike(a, q)
    if r:
        return "with given functions: " + r
    if any(x.owner() is not y.owner() for x, y in zip(a.model, q.model)):
        return "with given functions: other functions"
    return None


def check(c):
    import copy
    c = copy.deepcopy(c)
    return {"extraction": extraction, "cluster": cluster, "bad": bad, "stability": stability}[c["what"]](c)
