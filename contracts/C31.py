"""The extraction loop: one model cluster per data cluster, bounded recursion, settings and trace counters kept."""
import z3

from ded import arr, core, seq, sym
from ded.arr import Arr
from ded.contract import Stub, contract
from ded.core import Unsupported
from ded.seq import SymList
from ded.sym import And, Implies, Not, Or, SNum, bt, forall, num, t
from ded.vcrt import LoopSpec
from .C10 import fun

Slice = slice
PE = "diffpy.srmise.peakextraction.PeakExtraction."
ASSUMPTIONS = ["the clustering iterator follows C01 and C03: every step clusters a new point, clusters are ordered, disjoint ranges, the adjacent ones reported are the maximal run around the cluster changed last",
               "it stops when every point belongs to a cluster (C01), after finitely many steps: one per point at most",
               "model clusters follow C15-C17 (views, joining, fits change neither slice nor data); the peaks of a model are in position order",
               "settings are complete and the extraction range is not empty (C18); the optimiser called by a fit returns",
               "evaluating peaks or a baseline over coordinates gives one value per coordinate (C05)"]


class Value(Stub):
    """Something with a value at every coordinate."""

    def __init__(self, name):
        self.f = z3.Function(core.path().name(name), sym.R, sym.R)

    def at(self, x):
        return SNum(self.f(sym.real(t(num(x)))))

    def value(self, r, rng=None):
        if rng is not None:
            raise Unsupported("evaluation over a part")
        if isinstance(r, (SNum, int, float)):
            return self.at(r)
        r = arr.asarr(r).snapshot()
        return Arr((r.shape_[0],), lambda i: self.at(r.at(i)))


class Bl(Value):
    """A baseline."""

    def __init__(self, name="baseline", of=None):
        if of is None:
            Value.__init__(self, name)
        else:
            self.f = of.f
        self.root = self if of is None else of.root

    def copy(self):
        return Bl(of=self)

    def __eq__(self, o):
        return isinstance(o, Bl) and o.root is self.root

    __hash__ = None


class Peak(Stub):
    def __init__(self, M, j):
        self.M, self.j = M, num(j)

    @staticmethod
    def vc_merge(c, a, b):
        return Peak(a.M, SNum(z3.If(c, a.j.t, b.j.t))) if a.M is b.M else None

    def __getitem__(self, key):
        if key != "position":
            raise Unsupported("another parameter")
        return self.M.pos(self.j)

    def copy(self):
        return self


class Model(SymList):
    """The peaks of a model cluster, of which nothing but the order is known."""

    def __init__(self, S):
        n = sym.fresh_int("npeaks", 0)
        SymList.__init__(self, n, lambda j: Peak(self, j))
        self.pos = fun("position", sym.I, sym.R)
        pos = self.pos
        with sym.spec_mode():
            core.path().assume(bt(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), pos(i) <= pos(j)))))
        self.v = None

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymList.__getitem__(self, i)
        # positions in range: proved where the peaks are used
        return Peak(self, self.n + i if isinstance(i, int) and i < 0 else num(i))

    def value(self, r, rng=None):
        if self.v is None:
            self.v = Value("modelvalue")
        return self.v.value(r, rng)

    def copy(self):
        return self


class Group(SymList):
    """Peaks picked from a model."""

    def __init__(self, items=None, of=None):
        if of is not None:
            self.items, self.v = of.items, of.v
            SymList.__init__(self, of.n, of.at)
            self.at = of.at
            return
        items = [] if items is None else items
        self.v = Value("groupvalue")
        self.items = items
        n = items.vc_len() if hasattr(items, "vc_len") else len(items)
        at = items.vc_item if hasattr(items, "vc_item") else (lambda j: items[int(j)] if not isinstance(j, SNum) else arr.pick(items, j))
        if isinstance(n, SNum):
            # the elements as they are now
            u = sym.fresh_int("u", 0)
            with core.under(bt(And(0 <= u, u < n))):
                p = at(u)
            if not isinstance(p, Peak):
                raise Unsupported("a collection of something else than peaks")
            at = lambda k: Peak(p.M, SNum(z3.substitute(p.j.t, (u.t, t(num(k))))))
        self.at = at
        SymList.__init__(self, n, at)

    def value(self, r, rng=None):
        return self.v.value(r, rng)

    def copy(self):
        return Group(of=self)


class Qual:
    def __init__(self, stat):
        self.stat = stat

    def __lt__(self, o):
        return bool(self.stat < o.stat)

    def __gt__(self, o):
        return bool(self.stat > o.stat)

    def __le__(self, o):
        return bool(self.stat <= o.stat)

    def __ge__(self, o):
        return bool(self.stat >= o.stat)

    def growth_justified(self, cluster, k):
        return sym.fresh_bool("growth justified")


class Boom(Exception):
    pass


def world(v, scene):
    """The classes and settings an extraction works with; scene: which part of it is looked at."""
    from diffpy.srmise import peakextraction as pem
    S = type("S", (), {})()
    S.v, S.scene, S.M = v, scene, pem
    v.p.state["ghost"] = S
    L = v.int("points", 1)
    S.X, S.Yall, S.E = v.array("x", L), v.array("y", L), v.array("dy", L)
    v.assume(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < L), S.X.at(i) < S.X.at(j))))
    S.lo, S.hi = v.int("lo", 0), v.int("hi", 0)
    v.assume(And(S.lo < S.hi, S.hi <= L))
    S.n = arr.simp(S.hi - S.lo)
    S.bl, S.ip = Bl(), None
    S.xat = lambda i: S.X.at(num(i) + S.lo)
    S.index = fun("index", sym.R, sym.I)
    S.data = None
    S.bl0 = None

    class IP(Value):
        def copy(self):
            c = IP.__new__(IP)
            c.f, c.root = self.f, self
            return c
    S.ip = IP("initial")
    S.ip.__dict__["root"] = S.ip
    S.IP = IP

    class Tracer(Stub):
        def __init__(self):
            self.call, self.recursion = v.int("calls", 0), v.int("level", 0)
            self.start = (self.call, self.recursion)
            self.emitted = 0
            v.assume(Implies(self.call == 0, self.recursion == 0))

        def pushc(self):
            # the trace starts anew
            self.recursion = sym.ite(self.call == 0, num(0), self.recursion)
            self.call = self.call + 1
            return self.call

        def popc(self):
            self.call = self.call - 1
            return self.call

        def pushr(self):
            self.recursion = self.recursion + 1
            return self.recursion

        def popr(self):
            self.recursion = self.recursion - 1
            return self.recursion

        def emit(self, *clusters, **k):
            v.prove("every step is traced at the level of this extraction", And(num(self.recursion) == S.tracer.start[1] + 1, num(self.call) == S.tracer.start[0] + 1))
            got = clusters[0].items if len(clusters) == 1 and hasattr(clusters[0], "items") else clusters
            v.prove("all clusters are traced", num(got.vc_len() if hasattr(got, "vc_len") else len(got)) == S.C.n)
            self.emitted += 1
    S.tracer = Tracer()
    log = Stub()
    log.__dict__["tracer"] = S.tracer
    v.patch(pem, "srmiselog", log)

    class Crit(Stub):
        def minpoints(self, npars):
            return v.int("minpoints", 1)
    S.crit = Crit
    S.pf = [type("PF", (Stub,), {"npars": 3})(), type("PF", (Stub,), {"npars": 4})()]
    S.cres = v.real("cres", 0)
    S.C = Clusters(S)

    # --- model clusters
    class MC(Stub):
        def __init__(self, model, *a, **k):
            self.added, self.near = None, None
            if isinstance(model, MC):
                o = model
                self.__dict__.update(lo=o.lo, hi=o.hi, r_data=o.r_data, y_data=o.y_data, y_error=o.y_error, error_method=o.error_method, peak_funcs=o.peak_funcs)
                self.baseline = None if o.baseline is None else o.baseline.copy()
                self._model, self.M, self.border, self.added = o.model.copy(), o.M, o.border, o.added
                if self.border is None and S.phase == "step":
                    # a copy of the cluster that reached the end of the data
                    self.border = S.xat(S.C.p)
                return
            names = ("baseline", "r_data", "y_data", "y_error", "slice", "error_method", "peak_funcs")
            k = dict(zip(names, a), **k)
            self.baseline, self.r_data, self.y_data, self.y_error = k["baseline"], k["r_data"], k["y_data"], k["y_error"]
            self.error_method, self.peak_funcs = k["error_method"], k["peak_funcs"]
            s = k["slice"]
            if s is None:
                s = Slice(0, self.r_data.vc_len())
            if not isinstance(s, Slice) or s.step not in (None, 1):
                raise Unsupported("strided slice")
            self.lo, self.hi = num(0 if s.start is None else s.start), num(s.stop)
            self.M, self.border = None, None
            if model is None:
                self._model = Group([])
            elif isinstance(model, Group):
                self._model, self.near = model, model
            else:
                self._model = model

        @property
        def model(self):
            if self._model is None:
                self._model = self.M = Model(S)
            if isinstance(self._model, (Model, Group)):
                self._model.of = self
            return self._model

        @model.setter
        def model(self, m):
            self._model = m

        @property
        def slice(self):
            return Slice(self.lo, self.hi)

        def changed(self):
            if S.scene == "failure":
                raise Boom()

        def fit(self, justify=False, ntrials=0, fitbaseline=False, estimate=True, cov=None, cov_format="default_output"):
            self.changed()
            if fitbaseline:
                v.prove("the baseline is fitted at the end of the top level only", And(S.phase == "end", S.depth == 1) if S.phase == "end" else False)
                v.prove("the baseline fitted is not the one that was set", self.baseline is not S.bl)
                S.log.append(("fit", self, cov))
            self._model = None
            return None

        def contingent_fit(self, minpoints, growth):
            return self.fit(True)

        def change_slice(self, s):
            raise Unsupported("slice change outside the list")

        def reduce_to(self, x, y):
            self.changed()
            self._model = None

        def quality(self, evaluator=None, **k):
            if "_qual" not in self.__dict__ or self._qual[0] is not self.model:
                self.__dict__["_qual"] = (self.model, Qual(v.real("quality")))
            return self._qual[1]

        def augment(self, source):
            self.changed()
            rec = getattr(source, "source_rec", None) if isinstance(source, MC) else None
            v.prove("a model is augmented with the result of a recursion", rec is not None)
            if rec is not None:
                same_residual(S, rec, self)
            self._model = None

        def replacepeaks(self, peaks, delslice=None):
            if delslice is not None:
                raise Unsupported("an edit that deletes peaks")
            parts(S, self, self._model, peaks)
            self.added = peaks

        def addexternalpeaks(self, peaks):
            v.prove("the initial peaks are put back", isinstance(peaks, IP) and peaks.root is S.ip)
            S.log.append(("external", self))
            self._model = None

        def prune(self):
            self.changed()
            S.log.append(("prune", self))
            self._model = None

        @staticmethod
        def join_adjacent(a, b):
            v.prove("clusters joined share their data", And(*[getattr(a, k) is getattr(b, k) for k in ("r_data", "y_data", "y_error")]) if all(getattr(a, k) is getattr(b, k) for k in ("r_data", "y_data", "y_error")) else False)
            v.prove("clusters joined are neighbours", Or(a.hi == b.lo, b.hi == a.lo))
            c = MC(None, a.baseline, a.r_data, a.y_data, a.y_error, Slice(sym.ite(a.lo < b.lo, a.lo, b.lo), sym.ite(a.lo < b.lo, b.hi, a.hi)), a.error_method, a.peak_funcs)
            c._model = c.M = Model(S)
            c.border = num(0.5) * (S.xat(sym.ite(a.lo < b.lo, a.hi, b.hi) - 1) + S.xat(sym.ite(a.lo < b.lo, b.lo, a.lo)))
            n, pos = c.M.n, c.M.pos
            between = And(n >= 2, pos(0) < c.border, c.border <= pos(n - 1))
            v.assume(between if S.two else Not(between))
            c.peak_funcs = a.peak_funcs
            return c
    S.MC = MC
    v.patch(pem, "ModelCluster", MC)
    v.patch(pem, "Peaks", Group)
    v.patch(pem, "ModelCovariance", type("Cov", (Stub,), {}))
    v.patch(pem, "DataClusters", lambda x, y, res: S.C.start(x, y, res))

    # --- recursion
    PEreal = pem.PeakExtraction

    class Rec(Stub):
        def __init__(self, newvars=[]):
            self.vars, self.data, self.extracted = {}, None, None

        def setdata(self, x, y, dx=None, dy=None):
            self.data = (x, y, dx, dy)

        def setvars(self, quiet=False, **k):
            self.vars.update(k)

        def extract_single(self, recursion_depth=1):
            v.cover("recursion")
            v.prove("recursion goes one level deeper", num(recursion_depth) == S.depth + 1)
            v.prove("there are at most three levels", num(recursion_depth) <= 3)
            k = self.vars
            v.prove("recursion uses the baseline", isinstance(k.get("baseline"), Bl) and k["baseline"].root is S.bl)
            v.prove("recursion uses the cluster resolution", num(k["cres"]) == S.cres if k.get("cres") is not None else False)
            v.prove("recursion uses the peak functions", isinstance(k.get("pf"), (list, tuple)) and len(k["pf"]) == 2 and all(a is b for a, b in zip(k["pf"], S.pf)))
            v.prove("recursion uses the criterion", k.get("error_method") is S.crit)
            v.prove("recursion has no other settings", set(k) <= {"baseline", "cres", "pf", "error_method"} and self.data is not None)
            x = self.data[0]
            self.extracted = MC(None, Bl("rec"), x, self.data[1], self.data[3], None, S.crit, S.pf)
            self.extracted._model = Model(S)
            self.extracted.__dict__["source_rec"] = self
    v.patch(pem, "PeakExtraction", Rec)

    pe = PEreal.__new__(PEreal)
    pe.x, pe.y, pe.dx, pe.dy = S.X, S.Yall, None, None
    pe.effective_dy, pe.cres, pe.pf, pe.baseline, pe.error_method, pe.initial_peaks = S.E, S.cres, S.pf, S.bl, S.crit, S.ip
    pe.rng = [v.real("from"), v.real("to")]
    pe.extracted, pe.extraction_type = Stub(), "before"
    S.order = []
    pe.__dict__["clearcalc"] = lambda: (S.order.append("clear"), pe.__dict__.update(extracted=None, extraction_type=None))[0]
    pe.__dict__["defaultvars"] = lambda *a: S.order.append("defaults")
    pe.__dict__["getrangeslice"] = lambda: slice(S.lo, S.hi)
    S.list = None
    S.pe, S.phase, S.log = pe, "start", []
    S.depth = v.int("depth", 1, 4)
    return S


def same_residual(S, rec, mc):
    """The data searched recursively are what the model of mc leaves."""
    v = S.v
    x, y, dx, dy = rec.data
    x, y, dy = arr.asarr(x), arr.asarr(y), arr.asarr(dy)
    n = num(mc.r_data.vc_len())
    q = v.int("q", 0)
    m = mc.model
    v.prove("recursion: as many points", And(num(x.vc_len()) == n, num(y.vc_len()) == n, num(dy.vc_len()) == n))
    # the residual of the model as it was when searched: recursion changes no model
    left = arr.asarr(m.value(mc.r_data))
    v.prove("recursion: the same coordinates and uncertainties", Implies(q < n, And(x.at(q) == mc.r_data.at(q), dy.at(q) == mc.y_error.at(q))))
    v.prove("recursion: the residual of the model", Implies(q < n, y.at(q) == mc.y_data.at(q) - left.at(q)))


class Clusters(Stub):
    """The clustering iterator (contracts of C01 and C03)."""

    def __init__(self, S):
        self.S, self.made = S, False

    def start(self, x, y, res):
        S, v = self.S, self.S.v
        v.prove("the data of the range are clustered once", not self.made)
        self.made = True
        x, y = arr.asarr(x), arr.asarr(y)
        q = v.int("q", 0)
        v.prove("clustered: the points of the range", And(num(x.vc_len()) == S.n, num(y.vc_len()) == S.n, Implies(q < S.n, x.at(q) == S.xat(q))))
        v.prove("clustered: data without baseline and initial peaks", Implies(q < S.n, y.at(q) == S.Yall.at(q + S.lo) - S.bl.at(S.xat(q)) - S.ip.at(S.xat(q))))
        v.prove("clustered at the resolution set", num(res) == S.cres)
        self.x, self.y, self.res = x, y, res
        top = v.int("highest", 0)
        v.assume(top < S.n)
        self.set(num(1), lambda i: top, lambda i: top)
        self.steps = v.int("steps", 0)
        return self

    def set(self, n, lo, hi):
        self.n, self.lo, self.hi = num(n), lo, hi
        self.ver = object()

    def any(self, gaps=True):
        """Any valid state."""
        S, v = self.S, self.S.v
        n = v.int("clusters", 1)
        lo, hi = fun("first", sym.I, sym.I), fun("last", sym.I, sym.I)
        g = 1 if gaps else 0
        with sym.spec_mode():
            p = core.path()
            p.assume(bt(forall(1, lambda i: Implies(And(0 <= i, i < n), And(0 <= lo(i), lo(i) <= hi(i), hi(i) < S.n)))))
            p.assume(bt(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), hi(i) + g < lo(j)))))
        self.set(n, lo, hi)

    # iteration
    def vc_len(self):
        return self.steps

    symlen = vc_len

    def vc_item(self, k):
        """The next point is clustered."""
        S, v = self.S, self.S.v
        n, lo, hi = self.n, self.lo, self.hi
        p = self.p = v.int("point", 0)
        v.assume(p < S.n)
        v.assume(forall(1, lambda i: Implies(And(0 <= i, i < n), Or(p < lo(i), p > hi(i)))))
        c = self.c = v.int("cluster", 0)
        if S.scene not in ("join", "failure") and bool(v.bool("grown")):
            v.cover("grown")
            v.assume(c < n)
            if bool(v.bool("to the left")):
                v.assume(And(p < lo(c), Implies(c > 0, hi(c - 1) < p)))
                self.set(n, lambda i: sym.ite(num(i) == c, p, lo(i)), hi)
            else:
                v.assume(And(p > hi(c), Implies(c < n - 1, p < lo(c + 1))))
                self.set(n, lo, lambda i: sym.ite(num(i) == c, p, hi(i)))
        else:
            v.cover("new")
            v.assume(c <= n)
            v.assume(And(Implies(c > 0, hi(c - 1) < p), Implies(c < n, p < lo(c))))
            old = lambda f: lambda i: sym.ite(num(i) < c, f(i), sym.ite(num(i) == c, p, f(num(i) - 1)))
            self.set(n + 1, old(lo), old(hi))
        n2, lo2, hi2 = self.n, self.lo, self.hi
        with sym.spec_mode():
            core.path().assume(bt(forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n2), hi2(i) < lo2(j)))))
            core.path().assume(bt(forall(1, lambda i: Implies(And(0 <= i, i < n2), And(0 <= lo2(i), lo2(i) <= hi2(i), hi2(i) < S.n)))))
        self.lastpoint_idx, self.lastcluster_idx = p, c
        if S.scene == "boundary":
            v.assume(Or(p == 0, p == S.n - 1))
        else:
            # the state after is arbitrary anyway: what is done at the ends of the data is another contract
            self.lastpoint_idx = -5
        S.phase = "step"
        return self

    @property
    def clusters(self):
        n, lo, hi = self.n, self.lo, self.hi
        return Arr((n, 2), lambda i, j: sym.ite(num(j) == 0, lo(num(i)), hi(num(i))) if isinstance(j, SNum) else (lo if int(j) == 0 else hi)(num(i)), "i")

    def cut(self, i):
        i = num(i)
        return slice(self.lo(i), self.hi(i) + 1)

    def find_adjacent_clusters(self):
        S, v = self.S, self.S.v
        n, lo, hi, c = self.n, self.lo, self.hi, self.c
        if S.scene == "join":
            # any run of adjacent clusters: see the havoc of the joining loop
            a, m = self.a, self.m = v.int("run", 0), v.int("adjacent", 2, 4)
            v.assume(a + m <= n)
            return Arr((m,), lambda i: a + i, "i")
        left, right = v.bool("touches left"), v.bool("touches right")
        v.assume(left == And(c > 0, hi(c - 1) + 1 == lo(c)))
        v.assume(right == And(c < n - 1, hi(c) + 1 == lo(c + 1)))
        a = self.a = sym.ite(left, c - 1, c)
        b = sym.ite(right, c + 1, c)
        m = self.m = v.int("adjacent", 0, 4)
        if S.scene == "after":
            v.assume(m == (b - a + 1 if bool(Or(left, right)) else 0))
        else:
            v.assume(m == sym.ite(Or(left, right), b - a + 1, 0))
        return Arr((m,), lambda i: a + i, "i")

    def combine_clusters(self, combine=None):
        S, v = self.S, self.S.v
        n, lo, hi, a, m = self.n, self.lo, self.hi, self.a, self.m
        ok = isinstance(combine, list) and len(combine) == 1
        v.prove("one run of clusters is merged", ok)
        if ok:
            run = arr.asarr(combine[0])
            q = v.int("q", 0)
            v.prove("the run merged is the adjacent one", And(num(run.vc_len()) == m, Implies(q < m, run.at(q) == a + q)))
            v.prove("a run merged has clusters", m >= 2)
        # C02: the run is one cluster, the others are as before
        new, end = fun("first", sym.I, sym.I), fun("last", sym.I, sym.I)
        v.assume(forall(1, lambda i: Implies(And(0 <= i, i < n - m + 1), And(new(i) == lo(sym.ite(num(i) <= a, num(i), num(i) + m - 1)), end(i) == hi(sym.ite(num(i) < a, num(i), num(i) + m - 1))))))
        self.set(n - m + 1, new, end)
        L = S.list
        if L is not None:
            for name, part in (("before", lambda i: i < a), ("joined", lambda i: i == a), ("after", lambda i: i > a)):
                v.prove("merging clusters merges the model clusters: " + name, forall(1, lambda i: Implies(And(0 <= i, i < n - m + 1, part(i)), And(L.lo(i) == new(i), L.hi(i) == end(i) + 1))), via=cvc5_first)


class MList(Stub):
    """The list of model clusters of one extraction: their slices; they share everything else (checked when put in)."""

    def __init__(self, S, n, lo, hi):
        self.S, self.n, self.lo, self.hi, self.ver = S, num(n), lo, hi, 0

    def vc_len(self):
        return self.n

    symlen = vc_len

    def index(self, i):
        i = num(i)
        v = self.S.v
        v.prove("index of a model cluster in range", And(-self.n <= i, i < self.n))
        return sym.ite(i < 0, i + self.n, i)

    def handle(self, i):
        S, L = self.S, self
        h = S.MC.__new__(S.MC)
        ver = L.ver

        def change(s):
            if L.ver != ver:
                raise Unsupported("a model cluster held over a change of the list")
            lo, hi = L.lo, L.hi
            h.lo, h.hi = num(s.start), num(s.stop)
            L.lo = lambda j: sym.ite(num(j) == i, num(s.start), lo(j))
            L.hi = lambda j: sym.ite(num(j) == i, num(s.stop), hi(j))
        h.__dict__.update(lo=L.lo(i), hi=L.hi(i), r_data=S.data[0], y_data=S.data[1], y_error=S.data[2], baseline=S.bl0, error_method=S.crit, peak_funcs=S.pf,
                          added=None, near=None, M=None, border=None, _model=None, change_slice=change, item=(L, i))
        return h

    def vc_item(self, i):
        return self.handle(num(i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("a part of the list")
        return self.handle(self.index(i))

    def __setitem__(self, i, mc):
        if isinstance(i, slice):
            raise Unsupported("a part of the list")
        i = self.index(i)
        member(self.S, mc)
        kept(self.S, mc)
        lo, hi = self.lo, self.hi
        self.lo, self.hi = (lambda j: sym.ite(num(j) == i, mc.lo, lo(j))), (lambda j: sym.ite(num(j) == i, mc.hi, hi(j)))
        self.ver += 1

    def __delitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("a part of the list")
        i = self.index(i)
        lo, hi = self.lo, self.hi
        self.n = self.n - 1
        self.lo, self.hi = (lambda j: lo(sym.ite(num(j) < i, num(j), num(j) + 1))), (lambda j: hi(sym.ite(num(j) < i, num(j), num(j) + 1)))
        self.ver += 1

    def pop(self, i=-1):
        h = self[i]
        del self[i]
        return h

    def insert(self, i, mc):
        i, v = num(i), self.S.v
        v.prove("a model cluster is inserted in range", And(0 <= i, i <= self.n))
        member(self.S, mc)
        lo, hi = self.lo, self.hi
        self.n = self.n + 1
        pos = lambda f, x: lambda j: sym.ite(num(j) < i, f(num(j)), sym.ite(num(j) == i, x, f(num(j) - 1)))
        self.lo, self.hi = pos(lo, mc.lo), pos(hi, mc.hi)
        self.ver += 1


def member(S, mc):
    """What every member of the list has."""
    v = S.v
    v.prove("a model cluster of the list is one", isinstance(mc, S.MC))
    if S.data is None:
        S.data, S.bl0 = (mc.r_data, mc.y_data, mc.y_error), mc.baseline
        x, y, e = [arr.asarr(a) for a in S.data]
        q = v.int("q", 0)
        v.prove("model clusters have the points of the range", And(num(x.vc_len()) == S.n, num(y.vc_len()) == S.n, num(e.vc_len()) == S.n,
                Implies(q < S.n, And(x.at(q) == S.xat(q), e.at(q) == S.E.at(q + S.lo)))))
        v.prove("model clusters have the data without initial peaks", Implies(q < S.n, y.at(q) == S.Yall.at(q + S.lo) - S.ip.at(S.xat(q))))
    v.prove("model clusters share their data", all(a is b for a, b in zip(S.data, (mc.r_data, mc.y_data, mc.y_error))))
    v.prove("model clusters have the baseline", isinstance(mc.baseline, Bl) and mc.baseline.root is S.bl)
    v.prove("model clusters use the criterion", mc.error_method is S.crit)
    v.prove("model clusters use the peak functions", isinstance(mc.peak_funcs, (list, tuple)) and len(mc.peak_funcs) == 2 and all(any(a is b for b in S.pf) for a in mc.peak_funcs))


def first(S, mclusters):
    """The list before the loop."""
    if isinstance(mclusters, MList):
        return mclusters
    if not isinstance(mclusters, list):
        raise Unsupported("model clusters not in a list")
    if S.data is None:
        for mc in mclusters:
            member(S, mc)
    los, his = [m.lo for m in mclusters], [m.hi for m in mclusters]
    at = lambda xs: lambda j: arr.pick(xs, num(j)) if len(xs) > 1 else xs[0]
    return MList(S, len(mclusters), at(los), at(his))


def matching(S, L):
    C = S.C
    n = C.n
    return [("one model cluster per data cluster", L.n == n),
            ("in the same order, over the same points", forall(1, lambda i: Implies(And(0 <= i, i < n), And(L.lo(i) == C.lo(i), L.hi(i) == C.hi(i) + 1))))]


def cvc5_first(path, phi):
    if z3.is_quantifier(phi):
        # negated with constants for the bound variables
        vs = [z3.FreshConst(phi.var_sort(i), "sk") for i in range(phi.num_vars())]
        neg = z3.Not(z3.substitute_vars(phi.body(), *reversed(vs)))
        if core.cvc5_entails(list(path.pc) + [neg], path.ctx.timeout_ms):
            return "discharged", "cvc5", None, ""
    return core.discharge(path.pc, phi, path.ctx.timeout_ms)


def plainly(v, name, goal):
    """prove from what is known without quantifiers, if that is enough."""
    def via(path, phi):
        r = core.discharge([f for f in path.pc if not core.has_quant([f])], phi, path.ctx.timeout_ms)
        return r if r[0] == "discharged" else core.discharge(path.pc, phi, path.ctx.timeout_ms)
    v.prove(name, goal, via=via)


def kept(S, mc):
    """A model cluster put back into the list has been refitted at its border."""
    S.v.prove("a model cluster put back has the peaks at its border refitted", mc.border is not None and mc.added is not None)


def parts(S, mc, others, refitted):
    """The peaks of mc are replaced: the nearest on either side of the border by refitted ones, all others stay."""
    v = S.v
    adj = refitted.__dict__.get("of") if isinstance(refitted, (Model, Group)) else None
    v.prove("the peaks put in are those of a refitted neighbourhood", adj is not None and adj.near is not None and mc.border is not None)
    if adj is None or adj.near is None or mc.border is None:
        return
    M, near, b = mc.M, adj.near, mc.border
    if M is None or not isinstance(near.items, list) or not isinstance(others, Group):
        raise Unsupported("peaks divided in another way")
    v.prove("the peaks refitted are peaks of this model cluster", all(isinstance(p, Peak) and p.M is M for p in near.items))
    n, pos = num(M.n), M.pos
    js = [p.j for p in near.items]
    j = v.int("j", 0)
    v.prove("the peaks refitted are exactly the nearest on either side of the border", And(*[And(0 <= i, i < n) for i in js], Implies(j < n, Or(*[i == j for i in js]) == Or(
        And(pos(j) < b, Or(j == n - 1, pos(j + 1) >= b)), And(pos(j) >= b, Or(j == 0, pos(j - 1) < b))))) if js else n == 0)
    m = num(others.n)
    u, w = v.int("u", 0), v.int("w", 0)
    plainly(v, "as many other peaks stay as there are", m == n - len(js))
    if not (isinstance(others.items, list) and not others.items):
        ok = core.under(bt(And(0 <= u, u < w, w < m)))
        with ok:
            pu, pw = others.vc_item(u), others.vc_item(w)
            mine = isinstance(pu, Peak) and isinstance(pw, Peak) and pu.M is M
        v.prove("the other peaks are peaks of this model cluster", mine)
        if mine:
            plainly(v, "the other peaks are different ones", Implies(And(u < w, w < m), pu.j < pw.j))
            plainly(v, "the other peaks are not refitted", Implies(And(u < w, w < m), And(*[And(0 <= p.j, p.j < n, *[p.j != i for i in js]) for p in (pu, pw)])))
        only = core.under(bt(And(u == 0, m == 1)))
        with only:
            pu = others.vc_item(num(0))
        plainly(v, "the only other peak is not refitted", Implies(m == 1, And(isinstance(pu, Peak) and pu.M is M, 0 <= pu.j, pu.j < n, *[pu.j != i for i in js])) if isinstance(pu, Peak) else False)
    # the data they are refitted to
    x, y, e = [arr.asarr(a) for a in (adj.r_data, adj.y_data, adj.y_error)]
    size = num(x.vc_len())
    v.prove("the neighbourhood has points", And(size >= 1, num(y.vc_len()) == size, num(e.vc_len()) == size, adj.lo == 0, adj.hi == size))
    L = num(S.X.vc_len())
    v.assume(forall(1, lambda i: Implies(And(0 <= i, i < L), S.index(S.X.at(i)) == i - S.lo)))
    left = S.index(x.at(0))
    q = v.int("q", 0)
    Y = arr.asarr(S.data[1])
    v.prove("the neighbourhood is a range of the data", Implies(q < size, And(0 <= left, left + q < S.n, x.at(q) == S.xat(left + q), e.at(q) == S.E.at(S.lo + left + q))))
    v.prove("refitted to the data without the other peaks", Implies(q < size, y.at(q) == Y.at(left + q) - others.v.at(S.xat(left + q))))
    lo_ok = hi_ok = num(0) == 0
    if js:
        a = js[0]
        c = js[-1]
        lo_ok, hi_ok = Implies(a >= 1, S.xat(q) >= pos(a - 1)), Implies(c <= n - 2, S.xat(q) <= pos(c + 1))
    v.prove("the neighbourhood reaches to the next peaks or the ends of the cluster", Implies(And(mc.lo <= q, q < mc.hi, lo_ok, hi_ok), And(left <= q, q < left + size)))
    v.prove("the baseline is in place while refitting", isinstance(adj.baseline, Bl) and adj.baseline.root is S.bl)
    v.cover("refitted")


def loops():
    def clusters_list(env):
        S = env.g
        n = S.v.int("model clusters", 0)
        S.list = MList(S, n, fun("from", sym.I, sym.I), fun("to", sym.I, sym.I))
        return S.list

    def inv(env):
        S = env.g
        L = first(S, env.mclusters)
        C = S.C
        return matching(S, L) + [
            ("no two clusters touch", forall(1, lambda i: Implies(And(0 <= i, i < C.n - 1), C.hi(i) + 1 < C.lo(i + 1)))),
            ("the trace is at this level", And(S.tracer.call == S.tracer.start[0] + 1, S.tracer.recursion == S.tracer.start[1] + 1))]

    def havoc(env):
        S = env.g
        S.C.any()
        v = S.v
        if env.loop.goes_on:
            if S.scene in ("setup",):
                v.assume(num(0) == 1)
            S.phase = "before"
        else:
            if S.scene not in ("setup", "failure"):
                v.assume(num(0) == 1)
            S.phase = "end"
            own, C = fun("own", sym.I, sym.I), S.C
            with sym.spec_mode():
                cov = lambda p: And(0 <= own(p), own(p) < C.n, C.lo(own(p)) <= p, p <= C.hi(own(p)))
                core.path().assume(bt(forall(1, lambda p: Implies(And(0 <= p, p < S.n), cov(p)))))
                core.path().assume(bt(cov(num(0))))
                core.path().assume(bt(Implies(C.hi(0) + 1 < S.n, cov(C.hi(0) + 1))))
    main = LoopSpec(inv, vars={"mclusters": clusters_list, "stepcounter": "int"}, havoc=havoc)

    def fits_inv(env):
        return matching(env.g, env.mclusters)
    fits = LoopSpec(fits_inv)

    def join_inv(env):
        S, k = env.g, num(env.k)
        L, C = env.mclusters, S.C
        if isinstance(env.k, int) and env.k == 0:
            S.phase = "join"
            return matching(S, L)
        a, m, n = C.a, C.m, C.n
        top = a + m - 1 - k
        return [("one fewer for each joined", L.n == n - k),
                ("those before are unchanged", forall(1, lambda i: Implies(And(0 <= i, i < n - k, Or(i < top, m == 0)), And(L.lo(i) == C.lo(i), L.hi(i) == C.hi(i) + 1)))),
                ("the joined one covers all of its parts", Implies(m > 0, And(L.lo(top) == C.lo(top), L.hi(top) == C.hi(a + m - 1) + 1))),
                ("those after move up", forall(1, lambda i: Implies(And(top < i, i < n - k, m > 0), And(L.lo(i) == C.lo(i + k), L.hi(i) == C.hi(i + k) + 1))))]

    def join_havoc(env):
        S = env.g
        v, C = S.v, S.C
        S.phase = "join"
        if S.scene == "boundary" or (env.loop.goes_on and S.scene == "after") or (not env.loop.goes_on and S.scene == "join"):
            v.assume(num(0) == 1)
        if S.scene == "join":
            # any clusters of which a run of m is adjacent
            C.any(gaps=False)
            a, m = C.a, C.m
            v.assume(And(a + m <= C.n, env.k < m - 1, *[Implies(num(i) < m - 1, C.hi(a + i) + 1 == C.lo(a + i + 1)) for i in range(2)]))
    join = LoopSpec(join_inv, vars={"mclusters": clusters_list}, havoc=join_havoc)
    f = PE + "_extract_single"
    return {(f, "for", 0): main, (f, "for", 1): fits, (f, "for", 2): join}


def run(v, S):
    if S.scene == "setup" and bool(v.bool("called without a depth")):
        v.assume(S.depth == 1)
        return v.call(S.pe.extract_single)
    return v.call(S.pe.extract_single, S.depth) if S.scene in ("setup", "failure") else v.must("a step", S.pe.extract_single, S.depth)


def kept_settings(v, S):
    pe = S.pe
    v.prove("the settings are untouched", pe.baseline is S.bl and pe.initial_peaks is S.ip and pe.pf is S.pf and pe.x is S.X and pe.y is S.Yall and pe.effective_dy is S.E and pe.error_method is S.crit)
    v.prove("the trace counters are as they were", And(S.tracer.call == S.tracer.start[0], S.tracer.recursion == S.tracer.start[1]))


FN = [PE + "extract_single", PE + "_extract_single"]


@contract("C31", "start and end", functions=FN, loops=loops)
def start_end(v):
    S = world(v, "setup")
    v.expect_covers("top level", "below")
    r = run(v, S)
    v.prove("extraction succeeds", r.ok)
    if not r.ok:
        return
    pe = S.pe
    kept_settings(v, S)
    mc = pe.extracted
    v.prove("the result is a model cluster", isinstance(mc, S.MC))
    v.prove("the settings were completed first", "defaults" in S.order)
    v.prove("the result covers the whole range", And(mc.lo == 0, mc.hi == S.n, S.C.n == 1))
    v.prove("the kind of extraction is recorded", pe.extraction_type == "extract_single")
    v.prove("initial peaks are put back before pruning", [l[0] for l in S.log[:2]] == ["external", "prune"] and S.log[0][1].item[1] is not None)
    if bool(S.depth == 1):
        v.cover("top level")
        v.prove("the baseline is fitted last", len(S.log) == 3 and S.log[2][0] == "fit")
        v.prove("the covariance is returned", len(S.log) == 3 and r.value is S.log[2][2] and isinstance(r.value, S.M.ModelCovariance))
    else:
        v.cover("below")
        v.prove("below the top level the baseline is not fitted", len(S.log) == 2)


@contract("C31", "the end of the data is reached", functions=FN, loops=loops, budget=300)
def a_step(v):
    S = world(v, "boundary")
    v.expect_covers("grown", "new", "recursion", "refitted")
    run(v, S)


@contract("C31", "neighbours are joined between two peaks", functions=FN, loops=loops, budget=300)
def joining(v):
    S = world(v, "join")
    S.two = True
    v.expect_covers("recursion", "refitted")
    run(v, S)


@contract("C31", "neighbours are joined beside a peak", functions=FN, loops=loops, budget=300)
def joining_beside(v):
    S = world(v, "join")
    S.two = False
    v.expect_covers("recursion", "refitted")
    run(v, S)


@contract("C31", "after a step", functions=FN, loops=loops)
def after(v):
    S = world(v, "after")
    v.expect_covers("grown", "new")
    run(v, S)


@contract("C31", "failure", functions=FN, loops=loops)
def failure(v):
    from ded import core as c
    S = world(v, "failure")
    v.expect_covers("failed")
    r = run(v, S)
    if r.ok or not isinstance(r.exc, Boom):
        v.assume(num(0) == 1)
    v.cover("failed")
    kept_settings(v, S)
