"""Python sequences of symbolic length."""
import z3

from . import arr, core, sym
from .arr import Arr, dim, dim_is, ite_any, simp
from .core import Unsupported, path
from .sym import And, Implies, Not, SBool, SNum, Sym, bt, num


class Opt(Sym):
    """A value that is None unless `present`."""

    def __init__(self, present, value):
        self.present, self.value = present, value


class SymList(Sym):
    """list of symbolic length; element i is fn(i)."""

    def __init__(self, n, fn, label=None):
        self.n = dim(n)
        self.fn = fn
        self.ver = 0
        self.label = label
        self.parts = None
        self.base = None  # (lo, fn): this list is positions lo, lo+1, ... of another one

    def parts_(self):
        """Pieces of a concatenation as (lo, hi, fn): positions lo <= j < hi of fn."""
        if self.parts:
            return self.parts
        if self.base is not None:
            return [(self.base[0], num(self.base[0]) + self.n, self.base[1])]
        return [(0, self.n, self.fn)]

    def symlen(self):
        return self.n

    vc_len = symlen

    def vc_item(self, k):
        return self.fn(k)

    def __len__(self):
        if isinstance(self.n, SNum):
            raise Unsupported("native len() of a list of symbolic length")
        return self.n

    def __iter__(self):
        if isinstance(self.n, SNum):
            raise Unsupported("native iteration over a list of symbolic length")
        return iter([self.fn(i) for i in range(self.n)])

    def __bool__(self):
        return bool(num(self.n) > 0) if isinstance(self.n, SNum) else self.n > 0

    def _idx(self, i):
        return Arr((self.n,), None)._resolve_int(i, self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, step, cnt = arr.slice_bounds(i, self.n)
            f = self.fn
            r = SymList(cnt, lambda j: f(arr._affine(lo, step, j)))
            if step == 1:
                r.base = (lo, f) if self.base is None else (num(lo) + self.base[0], self.base[1])
            return r
        if isinstance(i, Arr) and i.ndim == 0:
            i = i.as_scalar()
        if not (isinstance(i, (int, SNum)) or hasattr(i, "__index__")):
            raise TypeError("list indices must be integers or slices")
        try:
            i = self._idx(i)
        except IndexError:
            raise IndexError("list index out of range")
        return self.fn(i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i.stop is None and i.step in (None, 1) and i.start is not None and core.path().valid(bt(num(i.start) == self.n)):
                return self.extend(v)  # replacing the empty tail
            raise Unsupported("slice assignment to a symbolic list")
        i = self._idx(i)
        old = self.fn
        self.parts = self.base = None
        self.fn = lambda j: ite_any(_c(j, i), v, old(j))
        self.ver += 1

    def __delitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice deletion from a symbolic list")
        i = self._idx(i)
        old = self.fn
        self.parts = self.base = None
        self.fn = lambda j: old(j) if bool_(num(j) < i) else old(num(j) + 1)
        self.n = dim(simp(num(self.n) - 1))
        self.ver += 1

    def append(self, v):
        old, n = self.fn, self.n
        self.parts = self.base = None
        self.fn = lambda j: ite_any(_c(j, n), v, old(j))
        self.n = dim(simp(num(n) + 1))
        self.ver += 1

    def extend(self, vs):
        o = as_symlist(vs)
        of = o.fn
        old, n = self.fn, self.n
        parts = self.parts_() + o.parts_()
        self.parts = [q for q in parts if isinstance(q[1], SNum) or isinstance(q[0], SNum) or q[1] > q[0]]
        self.base = None
        if not isinstance(o.n, SNum) and o.n == 0:
            return
        if not isinstance(n, SNum) and n == 0:
            self.fn = of
        else:
            self.fn = lambda j: ite_any(_lt(j, n), _lazy(old, j), _lazy2(of, j, n)) if not isinstance(j, int) or isinstance(n, SNum) else (old(j) if j < n else of(j - n))
        self.n = dim(simp(num(n) + o.n))
        self.ver += 1

    def __iadd__(self, o):
        self.extend(o)
        return self

    def copy(self):
        return SymList(self.n, self.fn)

    __copy__ = copy

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        r = as_symlist(o).copy()
        r.extend(self)
        return r

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def insert(self, i, v):
        raise Unsupported("insert into a symbolic list")

    def reverse(self):
        f, n = self.fn, self.n
        self.parts = self.base = None
        self.fn = lambda j: f(num(n) - 1 - j)
        self.ver += 1

    def sort(self, **k):
        ss = self.__dict__.get("enum_of")
        if ss is None or k or ss[1] != self.ver:
            probe = self.fn(SNum(z3.Int(path().name("probe"))))
            if set(k) - {"key", "reverse"}:
                raise Unsupported("sort of a symbolic list")
            if k or not isinstance(probe, SNum):
                f, key = self.fn, k.get("key")
                o = order(self.n, f if key is None else lambda j: key(f(j)), k.get("reverse", False))
                self.parts = self.base = None
                self.fn = lambda j: f(o(j))
                self.ver += 1
                return
            f, a = self.fn, arr.a_argsort(self.vc_asarr())
            self.parts = self.base = None
            self.fn, self.perm = lambda j: f(a.at(j)), a
            self.ver += 1
            return
        self.fn = ss[0].enumerated(True, self.n).fn
        self.ver += 1

    def __contains__(self, v):
        raise Unsupported("membership in a symbolic list")

    def __eq__(self, o):
        if not isinstance(o, (SymList, list)):
            return False
        o = as_symlist(o)
        if not bool_(num(self.n) == o.n):
            return SBool(z3.BoolVal(False))
        return sym.forall(1, lambda i: Implies(And(0 <= i, i < self.n), _eqv(self.fn(i), o.fn(i))))

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def vc_asarr(self, kind=None):
        if not isinstance(self.n, SNum):
            return arr._from_list([self.fn(i) for i in range(self.n)], kind)
        p = path()
        if not bool(num(self.n) > 0):
            return Arr((0,), lambda i: SNum(z3.RealVal(0)), kind or "f")
        f = self.fn
        probe = z3.Int(p.name("probe"))
        with core.under(z3.And(0 <= probe, probe < sym.t(self.n))):
            e = f(SNum(probe))
        if isinstance(e, Opt):
            p.prove("no None among the elements of an array", sym.bt(sym.forall(1, lambda i: Implies(And(0 <= i, i < self.n), f(i).present))))
            g = f
            f = lambda i: g(i).value  # noqa: E731
            e = e.value
        sh = arr._shape_of(e)
        uniform = True
        for d in sh:
            if isinstance(d, SNum):
                # the same extent for every element?
                dd = d.t
                i = z3.Int(p.name("i"))
                j = z3.Int(p.name("j"))
                u = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sym.t(self.n)), z3.substitute(dd, (probe, i)) == z3.substitute(dd, (probe, z3.IntVal(0)))))
                if not p.branch(u):
                    uniform = False
        if not uniform:
            if kind == "o":
                return Arr((self.n,), lambda i: f(i), "o")
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        sh = tuple(SNum(z3.substitute(d.t, (probe, z3.IntVal(0)))) if isinstance(d, SNum) else d for d in sh)
        k = kind or arr.join_kind(arr._kinds(e))
        r = Arr((self.n,) + tuple(sh), lambda i, *r: arr.coerce(arr._elem(f(i), r), k), k)
        if not sh:
            r.parts = self.parts_()
        return r

    def __repr__(self):
        return "SymList" if core.cur is None else sym.token_for(self)

    __str__ = __repr__


class SymSet(Sym):
    """A set of integers: those in any of the given lists."""

    def __init__(self, parts):
        self.parts = parts

    def __or__(self, o):
        if isinstance(o, (set, frozenset)):
            o = SymSet([as_symlist(sorted(o))] if o else [])
        return SymSet(self.parts + o.parts) if isinstance(o, SymSet) else NotImplemented

    __ror__ = __or__
    union = __or__

    def update(self, o):
        self.parts = (self | (o if isinstance(o, (SymSet, set, frozenset)) else SymSet([as_symlist(o)]))).parts

    def enumerated(self, ordered, n=None):
        """The elements, each once (in increasing order)."""
        arr.trusted("set: its elements, each once; sorted: increasing")
        p = path()
        nm = p.name("el")
        el, rank = z3.Function(nm, sym.I, sym.I), z3.Function(nm + ".rank", sym.I, sym.I)
        if n is None:
            n = SNum(z3.Int(nm + ".n"))
        N = sym.t(num(n))
        ws = [z3.Function(nm + ".in%d" % k, sym.I, sym.I) for k in range(len(self.parts))]
        fns = [(sym.t(num(q.n)), q.fn) for q in self.parts]
        i, j = z3.Int("i!" + nm), z3.Int("j!" + nm)

        def member(q):
            alts = []
            for w, (m, f) in zip(ws, fns):
                c = z3.And(0 <= w(q), w(q) < m)
                if not p.feasible(z3.And(0 <= q, q < N, c)):
                    continue
                with core.under(z3.And(0 <= q, q < N)), core.under(c):
                    alts.append(z3.And(c, sym.t(num(f(SNum(w(q))))) == el(q)))
            return z3.Or(*alts)
        with sym.spec_mode():
            p.assume(N >= 0)
            p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(member(i), rank(el(i)) == i)), patterns=[el(i)]))
            if ordered:
                # strictly increasing integers are at least as far apart as their places
                p.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < N), el(j) - el(i) >= j - i), patterns=[z3.MultiPattern(el(i), el(j))]))
            for m, f in fns:
                with core.under(z3.And(0 <= i, i < m)):
                    x = sym.t(num(f(SNum(i))))
                p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= rank(x), rank(x) < N, el(rank(x)) == x))))
        seen, terms = set(), []

        def at(q):
            q = z3.simplify(sym.t(num(q)))
            if q.get_id() not in seen and not any(x.startswith(("?", "i!", "j!", "probe")) for x in core.symbols(q)):
                seen.add(q.get_id())
                terms.append(q)
                with sym.spec_mode():
                    p.assume(z3.Implies(z3.And(0 <= q, q < N), member(q)))
                    if ordered:
                        p.assume(z3.Implies(z3.And(0 <= q, q < N), el(N - 1) - el(q) >= N - 1 - q))
            return SNum(el(q))
        r = SymList(n, at)
        if ordered:
            at(SNum(N - 1))
        r.keep = q0 = [q.fn for q in self.parts]
        if not ordered:
            r.enum_of = (self, r.ver)
        return r

    def symlen(self):
        return self.enumerated(True).n

    vc_len = symlen

    def _no(self, *a, **k):
        raise Unsupported("operation on a symbolic set")
    vc_item = __and__ = __sub__ = __xor__ = __contains__ = __iter__ = __len__ = add = discard = remove = intersection = difference = _no
    __hash__ = None


def _eqv(a, b):
    r = a == b
    return r if isinstance(r, SBool) else SBool(bt(r))


def _c(j, i):
    c = arr._eq(j, i)
    return c


def _lt(j, n):
    if not isinstance(j, SNum) and not isinstance(n, SNum):
        return j < n
    return bt(num(j) < n)


def bool_(c):
    return c if isinstance(c, bool) else bool(c)


def _lazy(f, j):
    return f(j)


def _lazy2(f, j, n):
    return f(simp(num(j) - n))


def as_symlist(v):
    if isinstance(v, SymList):
        return v
    if isinstance(v, Arr):
        return from_arr(v)
    if hasattr(v, "vc_item"):
        return SymList(v.vc_len(), v.vc_item)
    v = list(v)
    return SymList(len(v), lambda i: arr.pick(v, i))


def from_arr(a):
    s = a.snapshot()
    n = s.symlen()
    if not isinstance(n, SNum):
        return [s._get((i,)) for i in range(n)]
    return SymList(n, lambda i: s._get((i,), checked=False))


class SymRange(Sym):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        if isinstance(step, SNum):
            c = step.concrete()
            if c is None:
                raise Unsupported("symbolic range step")
            step = self.step = int(c)
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        d = num(hi) - lo
        if step == 1 and core.cur is not None and isinstance(simp(d), SNum) and core.cur.valid(bt(d >= 0)):
            n = d
        elif step == 1:
            n = sym.ite(bt(d > 0), d, 0)
        elif step == -1:
            n = sym.ite(bt(d < 0), -d, 0)
        elif step > 0:
            n = sym.ite(bt(d > 0), (d + (step - 1)) // step, 0)
        else:
            n = sym.ite(bt(d < 0), (-d + (-step - 1)) // (-step), 0)
        self.n = dim(simp(num(n)))

    def symlen(self):
        return self.n

    vc_len = symlen

    def vc_item(self, k):
        return simp(num(self.lo) + num(k) * self.step)

    def __iter__(self):
        if isinstance(self.n, SNum):
            raise Unsupported("native iteration over a symbolic range")
        return iter([self.vc_item(i) for i in range(self.n)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, step, cnt = arr.slice_bounds(i, self.n)
            return SymList(cnt, lambda j: self.vc_item(arr._affine(lo, step, j)))
        return self.vc_item(Arr((self.n,), None)._resolve_int(i, self.n))

    def vc_asarr(self, kind=None):
        return Arr((self.n,), lambda i: self.vc_item(i), kind or "i")

    def __len__(self):
        if isinstance(self.n, SNum):
            raise Unsupported("native len() of a symbolic range")
        return self.n


class SymView(Sym):
    """zip / enumerate / reversed / map over symbolic sequences."""

    def __init__(self, n, item):
        self.n = n
        self.item = item

    def symlen(self):
        return self.n

    vc_len = symlen

    def vc_item(self, k):
        return self.item(k)

    def __iter__(self):
        if isinstance(self.n, SNum):
            raise Unsupported("native iteration over a symbolic view")
        return iter([self.item(i) for i in range(self.n)])

    def vc_asarr(self, kind=None):
        return SymList(self.n, self.item).vc_asarr(kind)


def is_symseq(v):
    """A sequence whose length is symbolic."""
    if hasattr(v, "vc_len"):
        n = v.vc_len() if not (isinstance(v, Arr) and v.ndim == 0) else 0
        return isinstance(n, SNum)
    return False


class FamMixin:
    """A list object of /repo with a symbolic number of elements; element k is item(k)."""
    vc_fam = True

    def vc_len(self):
        return self.__dict__["_vc_n"]

    symlen = vc_len

    def vc_item(self, k):
        return self.__dict__["_vc_item"](k)

    def __len__(self):
        n = self.vc_len()
        if isinstance(n, SNum):
            raise Unsupported("native len() of a family")
        return n

    def __iter__(self):
        n = self.vc_len()
        if isinstance(n, SNum):
            raise Unsupported("native iteration over a family")
        return iter([self.vc_item(i) for i in range(n)])

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2:
            i = slice(*i)
        if isinstance(i, slice):
            # (C26: a slice of a model is a model of the same kind with the same parts)
            lo, step, cnt = arr.slice_bounds(i, self.vc_len())
            if not (isinstance(step, int) and step == 1):
                raise Unsupported("strided slice of a family")
            f = self.__dict__["_vc_item"]
            return family(self.__dict__["_vc_base"], cnt, lambda j: f(arr._affine(lo, 1, j)))
        try:
            return self.vc_item(Arr((self.vc_len(),), None)._resolve_int(i, self.vc_len()))
        except IndexError:
            raise IndexError("list index out of range")

    def __bool__(self):
        return bool(num(self.vc_len()) > 0)

    def __setitem__(self, i, v):
        d = self.__dict__
        if isinstance(i, slice) and i == slice(None):
            v = as_symlist(v)
            vf, now = v.fn, epoch()

            def item(j):
                # the assigned list was evaluated while the old elements were in place
                with as_of(now):
                    return vf(j)
            set_family(self, v.n, item)
            return
        if isinstance(i, slice):
            lo, step, cnt = arr.slice_bounds(i, self.vc_len())
            if not (isinstance(step, int) and step == 1):
                raise Unsupported("assignment to a strided slice of a family")
            return self._splice(lo, cnt, as_symlist(v))
        lo = Arr((self.vc_len(),), None)._resolve_int(i, self.vc_len())
        self._splice(lo, 1, SymList(1, lambda j: v))

    def _splice(self, lo, cnt, new):
        """Elements lo .. lo+cnt-1 are replaced by those of new."""
        d = self.__dict__
        n, old, m, f0, now = d["_vc_n"], d["_vc_item"], new.n, new.fn, epoch()

        def f(j):
            with as_of(now):
                return f0(j)
        if isinstance(m, int) and m == 0:
            item = lambda j: choose(num(j) < lo, lambda: old(j), lambda: old(num(j) + cnt))
        else:
            item = lambda j: choose(num(j) < lo, lambda: old(j), lambda: choose(num(j) < num(lo) + m, lambda: f(num(j) - lo), lambda: old(num(j) - m + cnt)))
        set_family(self, arr.simp(num(n) - cnt + m), item)

    def __delitem__(self, i):
        if isinstance(i, slice):
            lo, step, cnt = arr.slice_bounds(i, self.vc_len())
            if not (isinstance(step, int) and step == 1):
                raise Unsupported("deletion of a strided slice of a family")
        else:
            try:
                lo, cnt = Arr((self.vc_len(),), None)._resolve_int(i, self.vc_len()), 1
            except IndexError:
                raise IndexError("list assignment index out of range")
        self._splice(lo, cnt, SymList(0, lambda j: None))

    def extend(self, vs):
        self._splice(self.vc_len(), 0, as_symlist(vs))

    def append(self, v):
        self._splice(self.vc_len(), 0, SymList(1, lambda j: v))

    def __iadd__(self, vs):
        self.extend(vs)
        return self

    def insert(self, i, v):
        n = self.vc_len()
        if not (bool(num(i) >= 0) and bool(num(i) <= n)):
            raise Unsupported("insertion outside a family")
        self._splice(i, 0, SymList(1, lambda j: v))

    def _no(self, *a, **k):
        raise Unsupported("in-place change of a family")

    pop = remove = reverse = _no
    __hash__ = None


def family(base, n, item):
    cls = type("SymFam" + base.__name__, (FamMixin, base), {})
    o = cls.__new__(cls)
    o.__dict__["_vc_n"] = n
    o.__dict__["_vc_item"] = item
    o.__dict__["_vc_base"] = base
    return o


def epoch():
    return len(path().state.get("fam_log", ()))


def set_family(fam, n, item):
    d = fam.__dict__
    path().state.setdefault("fam_log", []).append((fam, d["_vc_n"], d["_vc_item"]))
    d["_vc_n"], d["_vc_item"] = n, item


class as_of:
    """Families as they were at an epoch."""

    def __init__(self, e):
        self.e = e

    def __enter__(self):
        self.saved = []
        log = path().state.get("fam_log", ())
        for fam, n, item in reversed(log[self.e:]):
            d = fam.__dict__
            self.saved.append((d, d["_vc_n"], d["_vc_item"]))
            d["_vc_n"], d["_vc_item"] = n, item

    def __exit__(self, *a):
        for d, n, item in reversed(self.saved):
            d["_vc_n"], d["_vc_item"] = n, item


def choose(c, a, b):
    """a() if c else b(), merged where the elements allow it."""
    if not isinstance(c, bool):
        c = z3.simplify(sym.bt(c))
        c = True if z3.is_true(c) else False if z3.is_false(c) else c
    if isinstance(c, bool):
        return a() if c else b()
    x, y = a(), b()
    if isinstance(x, (SNum, SBool)) or arr.is_native_num(x):
        return ite_any(SBool(c), x, y)
    m = arr.merge(c, x, y)
    if m is not None:
        return m
    return a() if path().branch(c) else b()


def order(n, key, reverse=False):
    """The order Python's sort puts n items in: o(j) is the former position of the j-th.  It compares keys by < alone, and is stable."""
    if sym.is_sym(reverse):
        raise Unsupported("sorting in an unknown direction")
    arr.trusted("sort: a permutation in order of the keys (<), stable")
    p = path()
    nm = p.name("sorted")
    o, rk = z3.Function(nm, sym.I, sym.I), z3.Function(nm + ".rank", sym.I, sym.I)
    i, j = z3.Int("i!" + nm), z3.Int("j!" + nm)
    tn = sym.t(num(n))
    p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tn), z3.And(0 <= o(i), o(i) < tn, rk(o(i)) == i)), patterns=[o(i)]))
    p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tn), z3.And(0 <= rk(i), rk(i) < tn, o(rk(i)) == i)), patterns=[rk(i)]))

    def less(a, b):
        r = key(SNum(a)) < key(SNum(b))
        if not isinstance(r, (bool, SBool)):
            raise Unsupported("comparison of keys")
        return sym.bt(r)
    with sym.spec_mode(), core.under(z3.And(0 <= i, i < j, j < tn, 0 <= o(i), o(i) < tn, 0 <= o(j), o(j) < tn)):
        worse = core.locally([i, j], lambda: less(o(i), o(j)) if reverse else less(o(j), o(i)))
        better = core.locally([i, j], lambda: less(o(j), o(i)) if reverse else less(o(i), o(j)))
    both = [z3.MultiPattern(o(i), o(j))]
    p.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < tn), z3.And(z3.Not(worse), z3.Or(better, o(i) < o(j)))), patterns=both))
    p.state.setdefault("orders", []).append((n, o, rk))
    return lambda q: SNum(o(sym.t(num(q))))


class SymDict(dict):
    """dict that also takes symbolic keys (numbers and tuples of numbers)."""
    layer = None  # (has(key) -> SBool, get(key) -> value) once symbolic
    ver = 0
    __hash__ = None

    def set_layer(self, has, get):
        dict.clear(self)
        self.layer = (has, get)
        self.ver += 1

    def _lift(self):
        if self.layer is None:
            items = list(dict.items(self))

            def has(k):
                return sym.Or(*[key_eq(k, q) for q, _ in items]) if items else False

            def get(k):
                r = None
                for q, v in reversed(items):
                    c = key_eq(k, q)
                    r = v if r is None else ite_any(sym.bt(c) if not isinstance(c, bool) else c, v, r)
                return r
            self.layer = (has, get)

    def __setitem__(self, k, v):
        if self.layer is None and not sym_key(k):
            return dict.__setitem__(self, k, v)
        self._lift()
        has, get = self.layer
        self.ver += 1

        def has2(q):
            c = key_eq(q, k)
            return True if c is True else has(q) if c is False else sym.Or(c, has(q))

        def get2(q):
            c = key_eq(q, k)
            if c is True or c is False:
                return v if c else get(q)
            old = get(q)
            return v if old is None else ite_any(sym.bt(c), v, old)
        self.layer = (has2, get2)

    def vc_contains(self, k):
        if self.layer is None and not sym_key(k):
            return dict.__contains__(self, k)
        self._lift()
        return self.layer[0](k)

    def __contains__(self, k):
        return bool_(self.vc_contains(k))

    def __getitem__(self, k):
        if self.layer is None and not sym_key(k):
            return dict.__getitem__(self, k)
        if not bool_(self.vc_contains(k)):
            raise KeyError(k)
        return self.layer[1](k)

    def get(self, k, d=None):
        if self.layer is None and not sym_key(k):
            return dict.get(self, k, d)
        return self.layer[1](k) if bool_(self.vc_contains(k)) else d

    def clear(self):
        dict.clear(self)
        self.layer = None
        self.ver += 1

    def __bool__(self):
        if self.layer is not None:
            raise Unsupported("truth of a symbolic dictionary")
        return dict.__len__(self) > 0


def _nope(nm):
    f = getattr(dict, nm)

    def g(self, *a, **k):
        if self.layer is not None:
            raise Unsupported("dict.%s of a symbolic dictionary" % nm)
        return f(self, *a, **k)
    return g


for _n in ("keys", "values", "items", "__iter__", "__len__", "pop", "popitem", "update", "setdefault", "copy", "__delitem__", "__eq__", "__ne__", "__repr__"):
    setattr(SymDict, _n, _nope(_n))


def sym_key(k):
    return isinstance(k, (SNum, SBool, Arr)) or (isinstance(k, tuple) and any(sym_key(x) for x in k))


def key_eq(a, b):
    if isinstance(a, Arr) and a.ndim == 0:
        a = a.as_scalar()
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        cs = [key_eq(x, y) for x, y in zip(a, b)]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return True if not cs else sym.And(*cs)
    if isinstance(a, SNum) or isinstance(b, SNum):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return False
        r = num(a) == num(b)
        if isinstance(r, SBool):
            t = z3.simplify(r.t)
            return True if z3.is_true(t) else False if z3.is_false(t) else r
        return r
    return a == b


class DictView:
    """Contents of a dictionary for a contract: has(key), at(key)."""

    def __init__(self, d):
        if not isinstance(d, SymDict):
            e = SymDict()
            for k, v in d.items():
                dict.__setitem__(e, k, v)
            d = e
        if d.layer is None:
            e = SymDict()
            for k, v in dict.items(d):
                dict.__setitem__(e, k, v)
            e._lift()
            d = e
        self.has, self.at = d.layer


def symdict(d):
    return DictView(d)
