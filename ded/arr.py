"""Array proxies of symbolic shape, and the numpy façade used by the code under verification.

The contracts of the numpy functions (axioms of argsort, searchsorted, boolean
selection, sum, ...) are trusted; they are listed in TRUSTED.
"""
import math

import numpy as _np
import z3

from . import core, sym
from .core import Unsupported, path
from .sym import (And, Implies, Not, Or, SBool, SNum, Sym, bt, fresh_int, is_native_num, ite, num, t)

TRUSTED = set()


def trusted(name):
    TRUSTED.add(name)


def dim(n):
    if isinstance(n, SNum):
        c = n.concrete()
        return n if c is None else int(c)
    return int(n)


def dim_is(n, m):
    """Decide n == m for dimensions (forks when undetermined)."""
    if not isinstance(n, SNum) and not isinstance(m, SNum):
        return n == m
    c = z3.simplify(t(n) == t(m))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return path().branch(c)


class Store:
    __slots__ = ("fn", "ver", "label", "frozen")

    def __init__(self, fn, label=None):
        self.fn = fn
        self.ver = 0
        self.label = label


def kind_of(v):
    if isinstance(v, SBool) or isinstance(v, (bool, _np.bool_)):
        return "b"
    if isinstance(v, SNum):
        return "i" if sym.isint(v.t) else "f"
    if isinstance(v, (int, _np.integer)):
        return "i"
    if isinstance(v, (float, _np.floating)) or hasattr(v, "as_fraction") or type(v).__name__ == "Fraction":
        return "f"
    return "o"


def join_kind(ks):
    ks = set(ks)
    for k in "ofib":
        if k in ks:
            return k
    return "f"


def coerce(v, kind):
    """Value stored into an array of the given element kind."""
    if isinstance(v, Arr) and v.ndim == 0:
        v = v.as_scalar()
    if kind == "o":
        return v
    if kind == "f":
        if v is None:
            return SNum(z3.RealVal(0), z3.BoolVal(True))
        if sym.infinite(v):
            return v
        v = num(v) if not isinstance(v, SBool) else v.num()
        return SNum(sym.real(v.t), v.nan)
    if kind == "i":
        if v is None:
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
        if isinstance(v, SBool):
            return v.num()
        return sym.trunc(v) if kind_of(v) == "f" else num(v)
    if kind == "b":
        return v if isinstance(v, SBool) else SBool(bt(v))
    raise Unsupported("array kind " + kind)


DT = {"f": _np.dtype(float), "i": _np.dtype(int), "b": _np.dtype(bool), "o": _np.dtype(object)}


def kind_from_dtype(d):
    if d is None:
        return None
    if isinstance(d, str) and d in "fibo":
        return d
    nm = getattr(d, "vc_native", None)
    if nm is not None:
        d = nm
    d = _np.dtype(d)
    return {"f": "f", "i": "i", "u": "i", "b": "b", "O": "o"}.get(d.kind) or _bad("dtype %s" % d)


def _bad(msg):
    raise Unsupported(msg)


class Arr(Sym):
    """An array: element (i,...) is store.fn at the image of (i,...) under the view."""

    parts = None
    _factors = None  # (matrices it is the product of, store, version they describe)

    @property
    def factors(self):
        f = self._factors
        return f[0] if f and f[1] is self.store and f[2] == self.store.ver else None

    @factors.setter
    def factors(self, fs):
        self._factors = (list(fs), self.store, self.store.ver) if fs else None

    def __init__(self, shape, fn=None, kind="f", store=None, axes=None):
        self.shape_ = tuple(dim(n) for n in shape)
        self.kind = kind
        self.store = store if store is not None else Store(fn)
        # axes: one entry per store axis: ('fix', i) | ('rng', start, step, outaxis)
        self.axes = axes

    # --- basic protocol -----------------------------------------------------
    @property
    def shape(self):
        return self.shape_

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def dtype(self):
        return DT[self.kind]

    @property
    def size(self):
        r = 1
        for n in self.shape_:
            r = r * n
        return r

    @property
    def T(self):
        if self.ndim < 2:
            return self
        if getattr(self, "factors", None):
            return product_of([f.T for f in reversed(self.factors)])
        axes = self._axes()
        k = self.ndim - 1
        axes = [a if a[0] == "fix" else ("rng", a[1], a[2], k - a[3]) for a in axes]
        return Arr(self.shape_[::-1], None, self.kind, self.store, axes)

    def transpose(self, *a):
        return self.T

    def symlen(self):
        if not self.shape_:
            raise TypeError("len() of unsized object")
        return self.shape_[0]

    def __len__(self):
        n = self.symlen()
        if isinstance(n, SNum):
            raise Unsupported("native len() of an array of symbolic length")
        return n

    def _axes(self):
        if self.axes is not None:
            return self.axes
        return [("rng", 0, 1, k) for k in range(self.ndim)]

    def at(self, *idx):
        """Element at in-range indices (ints or SNum), no bounds check."""
        if self.axes is None:
            return self.store.fn(*idx)
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                i = idx[a[3]]
                out.append(_affine(a[1], a[2], i))
        return self.store.fn(*out)

    def as_scalar(self):
        if self.ndim == 0:
            return self.at()
        if all(not isinstance(n, SNum) and n == 1 for n in self.shape_):
            return self.at(*[0] * self.ndim)
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __iter__(self):
        n = self.symlen()
        if isinstance(n, SNum):
            raise Unsupported("native iteration over an array of symbolic length")
        return iter([self[i] for i in range(n)])

    # iteration protocol of transformed loops
    def vc_len(self):
        return self.symlen()

    def vc_item(self, k):
        return self._get((k,), checked=False)

    # --- indexing -------------------------------------------------------------
    def _resolve_int(self, i, n, checked=True):
        if isinstance(i, Arr) and i.ndim == 0:
            i = i.as_scalar()
        if isinstance(i, SNum):
            c = i.concrete()
            if c is not None:
                i = int(c)
        if isinstance(i, (SNum,)) or isinstance(n, SNum):
            if checked:
                if bool(_ge0(i)):
                    if not bool(num(i) < n):
                        raise IndexError("index out of bounds")
                else:
                    i = num(i) + n
                    if not bool(_ge0(i)):
                        raise IndexError("index out of bounds")
            return dim(i) if isinstance(i, SNum) else i
        if i < -n or i >= n:
            raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, n))
        return i + n if i < 0 else i

    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            pos = [j for j, k in enumerate(key) if k is Ellipsis][0]
            nspec = len([k for k in key if k is not None]) - 1
            key = key[:pos] + (slice(None),) * (self.ndim - nspec) + key[pos + 1:]
        return key

    def __getitem__(self, key):
        return self._get(key)

    def _get(self, key, checked=True):
        if isinstance(key, list) or (hasattr(key, "vc_asarr") and not isinstance(key, Arr)):
            key = asarr(key)
            if not isinstance(key.shape_[0], SNum) and key.shape_[0] == 0:
                key = Arr((0,), lambda i: 0, "i")
        if isinstance(key, Arr) and key.ndim == 0:
            key = key.as_scalar()
        if isinstance(key, _np.ndarray):
            key = asarr(key)
        if isinstance(key, Arr):
            if key.kind == "b":
                return self._mask_get(key)
            return self._fancy(key)
        key = self._parse(key)
        if self.ndim == 1 and len(key) == 1 and isinstance(key[0], slice) and isinstance(key[0].step, SNum) and key[0].step.concrete() is None:
            return self._strided(key[0])
        if any(isinstance(k, (Arr, list, _np.ndarray)) for k in key):
            return self._fancy_nd(key)
        if any(k is None for k in key):
            return self._newaxis(key)
        if len(key) > self.ndim:
            raise IndexError("too many indices for array: array is %d-dimensional" % self.ndim)
        key = key + (slice(None),) * (self.ndim - len(key))
        axes = list(self._axes())
        shape = []
        newax = {}
        for ax, k in enumerate(key):
            n = self.shape_[ax]
            j = [m for m, a in enumerate(axes) if a[0] == "rng" and a[3] == ax and m not in newax][0]
            a = axes[j]
            if isinstance(k, slice):
                lo, step, cnt = slice_bounds(k, n)
                newax[j] = ("rng", _affine(a[1], a[2], lo), a[2] * step, len(shape))
                shape.append(cnt)
            elif isinstance(k, (bool, _np.bool_, SBool)):
                raise Unsupported("boolean scalar index")
            else:
                if isinstance(k, (float, _np.floating)) or (isinstance(k, SNum) and not sym.isint(k.t)):
                    raise IndexError("only integers, slices and integer or boolean arrays are valid indices")
                i = self._resolve_int(k, n, checked)
                newax[j] = ("fix", _affine(a[1], a[2], i))
        axes = [newax[j] if j in newax else a for j, a in enumerate(axes)]
        if not shape:
            return self.store.fn(*[a[1] for a in axes])
        return Arr(shape, None, self.kind, self.store, axes)

    def _strided(self, s):
        """Every step-th element, for a symbolic step (read only)."""
        step, n = num(s.step), self.shape_[0]
        if not sym.isint(step.t):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if bool(step == 0):
            raise ValueError("slice step cannot be zero")
        if not bool(step > 0):
            raise Unsupported("symbolic negative slice step")
        lo, hi = num(clamp(s.start, n, 0)), num(clamp(s.stop, n, n))
        c = fresh_int("every", 0)
        p = path()
        p.assume(bt(Implies(hi <= lo, c == 0)))
        p.assume(bt(Implies(hi > lo, And(c >= 1, (c - 1) * step < hi - lo, c * step >= hi - lo))))
        src, ver = self, self.store.ver

        def fn(i):
            if src.store.ver != ver:
                raise Unsupported("an array changed after a strided part of it was taken")
            return src.at(lo + num(i) * step)
        r = Arr((c,), fn, self.kind)
        r.store.frozen = True
        return r

    def _newaxis(self, key):
        base = self._get(tuple(k for k in key if k is not None))
        pos, out = [], 0
        shape = []
        src = 0
        for k in key:
            if k is None:
                shape.append(1)
                pos.append(None)
            elif isinstance(k, slice):
                shape.append(base.shape_[src])
                pos.append(src)
                src += 1
        while src < base.ndim:
            shape.append(base.shape_[src])
            pos.append(src)
            src += 1
        def fn(*idx):
            return base.at(*[idx[j] for j, p in enumerate(pos) if p is not None])
        return Arr(shape, fn, self.kind)

    def _fancy(self, ia):
        trusted("integer-array indexing selects the listed elements")
        if ia.ndim != 1:
            raise Unsupported("fancy index of dimension %d" % ia.ndim)
        n = self.shape_[0]
        snap = self.snapshot()
        iv = ia.snapshot()
        if not isinstance(ia.shape_[0], SNum):
            idx = [self._resolve_int(iv.at(j), n) for j in range(ia.shape_[0])]
            def fn(i, *rest):
                return snap.at(pick(idx, i), *rest)
        else:
            with sym.spec_mode():
                ok = sym.forall(1, lambda i: Implies(And(0 <= i, i < ia.shape_[0]),
                                                      And(num(iv.at(i)) >= 0, num(iv.at(i)) < n)))
            if core.cur is not None:
                path().prove("defined: array index within bounds", bt(ok))
            def fn(i, *rest):
                return snap.at(iv.at(i), *rest)
        return Arr((ia.shape_[0],) + self.shape_[1:], fn, self.kind)

    def _fancy_nd(self, key):
        arrs = [j for j, k in enumerate(key) if isinstance(k, (Arr, list, _np.ndarray))]
        if len(arrs) == 1:
            j = arrs[0]
            ka = asarr(key[j])
            rest = tuple(slice(None) if i == j else k for i, k in enumerate(key))
            base = self._get(rest)
            # axis position after the other keys were applied
            pos = len([1 for i in range(j) if isinstance(key[i], slice)])
            moved = moveaxis0(base, pos)
            r = moved._get(ka)
            return moveaxis_back(r, pos)
        if len(arrs) == 2 and self.ndim == 2:
            a, b = asarr(key[0]), asarr(key[1])
            sh, fa, fb = broadcast2(a, b)
            snap = self.snapshot()
            return Arr(sh, lambda *i: snap.at(fa(*i), fb(*i)), self.kind)
        raise Unsupported("mixed fancy indexing")

    def _mask_get(self, m):
        if m.ndim != 1:
            raise Unsupported("boolean mask of dimension %d" % m.ndim)
        if not dim_is(m.shape_[0], self.shape_[0]):
            raise IndexError("boolean index did not match indexed array")
        s = selection(m)
        snap = self.snapshot()
        return Arr((s.n,) + self.shape_[1:], lambda j, *rest: snap.at(s.sel(j), *rest), self.kind)

    def snapshot(self):
        """A read-only copy (captures the current contents, O(1))."""
        st = Store(self.store.fn)
        r = Arr(self.shape_, None, self.kind, st, self.axes)
        r.factors = self.factors
        return r

    def copy(self, *a, **k):
        return self.snapshot()

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.snapshot()

    def __setitem__(self, key, value):
        if isinstance(key, (list, _np.ndarray)) or (hasattr(key, "vc_asarr") and not isinstance(key, Arr)):
            key = asarr(key)
        if isinstance(key, Arr) and key.kind == "b":
            return self._mask_set(key, value)
        if isinstance(key, Arr) and key.ndim == 0:
            key = key.as_scalar()
        if isinstance(key, Arr):
            return self._fancy_set(key, value)
        key = self._parse(key)
        if any(isinstance(k, (Arr, list, _np.ndarray)) for k in key):
            return self._fancy_set_nd(key, value)
        tgt = self._get(key) if any(isinstance(k, slice) for k in key) or len(key) < self.ndim else None
        if tgt is None:
            axes = list(self._axes())
            pt = {}
            for ax, k in enumerate(key):
                j = [m for m, a in enumerate(axes) if a[0] == "rng" and a[3] == ax][0]
                i = self._resolve_int(k, self.shape_[ax])
                pt[j] = _affine(axes[j][1], axes[j][2], i)
            ptl = [pt[j] if j in pt else axes[j][1] for j in range(len(axes))]
            old = self.store.fn
            if getattr(self.store, "frozen", False):
                raise Unsupported("writing through a strided part")
            val = coerce(_scalar(value), self.kind)
            self.store.fn = _write_point(old, ptl, val)
            self.store.ver += 1
            return
        tgt._assign(value)

    def _assign(self, value):
        """Write the whole of this view."""
        if getattr(self.store, "frozen", False):
            raise Unsupported("writing through a strided part")
        axes = self._axes()
        src, sf = self._source(value)
        old = self.store.fn
        shape = self.shape_
        kind = self.kind

        def fn(*idx):
            conds = []
            out = {}
            for a, i in zip(axes, idx):
                if a[0] == "fix":
                    conds.append(_eq(i, a[1]))
                else:
                    k, c = _unaffine(a[1], a[2], i)
                    out[a[3]] = k
                    conds.append(c)
                    conds.append(_in(k, shape[a[3]]))
            c = _conj(conds)
            if c is False:
                return old(*idx)
            val = coerce(sf(*[out[d] for d in range(len(shape))]), kind)
            if c is True:
                return val
            return ite_any(c, val, old(*idx))

        self.store.fn = fn
        self.store.ver += 1

    def _source(self, value):
        if isinstance(value, (Arr, list, tuple, _np.ndarray)) or hasattr(value, "vc_item"):
            v = asarr(value).snapshot()
            if v.ndim > self.ndim:
                raise ValueError("could not broadcast input array into shape")
            off = self.ndim - v.ndim
            one = []
            for d in range(v.ndim):
                if not isinstance(v.shape_[d], SNum) and v.shape_[d] == 1:
                    one.append(True)
                elif dim_is(v.shape_[d], self.shape_[d + off]):
                    one.append(False)
                elif isinstance(v.shape_[d], SNum) and dim_is(v.shape_[d], 1):
                    one.append(True)
                else:
                    raise ValueError("could not broadcast input array from shape into shape")
            return v, (lambda *i: v.at(*[0 if one[d] else i[d + off] for d in range(v.ndim)]))
        value = _scalar(value)
        return None, (lambda *i: value)

    def _mask_set(self, m, value):
        if m.ndim == self.ndim:
            for a, b in zip(m.shape_, self.shape_):
                if not dim_is(a, b):
                    raise IndexError("boolean index did not match indexed array")
        elif m.ndim != 1:
            raise Unsupported("mask assignment")
        mm = m.snapshot()
        me = self.snapshot()
        kind = self.kind
        if isinstance(value, (Arr, list, tuple, _np.ndarray)):
            v = asarr(value).snapshot()
            if v.ndim == 0 or (v.ndim == 1 and v.shape_[0] == 1 and not isinstance(v.shape_[0], SNum)):
                value = v.at(*[0] * v.ndim)
                src = lambda *i: value
            else:
                if self.ndim != 1:
                    raise Unsupported("mask assignment of an array")
                s = selection(m)
                if not dim_is(v.shape_[0], s.n):
                    raise ValueError("NumPy boolean array indexing assignment cannot assign input values")
                src = lambda i: v.at(s.rank(i))
        else:
            value = _scalar(value)
            src = lambda *i: value
        new = Arr(self.shape_, lambda *i: ite_any(bt(mm.at(*i[:mm.ndim])), coerce(src(*i), kind), me.at(*i)), kind)
        self._assign(new)

    def _fancy_set(self, ia, value):
        n = ia.shape_[0]
        if isinstance(n, SNum):
            raise Unsupported("assignment through an index array of symbolic length")
        vals = None
        if isinstance(value, (Arr, list, tuple, _np.ndarray)):
            vals = asarr(value).snapshot()
        for j in range(n):
            self[ia.at(j)] = vals[j] if vals is not None and vals.ndim else value

    def _fancy_set_nd(self, key, value):
        arrs = [asarr(k) for k in key]
        if any(a.ndim != 1 or isinstance(a.shape_[0], SNum) for a in arrs):
            raise Unsupported("fancy assignment")
        for j in range(arrs[0].shape_[0]):
            self[tuple(a.at(j) for a in arrs)] = value

    # --- elementwise ------------------------------------------------------------
    def map(self, f, kind=None):
        s = self.snapshot()
        return Arr(self.shape_, lambda *i: f(s.at(*i)), kind or self.kind)

    def __neg__(self): return self.map(lambda v: -num(v))
    def __pos__(self): return self.copy()
    def __abs__(self): return self.map(lambda v: sym.fabs(num(v)))
    def __invert__(self): return self.map(lambda v: Not(v), "b")

    def any(self, axis=None, **k): return a_any(self)
    def all(self, axis=None, **k): return a_all(self)
    def sum(self, axis=None, **k): return a_sum(self, axis)
    def mean(self, axis=None): return a_mean(self, axis)
    def max(self, axis=None): return a_max(self)
    def min(self, axis=None): return a_min(self)
    def argmax(self, axis=None): return a_argmax(self)
    def argmin(self, axis=None): return a_argmin(self)
    def argsort(self, *a, **k): return a_argsort(self)
    def searchsorted(self, v, side="left"): return a_searchsorted(self, v, side)
    def dot(self, o): return a_dot(self, o)
    def ravel(self, *a): return a_ravel(self)
    flatten = ravel
    def squeeze(self, *a): return a_squeeze(self)
    def nonzero(self): return a_nonzero(self)
    def tolist(self):
        from .seq import from_arr
        return from_arr(self)
    def astype(self, d): 
        k = kind_from_dtype(d)
        return self.map(lambda v: coerce(v, k), k)
    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return self.as_scalar()
    def fill(self, v): self._assign(v)
    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        return a_reshape(self, sh)
    def clip(self, lo=None, hi=None): return NP.clip(self, lo, hi)
    def cumsum(self): raise Unsupported("cumsum")

    def __bool__(self):
        if self.ndim == 0 or all(not isinstance(n, SNum) and n == 1 for n in self.shape_):
            return bool(SBool(bt(self.as_scalar())))
        n = self.size
        if not isinstance(n, SNum) and n == 0:
            return False
        if isinstance(n, SNum):
            if bool(n == 0):
                return False
            if bool(n == 1):
                return bool(SBool(bt(self.at(*[0] * self.ndim))))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __index__(self):
        return self.as_scalar().__index__()

    def __float__(self):
        return float(self.as_scalar())

    def __contains__(self, v):
        return bool(a_any(self == v))

    def __repr__(self):
        if core.cur is None:
            return "Arr%s" % (self.shape_,)
        return sym.token_for(self)

    __str__ = __repr__
    def __format__(self, spec): return sym.token_for(self)


def _ge0(i):
    return num(i) >= 0 if isinstance(i, SNum) else i >= 0


def _affine(start, step, i):
    if isinstance(start, int) and start == 0 and isinstance(step, int) and step == 1:
        return i
    if isinstance(step, int) and step == 1:
        return start + i
    return start + step * i


def _unaffine(start, step, i):
    """(k, condition) with start + step*k == i."""
    if isinstance(step, int) and step == 1:
        if isinstance(start, int) and start == 0:
            return i, True
        return i - start, True
    if isinstance(step, int) and step == -1:
        return start - i, True
    if isinstance(step, int) and step > 0:
        d = num(i - start)
        return d // step, bt(d % step == 0)
    raise Unsupported("write through a strided view")


def _eq(i, j):
    if not isinstance(i, SNum) and not isinstance(j, SNum):
        return i == j
    c = z3.simplify(t(i) == t(j))
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def _in(k, n):
    if not isinstance(k, SNum) and not isinstance(n, SNum):
        return 0 <= k < n
    c = z3.simplify(z3.And(t(k) >= 0, t(k) < t(n)))
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def _conj(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def ite_any(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if sym.infinite(a) or sym.infinite(b):
        return a if path().branch(bt(c)) else b
    if isinstance(a, (SNum, SBool)) or is_native_num(a):
        if isinstance(b, (SNum, SBool)) or is_native_num(b):
            return ite(c, a, b)
    m = merge(c, a, b)
    if m is not None:
        return m
    if path().branch(bt(c)):
        return a
    return b


def merge(c, a, b):
    """Structural if-then-else of two values of the same shape (None: not mergeable)."""
    from .seq import Opt, SymRange
    if isinstance(a, range) and a.step == 1:
        a = SymRange(a.start, a.stop)
    if isinstance(b, range) and b.step == 1:
        b = SymRange(b.start, b.stop)
    if isinstance(a, SymRange) and isinstance(b, SymRange) and a.step == b.step:
        return SymRange(ite(bt(c), a.lo, b.lo), ite(bt(c), a.hi, b.hi), a.step)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(ite_any(c, x, y) for x, y in zip(a, b))
    if type(a) is list and type(b) is list and len(a) == len(b):
        return [ite_any(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, slice) and isinstance(b, slice) and a.step is b.step and None not in (a.start, a.stop, b.start, b.stop):
        return slice(ite(bt(c), a.start, b.start), ite(bt(c), a.stop, b.stop), a.step)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.ndim > 0:
        sa, sb = a.snapshot(), b.snapshot()
        k = join_kind([a.kind, b.kind])
        sh = tuple(x if (x is y or (not isinstance(x, SNum) and not isinstance(y, SNum) and x == y)) else simp(ite(bt(c), x, y)) for x, y in zip(sa.shape_, sb.shape_))
        return Arr(sh, lambda *i: ite_any(c, coerce(sa.at(*i), k), coerce(sb.at(*i), k)), k)
    if a is None and b is None:
        return None
    if isinstance(a, Opt) and isinstance(b, Opt):
        return Opt(SBool(z3.If(bt(c), bt(a.present), bt(b.present))), ite_any(c, a.value, b.value))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if type(a) is type(b) and hasattr(type(a), "vc_merge"):
        return type(a).vc_merge(bt(c), a, b)
    return None


def _write_point(old, pt, val):
    def fn(*idx):
        c = _conj([_eq(i, p) for i, p in zip(idx, pt)])
        if c is True:
            return val
        if c is False:
            return old(*idx)
        return ite_any(c, val, old(*idx))
    return fn


def _scalar(v):
    if isinstance(v, Arr):
        return v.as_scalar()
    if isinstance(v, _np.ndarray) and v.ndim == 0:
        return v.item()
    return v


def pick(seq, i):
    """seq[i] for a concrete list and a possibly symbolic index."""
    if isinstance(i, SNum):
        c = i.concrete()
        if c is None:
            if not seq:
                return SNum(z3.RealVal(0))
            r = seq[-1]
            for j in range(len(seq) - 2, -1, -1):
                r = ite_any(bt(i == j), seq[j], r)
            return r
        i = int(c)
    if 0 <= i < len(seq):
        return seq[i]
    return SNum(z3.RealVal(0))  # out of range: unspecified


def slice_bounds(s, n):
    """(start, step, count) of a slice over a dimension."""
    step = 1 if s.step is None else s.step
    if isinstance(step, SNum):
        step = step.concrete()
    if not isinstance(step, int) or step == 0:
        if step == 0:
            raise ValueError("slice step cannot be zero")
        raise Unsupported("symbolic slice step")
    if all(not isinstance(v, SNum) for v in (s.start, s.stop, n)):
        a, b, c = slice(s.start, s.stop, step).indices(n)
        return a, c, len(range(a, b, c))
    if step == 1:
        lo = clamp(s.start, n, 0)
        hi = clamp(s.stop, n, n)
        cnt = ite(bt(num(hi) > lo), num(hi) - lo, 0)
        return dim(num(lo)) if isinstance(lo, SNum) else lo, 1, dim(num(simp(cnt)))
    if step == -1 and s.start is None and s.stop is None:
        return num(n) - 1, -1, n
    # CPython's adjustment of the bounds, for any step
    nt = t(n)
    low, high = (z3.IntVal(0), nt) if step > 0 else (z3.IntVal(-1), nt - 1)

    def bound(v, default):
        if v is None:
            return default
        tv = t(num(v))
        if not sym.isint(tv):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        w = z3.If(tv < 0, tv + nt, tv)
        return z3.If(w < low, low, z3.If(w > high, high, w))
    lo, hi = bound(s.start, low if step > 0 else high), bound(s.stop, high if step > 0 else low)
    gap = hi - lo if step > 0 else lo - hi
    cnt = z3.If(gap > 0, (gap + abs(step) - 1) / z3.IntVal(abs(step)), z3.IntVal(0))
    return num(SNum(z3.simplify(lo))), step, dim(SNum(z3.simplify(cnt)))


def simp(v):
    if isinstance(v, SNum):
        return SNum(z3.simplify(v.t), v.nan)
    return v


def clamp(v, n, default):
    """Python's slice clamping of a bound, simplified by what the path knows."""
    if v is None:
        return default
    if isinstance(v, Arr):
        v = v.as_scalar()
    if isinstance(v, SNum) and not sym.isint(v.t):
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    if isinstance(v, (float, _np.floating)):
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    p = path()
    tv, tn = t(v), t(n)
    if p.valid(z3.And(tv >= 0, tv <= tn)):
        return v
    if p.valid(z3.And(tv < 0, tv + tn >= 0)):
        return simp(num(v) + n)
    if p.valid(tv >= tn):
        return n
    return simp(SNum(z3.If(tv < 0, z3.If(tv + tn < 0, z3.IntVal(0), tv + tn), z3.If(tv > tn, tn, tv))))


def moveaxis0(a, pos):
    if pos == 0:
        return a
    if a.ndim == 2 and pos == 1:
        return a.T
    raise Unsupported("moveaxis")


def moveaxis_back(a, pos):
    if pos == 0:
        return a
    if a.ndim == 2 and pos == 1:
        return a.T
    raise Unsupported("moveaxis")


# --- construction ---------------------------------------------------------------
def asarr(v, kind=None):
    if isinstance(v, Arr):
        if kind and kind != v.kind:
            return v.map(lambda e: coerce(e, kind), kind)
        return v
    if hasattr(v, "vc_asarr"):
        return v.vc_asarr(kind)
    if isinstance(v, _np.ndarray):
        k = kind or kind_from_dtype(v.dtype)
        vv = v.copy()
        return _from_nested(vv.tolist(), k, vv.shape)
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, (list, tuple)):
        return _from_list(list(v), kind)
    if type(v).__name__ in ("dict_keys", "dict_values"):
        raise Unsupported("array of dict view")
    v0 = v
    k = kind or kind_of(v)
    return Arr((), lambda: coerce(v0, k), k)


def _shape_of(v):
    if isinstance(v, Arr):
        return v.shape_
    if type(v).__name__ == "SymRange":
        return (v.n,)
    if isinstance(v, _np.ndarray):
        return v.shape
    if hasattr(v, "vc_asarr"):
        return v.vc_asarr(None).shape_
    if isinstance(v, (list, tuple, range)):
        v = list(v)
        if not v:
            return (0,)
        shs = [_shape_of(x) for x in v]
        if any(len(s) != len(shs[0]) for s in shs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        for s in shs[1:]:
            for a, b in zip(s, shs[0]):
                if not dim_is(a, b):
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(v),) + tuple(shs[0])
    return ()


def _kinds(v):
    if isinstance(v, Arr):
        return {v.kind}
    if isinstance(v, _np.ndarray):
        return {kind_from_dtype(v.dtype)}
    if type(v).__name__ == "SymRange":
        return {"i"}
    if hasattr(v, "vc_asarr"):
        return {v.vc_asarr(None).kind}
    if isinstance(v, (list, tuple, range)):
        r = set()
        for x in v:
            r |= _kinds(x)
        return r
    return {kind_of(v)}


def _elem(v, idx):
    if not idx:
        return _scalar(v)
    if isinstance(v, Arr):
        return v.at(*idx)
    if hasattr(v, "vc_item") and len(idx) == 1:
        return v.vc_item(idx[0])
    if hasattr(v, "vc_asarr"):
        return v.vc_asarr(None).at(*idx)
    if isinstance(v, _np.ndarray):
        v = v.tolist()
    v = list(v)
    i = idx[0]
    if isinstance(i, SNum):
        c = i.concrete()
        if c is None:
            return pick([_elem(x, idx[1:]) for x in v], i)
        i = int(c)
    if not (0 <= i < len(v)):
        return SNum(z3.RealVal(0))
    return _elem(v[i], idx[1:])


def _from_list(v, kind):
    sh = _shape_of(v)
    k = kind or (join_kind(_kinds(v)) if _kinds(v) else "f")
    v = [x.snapshot() if isinstance(x, Arr) else (list(x) if isinstance(x, list) else x) for x in v]
    return Arr(sh, lambda *i: coerce(_elem(v, i), k), k)


def _from_nested(v, k, shape):
    return Arr(shape, lambda *i: coerce(_elem(v, i), k), k)


def base_array(name, shape, kind="f", nan=False):
    """An arbitrary array: an uninterpreted function of its indices."""
    p = path()
    nm = p.name(name)
    srt = {"f": sym.R, "i": sym.I, "b": z3.BoolSort()}[kind]
    f = z3.Function(nm, *([sym.I] * len(shape)), srt)
    g = z3.Function(nm + ".isnan", *([sym.I] * len(shape)), z3.BoolSort()) if nan else None

    def fn(*i):
        ti = [t(x) for x in i]
        if kind == "b":
            return SBool(f(*ti))
        return SNum(f(*ti), g(*ti) if g is not None else None)
    a = Arr(shape, fn, kind)
    a.store.label = nm
    a.uf = f
    return a


def freeze(a, name="frz"):
    """Name the current contents of an array by a fresh function (same values)."""
    b = base_array(name, a.shape_, a.kind)
    s = a.snapshot()
    with sym.spec_mode():
        path().assume(bt(sym.forall(a.ndim, lambda *i: Implies(
            And(*[And(0 <= i[d], i[d] < a.shape_[d]) for d in range(a.ndim)]), b.at(*i) == s.at(*i)),
            patterns=lambda *i: [b.at(*i)])))
    return b


# --- broadcasting -----------------------------------------------------------------
def broadcast2(a, b):
    na, nb = a.ndim, b.ndim
    n = max(na, nb)
    shape, oa, ob = [], [], []
    for d in range(n):
        da = a.shape_[d - (n - na)] if d >= n - na else 1
        db = b.shape_[d - (n - nb)] if d >= n - nb else 1
        if not isinstance(da, SNum) and da == 1:
            shape.append(db); oa.append(True); ob.append(False)
        elif not isinstance(db, SNum) and db == 1:
            shape.append(da); oa.append(False); ob.append(True)
        elif dim_is(da, db):
            shape.append(da if not isinstance(da, SNum) else db); oa.append(False); ob.append(False)
        elif isinstance(da, SNum) and dim_is(da, 1):
            shape.append(db); oa.append(True); ob.append(False)
        elif isinstance(db, SNum) and dim_is(db, 1):
            shape.append(da); oa.append(False); ob.append(True)
        else:
            raise ValueError("operands could not be broadcast together")
    sa, sb = a.snapshot(), b.snapshot()

    def fa(*i):
        return sa.at(*[0 if oa[d] else i[d] for d in range(n - na, n)])

    def fb(*i):
        return sb.at(*[0 if ob[d] else i[d] for d in range(n - nb, n)])
    return shape, fa, fb


def elementwise(f, a, b, kind):
    a, b = asarr(a), asarr(b)
    sh, fa, fb = broadcast2(a, b)
    if kind is None:
        kind = join_kind([a.kind, b.kind])
        if kind == "b":
            kind = "i"
    if not sh:
        return f(fa(), fb())
    return Arr(sh, lambda *i: f(fa(*i), fb(*i)), kind)


def _opkind(op, a, b):
    if op == "/":
        return "f"
    return None


def _bin(op):
    def m(self, o):
        if not _arrok(o):
            return NotImplemented
        return elementwise(lambda x, y: _op(op, x, y), self, o, _opkind(op, self, o))

    def r(self, o):
        if not _arrok(o):
            return NotImplemented
        return elementwise(lambda x, y: _op(op, x, y), o, self, _opkind(op, self, o))
    return m, r


def _op(op, x, y):
    if x is None or y is None:
        raise TypeError("unsupported operand type(s): 'NoneType'")
    if isinstance(x, SBool):
        x = x.num()
    if isinstance(y, SBool):
        y = y.num()
    if is_native_num(x):
        x = num(x) if not sym.infinite(x) else x
    if op == "+": return x + y
    if op == "-": return x - y
    if op == "*": return x * y
    if op == "/": return x / y
    if op == "//": return x // y
    if op == "%": return x % y
    if op == "**": return x ** y
    raise Unsupported(op)


def _arrok(o):
    return isinstance(o, (Arr, SNum, SBool, _np.ndarray, list, tuple)) or is_native_num(o) or hasattr(o, "vc_asarr")


def _cmpop(op):
    def m(self, o):
        if not _arrok(o):
            if op == "==":
                return self.map(lambda v: SBool(z3.BoolVal(False)), "b")
            if op == "!=":
                return self.map(lambda v: SBool(z3.BoolVal(True)), "b")
            return NotImplemented
        def f(x, y):
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                if op in ("==", "!="):
                    return SBool(z3.BoolVal((x == y) if op == "==" else (x != y)))
                raise TypeError("comparison not supported")
            if isinstance(x, SBool) and isinstance(y, (SBool, bool)) and op in ("==", "!="):
                return (x == y) if op == "==" else (x != y)
            r = sym._cmp(op, x.num() if isinstance(x, SBool) else x, y.num() if isinstance(y, SBool) else y)
            return r if isinstance(r, SBool) else SBool(z3.BoolVal(bool(r)))
        return elementwise(f, self, o, "b")
    return m


for _name, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**")):
    _m, _r = _bin(_o)
    setattr(Arr, "__%s__" % _name, _m)
    setattr(Arr, "__r%s__" % _name, _r)

    def _mk(mm):
        def im(self, o):
            v = mm(self, o)
            if v is NotImplemented:
                return v
            self._assign(v)
            return self
        return im
    setattr(Arr, "__i%s__" % _name, _mk(_m))
for _name, _o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    setattr(Arr, "__%s__" % _name, _cmpop(_o))
Arr.__and__ = lambda self, o: elementwise(lambda x, y: And(x, y), self, o, "b")
Arr.__rand__ = Arr.__and__
Arr.__or__ = lambda self, o: elementwise(lambda x, y: Or(x, y), self, o, "b")
Arr.__ror__ = Arr.__or__
Arr.__matmul__ = lambda self, o: a_dot(self, o)


# --- reductions ----------------------------------------------------------------
def _boxed(a):
    """(number of quantified vars, in-range condition builder)."""
    def rng(idx):
        return And(*([SBool(z3.BoolVal(True))] + [And(0 <= i, i < n) for i, n in zip(idx, a.shape_)]))
    return rng


def _concrete_shape(a):
    return all(not isinstance(n, SNum) for n in a.shape_)


def _indices(a):
    import itertools
    return itertools.product(*[range(n) for n in a.shape_])


def a_all(a, axis=None):
    a = asarr(a)
    if _concrete_shape(a):
        return And(*([SBool(z3.BoolVal(True))] + [SBool(bt(a.at(*i))) for i in _indices(a)]))
    s = a.snapshot()
    rng = _boxed(s)
    return sym.forall(s.ndim, lambda *i: Implies(rng(i), SBool(bt(s.at(*i)))))


def a_any(a, axis=None):
    a = asarr(a)
    if _concrete_shape(a):
        return Or(*([SBool(z3.BoolVal(False))] + [SBool(bt(a.at(*i))) for i in _indices(a)]))
    s = a.snapshot()
    rng = _boxed(s)
    return Not(sym.forall(s.ndim, lambda *i: Implies(rng(i), Not(SBool(bt(s.at(*i)))))))


class SumRec:
    def __init__(self, n, fn, term):
        self.n, self.fn, self.term = n, fn, term


def register_sum(n, fn):
    """Sum of fn(i) over 0 <= i < n, as a fresh constant.

    Trusted facts (ground instances, by Skolemised premises): two sums over the
    same range of pointwise equal terms are equal; a sum of non-negative terms is
    non-negative; an empty sum is zero; a sum of one term is the term; a sum of
    non-negative terms is at least each of its terms.
    """
    trusted("finite sums: extensionality, sign, empty and one-element sums")
    p = path()
    recs = p.state.setdefault("sums", [])
    S = z3.Real(p.name("SUM"))
    with sym.spec_mode():
        n_t = t(n)
        p.assume(z3.Implies(n_t <= 0, S == 0))
        p.assume(z3.Implies(n_t == 1, S == sym.real(t(fn(0)))))
        k = z3.Int(p.name("k_sgn"))
        p.assume(z3.Or(z3.And(0 <= k, k < n_t, sym.real(t(fn(SNum(k)))) < 0), S >= 0))
        k = z3.Int(p.name("k_pos"))
        p.assume(z3.Or(n_t <= 0, z3.And(0 <= k, k < n_t, sym.real(t(fn(SNum(k)))) <= 0), S > 0))
        for r in recs:
            if z3.is_false(z3.simplify(t(r.n) == n_t)):
                continue
            k = z3.Int(p.name("k_ext"))
            p.assume(z3.Or(t(r.n) != n_t, z3.And(0 <= k, k < n_t, sym.real(t(fn(SNum(k)))) != sym.real(t(r.fn(SNum(k))))), S == r.term))
        neg = z3.Int(p.name("k_neg"))
        some_neg = z3.And(0 <= neg, neg < n_t, sym.real(t(fn(SNum(neg)))) < 0)
        for m, ks in p.state.get("extremes", []):
            if t(m).eq(n_t):
                for k in ks:
                    p.assume(z3.Or(some_neg, S >= sym.real(t(fn(k)))))
    recs.append(SumRec(n, fn, S))
    return SNum(S)


def sum_linear(rec_terms, coeffs):
    pass


def a_sum(a, axis=None):
    if isinstance(a, (SNum, SBool)) or is_native_num(a):
        return a
    a = asarr(a)
    if a.kind == "b":
        if a.ndim == 1 and isinstance(a.shape_[0], SNum):
            return num(selection(a).n)
        a = a.map(lambda v: SBool(bt(v)).num(), "i")
    if a.ndim == 2 and axis is not None:
        s = a.snapshot()
        ax = axis % 2
        n = s.shape_[ax]
        if isinstance(n, SNum):
            raise Unsupported("sum over a symbolic axis of a matrix")
        def fn(i):
            r = SNum(z3.RealVal(0)) if s.kind == "f" else SNum(z3.IntVal(0))
            for j in range(n):
                r = r + (s.at(j, i) if ax == 0 else s.at(i, j))
            return r
        return Arr((s.shape_[1 - ax],), fn, s.kind)
    if _concrete_shape(a):
        r = SNum(z3.RealVal(0)) if a.kind == "f" else SNum(z3.IntVal(0))
        if a.kind == "o":
            r = 0
        for i in _indices(a):
            r = r + a.at(*i)
        return r
    if a.ndim != 1:
        raise Unsupported("sum over a matrix of symbolic shape")
    s = a.snapshot()
    if a.kind == "i":
        c = count_like(s)
        if c is not None:
            return c
    return register_sum(s.shape_[0], lambda i: s.at(i))


def count_like(s):
    return None


def a_mean(a, axis=None):
    a = asarr(a)
    n = a.size
    if not isinstance(n, SNum) and n == 0:
        return SNum(z3.RealVal(0), z3.BoolVal(True))
    return a_sum(a) / n


def a_max(a):
    a = asarr(a)
    return _extreme(a, True)[1]


def a_min(a):
    return _extreme(asarr(a), False)[1]


def a_argmax(a):
    return _extreme(asarr(a), True)[0]


def a_argmin(a):
    return _extreme(asarr(a), False)[0]


def _extreme(a, mx):
    if a.ndim == 0:
        return 0, a.as_scalar()
    if a.ndim != 1:
        a = a_ravel(a)
    n = a.shape_[0]
    if not isinstance(n, SNum):
        if n == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        bi, bv = SNum(z3.IntVal(0)), a.at(0)
        for i in range(1, n):
            v = a.at(i)
            c = bt(v > bv) if mx else bt(v < bv)
            bi = ite(c, i, bi)
            bv = ite(c, v, bv)
        return bi, bv
    trusted("argmax/argmin/max/min: first position of an extreme value")
    if not bool(n > 0):
        raise ValueError("zero-size array to reduction operation which has no identity")
    s = a.snapshot()
    with sym.spec_mode():
        probe = s.at(SNum(z3.Int("probe!")))
        bound = sorted(x for x in core.symbols(t(num(probe))) | core.symbols(t(num(n))) if x.startswith(("?", "i!", "j!")))
    if bound:
        # one extreme for every value of the variables being generalised over
        bs = [z3.Int(x) for x in bound]
        kf = z3.Function(path().name("argmax" if mx else "argmin"), *([sym.I] * (len(bs) + 1)))
        k = SNum(kf(*bs))
        with sym.spec_mode():
            v = s.at(k)
            q = z3.Int("q!" + path().name("ext"))
            w = s.at(SNum(q))
            c = (w <= v) if mx else (w >= v)
            d = (w < v) if mx else (w > v)
            path().assume(z3.ForAll(bs, z3.And(0 <= k.t, k.t < t(n))))
            path().assume(z3.ForAll(bs + [q], z3.Implies(z3.And(0 <= q, q < t(n)), z3.And(bt(c), z3.Implies(q < k.t, bt(d))))))
        return k, v
    k = fresh_int("argmax" if mx else "argmin", 0, n)
    v = s.at(k)
    with sym.spec_mode():
        def ax(i):
            w = s.at(i)
            c = (w <= v) if mx else (w >= v)
            d = (w < v) if mx else (w > v)
            return Implies(And(0 <= i, i < n), And(c, Implies(i < k, d)))
        path().assume(bt(sym.forall(1, ax)))
        path().state.setdefault("extremes", []).append((n, [k]))
        path().assume(bt(And(ax(num(0)), ax(num(n) - 1))))
    return k, v


def a_argsort(a):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("argsort of a matrix")
    n = a.shape_[0]
    if not isinstance(n, SNum) and n == 0:
        return Arr((0,), lambda q: SNum(z3.IntVal(0)), "i")
    trusted("argsort: a permutation that puts the values in non-decreasing order")
    p = path()
    nm = p.name("order")
    o = z3.Function(nm, sym.I, sym.I)
    rk = z3.Function(nm + ".rank", sym.I, sym.I)
    s = a.snapshot()
    i, j = z3.Int("i!" + nm), z3.Int("j!" + nm)
    tn = t(n)
    p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tn), z3.And(0 <= o(i), o(i) < tn, rk(o(i)) == i)), patterns=[o(i)]))
    p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tn), z3.And(0 <= rk(i), rk(i) < tn, o(rk(i)) == i)), patterns=[rk(i)]))
    with sym.spec_mode(), core.under(z3.And(0 <= i, i < j, j < tn, 0 <= o(i), o(i) < tn, 0 <= o(j), o(j) < tn)):
        le = core.locally([i, j], lambda: bt(s.at(SNum(o(i))) <= s.at(SNum(o(j)))))
    p.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < tn), le), patterns=[z3.MultiPattern(o(i), o(j))]))
    r = Arr((n,), lambda q: SNum(o(t(q))), "i")
    r.uf, r.rank = o, rk
    return r


def a_searchsorted(a, v, side="left"):
    a = asarr(a)
    if isinstance(v, (Arr, list, tuple, _np.ndarray)) and asarr(v).ndim:
        raise Unsupported("searchsorted of an array")
    v = _scalar(v)
    n = a.shape_[0]
    trusted("searchsorted: insertion point in a sorted sequence")
    s = a.snapshot()
    p = path()
    with sym.spec_mode():
        srt = sym.forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), s.at(i) <= s.at(j)))
    p.prove("searchsorted needs a sorted sequence", bt(srt))
    k = fresh_int("ins", 0)
    p.assume(k.t <= t(n))
    with sym.spec_mode():
        if side == "left":
            p.assume(bt(sym.forall(1, lambda i: Implies(And(0 <= i, i < n), And(Implies(i < k, s.at(i) < v), Implies(i >= k, s.at(i) >= v))))))
            p.assume(bt(Implies(k < n, s.at(k) >= v)))
            p.assume(bt(Implies(k > 0, s.at(k - 1) < v)))
        else:
            p.assume(bt(sym.forall(1, lambda i: Implies(And(0 <= i, i < n), And(Implies(i < k, s.at(i) <= v), Implies(i >= k, s.at(i) > v))))))
            p.assume(bt(Implies(k < n, s.at(k) > v)))
            p.assume(bt(Implies(k > 0, s.at(k - 1) <= v)))
    return k


class Selection:
    pass


def selection(m):
    """The increasing enumeration of the indices where a boolean array is true."""
    p = path()
    n = m.shape_[0]
    if not isinstance(n, SNum):
        # concrete length: decide each entry
        idx = [i for i in range(n) if bool(SBool(bt(m.at(i))))]
        s = Selection()
        s.n = len(idx)
        s.sel = lambda j: pick(idx, j)
        s.rank = lambda i: sum([ite(bt(num(i) > q), 1, 0) for q in idx], SNum(z3.IntVal(0))) if isinstance(i, SNum) else len([q for q in idx if q < i])
        return s
    trusted("boolean selection: the increasing enumeration of the true positions")
    key = ("sel", m.store.fn, str(m.axes))
    cache = p.state.setdefault("selections", {})
    if key in cache:
        return cache[key]
    mm = m.snapshot()
    if not p.feasible(t(n) > 0):
        s = Selection()
        s.n, s.sel, s.rank, s.terms, s.keep = SNum(z3.IntVal(0)), num, num, [], m.store.fn
        cache[key] = s
        return s
    with sym.spec_mode(), core.under(z3.And(0 <= z3.Int("i!canon"), z3.Int("i!canon") < t(n))):
        canon = z3.simplify(core.locally([z3.Int("i!canon")], lambda: bt(mm.at(SNum(z3.Int("i!canon"))))))
    key2 = ("selterm", z3.simplify(t(n)).get_id(), canon.get_id())
    if key2 in cache:
        return cache[key2][0]
    nm = p.name("sel")
    sel = z3.Function(nm, sym.I, sym.I)
    rank = z3.Function(nm + ".rank", sym.I, sym.I)
    N = z3.Int(nm + ".n")
    i, j = z3.Ints("i!%s j!%s" % (nm, nm))
    tn = t(n)
    with sym.spec_mode():
        with core.under(z3.And(0 <= i, i < N, 0 <= sel(i), sel(i) < tn)):
            ms = core.locally([i], lambda: bt(mm.at(SNum(sel(i)))))
        with core.under(z3.And(0 <= i, i < tn)):
            mi = core.locally([i], lambda: bt(mm.at(SNum(i))))
        p.assume(z3.And(0 <= N, N <= tn))
        p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= sel(i), sel(i) < tn, ms, rank(sel(i)) == i)), patterns=[sel(i)]))
        p.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < N), sel(i) < sel(j)), patterns=[z3.MultiPattern(sel(i), sel(j))]))
        p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tn, mi), z3.And(0 <= rank(i), rank(i) < N, sel(rank(i)) == i))))
        # counting: everything is selected exactly when there are as many selected as there are
        p.assume(z3.ForAll([i], z3.Implies(z3.And(N == tn, 0 <= i, i < tn), mi)))
        w = z3.Int(nm + ".unselected")
        p.assume(z3.Or(N == tn, z3.And(0 <= w, w < tn, z3.Not(z3.substitute(mi, (i, w))))))
    s = Selection()
    s.n = SNum(N)
    seen = set()

    def at(q):
        q = z3.simplify(t(q))
        e = sel(q)
        if q.get_id() not in seen and not any(x.startswith(("?", "i!", "j!", "probe", "k_")) for x in core.symbols(q)):
            # the facts about this element, instantiated
            seen.add(q.get_id())
            with sym.spec_mode():
                with core.under(z3.And(0 <= q, q < N, 0 <= e, e < tn)):
                    there = bt(mm.at(SNum(e)))
                p.assume(z3.Implies(z3.And(0 <= q, q < N), z3.And(0 <= e, e < tn, there, rank(e) == q)))
            s.terms.append(q)
        return SNum(e)
    s.terms = []
    s.sel = at
    s.rank = lambda q: SNum(rank(t(q)))
    s.keep = m.store.fn
    cache[key] = s
    cache[key2] = (s, canon, n)
    return s


def a_nonzero(a):
    a = asarr(a)
    m = a if a.kind == "b" else a.map(lambda v: SBool(bt(v)), "b")
    s = selection(m)
    return (Arr((s.n,), lambda j: num(s.sel(j)), "i"),)


def a_ravel(a):
    a = asarr(a)
    s = a.snapshot()
    if a.ndim == 0:
        return Arr((1,), lambda i: s.at(), a.kind)
    if a.ndim == 1:
        return s
    if a.ndim == 2:
        m = s.shape_[1]
        n = s.shape_[0]
        if not isinstance(m, SNum):
            if m == 0:
                return Arr((0,), lambda i: SNum(z3.RealVal(0)), a.kind)
            def fn(i):
                if isinstance(i, SNum):
                    return s.at(i // m, i % m) if m > 1 else s.at(i, 0)
                return s.at(i // m, i % m)
            if m == 2:
                def fn(i):  # noqa: F811  (case split keeps the solver out of mod-indexed functions)
                    if isinstance(i, SNum):
                        h = i // 2
                        return ite_any(bt(i % 2 == 0), s.at(h, 0), s.at(h, 1))
                    return s.at(i // 2, i % 2)
            return Arr((n * m,), fn, a.kind)
        if not isinstance(n, SNum) and n == 1:
            return Arr((m,), lambda i: s.at(0, i), a.kind)
    raise Unsupported("ravel of a matrix of symbolic width")


def a_reshape(a, sh):
    if _concrete_shape(a) and all(not isinstance(n, SNum) for n in sh):
        tot = 1
        for n in a.shape_:
            tot *= n
        sh = list(sh)
        if -1 in sh:
            r = 1
            for n in sh:
                if n != -1:
                    r *= n
            sh[sh.index(-1)] = tot // r
        vals = [a.at(*i) for i in _indices(a)]
        def fn(*idx):
            k = 0
            for d, i in enumerate(idx):
                k = k * sh[d] + i
            return pick(vals, num(k))
        return Arr(tuple(sh), fn, a.kind)
    s = a.snapshot()
    if a.ndim == 1 and len(sh) == 1:
        return s
    if a.ndim == 1 and len(sh) == 2:
        if not isinstance(sh[1], SNum) and sh[1] == 1:
            return Arr((s.shape_[0], 1), lambda i, j: s.at(i), a.kind)
        if not isinstance(sh[0], SNum) and sh[0] == 1:
            return Arr((1, s.shape_[0]), lambda i, j: s.at(j), a.kind)
    if a.ndim == 2 and len(sh) == 1:
        return a_ravel(a)
    raise Unsupported("reshape")


def a_squeeze(a):
    a = asarr(a)
    keep = []
    for d, n in enumerate(a.shape_):
        if isinstance(n, SNum):
            if not dim_is(n, 1):
                keep.append(d)
        elif n != 1:
            keep.append(d)
    if len(keep) == a.ndim:
        return a
    key = tuple(slice(None) if d in keep else 0 for d in range(a.ndim))
    r = a._get(key)
    return r if isinstance(r, Arr) else Arr((), lambda: r, a.kind)


def a_dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return a_sum(a * b)
    if a.ndim == 2 and b.ndim == 2:
        k = a.shape_[1]
        if not dim_is(k, b.shape_[0]):
            raise ValueError("shapes not aligned")
        if isinstance(k, SNum):
            return product_of(factors_of(a) + factors_of(b))
        sa, sb = a.snapshot(), b.snapshot()
        def fn(i, j):
            r = SNum(z3.RealVal(0))
            for q in range(k):
                r = r + sa.at(i, q) * sb.at(q, j)
            return r
        return Arr((a.shape_[0], b.shape_[1]), fn, "f")
    if a.ndim == 2 and b.ndim == 1:
        k = a.shape_[1]
        if isinstance(k, SNum):
            raise Unsupported("matrix product over a symbolic dimension")
        sa, sb = a.snapshot(), b.snapshot()
        def fn(i):
            r = SNum(z3.RealVal(0))
            for q in range(k):
                r = r + sa.at(i, q) * sb.at(q)
            return r
        return Arr((a.shape_[0],), fn, "f")
    if a.ndim == 1 and b.ndim == 2:
        return a_dot(b.T, a)
    raise Unsupported("dot")


def factors_of(a):
    return getattr(a, "factors", None) or [a.snapshot()]


def product_of(fs):
    """A product of matrices over symbolic dimensions, kept as the list of its factors (associative)."""
    trusted("matrix products over symbolic dimensions: associativity, transpose of a product")
    f = z3.Function(path().name("product"), sym.I, sym.I, sym.R)
    r = Arr((fs[0].shape_[0], fs[-1].shape_[1]), lambda i, j: SNum(f(t(num(i)), t(num(j)))), "f")
    r.factors = list(fs)
    return r


class Matrix(Sym):
    """numpy.matrix: two-dimensional, * is the matrix product."""

    def __init__(self, a):
        a = asarr(a)
        self.a = a if a.ndim == 2 else a_reshape(a, (1, a.shape_[0]))

    @property
    def shape(self):
        return self.a.shape

    shape_ = property(lambda self: self.a.shape_)
    ndim = 2

    def vc_asarr(self, kind=None):
        return asarr(self.a, kind)

    def __mul__(self, o):
        if isinstance(o, (SNum, int, float)):
            return Matrix(self.a * o)
        return Matrix(a_dot(self.a, asarr(o)))

    def __rmul__(self, o):
        if isinstance(o, (SNum, int, float)):
            return Matrix(self.a * o)
        return Matrix(a_dot(asarr(o), self.a))

    __matmul__ = __mul__

    def __add__(self, o):
        return Matrix(self.a + asarr(o))

    __radd__ = __add__

    def transpose(self):
        fs = getattr(self.a, "factors", None)
        return Matrix(product_of([f.T for f in reversed(fs)]) if fs else self.a.T)

    T = property(transpose)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, (int, SNum)) or hasattr(x, "__index__") for x in i):
            return self.a[i]
        raise Unsupported("slice of a numpy.matrix")

    def __setitem__(self, i, v):
        self.a[i] = v


def concat_family(sl, kind=None):
    """Concatenation of a symbolic number of one-dimensional arrays of symbolic lengths.

    Trusted: piece k occupies positions off(k) .. off(k+1)-1, where off accumulates the lengths.
    A contract may provide its own offset function (state 'offsets'), which is then proved to fit.
    """
    trusted("numpy.concatenate: the pieces one after the other")
    p = path()
    M = sl.vc_len()
    if not bool(num(M) > 0):
        raise ValueError("need at least one array to concatenate")
    probe = asarr(sl.vc_item(SNum(z3.Int(p.name("probe")))))
    if probe.ndim != 1:
        raise Unsupported("concatenation of a family of matrices")
    kind = kind or probe.kind
    piece = lambda k: asarr(sl.vc_item(k))
    off = p.state.get("offsets")
    with sym.spec_mode():
        if off is None:
            f = z3.Function(p.name("off"), sym.I, sym.I)
            off = lambda k: SNum(f(t(k)))
            p.assume(off(0).t == 0)
            p.assume(bt(sym.forall(1, lambda k: Implies(And(0 <= k, k < M), And(off(num(k) + 1) == off(k) + piece(k).shape_[0], num(piece(k).shape_[0]) >= 0)), patterns=lambda k: [off(k)])))
            p.assume(bt(sym.forall(2, lambda j, k: Implies(And(0 <= j, j <= k, k <= M), off(j) <= off(k)), patterns=lambda j, k: [[off(j), off(k)]])))
        else:
            k = sym.fresh_int("piece", 0, M)
            p.prove("the pieces joined are the expected ones (lengths)", bt(off(k + 1) == off(k) + piece(k).shape_[0]))
        loc = p.state.get("locate")
        if loc is not None and p.state.get("offsets") is not None:
            return Arr((off(M),), lambda q: coerce(piece(loc[0](q)).at(loc[1](q)), kind), kind)
        res = base_array("joined", (off(M),), kind)
        p.assume(bt(sym.forall(2, lambda k, j: Implies(And(0 <= k, k < M, 0 <= j, j < piece(k).shape_[0]),
                                                       num(res.at(off(k) + j)) == coerce(piece(k).at(j), kind)) if kind != "b" else
                               Implies(And(0 <= k, k < M, 0 <= j, j < piece(k).shape_[0]), SBool(bt(res.at(off(k) + j)) == bt(piece(k).at(j)))))))
    return res


def a_concat(seqs, axis=0):
    from . import seq as _seq
    if _seq.is_symseq(seqs) and not isinstance(seqs, Arr):
        return concat_family(_seq.as_symlist(seqs))
    parts = [asarr(x).snapshot() for x in seqs]
    if axis not in (0,) and not (axis == 1 and all(p.ndim == 2 for p in parts)):
        raise Unsupported("concatenate axis")
    if axis == 1:
        return a_concat([p.T for p in parts], 0).T
    kind = join_kind([p.kind for p in parts])
    rest = parts[0].shape_[1:]
    for p in parts[1:]:
        if p.ndim != parts[0].ndim:
            raise ValueError("all the input array dimensions must match")
        for x, y in zip(p.shape_[1:], rest):
            if not dim_is(x, y):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs = [0]
    for p in parts:
        offs.append(dim(simp(offs[-1] + p.shape_[0])) if isinstance(offs[-1] + p.shape_[0], SNum) else offs[-1] + p.shape_[0])

    def fn(i, *r):
        v = None
        for j in range(len(parts) - 1, -1, -1):
            p = parts[j]
            lo = offs[j]
            loc = i - lo if not (isinstance(lo, int) and lo == 0) else i
            if not isinstance(p.shape_[0], SNum) and p.shape_[0] == 0:
                continue
            if v is None:
                if isinstance(i, SNum) or isinstance(lo, SNum) or i >= lo:
                    v = coerce(p.at(loc, *r), kind)
                continue
            if not isinstance(i, SNum) and not isinstance(offs[j + 1], SNum):
                if i < offs[j + 1]:
                    if isinstance(lo, SNum) or i >= lo:
                        v = coerce(p.at(loc, *r), kind)
                continue
            v = ite_any(bt(num(i) < offs[j + 1]), coerce(p.at(loc, *r), kind), v)
        if v is None:
            for p in parts:
                if not (not isinstance(p.shape_[0], SNum) and p.shape_[0] == 0):
                    return coerce(p.at(i, *r), kind)
            return SNum(z3.RealVal(0)) if kind == "f" else SNum(z3.IntVal(0))
        return v
    return Arr((offs[-1],) + rest, fn, kind)


def a_insert(a, pos, values, axis=None):
    a = asarr(a)
    if isinstance(pos, (Arr, list)):
        pos = asarr(pos)
        if pos.ndim and not (not isinstance(pos.shape_[0], SNum) and pos.shape_[0] == 1):
            raise Unsupported("insert at several positions")
        pos = pos.at(*[0] * pos.ndim)
    if axis is None:
        a = a_ravel(a)
    elif axis != 0:
        raise Unsupported("insert axis")
    trusted("numpy.insert: inserts before the given position, keeping the other rows")
    n = a.shape_[0]
    if isinstance(pos, SNum) or isinstance(n, SNum):
        if bool(_ge0(pos)):
            if not bool(num(pos) <= n):
                raise IndexError("index out of bounds for axis 0")
        else:
            pos = num(pos) + n
            if not bool(pos >= 0):
                raise IndexError("index out of bounds for axis 0")
    v = asarr(values).snapshot()
    s = a.snapshot()
    kind = a.kind
    if a.ndim == 1:
        if v.ndim == 0:
            v = Arr((1,), (lambda vv: lambda i: vv.at())(v), v.kind)
        m = v.shape_[0]
        fv = lambda i, *r: v.at(i)
    else:
        if v.ndim == 1:
            if not dim_is(v.shape_[0], a.shape_[1]):
                raise ValueError("could not broadcast input array")
            m = 1
            fv = lambda i, *r: v.at(*r)
        else:
            m = v.shape_[0]
            fv = lambda i, *r: v.at(i, *r)
    def fn(i, *r):
        after = bt(num(i) >= num(pos) + m)
        inside = bt(num(i) >= pos)
        return ite_any(after, s.at(simp(num(i) - m), *r), ite_any(inside, coerce(fv(simp(num(i) - pos), *r), kind), s.at(i, *r)))
    return Arr((n + m,) + a.shape_[1:], fn, kind)


def a_delete(a, obj, axis=None):
    a = asarr(a)
    if axis is None:
        a = a_ravel(a)
    elif axis != 0:
        raise Unsupported("delete axis")
    trusted("numpy.delete: removes the listed rows, keeping the others in order")
    n = a.shape_[0]
    s = a.snapshot()
    if isinstance(obj, (SNum, int, _np.integer)):
        i0 = s._resolve_int(obj, n)
        return Arr((n - 1,) + a.shape_[1:], lambda i, *r: ite_any(bt(num(i) < i0), s.at(i, *r), s.at(num(i) + 1, *r)), a.kind)
    parts = getattr(asarr(obj), "parts", None)
    o = asarr(obj).snapshot()
    if o.kind == "b":
        return a[~o]
    if o.ndim != 1:
        raise Unsupported("delete with a matrix of positions")
    m = o.shape_[0]
    if not isinstance(m, SNum):
        idx = [s._resolve_int(o.at(j), n) for j in range(m)]
        mask = Arr((n,), lambda i: Not(Or(*([SBool(z3.BoolVal(False))] + [num(i) == q for q in idx]))), "b")
    else:
        ps = parts if parts else [(0, m, lambda j: o.at(j))]
        mask = Arr((n,), lambda i: And(*[sym.forall(1, lambda j: Implies(And(lo <= j, j < q), Not(num(f(j)) == i))) for lo, q, f in ps]), "b")
    return a[mask]


def a_arange(*args, **kw):
    dt = kw.pop("dtype", None)
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        lo, hi, st = args
    if all(isinstance(v, (int, _np.integer)) or (isinstance(v, SNum) and sym.isint(v.t)) for v in (lo, hi, st)):
        if isinstance(st, SNum) and st.concrete() is None:
            raise Unsupported("arange with symbolic integer step")
        st = int(st.concrete()) if isinstance(st, SNum) else int(st)
        if st == 1:
            n = num(hi) - lo
            n = simp(ite(bt(n > 0), n, 0))
        else:
            n = sym.ceil(num(num(hi) - lo) / st)
            n = simp(ite(bt(n > 0), n, 0))
        return Arr((dim(num(n)),), lambda i: num(lo) + num(i) * st, kind_from_dtype(dt) or "i")
    trusted("arange over reals: ceil((stop-start)/step) evenly spaced values")
    n = sym.ceil((num(hi) - lo) / st)
    n = simp(ite(bt(n > 0), n, 0))
    return Arr((dim(num(n)),), lambda i: coerce(num(lo) + num(i) * st, "f"), "f")


def a_interp(x, xp, fp, left=None, right=None):
    trusted("numpy.interp: piecewise linear interpolation")
    if left is not None or right is not None:
        raise Unsupported("interp with values outside")
    xp, fp = asarr(xp), asarr(fp)
    p = path()
    if not bool(num(xp.shape_[0]) == fp.shape_[0]):
        raise ValueError("fp and xp are not of the same length.")
    recs = p.state.setdefault("interps", [])
    F = next((r[0] for r in recs if r[1] is xp.store and r[2] == xp.store.ver and r[3] is fp.store and r[4] == fp.store.ver and r[5] is xp and r[6] is fp), None)
    if F is None:
        F = z3.Function(p.name("interp"), sym.R, sym.R)
        recs.append((F, xp.store, xp.store.ver, fp.store, fp.store.ver, xp, fp))
    one = lambda v: SNum(F(sym.real(t(v))))
    if isinstance(x, (Arr, _np.ndarray, list)):
        return asarr(x).map(one, "f")
    return one(x)


def a_array_equal(a, b):
    try:
        a, b = asarr(a), asarr(b)
    except ValueError:
        return False
    if a.ndim != b.ndim:
        return False
    conds = []
    for m, n in zip(a.shape_, b.shape_):
        if not isinstance(m, SNum) and not isinstance(n, SNum):
            if m != n:
                return False
        else:
            conds.append(num(m) == n)
    e = a == b if a.ndim else SBool(bt(a.at() == b.at()))
    if not a.ndim:
        return e
    # compare under equal shapes
    sa, sb = a.snapshot(), b.snapshot()
    if _concrete_shape(a):
        c = And(*([SBool(z3.BoolVal(True))] + [SBool(bt(sa.at(*i) == sb.at(*i))) for i in _indices(a)]))
    else:
        rng = _boxed(sa)
        c = sym.forall(sa.ndim, lambda *i: Implies(rng(i), SBool(bt(sa.at(*i) == sb.at(*i)))))
    return And(*(conds + [c]))


def unary(f, kind="f"):
    def g(x, *a, **k):
        if isinstance(x, (Arr, _np.ndarray, list, tuple)) or hasattr(x, "vc_asarr"):
            x = asarr(x)
            if x.ndim:
                return x.map(lambda v: f(v), kind or x.kind)
            x = x.as_scalar()
        if x is None:
            raise TypeError("loop of ufunc does not support argument of type NoneType")
        return f(x)
    return g


def binary(f, kind=None):
    def g(x, y, *a, **k):
        if isinstance(x, (Arr, _np.ndarray, list, tuple)) or isinstance(y, (Arr, _np.ndarray, list, tuple)):
            return elementwise(f, x, y, kind)
        return f(x, y)
    return g


def _uisnan(a, **k):
    return unary(_isnan, "b")(a, **k)


def _isnan(v):
    if sym.infinite(v):
        return False
    n = sym.nan_of(v)
    if n is None:
        if not (isinstance(v, (SNum, SBool)) or is_native_num(v)):
            raise TypeError("ufunc 'isnan' not supported for the input types")
        return SBool(z3.BoolVal(False))
    return SBool(n)


def _isfinite(v):
    if sym.infinite(v):
        return SBool(z3.BoolVal(False))
    n = sym.nan_of(v)
    return SBool(z3.BoolVal(True)) if n is None else SBool(z3.Not(n))


def _maximum(x, y):
    return ite(bt(num(x) >= y), x, y)


def _minimum(x, y):
    return ite(bt(num(x) <= y), x, y)


def smax(*args, **kw):
    if len(args) == 1:
        a = args[0]
        if isinstance(a, Arr):
            return a_max(a)
        a = list(a)
    else:
        a = list(args)
    if "key" in kw or not any(sym.is_sym(v) for v in a):
        import builtins
        return builtins.max(a, **kw)
    r = a[0]
    for v in a[1:]:
        r = _pyext(r, v, True)
    return r


def smin(*args, **kw):
    if len(args) == 1:
        a = args[0]
        if isinstance(a, Arr):
            return a_min(a)
        a = list(a)
    else:
        a = list(args)
    if "key" in kw or not any(sym.is_sym(v) for v in a):
        import builtins
        return builtins.min(a, **kw)
    r = a[0]
    for v in a[1:]:
        r = _pyext(r, v, False)
    return r


def _pyext(r, v, mx):
    if sym.infinite(r) or sym.infinite(v):
        c = (v > r) if mx else (v < r)
        return v if bool(c) else r
    r, v = num(_scalar(r)), num(_scalar(v))
    c = (v > r) if mx else (v < r)
    return ite(bt(c), v, r)


class _NDMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, (Arr, _np.ndarray))


class ndarray(metaclass=_NDMeta):
    vc_native = _np.ndarray


class _Ufunc:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class NumpyFacade:
    """What ``np`` is bound to in the modules under verification."""

    ndarray = ndarray
    float64 = _np.float64
    int64 = _np.int64
    bool_ = _np.bool_
    newaxis = None
    inf = math.inf
    nan = math.nan
    e = math.e
    float_ = float

    @property
    def pi(self):
        return SNum(sym.PI)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(_np, name)
        if not callable(f) or isinstance(f, type):
            return f

        def wrapped(*a, **k):
            if _has_sym(a) or _has_sym(k.values()):
                raise Unsupported("numpy.%s has no contract" % name)
            return f(*a, **k)
        return wrapped

    # construction
    def array(self, v, dtype=None, copy=True, ndmin=0):
        k = kind_from_dtype(dtype)
        a = asarr(v, k)
        r = a.snapshot()
        r.parts = getattr(a, "parts", None) if r.ndim == 1 else None
        return r

    def asarray(self, v, dtype=None):
        return asarr(v, kind_from_dtype(dtype))

    asanyarray = asarray

    def copy(self, v):
        return asarr(v).snapshot()

    def _shape(self, n):
        if isinstance(n, (tuple, list)):
            return tuple(n)
        return (n,)

    def zeros(self, n, dtype=float):
        k = kind_from_dtype(dtype) or "f"
        z = {"f": SNum(z3.RealVal(0)), "i": SNum(z3.IntVal(0)), "b": SBool(z3.BoolVal(False)), "o": 0}[k]
        return Arr(self._shape(n), lambda *i: z, k)

    def ones(self, n, dtype=float):
        k = kind_from_dtype(dtype) or "f"
        z = {"f": SNum(z3.RealVal(1)), "i": SNum(z3.IntVal(1)), "b": SBool(z3.BoolVal(True)), "o": 1}[k]
        return Arr(self._shape(n), lambda *i: z, k)

    def full(self, n, v, dtype=None):
        k = kind_from_dtype(dtype) or kind_of(v)
        return Arr(self._shape(n), lambda *i: coerce(v, k), k)

    def empty(self, n, dtype=float):
        k = kind_from_dtype(dtype) or "f"
        return base_array("uninitialised", self._shape(n), k)

    def zeros_like(self, a, dtype=None):
        a = asarr(a)
        return self.zeros(a.shape_, dtype or DT[a.kind]) if a.ndim else Arr((), lambda: SNum(z3.RealVal(0)), "f")

    def ones_like(self, a, dtype=None):
        a = asarr(a)
        return self.ones(a.shape_, dtype or DT[a.kind])

    def empty_like(self, a, dtype=None):
        a = asarr(a)
        return self.empty(a.shape_, dtype or DT[a.kind])

    def identity(self, n, dtype=float):
        return Arr((n, n), lambda i, j: ite(bt(num(i) == j), SNum(z3.RealVal(1)), SNum(z3.RealVal(0))), "f")

    eye = identity

    def matrix(self, a, dtype=None):
        return Matrix(asarr(a).copy())

    asmatrix = matrix
    arange = staticmethod(a_arange)

    def linspace(self, a, b, n=50):
        if isinstance(n, SNum):
            raise Unsupported("linspace")
        return Arr((n,), lambda i: coerce(num(a) + num(i) * (num(b) - a) / (n - 1 if n > 1 else 1), "f"), "f")

    def concatenate(self, seqs, axis=0):
        return a_concat(seqs if hasattr(seqs, 'vc_len') else list(seqs), axis)

    def hstack(self, seqs):
        seqs = [asarr(s) for s in seqs]
        return a_concat(seqs, 0 if seqs[0].ndim == 1 else 1)

    def vstack(self, seqs):
        seqs = [asarr(s) for s in seqs]
        return a_concat([s if s.ndim == 2 else Arr((1,) + s.shape_, (lambda q: lambda i, j: q.at(j))(s.snapshot()), s.kind) for s in seqs], 0)

    def append(self, a, b, axis=None):
        if axis is None:
            return a_concat([a_ravel(a), a_ravel(b)])
        return a_concat([a, b], axis)

    insert = staticmethod(a_insert)
    delete = staticmethod(a_delete)
    searchsorted = staticmethod(a_searchsorted)

    def argsort(self, a, *x, **k):
        return a_argsort(a)

    def sort(self, a, *x, **k):
        if x or k:
            raise Unsupported("sort with options")
        o, s = a_argsort(a), asarr(a).snapshot()
        n = s.shape_[0]
        r = Arr((n,), lambda i: s.at(o.at(i)), s.kind)
        if hasattr(o, "rank"):
            with sym.spec_mode():
                path().assume(bt(sym.forall(1, lambda i: Implies(And(0 <= i, i < n), And(0 <= SNum(o.rank(t(i))), SNum(o.rank(t(i))) < n, num(s.at(i)) == num(r.at(SNum(o.rank(t(i))))))))))
        return r

    def sum(self, a, axis=None, **k):
        return a.vc_sum() if hasattr(a, "vc_sum") and axis is None else a_sum(a, axis)

    def mean(self, a, axis=None):
        return a_mean(a, axis)

    def max(self, a, axis=None):
        return a_max(a)

    amax = max

    def min(self, a, axis=None):
        return a_min(a)

    amin = min

    def argmax(self, a, axis=None):
        return a_argmax(a)

    def argmin(self, a, axis=None):
        return a_argmin(a)

    def any(self, a, axis=None):
        if isinstance(a, (SBool, SNum)) or is_native_num(a):
            return SBool(bt(a))
        return a_any(a)

    def all(self, a, axis=None):
        if isinstance(a, (SBool, SNum)) or is_native_num(a):
            return SBool(bt(a))
        return a_all(a)

    array_equal = staticmethod(a_array_equal)

    def dot(self, a, b):
        return a_dot(a, b)

    matmul = dot

    def outer(self, a, b):
        a, b = asarr(a).snapshot(), asarr(b).snapshot()
        return Arr((a.shape_[0], b.shape_[0]), lambda i, j: a.at(i) * b.at(j), "f")

    def transpose(self, a):
        return asarr(a).T

    def ravel(self, a):
        return a_ravel(a)

    def squeeze(self, a):
        return a_squeeze(a)

    def nonzero(self, a):
        return a_nonzero(a)

    def flatnonzero(self, a):
        return a_nonzero(a)[0]

    def where(self, c, *ab):
        if not ab:
            return a_nonzero(c)
        if not isinstance(c, (Arr, _np.ndarray, list)) and not any(isinstance(v, Arr) for v in ab):
            return ite_any(bt(c), ab[0], ab[1])
        c = asarr(c)
        x, y = asarr(ab[0]), asarr(ab[1])
        sh, fc, fx = broadcast2(c, x)
        tmp = Arr(sh, lambda *i: fx(*i), x.kind)
        sh2, ft, fy = broadcast2(tmp, y)
        cc = Arr(sh, lambda *i: fc(*i), "b")
        sh3, fc3, _ = broadcast2(cc, y)
        k = join_kind([x.kind, y.kind])
        return Arr(sh2, lambda *i: ite_any(bt(fc3(*i)), coerce(ft(*i), k), coerce(fy(*i), k)), k)

    def clip(self, a, lo, hi):
        def f(v):
            v = num(v)
            if hi is not None:
                v = _minimum(v, hi)
            if lo is not None:
                v = _maximum(v, lo)
            return v
        return unary(f, None)(a)

    def interp(self, x, xp, fp, **k):
        return a_interp(x, xp, fp, **k)

    def real(self, v):
        if hasattr(v, "vc_real"):
            return v.vc_real()
        if isinstance(v, (Arr, SNum)):
            return v
        return _np.real(v)

    def isscalar(self, v):
        return isinstance(v, (SNum, SBool, str)) or _np.isscalar(v)

    def size(self, a, axis=None):
        a = asarr(a)
        return a.size if axis is None else a.shape_[axis]

    def shape(self, a):
        return asarr(a).shape_

    def ndim(self, a):
        return asarr(a).ndim

    def diff(self, a):
        a = asarr(a).snapshot()
        return Arr((a.shape_[0] - 1,), lambda i: a.at(num(i) + 1) - a.at(i), a.kind)

    def unique(self, a):
        parts = getattr(asarr(a), "parts", None)
        a = a_ravel(asarr(a)).snapshot()
        n = a.shape_[0]
        trusted("numpy.unique: the sorted distinct values")
        p = path()
        u = fresh_int("nunique", 0)
        r = base_array("unique", (u,), a.kind)
        idx = z3.Function(p.name("unique.at"), sym.I, sym.I)
        with sym.spec_mode():
            p.assume(bt(And(u <= n, Implies(num(n) > 0, u > 0))))
            if parts and len(parts) > 1:
                # the same statement, piecewise over a concatenation
                dist = And(*[sym.forall(2, lambda i, j: Implies(And(lo <= i, i < m, lo2 <= j, j < q) if g != h else And(lo <= i, i < j, j < m),
                                                                 Not(num(f(i)) == f2(j))))
                             for g, (lo, m, f) in enumerate(parts) for h, (lo2, q, f2) in enumerate(parts) if g <= h])
            else:
                dist = sym.forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), Not(num(a.at(i)) == a.at(j))))
            p.assume(bt((u == n) == dist))
            p.assume(bt(sym.forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < u), r.at(i) < r.at(j)))))
            p.assume(bt(sym.forall(1, lambda i: Implies(And(0 <= i, i < u), And(0 <= SNum(idx(t(i))), SNum(idx(t(i))) < n, num(a.at(SNum(idx(t(i))))) == r.at(i))))))
            if not (parts and len(parts) > 1):
                place = z3.Function(p.name("unique.place"), sym.I, sym.I)
                p.assume(bt(sym.forall(1, lambda i: Implies(And(0 <= i, i < n), And(0 <= SNum(place(t(i))), SNum(place(t(i))) < u, num(a.at(i)) == r.at(SNum(place(t(i)))))))))
        return r

    def polyval(self, pars, x):
        """sum of pars[i] * x**(N-1-i) (numpy's documented definition)."""
        pars = asarr(pars).snapshot()
        n = pars.shape_[0]
        trusted("numpy.polyval: the sum of pars[i] * x**(N-1-i)")

        def at(v):
            if not isinstance(n, SNum):
                r = SNum(z3.RealVal(0))
                for i in range(n):
                    r = r * v + pars.at(i)
                return r
            f = path().state.setdefault("polyval", {}).setdefault(id(pars.store.fn), (pars, z3.Function(path().name("polyval"), sym.R, sym.R)))[1]
            return SNum(f(sym.real(t(v))))
        if isinstance(x, (list, tuple, Arr, _np.ndarray)):
            a = asarr(x).snapshot()
            return Arr(a.shape_, lambda *i: at(num(a.at(*i))), "f" if pars.kind == "f" else a.kind)
        return at(num(x))

    def atleast_1d(self, a):
        a = asarr(a)
        return a if a.ndim else Arr((1,), lambda i: a.at(), a.kind)

    def diag(self, a):
        a = asarr(a).snapshot()
        if a.ndim == 1:
            return Arr((a.shape_[0], a.shape_[0]), lambda i, j: ite(bt(num(i) == j), a.at(i), SNum(z3.RealVal(0))), "f")
        return Arr((a.shape_[0],), lambda i: a.at(i, i), a.kind)

    diagonal = diag

    def allclose(self, a, b, rtol=1e-5, atol=1e-8):
        a, b = asarr(a), asarr(b)
        d = abs(a - b)
        lim = abs(b) * rtol + atol
        r = d <= lim
        return a_all(r) if isinstance(r, Arr) else r

    # elementwise
    sqrt = staticmethod(unary(sym.fsqrt))
    exp = staticmethod(unary(sym.fexp))
    log = staticmethod(unary(sym.flog))
    log2 = staticmethod(unary(sym.flog2))
    sin = staticmethod(unary(sym.fsin))
    cos = staticmethod(unary(sym.fcos))
    sinc = staticmethod(unary(sym.fsinc))
    arcsin = staticmethod(unary(sym.farcsin))
    abs = staticmethod(unary(lambda v: sym.fabs(num(v)), None))
    absolute = abs
    fabs = abs
    sign = staticmethod(unary(sym.fsign, None))
    negative = staticmethod(unary(lambda v: -num(v), None))
    square = staticmethod(unary(lambda v: num(v) * v, None))
    floor = staticmethod(unary(lambda v: SNum(sym.real(sym.floor(v).t))))
    ceil = staticmethod(unary(lambda v: SNum(sym.real(sym.ceil(v).t))))
    isnan = staticmethod(lambda a, **k: a.vc_isnan() if hasattr(a, "vc_isnan") else _uisnan(a, **k))
    isfinite = staticmethod(unary(_isfinite, "b"))
    logical_not = staticmethod(unary(lambda v: Not(SBool(bt(v))), "b"))
    power = staticmethod(binary(lambda x, y: num(x) ** y))
    add = _Ufunc(binary(lambda x, y: num(x) + y))
    subtract = staticmethod(binary(lambda x, y: num(x) - y))
    multiply = staticmethod(binary(lambda x, y: num(x) * y))
    divide = staticmethod(binary(lambda x, y: num(x) / y, "f"))
    true_divide = divide
    maximum = staticmethod(binary(_maximum))
    minimum = staticmethod(binary(_minimum))
    mod = staticmethod(binary(lambda x, y: num(x) % y))
    remainder = mod
    logical_and = staticmethod(binary(lambda x, y: And(SBool(bt(x)), SBool(bt(y))), "b"))
    logical_or = staticmethod(binary(lambda x, y: Or(SBool(bt(x)), SBool(bt(y))), "b"))


def _has_sym(vs):
    for v in vs:
        if isinstance(v, Sym) or hasattr(v, "vc_item"):
            return True
        if isinstance(v, (list, tuple)) and _has_sym(v):
            return True
    return False


NP = NumpyFacade()
