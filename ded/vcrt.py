"""Run-time support called by the transformed sources."""
import builtins
import re
import types

import numpy as _np
import z3

from . import arr, core, seq, sym
from .arr import Arr
from .core import Stop, Unsupported, path
from .seq import SymList, SymRange, SymView, is_symseq
from .sym import SBool, SNum, Sym, bt, is_sym, num

UNROLL = 400


class Undef:
    """A local whose value at this point was not described by the loop invariant."""

    def __init__(self, nm):
        object.__setattr__(self, "_nm", nm)

    def _bad(self, *a, **k):
        raise Unsupported("variable %r is used across iterations but the loop contract does not describe it" % object.__getattribute__(self, "_nm"))

    def __getattr__(self, n):
        self._bad()
    __call__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __getitem__ = __setitem__ = __iter__ = __len__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __index__ = __neg__ = __abs__ = _bad
    __hash__ = None
    def __repr__(self): return "<undefined %s>" % object.__getattribute__(self, "_nm")


class Env:
    """Locals of the function being executed, plus ghost variables."""

    def __init__(self, loc, k=None, loop=None, entry=None, ghost=None):
        self.__dict__["_loc"] = loc
        self.__dict__["k"] = k
        self.__dict__["loop"] = loop
        self.__dict__["entry"] = entry
        self.__dict__["g"] = ghost

    def __getattr__(self, n):
        try:
            return self._loc[n]
        except KeyError:
            raise Unsupported("loop contract mentions %r, which the code does not define" % n)

    def has(self, n):
        return n in self._loc


def within(i, n):
    """Hypothesis 0 <= i < n for the evaluation of one element."""
    return core.under(z3.And(0 <= sym.t(i), sym.t(i) < sym.t(n)))


class LoopSpec:
    """Invariant of a loop.

    vars:   {name: 'int'|'real'|'bool'|callable(env)->value} locals that carry
            information across iterations; every other assigned local is dead there
    havoc:  callable(env): replaces the heap the loop modifies by arbitrary values
    inv:    callable(env) -> [(name, condition)]
    modifies: callable(env) -> list of heap objects or (object, attribute)
    always: cut the loop even when nothing symbolic drives it (while loops)
    """

    def __init__(self, inv, vars=None, havoc=None, modifies=None, always=True, name=""):
        self.inv, self.vars, self.havoc, self.modifies, self.always, self.name = inv, vars or {}, havoc, modifies, always, name


def applied(f, env):
    """Evaluate part of a loop contract; where the state does not have the shape it talks about, it does not apply."""
    try:
        return f(env)
    except (Unsupported, Stop, core.Budget):
        raise
    except (TypeError, AttributeError, ValueError, IndexError, KeyError) as e:
        raise Unsupported("a loop contract does not apply: %s: %s" % (type(e).__name__, e))


class Native:
    native = True

    def __init__(self):
        self.n = 0


class Cut:
    native = False

    def __init__(self, spec, key, loc, names, it=None, mut=()):
        self.spec, self.key, self.names, self.it = spec, key, names, it
        self.mut = mut
        self.tag = "%s loop %s#%d" % (key[0].split("srmise.")[-1], key[1], key[2])
        p = path()
        p.ctx.loops_cut.add(self.tag)
        self.ghost = p.state.get("ghost")
        self.entry_loc = dict(loc)
        self.entry_heap = {}
        for nm in spec.vars:
            if nm not in names and nm not in mut:
                raise Unsupported("%s: the loop contract names %r, which the code does not define" % (self.tag, nm))
        self.k = 0
        env = self._env(loc, 0)
        if hasattr(spec, "enter"):
            applied(spec.enter, env)
        with sym.spec_mode():
            for nm, c in applied(spec.inv, env):
                p.prove("%s: invariant holds on entry: %s" % (self.tag, nm), bt(c))

    def _env(self, loc, k):
        return Env(loc, k, self, self.entry_loc, self.ghost)

    def havoc(self, loc):
        p = path()
        loc = dict(loc)
        if self.it is not None and not isinstance(self.it, ProtoIter):
            self.k = sym.fresh_int("k", 0)
            self.n = self.it.vc_len()
            p.assume(self.k.t <= sym.t(self.n))
            self.goes_on = p.branch(self.k.t < sym.t(self.n))
            if not self.goes_on:
                self.k = num(self.n)  # the state after the last iteration, in canonical form
        elif self.it is None:
            self.k = sym.fresh_int("k", 0)
        else:
            self.k = sym.fresh_int("k", 0)
        out = {}
        for nm in self.names:
            s = self.spec.vars.get(nm)
            if s is None:
                out[nm] = Undef(nm)
            elif s == "int":
                out[nm] = sym.fresh_int(nm)
            elif s == "real":
                out[nm] = sym.fresh_real(nm)
            elif s == "bool":
                out[nm] = sym.fresh_bool(nm)
            elif s == "same":
                out[nm] = loc[nm]
            else:
                out[nm] = None
        for nm in self.mut:
            out[nm] = loc[nm]
        loc.update(out)
        env = self._env(loc, self.k)
        for nm in builtins.list(self.names) + builtins.list(self.mut):
            s = self.spec.vars.get(nm)
            if callable(s):
                out[nm] = loc[nm] = applied(s, env)
        if self.spec.havoc:
            applied(self.spec.havoc, env)
        with sym.spec_mode():
            for nm, c in applied(self.spec.inv, env):
                p.assume(bt(c))
        if not p.feasible(z3.BoolVal(True)):
            raise Stop()
        allowed = builtins.list(self.spec.modifies(env)) if self.spec.modifies else []
        allowed += [loc[nm] for nm, s in self.spec.vars.items() if callable(s)]
        self.frame = Frame(self.entry_loc, loc, allowed)
        return out

    def more(self):
        if isinstance(self.it, ProtoIter):
            try:
                self.cur = self.it.next()
                return True
            except StopIteration:
                return False
        return self.goes_on

    def item(self):
        if isinstance(self.it, ProtoIter):
            return self.cur
        return self.it.vc_item(self.k)

    def end(self, loc):
        p = path()
        self.frame.check(self.tag)
        env = self._env(loc, self.k + 1)
        if hasattr(self.spec, "step"):
            applied(self.spec.step, env)
        with sym.spec_mode():
            for nm, c in applied(self.spec.inv, env):
                p.prove("%s: invariant preserved: %s" % (self.tag, nm), bt(c))
        dec = getattr(self.spec, "decreases", None)
        p.ctx.covers["%s: an iteration completes" % self.tag] = p.ctx.covers.get("%s: an iteration completes" % self.tag, 0) + 1
        raise Stop()

    def exit(self, loc):
        p = path()
        p.ctx.covers["%s: exit" % self.tag] = p.ctx.covers.get("%s: exit" % self.tag, 0) + 1


def freeze(v):
    if isinstance(v, Arr):
        return v.snapshot() if v.ndim else v
    if isinstance(v, SymList) and type(v) is SymList:
        r = v.copy()
        r.base, r.parts = v.base, v.parts
        return r
    if isinstance(v, seq.FamMixin):
        f, epoch = v.__dict__["_vc_item"], seq.epoch()

        def item(k):
            with seq.as_of(epoch):
                return f(k)
        return SymView(v.vc_len(), item)
    return v


def frozen(f):
    if f is None or not isinstance(f, types.FunctionType):
        return f
    cells = []
    for c in f.__closure__ or ():
        try:
            x = c.cell_contents
        except ValueError:
            cells.append(c)
            continue
        y = freeze(x) if isinstance(x, (Arr, SymList)) else x
        cells.append(types.CellType(y))
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    epoch = seq.epoch()

    def h(*a, **k):
        with seq.as_of(epoch):
            return g(*a, **k)
    return h


class ProtoIter:
    def __init__(self, it):
        self.it = it

    def next(self):
        return type(self.it).__next__(self.it)


class Frame:
    """Everything reachable from the locals that the loop contract does not list must stay unchanged."""

    def __init__(self, entry, now, allowed):
        self.allowed = set()
        for a in allowed:
            if isinstance(a, tuple):
                self.allowed.add((id(a[0]), a[1]))
            else:
                self.allowed.add(id(a))
                if isinstance(a, Arr):
                    self.allowed.add(id(a.store))
        self.keep = []
        self.snap = {}
        for v in list(entry.values()) + list(now.values()):
            self._walk(v, 0)

    def _walk(self, v, d):
        if d > 6 or v is None or isinstance(v, (str, int, float, bool, SNum, SBool, Undef, types.FunctionType, types.ModuleType, type)):
            return
        if id(v) in self.snap:
            return
        if isinstance(v, Arr):
            self.keep.append(v)
            self.snap[id(v)] = ("arr", v, v.store, v.store.ver)
            return
        if isinstance(v, SymList):
            self.keep.append(v)
            self.snap[id(v)] = ("symlist", v, v.ver, v.n)
            return
        if isinstance(v, builtins.list):
            self.snap[id(v)] = ("list", v, [id(x) for x in builtins.list.__iter__(v)] if not hasattr(v, "vc_fam") else None, builtins.list(builtins.list.__iter__(v)))
            for x in builtins.list.__iter__(v):
                self._walk(x, d + 1)
            if hasattr(v, "__dict__"):
                self._obj(v, d)
            return
        if isinstance(v, tuple):
            for x in v:
                self._walk(x, d + 1)
            return
        if isinstance(v, seq.SymDict):
            self.snap[(id(v), "layer")] = ("symdict", v, v.ver)
        if isinstance(v, dict) and not (isinstance(v, seq.SymDict) and v.layer is not None):
            self.snap[id(v)] = ("dict", v, {k: id(x) for k, x in v.items()}, dict(v))
            for x in v.values():
                self._walk(x, d + 1)
            return
        if type(v).__module__.startswith("diffpy.srmise"):
            self._obj(v, d)

    def _obj(self, v, d):
        self.snap[(id(v), "attrs")] = ("obj", v, {k: id(x) for k, x in v.__dict__.items()}, dict(v.__dict__))
        for x in builtins.list(v.__dict__.values()):
            self._walk(x, d + 1)

    def check(self, tag):
        for key, rec in self.snap.items():
            kind, v = rec[0], rec[1]
            if id(v) in self.allowed:
                continue
            bad = None
            if kind == "arr":
                if id(rec[2]) in self.allowed:
                    continue
                if v.store is not rec[2] or v.store.ver != rec[3]:
                    bad = "an array"
            elif kind in ("symlist", "symdict"):
                if v.ver != rec[2]:
                    bad = "a list"
            elif kind == "list":
                if rec[2] is not None and [id(x) for x in builtins.list.__iter__(v)] != rec[2]:
                    bad = "a list"
            elif kind == "dict":
                for k in set(rec[2]) | set(v):
                    if id(v.get(k, Frame)) != rec[2].get(k) and (id(v), k) not in self.allowed:
                        bad = "a dictionary"
            elif kind == "obj":
                for k in set(rec[2]) | set(v.__dict__):
                    if id(v.__dict__.get(k, Frame)) != rec[2].get(k) and (id(v), k) not in self.allowed:
                        bad = "attribute %r" % k
            if bad:
                raise Unsupported("%s: the loop changes %s that its contract does not list" % (tag, bad))


def printed(spec, v):
    """The number one reads where v was printed with a limited precision: a function of v and the format."""
    return SNum(z3.Function("printed " + spec.strip(), sym.R, sym.R)(sym.t(arr.coerce(num(v), "f"))))


class Texts(str):
    """An unknown number of texts, in a list of texts that are only ever joined."""


class Joined(sym.Sym):
    """The text sep.join(s) for a symbolic number of texts."""

    def __init__(self, sep, s):
        self.sep, self.s = sep, s


_TOK = re.compile(r"zVC\d+z")
_NPTOK = re.compile(r"\bnp\.(float64|float32|float16|bool_|bool|int64|int32)\((zVC\d+z)\)")


def np_repr(v):
    """repr(v) of an element of a numpy array (numpy >= 2)."""
    if isinstance(v, SNum):
        return "np.%s(%s)" % ("int64" if sym.isint(v.t) else "float64", sym.token_for(v))
    if isinstance(v, SBool):
        return "np.bool_(%s)" % sym.token_for(v)
    return builtins.repr(v)


def text_eval(s, g):
    """eval(s) in the namespace g, where tokens stand for the values they were printed from.

    (repr of floats, integers, booleans and sequences of them reads back exactly.)
    """
    toks = path().tokens
    m = re.fullmatch(r"\s*\[\s*(zVC\d+z)\s*,?\s*\]\s*", s)
    if m and isinstance(toks[m.group(1)], Joined):
        j = toks[m.group(1)]
        if j.sep.strip() != ",":
            raise SyntaxError("invalid syntax")
        probe = SNum(z3.Int(path().name("probe")))
        if not path().feasible(bt(num(j.s.n) > 0)):
            return SymList(0, lambda i: None)
        with within(probe, j.s.n):
            text_eval(j.s.fn(probe), g)
        return SymList(j.s.n, lambda i: text_eval(j.s.fn(i), g))
    env = dict(g)
    for tok in set(_TOK.findall(s)):
        if tok not in toks:
            continue
        if isinstance(toks[tok], Joined):
            raise Unsupported("evaluation of a text with an unknown number of items")
        if tok in path().lossy:
            raise Unsupported("evaluation of a number printed with limited precision")
        env[tok] = toks[tok]
    return builtins.eval(_NPTOK.sub(r"(np.\1 and \2)", s) if "np" in env else s, env)


class MiniMod:
    pass


class Splat:
    """All elements of a sequence of symbolic length, given as arguments of a call."""

    def __init__(self, items):
        self.items = items

    def __getattr__(self, n):
        raise Unsupported("arguments of a symbolic number")

    def __len__(self):
        raise Unsupported("arguments of a symbolic number")

    __iter__ = __getitem__ = __add__ = __sub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = __str__ = __index__ = __len__

    def __eq__(self, o):
        raise Unsupported("arguments of a symbolic number")

    __hash__ = None


class _VC:
    NP = arr.NP

    def __init__(self):
        self.specs = {}
        self.eval_hook = None
        self.open_hook = None
        self.newlists = {}

    # --- loops ----------------------------------------------------------------
    def while_enter(self, key, loc, names, mut=()):
        if core.cur is None:
            return Native()
        spec = self.specs.get(key)
        if spec is not None and (spec.always or any(is_sym(v) for v in loc.values())):
            return Cut(spec, key, _strip(loc), names, None, mut)
        return Native()

    def tick(self, lp):
        lp.n += 1
        if core.cur is not None and lp.n > UNROLL:
            raise Unsupported("a loop without contract ran more than %d times" % UNROLL)
        if core.cur is not None and lp.n > 12 and core.cur.trace and core.cur.ctx.npaths > 3000:
            raise Unsupported("a loop without contract explodes")
        return True

    def for_enter(self, key, it, loc, names, mut=()):
        if core.cur is None:
            return Native()
        spec = self.specs.get(key)
        if is_symseq(it):
            if spec is None:
                same = [k for k in self.specs if k[:2] == key[:2]]
                if len(same) == 1:
                    spec = self.specs[same[0]]  # loops before it came or went; the rules are proved for this one
            if spec is None:
                raise Unsupported("loop %s %s#%d over a symbolic sequence has no contract" % key)
            return Cut(spec, key, _strip(loc), names, it, mut)
        if spec is not None and getattr(spec, "proto", False) and not hasattr(it, "vc_item") and not isinstance(it, (builtins.list, tuple)):
            return Cut(spec, key, _strip(loc), names, ProtoIter(it), mut)
        return Native()

    def iter_native(self, it):
        if core.cur is not None and not isinstance(it, (builtins.list, tuple, dict, str, Arr)) and hasattr(it, "__next__") and type(it).__module__.startswith("diffpy"):
            return self._guard(it)
        return it

    def _guard(self, it):
        n = 0
        for v in it:
            n += 1
            if n > UNROLL:
                raise Unsupported("unbounded iteration without contract")
            yield v

    # --- operators --------------------------------------------------------------
    def is_(self, a, b):
        if isinstance(a, Undef):
            a._bad()
        if isinstance(a, SBool) and isinstance(b, bool):
            return SBool(a.t == z3.BoolVal(b))
        if isinstance(b, SBool) and isinstance(a, bool):
            return SBool(b.t == z3.BoolVal(a))
        if isinstance(a, SNum) and isinstance(b, (int, float)):
            return False
        if b is None and isinstance(a, seq.Opt):
            return sym.Not(a.present)
        if (getattr(a, "vc_native", None) is not None and a.vc_native is b) or (getattr(b, "vc_native", None) is not None and b.vc_native is a):
            return True
        ida, idb = getattr(a, "vc_ident", None), getattr(b, "vc_ident", None)
        if ida is not None and idb is not None and not isinstance(a, type):
            if ida[0] == idb[0]:
                return SBool(sym.t(ida[1]) == sym.t(idb[1]))
            return False
        return a is b

    def star(self, x):
        """f(*x): a sequence of symbolic length is passed on as one Splat."""
        return (Splat(x),) if core.cur is not None and is_symseq(x) else x

    def newdict(self):
        return seq.SymDict() if core.cur is not None else {}

    def is_not(self, a, b):
        r = self.is_(a, b)
        return sym.Not(r) if isinstance(r, SBool) else not r

    def in_(self, a, b):
        if isinstance(b, (SymList, SymRange)) or (hasattr(b, "vc_fam")):
            if hasattr(b, "vc_contains"):
                return b.vc_contains(a)
        if isinstance(b, builtins.range) and isinstance(a, SNum) and b.step == 1:
            return sym.And(a >= b.start, a < b.stop)
        if isinstance(b, SymRange) and b.step == 1:
            return sym.And(num(a) >= b.lo, num(a) < b.hi)
        if isinstance(b, seq.SymDict):
            return b.vc_contains(a)
        if isinstance(a, str) and isinstance(b, (set, frozenset)):
            return a in b
        if isinstance(b, dict) and isinstance(a, (SNum,)):
            for k in b:
                if isinstance(k, (int, float, SNum)) and bool(a == k):
                    return True
            return False
        return a in b

    def not_in(self, a, b):
        r = self.in_(a, b)
        return sym.Not(r) if isinstance(r, SBool) else not r

    def mod(self, a, b):
        if isinstance(a, str):
            return format_percent(a, b)
        return a % b

    def indices(self, s, n):
        if not isinstance(s, slice):
            return s.indices(n)
        if not any(isinstance(v, SNum) for v in (s.start, s.stop, s.step, n)):
            return s.indices(n)
        lo, step, cnt = arr.slice_bounds(s, n)
        hi = arr.clamp(s.stop, n, n)
        return (lo, hi, step)

    def unpack(self, v, pat):
        if pat == 1:
            return [v]
        v = builtins.list(v)
        if len(v) != len(pat):
            raise ValueError("not enough values to unpack" if len(v) < len(pat) else "too many values to unpack")
        out = []
        for e, p in zip(v, pat):
            out += self.unpack(e, p)
        return out

    def comp(self, elt, it, cond, kind):
        if is_symseq(it):
            # evaluated lazily, but in the state of now
            elt, it, cond = frozen(elt), freeze(it), frozen(cond)
            if cond is not None:
                n = it.vc_len()

                def test(i):
                    with within(i, n):
                        return SBool(bt(cond(it.vc_item(i))))
                s = arr.selection(Arr((n,), test, "b"))

                def pickd(j):
                    with within(j, s.n), within(s.sel(j), n):
                        return elt(it.vc_item(s.sel(j)))
                return SymList(s.n, pickd)

            def item(i):
                with within(i, it.vc_len()):
                    return elt(it.vc_item(i))
            r = SymList(it.vc_len(), item)
            if isinstance(it, SymList):
                # keep what is known about the pieces, so that facts can be stated about them directly
                if it.base is not None:
                    b = it.base
                    r.base = (b[0], lambda j: elt(b[1](j)))
                elif it.parts:
                    r.parts = [(lo, hi, (lambda f: lambda j: elt(f(j)))(f)) for lo, hi, f in it.parts]
            return r
        if kind == "list":
            return [elt(x) for x in it if cond is None or cond(x)]
        return (elt(x) for x in it if cond is None or cond(x))

    def chain(self, seqs, kind):
        if isinstance(seqs, SymList):
            raise Unsupported("flattening a symbolic number of sequences")
        out = []
        for s in seqs:
            if is_symseq(s):
                if isinstance(out, builtins.list):
                    out = SymList(len(out), seq.as_symlist(out).fn)
            out.extend(s)
        return out if kind == "list" else builtins.iter(out) if isinstance(out, builtins.list) else out

    def extend(self, lst, vs):
        if type(lst) is builtins.list and is_symseq(vs):
            s = seq.as_symlist(vs)
            probe = SNum(z3.Int(path().name("probe")))
            with within(probe, s.n):
                if builtins.isinstance(s.fn(probe), str):
                    lst.append(Texts("any number of texts"))
                    return None
        return lst.extend(vs)

    def newlist(self, where, target):
        """An empty list; contracts may ask for one that can hold an unknown number of items."""
        f = self.newlists.get((where, target)) or self.newlists.get((where, "*[]" if target.endswith("]") else "*"))
        return f() if f is not None and core.cur is not None else []

    def split(self, s, *a):
        if core.cur is None or not builtins.isinstance(s, str):
            return s.splitlines() if a[1:] else s.split(*a)
        toks = path().tokens
        whole = [t_ for t_ in _TOK.findall(s) if t_ in toks and isinstance(toks[t_], Joined)]
        if not whole:
            return s.splitlines() if a[1:] else s.split(*a)
        if a and a[0] is not None and not builtins.any(a[0] in toks[w].sep for w in whole):
            return s.splitlines() if a[1:] else s.split(*a)  # the pieces of a list do not contain the separator
        j = toks[whole[0]]
        if s != whole[0] or not a or j.sep != a[0]:
            raise Unsupported("splitting a text with an unknown number of pieces")
        return SymList(j.s.n, j.s.fn)

    def join(self, sep, it):
        if hasattr(it, "vc_join"):
            return it.vc_join(sep)
        if builtins.isinstance(sep, str) and core.cur is not None and is_symseq(it):
            return sym.token_for(Joined(sep, seq.as_symlist(it).copy()))
        return sep.join(it)

    # --- builtins ------------------------------------------------------------------
    def b_len(self, v):
        if hasattr(v, "symlen"):
            return v.symlen()
        return builtins.len(v)

    def b_range(self, *a):
        a = [x.as_scalar() if isinstance(x, Arr) else x for x in a]
        a = [sym.conc(x) if isinstance(x, SNum) else x for x in a]
        for x in a:
            if isinstance(x, (float, _np.floating)) or (isinstance(x, SNum) and not sym.isint(x.t)):
                raise TypeError("'float' object cannot be interpreted as an integer")
        if any(isinstance(x, SNum) for x in a):
            if len(a) == 1:
                return SymRange(0, a[0])
            return SymRange(*a)
        return builtins.range(*a)

    def b_isinstance(self, v, cls):
        if isinstance(cls, tuple):
            return builtins.any(self.b_isinstance(v, c) for c in cls)
        if hasattr(type(v), "vc_isinstance"):
            return v.vc_isinstance(cls)
        if isinstance(v, SNum):
            if cls in (float, _np.float64, _np.floating):
                return not sym.isint(v.t)
            if cls in (int, _np.integer, _np.int64):
                return sym.isint(v.t)
            return cls is object or getattr(cls, "__name__", "") in ("Number", "Real")
        if isinstance(v, SBool):
            return cls in (bool, int, object)
        if isinstance(v, SymList):
            return cls in (builtins.list, object)
        if isinstance(v, SymRange):
            return cls in (builtins.range, object)
        return builtins.isinstance(v, cls)

    def b_sum(self, v, start=0):
        if isinstance(v, Arr):
            r = arr.a_sum(v, 0 if v.ndim > 1 else None)
            return r if start == 0 else start + r
        if is_symseq(v):
            s = seq.as_symlist(v)
            r = seqsum(s)
            return r if (not is_sym(start) and start == 0) else start + r
        r = start
        for x in v:
            r = r + x
        return r

    def b_min(self, *a, **k):
        return arr.smin(*a, **k)

    def b_max(self, *a, **k):
        return arr.smax(*a, **k)

    def b_int(self, *a):
        if a and isinstance(a[0], (SNum, SBool, Arr)):
            v = a[0].as_scalar() if isinstance(a[0], Arr) else a[0]
            if isinstance(v, SBool):
                v = v.num()
            return sym.trunc(v)
        if a and isinstance(a[0], str) and core.cur is not None and a[0].strip() in path().tokens:
            v = path().tokens[a[0].strip()]
            if sym.isint(v.t):
                return v
            raise ValueError("invalid literal for int()")
        return builtins.int(*a)

    def b_float(self, *a):
        if a and isinstance(a[0], (SNum, SBool, Arr)):
            v = a[0].as_scalar() if isinstance(a[0], Arr) else a[0]
            return arr.coerce(v, "f")
        if a and isinstance(a[0], bytes) and core.cur is not None:
            a = (a[0].decode("latin1"),)
        if a and isinstance(a[0], str) and core.cur is not None and a[0].strip() in path().tokens:
            tok = a[0].strip()
            v = arr.coerce(path().tokens[tok], "f")
            return printed(path().lossy[tok], v) if tok in path().lossy else v
        if a and hasattr(a[0], "vc_float"):
            return a[0].vc_float()
        return builtins.float(*a)

    def b_bool(self, *a):
        if a and isinstance(a[0], (SNum, SBool)):
            return SBool(bt(a[0]))
        return builtins.bool(*a)

    def b_abs(self, v):
        return abs(v)

    def b_type(self, *a, **k):
        if builtins.len(a) == 1 and not k and hasattr(type(a[0]), "vc_type"):
            return a[0].vc_type()
        return builtins.type(*a, **k)

    def b_round(self, v, *a):
        if is_sym(v):
            raise Unsupported("round")
        return builtins.round(v, *a)

    def b_divmod(self, a, b):
        return (a // b, a % b)

    def b_enumerate(self, it, start=0):
        if is_symseq(it):
            return SymView(it.vc_len(), lambda k: (k + start if not (isinstance(start, int) and start == 0) else k, it.vc_item(k)))
        return builtins.enumerate(it, start)

    def b_zip(self, *its, **k):
        if builtins.any(is_symseq(i) for i in its):
            ns = [i.vc_len() if hasattr(i, "vc_len") else len(i) for i in its]
            n = ns[0]
            for m in ns[1:]:
                if not arr.dim_is(m, n):
                    n = m if bool(num(m) < n) else n
            its = [i if hasattr(i, "vc_item") else seq.as_symlist(i) for i in its]
            return SymView(n, lambda j: tuple(i.vc_item(j) for i in its))
        return builtins.zip(*its, **k)

    def b_reversed(self, it):
        if is_symseq(it):
            n = it.vc_len()
            return SymView(n, lambda k: it.vc_item(arr.simp(num(n) - 1 - k)))
        if isinstance(it, (Arr, SymRange, SymList)):
            return builtins.reversed(builtins.list(it))
        return builtins.reversed(it)

    def b_sorted(self, it, **k):
        if isinstance(it, seq.SymSet) and not k:
            return it.enumerated(True)
        if is_symseq(it):
            r = seq.as_symlist(it)
            r = SymList(r.n, r.fn) if k else r.copy()
            r.sort(**k)
            return r
        return builtins.sorted(it, **k)

    def b_list(self, *a):
        if a and isinstance(a[0], seq.SymSet):
            return a[0].enumerated(False)
        if a and is_symseq(a[0]):
            return seq.as_symlist(a[0]).copy()
        if a and isinstance(a[0], SymList):
            return [a[0].fn(i) for i in builtins.range(a[0].n)]
        return builtins.list(*a)

    def b_tuple(self, *a):
        if a and is_symseq(a[0]):
            return seq.as_symlist(a[0]).copy()
        return builtins.tuple(*a)

    def b_set(self, *a):
        if a and is_symseq(a[0]):
            return seq.SymSet([seq.as_symlist(a[0]).copy()])
        return builtins.set(*a)

    def b_any(self, v):
        if isinstance(v, Arr):
            return arr.a_any(v)
        if is_symseq(v):
            s = seq.as_symlist(v)
            if not builtins.bool(num(s.n) > 0):
                return False
            return sym.Not(sym.forall(1, lambda i: sym.Implies(sym.And(0 <= i, i < s.n), sym.Not(SBool(bt(s.fn(i)))))))
        for x in v:
            if x:
                return True
        return False

    def b_all(self, v):
        if isinstance(v, Arr):
            return arr.a_all(v)
        if is_symseq(v):
            s = seq.as_symlist(v)
            if not builtins.bool(num(s.n) > 0):
                return True
            return sym.forall(1, lambda i: sym.Implies(sym.And(0 <= i, i < s.n), SBool(bt(s.fn(i)))))
        for x in v:
            if not x:
                return False
        return True

    def b_map(self, f, *its):
        if len(its) == 1 and is_symseq(its[0]):
            it = its[0]
            g = self._fix(f)
            return SymList(it.vc_len(), lambda i: g(it.vc_item(i)))
        return builtins.map(self._fix(f), *its)

    def b_filter(self, f, it):
        if is_symseq(it):
            raise Unsupported("filter of a symbolic sequence")
        return builtins.filter(f, it)

    def _fix(self, f):
        nm = getattr(f, "__name__", "")
        if f in (float, int, bool, len, abs) and hasattr(self, "b_" + nm):
            return getattr(self, "b_" + nm)
        return f

    def b_iter(self, *a):
        return builtins.iter(*a)

    def b_next(self, *a):
        return builtins.next(*a)

    def b_complex(self, *a):
        return builtins.complex(*a)

    def b_eval(self, s, *a):
        if self.eval_hook is not None and core.cur is not None:
            return self.eval_hook(s)
        if core.cur is not None and isinstance(s, str) and _TOK.search(s) and not a:
            import sys
            return text_eval(s, sys._getframe(1).f_globals)
        if not a:
            import sys
            f = sys._getframe(1)
            return builtins.eval(s, f.f_globals, dict(f.f_locals))
        return builtins.eval(s, *a)

    def b_open(self, *a, **k):
        if self.open_hook is not None and core.cur is not None:
            return self.open_hook(*a, **k)
        return builtins.open(*a, **k)


def seqsum(s):
    """Sum of a symbolic-length sequence of numbers or of equally long arrays."""
    if not isinstance(s.n, SNum):
        r = 0
        for i in range(s.n):
            r = r + s.fn(i)
        return r
    e = s.fn(SNum(z3.Int(path().name("probe"))))
    if isinstance(e, Arr):
        raise Unsupported("sum of a symbolic number of arrays")
    return arr.register_sum(s.n, s.fn)


def _strip(loc):
    return {k: v for k, v in loc.items() if not k.startswith("_vc_")}


_FMT = re.compile(r"%(\((?P<name>[^)]*)\))?[#0\- +]*(\*|\d+)?(\.(\*|\d+))?(?P<c>[diouxXeEfFgGcrsa%])")


def format_percent(fmt, args):
    """fmt % args where symbolic numbers print as tokens; %s/%r keep the value exactly."""
    symbolic = False
    if isinstance(args, tuple):
        symbolic = builtins.any(is_sym(a) for a in args)
    elif isinstance(args, dict):
        symbolic = builtins.any(is_sym(a) for a in args.values())
    else:
        symbolic = is_sym(args)
    if not symbolic:
        return fmt % args
    out, pos, ai = [], 0, 0
    tup = args if isinstance(args, tuple) else (args,)
    for m in _FMT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        c = m.group("c")
        if c == "%":
            out.append("%")
            continue
        if m.group("name") is not None:
            v = args[m.group("name")]
        else:
            if ai >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[ai]
            ai += 1
        if is_sym(v):
            tok = sym.token_for(v)
            if c in "eEfFgG":
                path().lossy[tok] = m.group(0)
            elif c in "di" and isinstance(v, SNum) and not sym.isint(v.t):
                path().lossy[tok] = m.group(0)
            out.append(tok)
        else:
            spec = m.group(0).replace("(%s)" % m.group("name"), "") if m.group("name") is not None else m.group(0)
            out.append(spec % (v,) if not isinstance(v, tuple) else spec % (v,))
    out.append(fmt[pos:])
    if not isinstance(args, dict) and ai < len(tup):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


VC = _VC()
