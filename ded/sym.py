"""Scalar proxies: mathematical integers, reals (optionally possibly-NaN) and booleans."""
import math
from fractions import Fraction

import numpy as _np
import z3

from . import core
from .core import Unsupported, path

R = z3.RealSort()
I = z3.IntSort()

SQRT = z3.Function("sqrt", R, R)
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)
POW = z3.Function("pow", R, R, R)
LOG2 = z3.Function("log2", R, R)
ARCSIN = z3.Function("arcsin", R, R)
PI = z3.Const("pi", R)
UF_UNARY = {"sqrt": SQRT, "exp": EXP, "log": LOG, "sin": SIN, "cos": COS}


def rat(x):
    """The simplest rational that prints like the float (0.1 -> 1/10)."""
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non-finite constant %r used as a number" % x)
    if x == int(x) and abs(x) < 2 ** 70:
        return Fraction(int(x))
    return Fraction(repr(x))


def is_native_num(v):
    return isinstance(v, (bool, int, float, Fraction, _np.bool_, _np.integer, _np.floating))


def t(v):
    """z3 term of a number-like value (Int or Real sort)."""
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, _np.bool_)):
        return z3.IntVal(int(v))
    if isinstance(v, (int, _np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, (float, _np.floating)):
        f = float(v)
        if f == math.pi:
            return PI
        if f == 2 * math.pi:
            return 2 * PI
        return z3.RealVal(str(rat(f)))
    if isinstance(v, z3.ExprRef):
        return v
    if hasattr(v, "as_scalar"):
        return t(v.as_scalar())
    raise Unsupported("not a number: %s" % type(v).__name__)


def nan_of(v):
    if isinstance(v, SNum):
        return v.nan
    if isinstance(v, (float, _np.floating)) and v != v:
        return z3.BoolVal(True)
    return None


def real(term):
    return z3.ToReal(term) if term.sort() == I else term


def isint(term):
    return term.sort() == I


def orn(*ns):
    ns = [n for n in ns if n is not None]
    if not ns:
        return None
    return ns[0] if len(ns) == 1 else z3.Or(*ns)


def bt(b):
    """z3 boolean term of a truth-like value."""
    if isinstance(b, SBool):
        return b.t
    if isinstance(b, (bool, _np.bool_)):
        return z3.BoolVal(bool(b))
    if isinstance(b, z3.BoolRef):
        return b
    if isinstance(b, SNum):
        nz = b.t != 0
        return nz if b.nan is None else z3.Or(b.nan, nz)
    if b is None:
        return z3.BoolVal(False)
    if isinstance(b, (int, float)):
        return z3.BoolVal(bool(b))
    if hasattr(b, "as_scalar"):
        return bt(b.as_scalar())
    raise Unsupported("not a boolean: %s" % type(b).__name__)


def token_for(v):
    """A text placeholder standing for the printed form of a symbolic value."""
    p = path()
    tok = "zVC%dz" % len(p.tokens)
    p.tokens[tok] = v
    return tok


class Sym:
    __array_ufunc__ = None
    __array_priority__ = 1000


def num(v):
    if isinstance(v, SNum):
        return v
    if isinstance(v, (float, _np.floating)) and v != v:
        return SNum(z3.RealVal(0), z3.BoolVal(True))
    return SNum(t(v))


def infinite(v):
    return isinstance(v, (float, _np.floating)) and v in (math.inf, -math.inf)


def _cmp(op, a, b):
    if infinite(a) or infinite(b):
        av = float(a) if infinite(a) else 0.0
        bv = float(b) if infinite(b) else 0.0
        r = {"<": av < bv, "<=": av <= bv, ">": av > bv, ">=": av >= bv, "==": av == bv, "!=": av != bv}[op]
        n = orn(nan_of(a), nan_of(b))
        if n is None:
            return bool(r)
        return SBool(z3.Or(n, z3.BoolVal(r)) if op == "!=" else z3.And(z3.Not(n), z3.BoolVal(r)))
    x, y = t(a), t(b)
    if isint(x) != isint(y):
        x, y = real(x), real(y)
    r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
         "==": lambda: x == y, "!=": lambda: x != y}[op]()
    n = orn(nan_of(a), nan_of(b))
    if n is not None:
        r = z3.Or(n, r) if op == "!=" else z3.And(z3.Not(n), r)
    return SBool(r)


def defined(what, cond):
    """Definedness obligation (division, logarithm, square root); True when it now holds on the path."""
    p = core.cur
    if p is None:
        return False
    if p.state.get("wd", True) and not p.state.get("spec", 0):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if p.valid(c, 300):
            # still recorded, so it is counted and named
            p.ctx.obligation(p, "defined: " + what, True)
            return True
        p.prove("defined: " + what, c)
        return True
    return False


class spec_mode:
    """Inside: definedness obligations are not generated (specification expressions)."""

    def __enter__(self):
        p = path()
        p.state["spec"] = p.state.get("spec", 0) + 1

    def __exit__(self, *a):
        p = core.cur
        if p is not None:
            p.state["spec"] -= 1
        return False


def ieee():
    """Whether undefined operations follow IEEE arithmetic here (otherwise they are obligations)."""
    p = core.cur
    return p is not None and p.state.get("ieee", False) and not p.state.get("spec", 0)


NAN = float("nan")


def _infinite_arith(op, a, b):
    """One side is an infinity."""
    if not ieee():
        raise Unsupported("arithmetic with infinity")
    if is_native_num(a) and is_native_num(b):
        with _np.errstate(all="ignore"):
            x, y = _np.float64(a), _np.float64(b)
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}.get(op, lambda: _unsup(op))()
    o = b if infinite(a) else a
    n = nan_of(o)
    if n is not None and bool(SBool(n)):
        return num(NAN)
    if op == "+":
        return _np.float64(a if infinite(a) else b)
    if op == "-":
        return _np.float64(a if infinite(a) else -b)
    if op == "/" and infinite(b):
        return SNum(z3.RealVal(0))
    if op in "*/":
        i = a if infinite(a) else b
        if bool(SBool(real(t(o)) == 0)):
            return num(NAN) if op == "*" else _sign_inf()
        return _np.float64(i if bool(SBool(real(t(o)) > 0)) else -i)
    _unsup(op)


def _unsup(op):
    raise Unsupported("operator %s with infinity" % op)


def _sign_inf():
    """An infinity whose sign depends on the sign of a zero: both are considered."""
    return _np.float64(math.inf if bool(fresh_bool("sign")) else -math.inf)


def _arith(op, a, b):
    if infinite(a) or infinite(b):
        return _infinite_arith(op, a, b)
    x, y = t(a), t(b)
    n = orn(nan_of(a), nan_of(b))
    if op in "+-*":
        if isint(x) != isint(y):
            x, y = real(x), real(y)
        r = x + y if op == "+" else x - y if op == "-" else x * y
        return SNum(r, n)
    if op == "/":
        y = real(y)
        x = real(x)
        if ieee() and bool(SBool(y == 0)):
            if n is not None and bool(SBool(n)):
                return num(NAN)
            return num(NAN) if bool(SBool(x == 0)) else _sign_inf()
        defined("division by zero", y != 0)
        return SNum(x / y, n)
    if op in ("//", "%"):
        if isint(x) and isint(y):
            defined("integer division by zero", y != 0)
            ys = z3.simplify(y)
            if z3.is_int_value(ys) and ys.as_long() > 0:
                return SNum(x / ys if op == "//" else x % ys, n)
            # Python floor division in terms of z3's Euclidean division
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return SNum(q if op == "//" else x - y * q, n)
        defined("division by zero", y != 0)
        q = z3.ToReal(z3.ToInt(real(x) / real(y)))
        return SNum(q if op == "//" else real(x) - real(y) * q, n)
    if op == "**":
        ys = z3.simplify(y)
        if z3.is_rational_value(ys) or z3.is_int_value(ys):
            f = Fraction(ys.as_long()) if z3.is_int_value(ys) else ys.as_fraction()
            if f.denominator == 1 and 0 <= f <= 12:
                r = z3.IntVal(1) if isint(x) and isint(ys) else z3.RealVal(1)
                xx = x if isint(x) and isint(ys) else real(x)
                for _ in range(int(f)):
                    r = r * xx
                return SNum(z3.simplify(r) if int(f) <= 1 else r, n)
            if f.denominator == 1 and -12 <= f < 0:
                r = z3.RealVal(1)
                for _ in range(-int(f)):
                    r = r * real(x)
                defined("division by zero", real(x) != 0)
                return SNum(1 / r, n)
            if f == Fraction(1, 2):
                return fsqrt(SNum(x, n))
            if f.denominator == 2 and 0 < f < 12:
                return fsqrt(SNum(x, n)) ** int(f.numerator)
            if f.denominator == 2 and -12 < f < 0:
                return 1 / (fsqrt(SNum(x, n)) ** int(-f.numerator))
        if isint(x) and isint(y):
            return SNum(intpow(x, y), n)
        xs = z3.simplify(x)
        if core.cur is not None and z3.is_rational_value(z3.simplify(real(xs))) and z3.simplify(real(xs)).as_fraction() == 2:
            return SNum(pow2(real(y)), n)
        return SNum(POW(real(x), real(y)), n)
    raise Unsupported("operator " + op)


IPOW = z3.Function("ipow", I, I, I)


def intpow(x, y):
    return IPOW(x, y)


def fsqrt(v):
    x = real(t(v))
    xs = z3.simplify(x)
    if z3.is_rational_value(xs):
        f = xs.as_fraction()
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return SNum(z3.RealVal(str(Fraction(a, b))), nan_of(v))
    if ieee() and bool(SBool(x < 0)):
        return num(NAN)
    if defined("square root of a negative number", x >= 0):
        core.cur.assume(SQRT(xs) >= 0)
    return SNum(SQRT(xs), nan_of(v))


def fexp(v):
    x = z3.simplify(real(t(v)))
    if z3.is_rational_value(x) and x.as_fraction() == 0:
        return SNum(z3.RealVal(1))
    return SNum(EXP(x), nan_of(v))


def flog(v):
    x = z3.simplify(real(t(v)))
    if z3.is_rational_value(x) and x.as_fraction() == 1:
        return SNum(z3.RealVal(0))
    if ieee() and not bool(SBool(x > 0)):
        return _np.float64(-math.inf) if bool(SBool(x == 0)) else num(NAN)
    defined("logarithm of a non-positive number", x > 0)
    return SNum(LOG(x), nan_of(v))


def flog2(v):
    x = real(t(v))
    defined("logarithm of a non-positive number", x > 0)
    p = core.path()
    L = LOG2(x)
    from .arr import trusted
    trusted("log2 is the inverse of the power of two, which increases and is a natural number at natural numbers")
    p.state["log2"] = p.state.get("log2", ()) + (x,)
    p.assume(z3.Implies(x >= 1, L >= 0))
    return SNum(L, nan_of(v))


def pow2(y):
    p = core.path()
    P = POW(z3.RealVal(2), y)
    p.assume(z3.And(P > 0, z3.Implies(z3.And(y >= 0, z3.ToReal(z3.ToInt(y)) == y), z3.And(P >= 1, z3.ToReal(z3.ToInt(P)) == P))))
    for x in p.state.get("log2", ()):
        p.assume(z3.Implies(x > 0, z3.And((y >= LOG2(x)) == (P >= x), (y <= LOG2(x)) == (P <= x))))
    return P


def fsin(v):
    return SNum(SIN(z3.simplify(real(t(v)))), nan_of(v))


SINC = z3.Function("sinc", R, R)


def fsinc(v):
    """sin(pi x) / (pi x): one at zero, zero at every other whole number."""
    x = z3.simplify(real(t(v)))
    from .arr import trusted
    trusted("sinc is one at zero and zero at every other whole number")
    core.cur.assume(z3.And(z3.Implies(x == 0, SINC(x) == 1), z3.Implies(z3.And(x != 0, z3.ToReal(z3.ToInt(x)) == x), SINC(x) == 0)))
    return SNum(SINC(x), nan_of(v))


def fcos(v):
    return SNum(COS(z3.simplify(real(t(v)))), nan_of(v))


def farcsin(v):
    x = z3.simplify(real(t(v)))
    if ieee() and not bool(SBool(z3.And(x >= -1, x <= 1))):
        return num(NAN)
    if defined("arc sine of a number outside [-1, 1]", z3.And(x >= -1, x <= 1)):
        e = ARCSIN(x)
        core.cur.assume(z3.And(2 * e >= -PI, 2 * e <= PI, SIN(e) == x))
    return SNum(ARCSIN(x), nan_of(v))


def fabs(v):
    if isinstance(v, SNum):
        return SNum(z3.If(v.t >= 0, v.t, -v.t), v.nan)
    return abs(v)


def fsign(v):
    x = t(v)
    return SNum(z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0))) if isint(x)
                else z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0))), nan_of(v))


def trunc(v):
    x = t(v)
    if isint(x):
        return SNum(x)
    return SNum(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))


def floor(v):
    x = t(v)
    return SNum(x if isint(x) else z3.ToInt(x))


def ceil(v):
    x = t(v)
    return SNum(x if isint(x) else -z3.ToInt(-x))


def _ok(o):
    return isinstance(o, (SNum, SBool)) or is_native_num(o)


def _repeat(n, o):
    """[x] * n"""
    if type(o) is list and len(o) == 1 and isint(n.t) and n.nan is None:
        from . import seq
        x = o[0]
        n = SNum(z3.simplify(z3.If(n.t > 0, n.t, z3.IntVal(0)))) if not core.cur.valid(n.t >= 0) else n
        return seq.SymList(n, lambda i: x)
    return NotImplemented


class SNum(Sym):
    __slots__ = ("t", "nan")

    def __init__(self, term, nan=None):
        self.t = term
        self.nan = nan

    # numpy-scalar look
    @property
    def dtype(self):
        return _np.dtype(int) if isint(self.t) else _np.dtype(float)

    ndim = 0
    shape = ()
    size = 1
    real = property(lambda self: self)

    def __add__(self, o): return _arith("+", self, o) if _ok(o) else NotImplemented
    def __radd__(self, o): return _arith("+", o, self) if _ok(o) else NotImplemented
    def __sub__(self, o): return _arith("-", self, o) if _ok(o) else NotImplemented
    def __rsub__(self, o): return _arith("-", o, self) if _ok(o) else NotImplemented
    def __mul__(self, o): return _arith("*", self, o) if _ok(o) else _repeat(self, o)
    def __rmul__(self, o): return _arith("*", o, self) if _ok(o) else _repeat(self, o)
    def __truediv__(self, o): return _arith("/", self, o) if _ok(o) else NotImplemented
    def __rtruediv__(self, o): return _arith("/", o, self) if _ok(o) else NotImplemented
    def __floordiv__(self, o): return _arith("//", self, o) if _ok(o) else NotImplemented
    def __rfloordiv__(self, o): return _arith("//", o, self) if _ok(o) else NotImplemented
    def __mod__(self, o): return _arith("%", self, o) if _ok(o) else NotImplemented
    def __rmod__(self, o): return _arith("%", o, self) if _ok(o) else NotImplemented
    def __pow__(self, o): return _arith("**", self, o) if _ok(o) else NotImplemented
    def __rpow__(self, o): return _arith("**", o, self) if _ok(o) else NotImplemented
    def __divmod__(self, o): return (_arith("//", self, o), _arith("%", self, o))
    def __neg__(self): return SNum(-self.t, self.nan)
    def __pos__(self): return self
    def __abs__(self): return fabs(self)

    def __lt__(self, o): return _cmp("<", self, o) if _ok(o) else NotImplemented
    def __le__(self, o): return _cmp("<=", self, o) if _ok(o) else NotImplemented
    def __gt__(self, o): return _cmp(">", self, o) if _ok(o) else NotImplemented
    def __ge__(self, o): return _cmp(">=", self, o) if _ok(o) else NotImplemented

    def __eq__(self, o):
        if not _ok(o):
            return NotImplemented if isinstance(o, Sym) else False
        return _cmp("==", self, o)

    def __ne__(self, o):
        if not _ok(o):
            return NotImplemented if isinstance(o, Sym) else True
        return _cmp("!=", self, o)

    def __bool__(self):
        return path().branch(bt(self))

    def __hash__(self):
        c = self.concrete()
        if c is not None:
            return hash(c)
        raise Unsupported("hash of a symbolic number")

    def concrete(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_rational_value(s):
            return s.as_fraction()
        return None

    def __index__(self):
        if not isint(self.t):
            raise TypeError("'float' object cannot be interpreted as an integer")
        c = self.concrete()
        if c is None:
            c = unique_int(self.t)
        if c is None:
            raise Unsupported("symbolic integer used where a machine integer is needed")
        return c

    def __int__(self):
        raise Unsupported("native int() of a symbolic number")

    def __float__(self):
        c = self.concrete()
        if c is not None:
            return float(c)
        raise Unsupported("native float() of a symbolic number")

    def __round__(self, n=None):
        raise Unsupported("round")

    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    def __trunc__(self): return trunc(self)
    def __repr__(self): return token_for(self) if core.cur is not None else "SNum(%s)" % self.t
    __str__ = __repr__

    def __format__(self, spec):
        return token_for(self)

    # numpy scalar methods
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def all(self, *a, **k): return SBool(bt(self))
    def any(self, *a, **k): return SBool(bt(self))
    def squeeze(self, *a): return self
    def tolist(self): return self
    def conjugate(self): return self
    def __iter__(self): raise TypeError("'float' object is not iterable")
    def __len__(self): raise TypeError("object of type 'float' has no len()")
    def __getitem__(self, i): raise TypeError("'float' object is not subscriptable")


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, term):
        self.t = term

    dtype = _np.dtype(bool)
    ndim = 0
    shape = ()
    size = 1

    def __bool__(self): return path().branch(self.t)
    def __and__(self, o): return SBool(z3.And(self.t, bt(o))) if _bok(o) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.t, bt(o))) if _bok(o) else NotImplemented
    __ror__ = __or__
    def __xor__(self, o): return SBool(z3.Xor(self.t, bt(o))) if _bok(o) else NotImplemented
    __rxor__ = __xor__
    def __invert__(self): return SBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return SBool(self.t == bt(o))
        if _ok(o):
            return _cmp("==", self, o)
        return NotImplemented if isinstance(o, Sym) else False

    def __ne__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return SBool(self.t != bt(o))
        if _ok(o):
            return _cmp("!=", self, o)
        return NotImplemented if isinstance(o, Sym) else True

    def __hash__(self): raise Unsupported("hash of a symbolic boolean")
    def num(self): return SNum(t(self))
    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    def __repr__(self): return token_for(self) if core.cur is not None else "SBool(%s)" % self.t
    __str__ = __repr__
    def __format__(self, spec): return token_for(self)
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))


def _bok(o):
    return isinstance(o, (SBool, bool, _np.bool_))


def unique_int(term):
    """The integer value the path condition forces on the term, if any."""
    p = path()
    if p.solver.check() != z3.sat:
        return None
    v = p.solver.model().eval(term, model_completion=True)
    if not z3.is_int_value(v):
        return None
    return v.as_long() if p.valid(term == v) else None


def is_sym(v):
    return isinstance(v, Sym)


def conc(v):
    """Python number for a value that is syntactically constant, else the value."""
    if isinstance(v, SNum):
        c = v.concrete()
        return v if c is None else c
    return v


# --- fresh values -------------------------------------------------------------
def fresh_int(name, lo=None, hi=None):
    p = path()
    c = z3.Int(p.name(name))
    if lo is not None:
        p.assume(c >= t(lo))
    if hi is not None:
        p.assume(c < t(hi))
    return SNum(c)


def fresh_real(name, nan=False):
    p = path()
    n = p.name(name)
    return SNum(z3.Real(n), z3.Bool(n + ".isnan") if nan else None)


def fresh_bool(name):
    return SBool(z3.Bool(path().name(name)))


def ite(c, a, b):
    c = bt(c)
    if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(b, (SBool, bool, _np.bool_)):
        return SBool(z3.If(c, bt(a), bt(b)))
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return a
    if z3.is_false(cs):
        return b
    x, y = t(a), t(b)
    if isint(x) != isint(y):
        x, y = real(x), real(y)
    na, nb = nan_of(a), nan_of(b)
    n = None
    if na is not None or nb is not None:
        n = z3.If(c, na if na is not None else z3.BoolVal(False), nb if nb is not None else z3.BoolVal(False))
    return SNum(z3.If(c, x, y), n)


def And(*a):
    return SBool(z3.And(*[bt(x) for x in a]))


def Or(*a):
    return SBool(z3.Or(*[bt(x) for x in a]))


def Not(a):
    return SBool(z3.Not(bt(a)))


def Implies(a, b):
    return SBool(z3.Implies(bt(a), bt(b)))


_bv = [0]


def forall(n, f, patterns=None):
    """For all integers: f takes n SNum arguments and returns a condition."""
    vs = []
    for _ in range(n):
        _bv[0] += 1
        vs.append(z3.Int("?%d" % _bv[0]))
    with spec_mode():
        body = core.locally(vs, lambda: bt(f(*[SNum(v) for v in vs])))
    if patterns is not None:
        with spec_mode():
            pats = [z3.MultiPattern(*[t(x) if not isinstance(x, SBool) else x.t for x in q]) if isinstance(q, (list, tuple)) else t(q) if not isinstance(q, SBool) else q.t
                    for q in patterns(*[SNum(v) for v in vs])]
        return SBool(z3.ForAll(vs, body, patterns=pats))
    return SBool(z3.ForAll(vs, body))
