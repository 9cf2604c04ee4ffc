"""Partial derivatives of the verifier's terms, and identities between rational expressions.

diff() is the textbook chain rule over the term language.  At a branch (If) the
two sides must join with equal value and slope wherever the branch condition
switches: those are returned as side conditions to prove.

identity() decides lhs == rhs by normalising lhs - rhs to a polynomial over the
maximal non-rational subterms (sqrt(a) with sqrt(a)^2 = a, sin^2 = 1 - cos^2,
exp with normalised arguments); denominators are covered by the definedness
obligations generated when the code itself divides.
"""
import sympy
import z3

from . import core, sym
from .core import Unsupported


def contains(e, x, cache):
    i = e.get_id()
    if i in cache:
        return cache[i]
    r = e.eq(x) or any(contains(c, x, cache) for c in e.children())
    cache[i] = r
    return r


def diff(e, x):
    """(derivative of e with respect to the constant x, side conditions)."""
    e = z3.simplify(sym.real(e)) if not z3.is_quantifier(e) else e
    has, memo, side = {}, {}, []
    ZERO, ONE = z3.RealVal(0), z3.RealVal(1)

    def atoms(c, out):
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            for k in c.children():
                atoms(k, out)
        elif contains(c, x, has):
            if c.num_args() == 2 and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                out.append(c)
            else:
                raise Unsupported("derivative across the condition %s" % c)
        return out

    def d(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        r = d1(e)
        memo[i] = (e, r)
        return r

    def d1(e):
        if e.eq(x):
            return ONE
        if not contains(e, x, has):
            return ZERO
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            return sum((d(c) for c in ch[1:]), d(ch[0]))
        if k == z3.Z3_OP_SUB:
            r = d(ch[0])
            for c in ch[1:]:
                r = r - d(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -d(ch[0])
        if k == z3.Z3_OP_MUL:
            out = ZERO
            for n, c in enumerate(ch):
                dc = d(c)
                if z3.is_rational_value(dc) and dc.as_fraction() == 0:
                    continue
                term = dc
                for m, o in enumerate(ch):
                    if m != n:
                        term = term * o
                out = out + term
            return out
        if k == z3.Z3_OP_DIV:
            a, b = ch
            if not contains(b, x, has):
                return d(a) / b
            return (d(a) * b - a * d(b)) / (b * b)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            n = ch[1].as_fraction()
            if n.denominator == 1 and n >= 1:
                r = z3.RealVal(int(n))
                for _ in range(int(n) - 1):
                    r = r * ch[0]
                return r * d(ch[0])
        if k == z3.Z3_OP_ITE:
            c, a, b = ch
            da, db = d(a), d(b)
            for at in atoms(c, []):
                u, w = at.arg(0), at.arg(1)
                side.append(("the two sides of a branch join smoothly", z3.Implies(u == w, z3.And(a == b, da == db))))
            return z3.If(c, da, db)
        if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
            a, n = ch[0], e.decl().name()
            if n == "sqrt":
                side.append(("the square root is differentiable", a > 0))
                return d(a) / (2 * e)
            if n == "exp":
                return d(a) * e
            if n == "sin":
                return d(a) * sym.COS(a)
            if n == "cos":
                return -d(a) * sym.SIN(a)
            if n == "log":
                side.append(("the logarithm is differentiable", a > 0))
                return d(a) / a
            if n == "arcsin":
                side.append(("the arc sine is differentiable", z3.And(a > -1, a < 1)))
                return d(a) / sym.SQRT(1 - a * a)
        raise Unsupported("derivative of %s" % e.decl())
    return d(e), side


# --- ring identities -----------------------------------------------------------
class Ring:
    def __init__(self):
        self.syms, self.rel, self.keep = {}, {}, []

    def symbol(self, key, rel=None):
        if key not in self.syms:
            self.syms[key] = sympy.Symbol("x%d" % len(self.syms))
            if rel is not None:
                self.rel[self.syms[key]] = rel
        return self.syms[key]

    def norm(self, e):
        """Canonical rational function (sympy) of a z3 term without If."""
        ex = self.conv(e)
        return self.canon(ex)

    def canon(self, ex):
        n, d = sympy.fraction(sympy.cancel(sympy.together(ex)))
        n, d = self.reduce(n), self.reduce(d)
        return sympy.cancel(n / d)

    def reduce(self, n):
        n = sympy.expand(n)
        for s, r in reversed(list(self.rel.items())):
            if n.has(s):
                p = sympy.Poly(n, s)
                out = 0
                for (k,), c in p.terms():
                    out = out + c * r ** (k // 2) * s ** (k % 2)
                n = sympy.fraction(sympy.together(sympy.expand(out)))[0] if not out.is_polynomial() else sympy.expand(out)
        return n

    def conv(self, e):
        i = e.get_id()
        c = self.syms.get(("conv", i))
        if c is not None:
            return c
        r = self.conv1(e)
        self.syms[("conv", i)] = r
        self.keep.append(e)
        return r

    def conv1(self, e):
        if z3.is_int_value(e):
            return sympy.Integer(e.as_long())
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return sympy.Rational(f.numerator, f.denominator)
        k, ch = e.decl().kind(), e.children()
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*[self.conv(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = r - self.conv(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.conv(ch[0])
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*[self.conv(c) for c in ch])
        if k == z3.Z3_OP_DIV:
            return self.conv(ch[0]) / self.conv(ch[1])
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
            return self.conv(ch[0]) ** int(ch[1].as_fraction())
        if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1 and e.decl().name() in ("sqrt", "exp", "sin", "cos", "log", "arcsin"):
            n = e.decl().name()
            a = self.norm(ch[0])
            if n == "sqrt":
                return self.symbol((n, a), a)
            if n == "exp":
                # exp(-a) = 1/exp(a): pick one sign
                m = self.canon(-a)
                if ("exp", m) in self.syms:
                    return 1 / self.syms[("exp", m)]
                return self.symbol((n, a))
            if n == "sin":
                c = self.symbol(("cos", a))
                return self.symbol((n, a), 1 - c ** 2)
            return self.symbol((n, a))
        if k == z3.Z3_OP_UNINTERPRETED or z3.is_const(e):
            return self.symbol(("t", e.get_id()))
        raise Unsupported("ring identity over %s" % e.decl())


def find_if(e, seen):
    if e.get_id() in seen:
        return None
    seen.add(e.get_id())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return e
    for c in e.children():
        r = find_if(c, seen)
        if r is not None:
            return r
    return None


def identity(p, lhs, rhs, extra=()):
    """True when lhs == rhs on the path (None: not established)."""
    dlt = z3.simplify(sym.real(lhs) - sym.real(rhs))
    return _ident(p, dlt, list(extra), 0)


def _ident(p, e, extra, depth):
    f = find_if(e, set())
    if f is not None and depth < 12:
        c = f.arg(0)
        for val, cond in ((f.arg(1), c), (f.arg(2), z3.Not(c))):
            s = z3.Solver()
            s.set("timeout", 1500)
            from . import axioms
            fs = list(p.pc) + extra + [cond]
            s.add(*fs)
            s.add(*axioms.ground(fs))
            if s.check() == z3.unsat:
                continue
            if _ident(p, z3.simplify(z3.substitute(e, (f, val), (c, z3.BoolVal(cond is c)))), extra + [cond], depth + 1) is not True:
                return None
        return True
    try:
        R = Ring()
        ex = R.conv(e)
        n, d = sympy.fraction(sympy.together(ex))
        n = R.reduce(n)
        for _ in range(3):
            if n == 0:
                return True
            n = R.reduce(n)
        if n == 0 or sympy.expand(n) == 0:
            return True
    except Unsupported:
        return None
    return None


def via_ring(path, phi):
    """Back end for an equation (or conjunction of equations) between real terms; falls back to SMT."""
    todo = [phi]
    ok = True
    while todo:
        g = z3.simplify(todo.pop()) if False else todo.pop()
        if z3.is_true(g):
            continue
        if z3.is_and(g):
            todo += g.children()
        elif z3.is_eq(g) and g.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
            if identity(path, g.arg(0), g.arg(1)) is not True:
                ok = False
                break
        else:
            ok = False
            break
    if ok:
        return "discharged", "sympy-ring", None, ""
    return core.discharge(path.pc, phi, path.ctx.timeout_ms)
