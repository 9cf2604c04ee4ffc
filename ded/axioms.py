"""Ground instances of the trusted facts about sqrt, exp, log, sin, cos and pi."""
import z3

from . import sym

NAMES = {"sqrt", "exp", "log", "sin", "cos", "pi", "pow", "arcsin"}


_apps, _clean = {}, {}


def apps(terms, seen=None):
    """Applications of the special functions without bound variables."""
    found = []
    seen = set() if seen is None else seen
    for e in terms:
        i = e.get_id()
        if i in _clean:
            continue
        r = _apps.get(i)
        if r is None:
            if len(_apps) > 20000:
                _apps.clear()
            r = _apps[i] = (e, walk(e))
        for f in r[1]:
            if f.get_id() not in seen:
                seen.add(f.get_id())
                found.append(f)
    return found


def walk(term):
    found, visited, stack = [], {}, [term]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in visited or i in _clean:
            continue
        visited[i] = e
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in NAMES:
                found.append(e)
            stack.extend(e.children())
    if not found:
        # nothing in it: not looked at again (the terms are kept, so that their numbers stay theirs)
        if len(_clean) > 300000:
            _clean.clear()
        _clean.update(visited)
    return found


def axiom(e):
    return cached(("ax", e), _axiom)


def _axiom(e):
    n = e.decl().name()
    out = []
    if n == "pi":
        return [e > z3.RealVal("3.14159265"), e < z3.RealVal("3.14159266")]
    a = e.arg(0)
    if n == "sqrt":
        out.append(z3.Implies(a >= 0, z3.And(e >= 0, e * e == a)))
        out.append(z3.Implies(a > 0, e > 0))
    elif n == "exp":
        out.append(e > 0)
        out.append(z3.Implies(a >= 0, e >= 1))
        out.append(z3.Implies(a <= 0, e <= 1))
        out.append(z3.Implies(a == 0, e == 1))
        out.append(z3.Implies(a != 0, e != 1))
        out.append(e >= 1 + a)
    elif n == "log":
        out.append(z3.Implies(a > 1, e > 0))
        out.append(z3.Implies(z3.And(a > 0, a < 1), e < 0))
        out.append(z3.Implies(a == 1, e == 0))
        s = z3.simplify(a)
        if z3.is_rational_value(s) and s.as_fraction() == 2:
            out += [e > z3.RealVal("0.693147"), e < z3.RealVal("0.693148")]
    elif n == "arcsin":
        out.append(z3.Implies(z3.And(a >= -1, a <= 1), z3.And(2 * e >= -sym.PI, 2 * e <= sym.PI, sym.SIN(e) == a, sym.COS(e) >= 0, sym.COS(e) * sym.COS(e) == 1 - a * a)))
    elif n in ("sin", "cos"):
        s, c = sym.SIN(a), sym.COS(a)
        out.append(s * s + c * c == 1)
        out += [e >= -1, e <= 1]
        out.append(z3.Implies(a == 0, s == 0))
        out.append(z3.Implies(a == 0, c == 1))
        out.append(z3.Implies(z3.And(a > 0, a < sym.PI), s > 0))
        out.append(z3.Implies(z3.And(a > sym.PI, a < 2 * sym.PI), s < 0))
        out.append(z3.Implies(z3.And(a > -sym.PI, a < 0), s < 0))
        out.append(z3.Implies(z3.And(a > -sym.PI / 2, a < sym.PI / 2), c > 0))
        out.append(z3.Implies(z3.And(a > sym.PI / 2, a < 3 * sym.PI / 2), c < 0))
        out.append(z3.Implies(a == sym.PI, z3.And(s == 0, c == -1)))
        out.append(z3.Implies(a == sym.PI / 2, z3.And(s == 1, c == 0)))
    return out


_simp, _pairs = {}, {}


def simp(e):
    k = e.get_id()
    r = _simp.get(k)
    if r is None:
        if len(_simp) > 50000:
            _simp.clear()
        r = _simp[k] = (e, z3.simplify(e, som=True))
    return r[1]


def cached(key, fn):
    k = (key[0],) + tuple(x.get_id() for x in key[1:])
    r = _pairs.get(k)
    if r is None:
        if len(_pairs) > 50000:
            _pairs.clear()
        r = _pairs[k] = (key, fn(*key[1:]))
    return r[1]


def exp_pair(e, f):
    a, b = e.arg(0), f.arg(0)
    out = [z3.Implies(a == b, e == f), z3.Implies(a < b, e < f), z3.Implies(a > b, e > f)]
    s = simp(a + b)
    if z3.is_rational_value(s) and s.as_fraction() == 0:
        out.append(e * f == 1)
    return out


def pair_axioms(es):
    out = []
    by = {}
    for e in es:
        by.setdefault(e.decl().name(), []).append(e)
    ex = by.get("exp", [])
    arg = {simp(g.arg(0)).get_id(): g for g in ex}
    for n, e in enumerate(ex):
        for f in ex[n + 1:]:
            out += cached(("exp2", e, f), exp_pair)
        if len(ex) <= 12:
            for f in ex:
                s = simp(e.arg(0) + f.arg(0))
                if s.get_id() in arg:
                    out.append(e * f == arg[s.get_id()])
                s = simp(e.arg(0) - f.arg(0))
                if s.get_id() in arg:
                    out.append(e == f * arg[s.get_id()])
    for l in by.get("log", []):
        for e in by.get("exp", []):
            if z3.eq(z3.simplify(e.arg(0)), z3.simplify(l)):
                out.append(z3.Implies(l.arg(0) > 0, e == l.arg(0)))
            if z3.eq(z3.simplify(l.arg(0)), z3.simplify(e)):
                out.append(l == e.arg(0))
        for m in by.get("log", []):
            if l.get_id() < m.get_id():
                a, b = l.arg(0), m.arg(0)
                out.append(z3.Implies(z3.And(a > 0, b > 0), z3.And((a < b) == (l < m), (a == b) == (l == m))))
    for l in by.get("sqrt", []):
        for m in by.get("sqrt", []):
            if l.get_id() < m.get_id():
                a, b = l.arg(0), m.arg(0)
                out.append(z3.Implies(z3.And(a >= 0, b >= 0), z3.And((a < b) == (l < m), (a == b) == (l == m))))
    for e in by.get("arcsin", []):
        a = e.arg(0)
        for f in by.get("sin", []):
            x = f.arg(0)
            out.append(z3.Implies(z3.And(a == f, 2 * x >= -sym.PI, 2 * x <= sym.PI), e == x))
        for f in by.get("arcsin", []):
            if e.get_id() < f.get_id():
                b = f.arg(0)
                out.append(z3.Implies(z3.And(a >= -1, a <= 1, b >= -1, b <= 1), z3.And((a < b) == (e < f), (a == b) == (e == f))))
    tr = by.get("sin", []) + by.get("cos", [])
    argl = {}
    for e in tr:
        argl.setdefault(e.arg(0).get_id(), e.arg(0))
    al = list(argl.values())
    for i, a in enumerate(al):
        for b in al[i + 1:]:
            out.append(z3.Implies(a == b, z3.And(sym.SIN(a) == sym.SIN(b), sym.COS(a) == sym.COS(b))))
            out.append(z3.Implies(a == -b, z3.And(sym.SIN(a) == -sym.SIN(b), sym.COS(a) == sym.COS(b))))
            d = z3.simplify((a - b) / sym.PI)
            out.append(z3.Implies(z3.Or(a == b + 2 * sym.PI, a == b - 2 * sym.PI), z3.And(sym.SIN(a) == sym.SIN(b), sym.COS(a) == sym.COS(b))))
            out.append(z3.Implies(z3.Or(a == b + sym.PI, a == b - sym.PI), z3.And(sym.SIN(a) == -sym.SIN(b), sym.COS(a) == -sym.COS(b))))
    return out


def ground(terms):
    es = apps(terms)
    out = []
    done = set()
    for e in es:
        if e.get_id() in done:
            continue
        done.add(e.get_id())
        out += axiom(e)
    # axioms may mention pi
    if any("pi" == x.decl().name() for x in apps(out)):
        out += axiom(sym.PI)
    out += pair_axioms(es)
    return out
