"""Path exploration and proof obligations.

A *contract* (see contracts/) is executed once per feasible path of the real
function it is about.  Symbolic branches fork by re-execution with a recorded
decision prefix, so the heap is the ordinary Python heap and needs no copying.
Every obligation is discharged by an SMT solver under the path condition.
"""
import hashlib
import time
import traceback
from fractions import Fraction

import z3


class Stop(BaseException):
    """This path is finished (loop iteration verified, or infeasible)."""


class Unsupported(BaseException):
    """The code or the annotation left the verifier's subset."""


class Budget(BaseException):
    """Time or path budget exhausted."""


cur = None  # the Path being executed


def path():
    if cur is None:
        raise Unsupported("no active verification path")
    return cur


FEAS_MS = 1500


class Path:
    def __init__(self, ctx, prefix):
        self.ctx = ctx
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()
        self.feas_ms = getattr(ctx.contract, "feas_ms", None) or FEAS_MS
        self.solver.set("timeout", self.feas_ms)
        self.light = self.feas_ms < 1500  # keep hard facts out of the branching solver (more paths, never fewer)
        self.solver.set("mbqi", False)
        self.ax_seen = set()
        self.ax_apps = set()
        self.nfresh = {}
        self.notes = []
        self.axiom_done = set()
        self.tokens = {}
        self.lossy = {}
        self.state = {}
        self.loops_seen = {}
        self.wd_stack = []
        self.depth = 0
        self.local = []

    # --- naming -----------------------------------------------------------
    def name(self, base):
        n = self.nfresh.get(base, 0)
        self.nfresh[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    # --- path condition ---------------------------------------------------
    def assume(self, phi):
        if phi is True:
            return
        if phi is False:
            raise Stop()
        phi = z3.simplify(phi) if not z3.is_quantifier(phi) else phi
        if z3.is_true(phi):
            return
        if z3.is_false(phi):
            raise Stop()
        self.pc.append(phi)
        if self.light and heavy(phi):
            self.notes.append(phi)
            return
        self._axioms(phi)
        self.solver.add(phi)

    def _axioms(self, phi):
        """Ground facts about the special functions occurring in phi."""
        from . import axioms
        new = []
        for e in axioms.apps([phi], self.ax_seen):
            if e.get_id() not in self.ax_apps:
                self.ax_apps.add(e.get_id())
                self.notes.append(e)  # keeps the term (and its id) alive
                new.append(e)
        for e in new:
            for a in axioms.axiom(e):
                self.solver.add(a)
        if phi is not None:
            self.notes.append(phi)

    def feasible(self, phi):
        self._axioms(phi)
        t = time.time()
        r = self.solver.check(phi)
        self.ctx.feas_time += time.time() - t
        self.ctx.nfeas += 1
        return r != z3.unsat

    def branch(self, cond):
        """Decide a symbolic boolean, forking if both outcomes are possible."""
        if cond is True or cond is False:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.local:
            names = symbols(c)
            for ex in reversed(self.local):
                if names & ex.names:
                    return ex.decide(self, c)
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if time.time() > self.ctx.deadline:
                raise Budget("time budget exhausted while exploring paths")
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                self.ctx.stack.append(self.trace + [False])
                d = True
            else:
                d = t
        self.trace.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def valid(self, phi, ms=None):
        """True when the path condition entails phi (quick, may be False if unknown)."""
        if phi is True or phi is False:
            return phi
        phi = z3.simplify(phi)
        if z3.is_true(phi):
            return True
        if z3.is_false(phi):
            return False
        self.solver.set("timeout", ms or self.feas_ms)
        r = self.solver.check(z3.Not(phi))
        self.solver.set("timeout", self.feas_ms)
        return r == z3.unsat

    # --- obligations --------------------------------------------------------
    def prove(self, name, phi, via=None, continue_assuming=True):
        self.ctx.obligation(self, name, phi, via)
        if continue_assuming and phi is not False:
            if phi is not True:
                self.assume(phi)
        if phi is False:
            raise Stop()


class under:
    """Evaluate an element expression for an arbitrary position, under the hypothesis that it is in range.

    Decisions inside are made under the hypothesis; facts learnt inside are kept conditionally.
    """

    def __init__(self, hyp):
        self.h = z3.simplify(hyp)
        self.on = not (z3.is_true(self.h) or z3.is_false(self.h)) and cur is not None

    def __enter__(self):
        if self.on:
            p = self.p = cur
            self.saved = (set(p.ax_seen), set(p.ax_apps))
            p.solver.push()
            self.mark = len(p.pc)
            p.pc.append(self.h)
            p.solver.add(self.h)

    def __exit__(self, et, ev, tb):
        if self.on:
            p = self.p
            new = p.pc[self.mark + 1:]
            del p.pc[self.mark:]
            p.solver.pop()
            p.ax_seen, p.ax_apps = self.saved
            if et is None:
                for f in new:
                    p.assume(z3.Implies(self.h, f))
        if et is not None and issubclass(et, Stop) and self.on:
            raise Unsupported("an element expression fails for some position")
        return False


class Local:
    """Decisions about a variable that is being generalised over belong to the formula, not to the path."""

    def __init__(self, vs):
        self.names = {str(v) for v in vs}
        self.prefix, self.trace, self.conds, self.todo = [], [], [], []

    def decide(self, p, c):
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            t = p.feasible(c)
            f = p.feasible(z3.Not(c)) if t else True
            if t and f:
                self.todo.append(self.trace + [False])
                if len(self.todo) > 64 or len(self.trace) > 24:
                    raise Unsupported("too many cases for an arbitrary element")
            d = t if not (t and f) else True
        self.trace.append(d)
        e = c if d else z3.Not(c)
        self.conds.append(e)
        p.pc.append(e)
        p._axioms(e)
        p.solver.add(e)
        return d


def locally(vs, f):
    """The formula f() about the variables vs; where f decides something about them, the cases are put together."""
    p = cur
    if p is None:
        return f()
    ex = Local(vs)
    todo, out = [[]], []
    while todo:
        ex.prefix, ex.trace, ex.conds, ex.todo = todo.pop(), [], [], []
        saved = (set(p.ax_seen), set(p.ax_apps))
        n = len(p.pc)
        p.solver.push()
        p.local.append(ex)
        dead = False
        learnt = []
        try:
            body = f()
        except Stop:
            if not ex.conds:
                raise
            dead = True
        finally:
            p.local.pop()
            if ex.conds:
                learnt = [x for x in p.pc[n:] if not any(x is e for e in ex.conds)]
                del p.pc[n:]
                p.solver.pop()
                p.ax_seen, p.ax_apps = saved
            else:
                # nothing was decided: what was learnt stays as it is
                facts = p.pc[n:]
                del p.pc[n:]
                p.solver.pop()
                p.ax_seen, p.ax_apps = saved
                for x in facts:
                    p.assume(x)
        if dead:
            raise Unsupported("an element expression fails for some position")
        c = z3.And(*ex.conds) if ex.conds else None
        for x in learnt:
            p.assume(z3.Implies(c, x))
        out.append((c, body))
        todo += ex.todo
    if len(out) == 1:
        return out[0][1]  # every decision was forced by what holds here
    return z3.And(*[z3.Implies(c, b) for c, b in out])


class Obligation:
    __slots__ = ("contract", "name", "status", "time", "backend", "model", "detail", "path")

    def __init__(self, contract, name, status, t, backend, model=None, detail="", path=""):
        self.contract, self.name, self.status, self.time = contract, name, status, t
        self.backend, self.model, self.detail, self.path = backend, model, detail, path


class Ctx:
    """Verification of one contract."""

    def __init__(self, contract, budget, timeout_ms):
        self.contract = contract
        self.obls = []
        self.stack = []
        self.deadline = time.time() + budget
        self.timeout_ms = timeout_ms
        self.feas_time = 0.0
        self.nfeas = 0
        self.npaths = 0
        self.covers = {}
        self.unsupported = None
        self.outcomes = {}
        self.instances = {}
        self.failed_names = set()
        self.loops_cut = set()
        self.solver_time = 0.0

    def obligation(self, path, name, phi, via=None):
        cname = self.contract.name
        t = time.time()
        if name in self.failed_names and not getattr(self, "keep_going", False):
            # already refuted/undischarged on another path: one witness is enough
            self.obls.append(Obligation(cname, name, "skipped", 0.0, "-", detail="same obligation already undischarged"))
            return
        if phi is True:
            self.obls.append(Obligation(cname, name, "discharged", 0.0, "syntactic"))
            return
        if phi is False:
            status, backend, model, detail = discharge(path.pc, z3.BoolVal(False), self.timeout_ms)
            detail = "this path must be unreachable: " + name
        elif via is not None:
            r = via(path, phi)
            status, backend, model, detail = r
        else:
            status, backend, model, detail = discharge(path.pc, phi, self.timeout_ms)
        if status != "discharged":
            self.failed_names.add(name)
        o = Obligation(cname, name, status, time.time() - t, backend, model, detail, "".join("T" if d else "F" for d in path.trace))
        if model is not None:
            try:
                o.detail = self.contract.describe_model(path, model) or detail
            except Exception as e:  # never let reporting kill a run
                o.detail = detail
        self.obls.append(o)

    def run(self):
        global cur
        max_paths = self.contract.max_paths
        self.stack = [[]]
        while self.stack:
            prefix = self.stack.pop()
            self.npaths += 1
            if self.npaths > max_paths:
                raise Budget("more than %d paths" % max_paths)
            p = Path(self, prefix)
            cur = p
            try:
                self.contract.execute(p)
            except Stop:
                pass
            finally:
                for undo in reversed(p.state.pop("undo", [])):
                    undo()
                cur = None
        return self


_heavy = {}


def heavy(f):
    """Mentions a special function, or a product or quotient of unknowns."""
    r = _heavy.get(f.get_id())
    if r is None:
        if len(_heavy) > 50000:
            _heavy.clear()
        seen, stack, v = set(), [f], False
        while stack and not v:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                k = e.decl().kind()
                if k == z3.Z3_OP_UNINTERPRETED and e.num_args() and e.decl().name() in ABS:
                    v = True
                elif k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                    v = True
                elif k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
                    v = True
            stack.extend(e.children())
        r = _heavy[f.get_id()] = (f, v)
    return r[1]


_quant = {}


def has_quant(fs):
    for f in fs:
        r = _quant.get(f.get_id())
        if r is None:
            if len(_quant) > 50000:
                _quant.clear()
            r = _quant[f.get_id()] = (f, _has_quant([f]))
        if r[1]:
            return True
    return False


def _has_quant(fs):
    seen = set()
    stack = list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        stack.extend(e.children())
    return False


def symbols(e, cache={}):
    i = (e.get_id(), e.hash())
    if i in cache:
        return cache[i][1]
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in ("sqrt", "exp", "log", "sin", "cos", "pi", "pow", "arcsin"):
                out.add(x.decl().name())
            stack.extend(x.children())
    if len(cache) > 20000:
        cache.clear()
    cache[i] = (e, out)
    return out


def relevant(fs, goal, depth):
    """Facts connected to the goal through at most depth shared symbols (dropping facts is sound)."""
    have = set(symbols(goal))
    keep = []
    left = list(fs)
    for _ in range(depth):
        new = [f for f in left if symbols(f) & have]
        if not new:
            break
        left = [f for f in left if not (symbols(f) & have)]
        keep += new
        for f in new:
            have |= symbols(f)
    return keep + [f for f in left if not symbols(f)]


ABS = ("sqrt", "exp", "log", "sin", "cos", "pow", "arcsin")


def abstracted(pc, neg, ms=400):
    """Try the quantifier-free facts about the goal with special-function terms as unknowns (weaker, but small)."""
    if has_quant([neg]):
        return False
    from . import axioms
    special = lambda f: any(a.num_args() for a in axioms.apps([f]))
    if not special(neg):
        return False
    subs, keep = {}, []

    def walk(e, memo):
        i = e.get_id()
        if i in memo:
            return memo[i]
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in ABS:
            s = z3.simplify(e)
            keep.append(s)
            if s.get_id() not in subs:
                subs[s.get_id()] = z3.FreshConst(e.sort(), "abs")
            r = subs[s.get_id()]
        elif z3.is_app(e) and e.num_args():
            r = e.decl()(*[walk(c, memo) for c in e.children()])
        else:
            r = e
        memo[i] = r
        return r
    memo = {}
    g = walk(neg, memo)
    if not subs:
        return False
    fs = relevant([walk(f, memo) if special(f) else f for f in pc if not has_quant([f])], g, 2)
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*fs, g, sym_pi())
    return s.check() == z3.unsat


def factors(e, num, den, inv=False):
    """e = product(num) / product(den), with the numeric coefficient's sign returned."""
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = e.as_fraction() if z3.is_rational_value(e) else e.as_long()
        return 0 if f == 0 else (1 if f > 0 else -1)
    if k == z3.Z3_OP_MUL:
        s = 1
        for c in e.children():
            s *= factors(c, num, den, inv)
        return s
    if k == z3.Z3_OP_UMINUS:
        return -factors(e.arg(0), num, den, inv)
    if k == z3.Z3_OP_DIV:
        return factors(e.arg(0), num, den, inv) * factors(e.arg(1), num, den, not inv)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction().denominator == 1 and e.arg(1).as_fraction() > 0:
        for _ in range(int(e.arg(1).as_fraction())):
            factors(e.arg(0), num, den, inv)
        return 1
    (den if inv else num).append(e)
    return 1


def by_signs(pc, goal, timeout_ms):
    """e >= 0 (and <=, >, <) for a product or quotient, from the signs of its factors."""
    flip = z3.is_not(goal)
    g = goal.arg(0) if flip else goal
    kinds = {z3.Z3_OP_GE: (1, False), z3.Z3_OP_LE: (-1, False), z3.Z3_OP_GT: (1, True), z3.Z3_OP_LT: (-1, True)}
    if not z3.is_app(g) or g.decl().kind() not in kinds or g.arg(0).sort() != z3.RealSort():
        return False
    want, strict = kinds[g.decl().kind()]
    if flip:
        want, strict = -want, not strict
    e, z = g.arg(0), g.arg(1)
    if not (z3.is_rational_value(z) and z.as_fraction() == 0):
        return False
    num_, den = [], []
    s = factors(e, num_, den)
    if len(num_) + len(den) < 2 or s == 0:
        return False
    # a factor and its like cancel in sign
    odd = []
    for part, isden in ((num_, False), (den, True)):
        seen = {}
        for f in part:
            seen.setdefault(f.get_id(), [f, 0])[1] += 1
        for f, n in seen.values():
            odd.append((f, n % 2 == 1, isden))
    sign = s
    if sum(1 for o in odd if o[1]) == len(num_) + len(den) and len(odd) > 6:
        return False
    for f, o, isden in odd:
        st = strict or isden
        if not o:
            if st and _small(pc, f != 0, timeout_ms) is False:
                return False
            continue
        for quick in (True, False):
            if _small(pc, f > 0 if st else f >= 0, timeout_ms, quick):
                break
            if _small(pc, f < 0 if st else f <= 0, timeout_ms, quick):
                sign = -sign
                break
        else:
            return False
    return sign == want


def _small(pc, phi, timeout_ms, quick=False):
    e = phi.arg(0) if z3.is_app(phi) and phi.num_args() else phi
    k = phi.decl().kind()
    if z3.is_app(e) and e.decl().name() == "log" and e.num_args() == 1 and k in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE):
        # the sign of a logarithm, from comparing its argument (numerator and denominator) with one
        x = e.arg(0)
        a, b = (x.arg(0), x.arg(1)) if x.decl().kind() == z3.Z3_OP_DIV else (x, z3.RealVal(1))
        c = {z3.Z3_OP_LT: a < b, z3.Z3_OP_GT: a > b, z3.Z3_OP_LE: a <= b, z3.Z3_OP_GE: a >= b}[k]
        return all(_decide(pc, z3.simplify(g), timeout_ms, quick) for g in (c, a > 0, b > 0))
    return _decide(pc, phi, timeout_ms, quick)


def _decide(pc, phi, timeout_ms, quick):
    if quick:
        if z3.is_true(phi):
            return True
        neg = z3.Not(phi)
        if abstracted(pc, neg):
            return True
        from . import axioms
        for depth in (1, 2):
            near = relevant([f for f in pc if not has_quant([f])], neg, depth)
            s = z3.Solver()
            s.set("timeout", 200)
            s.add(*near, *axioms.ground(near + [neg]), neg)
            if s.check() == z3.unsat:
                return True
        return False
    return discharge(pc, phi, min(timeout_ms, 1500))[0] == "discharged"


def sym_pi():
    from . import sym
    return z3.And(sym.PI > 3, sym.PI < 4)


def discharge(pc, phi, timeout_ms):
    """(status, backend, model, detail): is phi entailed by pc?"""
    from . import axioms
    goal = z3.simplify(phi) if not z3.is_quantifier(phi) else phi
    if z3.is_true(goal):
        return "discharged", "z3-simplify", None, ""
    # split conjunctions: smaller queries are steadier
    if z3.is_and(goal) and goal.num_args() > 1 and goal.num_args() <= 40:
        backends = set()
        for g in goal.children():
            r = discharge(pc, g, timeout_ms)
            if r[0] != "discharged":
                return r
            backends.add(r[1])
            pc = pc + [g]
        return "discharged", sorted(backends)[-1], None, ""
    neg = z3.Not(goal)
    if z3.is_quantifier(goal) and goal.is_forall():
        # Skolemise here so that ground axioms see the terms
        vs = [z3.Const("sk!%d!%s" % (goal.get_id(), goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
        neg = z3.Not(z3.substitute_vars(goal.body(), *reversed(vs)))
    if abstracted(pc, neg):
        return "discharged", "z3", None, ""
    if timeout_ms > 1500 and by_signs(pc, goal, timeout_ms):
        return "discharged", "z3", None, ""
    ax = axioms.ground(list(pc) + [neg])
    fs = list(pc) + ax + [neg]
    quant = has_quant(fs)
    if quant and not has_quant([neg]):
        # the quantifier-free facts alone, restricted to those about the goal's terms
        for depth in (1, 3):
            near = relevant([f for f in fs[:-1] if not has_quant([f])], neg, depth)
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(*near, neg)
            r = s.check()
            if r == z3.unsat:
                return "discharged", "z3", None, ""
            if r == z3.unknown:
                from . import nra
                if nra.entails(near + [neg], 2000) is True:
                    return "discharged", "z3-nra", None, ""
    s = z3.Solver()
    s.set("timeout", min(timeout_ms, 4000) if quant else timeout_ms // 2)
    if quant:
        s.set("mbqi", False)
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return "discharged", "z3", None, ""
    if r == z3.sat:
        return "refuted", "z3", s.model(), str(goal)[:2000]
    why = s.reason_unknown()
    if not quant:
        from . import nra
        r2 = nra.entails(fs, timeout_ms)
        if r2 is True:
            return "discharged", "z3-nra", None, ""
    for seed in (1, 2):
        s = z3.Solver()
        s.set("timeout", timeout_ms // 2)
        if quant:
            s.set("mbqi", seed == 2)
        s.set("random_seed", seed)
        s.set("smt.arith.solver", 2 if seed == 1 else 6)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            return "discharged", "z3", None, ""
        if r == z3.sat:
            return "refuted", "z3", s.model(), str(goal)[:2000]
    if cvc5_entails(fs, timeout_ms) is True:
        return "discharged", "cvc5", None, ""
    model = None
    # a model of the quantifier-free part is only a candidate counterexample
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*[f for f in fs if not has_quant([f])])
    if s.check() == z3.sat:
        model = s.model()
    return "unknown", "z3", model, "%s: %s" % (why, str(goal)[:2000])


def cvc5_entails(fs, timeout_ms):
    try:
        import subprocess
        s = z3.Solver()
        s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        out = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout_ms, "-"], input=txt,
                             capture_output=True, text=True, timeout=timeout_ms / 1000.0 + 5)
        return out.stdout.strip().startswith("unsat")
    except Exception:
        return None
