"""Contracts: harnesses that build a symbolic pre-state, run the real function, and prove its postconditions."""
import logging
import os
import sys
import time
import traceback

import z3

from . import arr, core, hook, seq, sym, vcrt
from .core import Budget, Ctx, Stop, Unsupported
from .sym import And, Implies, Not, Or, SBool, SNum, bt, forall, num, t

REGISTRY = {}


class Outcome:
    def __init__(self, value=None, exc=None, tb=""):
        self.value, self.exc, self.tb = value, exc, tb

    @property
    def ok(self):
        return self.exc is None


class Stub:
    """An object known only through the contracts written on it."""

    def __getattr__(self, n):
        if n.startswith("vc_") or (n.startswith("__") and n.endswith("__")):
            raise AttributeError(n)
        raise Unsupported("the code uses %r of a %s, which its contract does not describe" % (n, type(self).__name__))


def subclasses(c):
    out = [c]
    for d in c.__subclasses__():
        out += subclasses(d)
    return out


class V:
    """What a contract body uses to talk to the verifier."""

    def __init__(self, c, p):
        self.c, self.p = c, p
        self.undo = p.state.setdefault("undo", [])
        self.witness_fn = None

    # symbolic inputs
    def int(self, name, lo=None, hi=None):
        return sym.fresh_int(name, lo, hi)

    def real(self, name, lo=None, hi=None, nan=False):
        r = sym.fresh_real(name, nan)
        if lo is not None:
            self.assume(r >= lo)
        if hi is not None:
            self.assume(r <= hi)
        return r

    def bool(self, name):
        return sym.fresh_bool(name)

    def array(self, name, n, kind="f", nan=False):
        return arr.base_array(name, n if isinstance(n, tuple) else (n,), kind, nan)

    def assume(self, c):
        with sym.spec_mode():
            self.p.assume(bt(c))

    def prove(self, name, c, via=None):
        with sym.spec_mode():
            c = c() if callable(c) else c
            self.p.prove(name, c if isinstance(c, bool) else bt(c), via)

    def check(self, name, c):
        """prove without assuming afterwards"""
        with sym.spec_mode():
            c = c() if callable(c) else c
            self.p.prove(name, c if isinstance(c, bool) else bt(c), None, False)

    def prove_from(self, name, facts, goal):
        """Prove the facts here, then the goal from the facts alone (a cut, to keep queries small)."""
        with sym.spec_mode():
            fs = [bt(f) for f in facts]
            g = bt(goal)

        def via(path, phi):
            for f in fs:
                r = core.discharge(path.pc, f, path.ctx.timeout_ms)
                if r[0] != "discharged":
                    return r
            return core.discharge(fs, phi, path.ctx.timeout_ms)
        self.p.prove(name, g, via)

    def prove_all(self, conds):
        for n, c in conds:
            self.prove(n, c)

    def forall(self, n, f, patterns=None):
        return forall(n, f, patterns)

    def cover(self, name):
        """The current path reaches this point (checked for satisfiability of the path condition)."""
        cv = self.p.ctx.covers
        if cv.get(name, 0) > 0:
            return
        r = self.p.solver.check()
        if r != z3.unsat:
            cv[name] = cv.get(name, 0) + 1
        else:
            cv.setdefault(name, 0)

    def expect_covers(self, *names):
        for n in names:
            self.p.ctx.covers.setdefault(n, 0)

    def call(self, f, *a, **k):
        try:
            v = f(*a, **k)
        except Exception as e:
            tb = traceback.format_exc()
            msg = str(e)
            if isinstance(e, (AttributeError, TypeError, NotImplementedError)) and any(
                    w in msg for w in ("'Arr'", "'SNum'", "'SBool'", "'SymList'", "'SymRange'", "'SymView'", "'SymFam", "NumpyFacade", "Sym")):
                raise Unsupported("proxy limitation: %s: %s" % (type(e).__name__, msg))
            if isinstance(e, TypeError) and "argument" in msg and ("<locals>" in msg or msg.split(".")[0] in [c.__name__ for c in subclasses(Stub)]):
                raise Unsupported("a contract's signature does not match: %s" % msg)
            if isinstance(e, RecursionError):
                raise Unsupported("recursion")
            return Outcome(exc=e, tb=tb)
        return Outcome(v)

    def must(self, what, f, *a, **k):
        """Call, proving that no exception escapes."""
        r = self.call(f, *a, **k)
        if not r.ok:
            self.p.state["last_tb"] = r.tb
            if os.environ.get("VERIF_TB"):
                print(r.tb)
            self.p.prove("%s: no exception (%s: %s)" % (what, type(r.exc).__name__, str(r.exc)[:80]), False)
        return r.value

    def refuses(self, what, exc, f, *a, **k):
        """Call, proving that it raises the documented error."""
        r = self.call(f, *a, **k)
        ok = r.exc is not None and isinstance(r.exc, exc)
        self.p.prove("%s: refused with %s" % (what, exc.__name__ if isinstance(exc, type) else "/".join(e.__name__ for e in exc)), ok)
        return r

    def patch(self, obj, attr, value):
        missing = attr not in obj.__dict__
        old = obj.__dict__.get(attr)

        def undo():
            if missing:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self.undo.append(undo)
        setattr(obj, attr, value)

    def witness(self, fn):
        """fn(ev) -> oracle case (JSON) built from a model; ev maps terms to Python numbers."""
        self.p.state["witness"] = fn


class Contract:
    def __init__(self, prop, name, body, functions, loops, max_paths, budget, timeout_ms, level, setup, bounded):
        self.prop, self.name, self.body, self.functions = prop, name, body, functions
        self.loops, self.max_paths, self.budget, self.timeout_ms = loops, max_paths, budget, timeout_ms
        self.level, self.setup, self.bounded = level, setup, bounded

    def execute(self, p):
        if self.setup:
            self.setup()
        vcrt.VC.specs = self.loops() if callable(self.loops) else (self.loops or {})
        v = V(self, p)
        self.body(v)

    def describe_model(self, p, model):
        fn = p.state.get("witness")
        if fn is None:
            return None
        import json

        def ev(x):
            if isinstance(x, (SNum, SBool)):
                x = x.t
            r = model.eval(x, model_completion=True)
            if z3.is_int_value(r):
                return r.as_long()
            if z3.is_rational_value(r):
                f = r.as_fraction()
                return float(f)
            if z3.is_algebraic_value(r):
                return float(r.approx(20).as_fraction())
            if z3.is_true(r):
                return True
            if z3.is_false(r):
                return False
            return 0
        with sym.spec_mode():
            return "WITNESS " + json.dumps(fn(ev))


def contract(prop, name, functions=(), loops=None, max_paths=4000, budget=240, timeout_ms=20000, level="proved", setup=None, bounded=None, feas_ms=None):
    def deco(body):
        c = Contract(prop, "%s:%s" % (prop, name), body, list(functions), loops, max_paths, budget, timeout_ms, level, setup, bounded)
        c.feas_ms = feas_ms
        REGISTRY.setdefault(prop, []).append(c)
        return body
    return deco


def run_contract(c):
    """Run one contract; returns a plain dict."""
    t0 = time.time()
    hook.install()
    logging.disable(logging.CRITICAL)
    ctx = Ctx(c, c.budget, c.timeout_ms)
    res = {"name": c.name, "functions": c.functions, "unsupported": None, "error": None, "budget": None, "bounded": c.bounded}
    try:
        ctx.run()
    except Unsupported as e:
        res["unsupported"] = str(e)
        res["tb"] = traceback.format_exc()
    except Budget as e:
        res["budget"] = str(e)
    except Exception as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()
    res["paths"] = ctx.npaths
    res["feasibility_queries"] = ctx.nfeas
    res["feasibility_time"] = ctx.feas_time
    res["loops"] = sorted(ctx.loops_cut)
    res["covers"] = ctx.covers
    res["obligations"] = [{"name": o.name, "status": o.status, "time": round(o.time, 4), "backend": o.backend, "detail": o.detail, "path": o.path} for o in ctx.obls]
    res["trusted"] = sorted(arr.TRUSTED)
    res["wall"] = time.time() - t0
    return res
