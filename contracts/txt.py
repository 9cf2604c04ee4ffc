"""Texts: functions, parts and lists of functions for the contracts about saving and reading back."""
import sys

import z3

from ded import arr, core, seq, sym, vcrt
from ded.arr import Arr
from ded.contract import Stub, contract
from ded.sym import And, Implies, Not, Or, SBool, SNum, forall, num, t
from ded.vcrt import LoopSpec

BF = "diffpy.srmise.basefunction.BaseFunction."
MPT = "diffpy.srmise.modelparts.ModelPart."
TEXT_ASSUMPTIONS = ["repr of a finite float, an integer, a boolean or a string reads back exactly with eval, in a namespace that has numpy as np (elements of arrays print as np.float64(...), np.True_)"]


class Fn(Stub):
    """Any function; two are the same exactly when their identities are."""

    def __init__(self, s, ident):
        self.s, self.id = s, num(ident)
        self.vc_ident = ("fn", self.id)

    @property
    def npars(self):
        return self.s.npars(self.id)

    parameterdict = {"position": 0, "width": 1, "area": 2}
    parformats = ["internal", "pwa"]
    default_formats = {"default_input": "internal", "default_output": "pwa"}


class Functions(seq.SymList):
    """A list of n functions, where functions may occur more than once."""

    def __init__(self, v, n=None):
        F = z3.Function(v.p.name("F"), sym.I, sym.I)
        NP = z3.Function(v.p.name("npars"), sym.I, sym.I)
        self.npars = lambda i: SNum(NP(t(num(i))))
        self.F = lambda k: SNum(F(t(num(k))))
        seq.SymList.__init__(self, v.int("nfunctions", 0) if n is None else n, lambda k: Fn(self, self.F(k)))
        self.v = v

    def member(self):
        j = self.v.int("at", 0)
        self.v.assume(j < self.n)
        self.v.assume(self.npars(self.F(j)) >= 0)
        return self.fn(j)

    def stranger(self):
        x = self.v.int("stranger")
        self.v.assume(forall(1, lambda k: Implies(And(0 <= k, k < self.n), Not(self.F(k) == x))))
        self.v.assume(self.npars(x) >= 0)
        return Fn(self, x)

    def _find(self, o):
        w = self.v.int("where")
        there = And(0 <= w, w < self.n)
        self.v.assume(Or(And(there, self.F(w) == o.id), forall(1, lambda k: Implies(And(0 <= k, k < self.n), Not(self.F(k) == o.id)))))
        self.v.assume(Implies(there, forall(1, lambda k: Implies(And(0 <= k, k < w), Not(self.F(k) == o.id)))))
        return w, And(there, self.F(w) == o.id)

    def vc_contains(self, o):
        return self._find(o)[1]

    __contains__ = lambda self, o: bool(self.vc_contains(o))

    def index(self, o):
        w, there = self._find(o)
        if not bool(there):
            raise ValueError("not in list")
        return w


def np_texts(v, *modules):
    """Elements of arrays print the way numpy prints them."""
    import importlib
    for m in modules:
        v.patch(importlib.import_module(m), "repr", vcrt.np_repr)


def same_all(n, a, b):
    return forall(1, lambda i: Implies(And(0 <= i, i < n), a(i) == b(i)))


def eqv(a, b):
    """a == b for numbers, booleans, None and texts."""
    if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
        return sym.SBool(sym.bt(a) == sym.bt(b)) if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) else num(a) == num(b)
    return a is b or a == b


def seq_equal(v, what, a, b):
    a, b = seq.as_symlist(a), seq.as_symlist(b)
    v.prove(what + ": same number", num(a.n) == b.n)
    i = v.int("i", 0)
    if v.p.feasible(sym.bt(i < a.n)):
        with core.under(sym.bt(i < a.n)):
            x, y = a.fn(i), b.fn(i)
        v.prove(what + ": same values", Implies(i < a.n, num(x) == num(y)))
