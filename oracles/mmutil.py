import math

import numpy as np
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.multimodelselection import MultimodelSelection
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from oracle_run import Skip

GRID = np.array([1.0, 2.0, 3.0])
SIGNS = np.array([[1, 1, 1], [1, -1, 1], [-1, -1, 1]])
FUNS = [GaussianOverR(0.7), Gaussian(0.7)]


class Fake:
    """A part of which only type, number of parameters, and values on the grid are known."""

    def __init__(self, n, sq, how=0):
        self.n, self.sq, self.how = int(n), float(sq), how

    def npars(self, count_fixed=True):
        return self.n if count_fixed else max(0, self.n - 1)

    def value(self, r=None):
        # different arrays of the same sum of squares
        w = [[1, 0, 0], [0.6, 0.8, 0], [0, 0, 1], [1 / math.sqrt(3)] * 3][self.how % 4]
        return np.array(w) * SIGNS[self.how % 3] * math.sqrt(self.sq)


KINDS = [type("Kind%d" % i, (Fake,), {}) for i in range(3)]


def fake(p, how=0):
    ty, n, sq = p
    if not (math.isfinite(float(sq)) and float(sq) >= 0):
        raise Skip()
    return KINDS[int(ty) % 3](n, sq, how)


class Several(list):
    def npars(self, count_fixed=True):
        return sum(p.npars(count_fixed) for p in self)


def fakes(models):
    return [[1.0, Several(fake(p, i + k) for k, p in enumerate(m["peaks"])), fake(m["base"], i), 0.1] for i, m in enumerate(models)]


def near(p, e, tol):
    """Whether two parts agree, or None when rounding decides."""
    a, b = math.fsum(float(x) ** 2 for x in p), math.fsum(float(x) ** 2 for x in e)
    out = True
    for s in (a, b):
        d, lim = abs(a - b), tol * s
        if abs(d - lim) < 1e-9 * max(a, b, 1e-300) and not (a == b == 0) and not (d == 0 and tol == 0 and np.array_equal(p, e)):
            raise Skip()
        out = out and not d > lim
    return out


def alike(x, y, r, tol):
    if type(x[2]) is not type(y[2]) or x[2].npars() != y[2].npars() or len(x[1]) != len(y[1]):
        return False
    if any(type(p) is not type(q) or p.npars() != q.npars() for p, q in zip(x[1], y[1])):
        return False
    return all(near(p.value(r), q.value(r), tol) for p, q in zip(x[1], y[1])) and near(x[2].value(r), y[2].value(r), tol)


class PPE:
    def __init__(self, em):
        self.error_method = em


def stats_of(em, rows, dgs):
    d = {}
    for dg, row in zip(dgs, rows):
        d[dg] = []
        for s in row:
            e = em()
            e.stat = float(s)
            d[dg].append(e)
    return d
