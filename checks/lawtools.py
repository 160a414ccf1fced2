"""Independent description of a finite law as atoms with symbolic weights."""

import math

import numpy as np

from checks.stubs import ite


def sel(pred, p):
    return ite(pred, p, 0.0)


class Atoms:
    """finite law: positions (concrete or symbolic) and weights (>= 0, sum 1)"""

    def __init__(self, xs, ps):
        self.xs, self.ps = xs, ps

    def mass(self, pred):
        return sum(sel(pred(a), p) for a, p in zip(self.xs, self.ps))

    def moment(self, k, c=0.0):
        return sum((a - c) ** k * p for a, p in zip(self.xs, self.ps))

    def mean(self):
        return self.moment(1)

    def var(self):
        return self.moment(2, self.mean())

    def entropy(self, log):
        return -sum(_xlogx(p, log) for p in self.ps)


def _xlogx(p, log):
    if p == 0:
        return 0.0
    return p * log(p)


def check_quantile(sx, label, v, q, cdf, lo=None, hi=None):
    """v is a smallest integer point whose cumulative probability reaches q"""
    conds = [sx.ge(cdf(v), q), sx.le(cdf(v - 1), q)]
    if lo is not None:
        conds += [v >= lo, v <= hi]
    sx.check(label, sx.all(*conds))


def inside_unit(sx, name, closed=True):
    return sx.real(name, 1e-3, 1.0 if closed else 1 - 1e-3)


def item(v):
    if isinstance(v, np.ndarray) and v.size == 1:
        return v.ravel()[0] if v.dtype != object else v.view(np.ndarray).ravel()[0]
    return v


def isnan(v):
    v = item(v)
    return isinstance(v, float) and math.isnan(v)
