"""A parametric family about which nothing is known.

Its distribution function, quantiles, moments and entropy are uninterpreted
functions of the point and the parameters, so what is shown for it holds for
every family the elicitation routines may be given.
"""

import math

from checks.stubs import elementwise
from preliz.distributions.distributions import Continuous, Discrete

INF = math.inf


def _mix(base):
    class Fam(base):
        def __init__(self, sx, names="ab", support=(-INF, INF), limits=(-INF, INF), tag="", **given):
            super().__init__()
            self.sx, self.tag = sx, tag
            self.param_names = tuple(names)
            self.params_support = tuple(limits for _ in names)
            self.support = support
            self.told = []
            for n in names:
                setattr(self, n, None)
            self.params = tuple(None for _ in names)
            if given:
                self._parametrization(**given)

        def _parametrization(self, **kw):
            for n in self.param_names:
                setattr(self, n, kw.get(n))
            self.params = tuple(getattr(self, n) for n in self.param_names)
            self.is_frozen = all(v is not None for v in self.params)

        def _update(self, *vals):
            self._parametrization(**dict(zip(self.param_names, vals)))

        def _fit_moments(self, mean, sigma):
            self.told.append((mean, sigma))
            self._update(*self.start())

        def start(self):
            return [self.sx.real(f"{self.tag}start.{n}", -9, 9) for n in self.param_names]

        def q(self, name, *x):
            return self.sx.uf(self.tag + name, *x, *self.params)

        def cdf(self, x):
            return elementwise(lambda v: self.q("cdf", v), x)

        def pdf(self, x):
            return elementwise(lambda v: self.q("pdf", v), x)

        def ppf(self, x):
            return elementwise(lambda v: self.q("ppf", v), x)

        def entropy(self):
            return self.q("entropy")

        def mean(self):
            return self.q("mean")

        def mode(self):
            return self.q("mode")

        def median(self):
            return self.q("median")

        def var(self):
            return self.q("var")

        def std(self):
            return self.q("std")

        def skewness(self):
            return self.q("skewness")

        def kurtosis(self):
            return self.q("kurtosis")

    return Fam


CFam = _mix(Continuous)
DFam = _mix(Discrete)


def mk(x, sx):
    import numpy as np

    if not sx.symbolic:
        return np.array(x, dtype=float)
    from engine.nps import mkarr

    return mkarr(x)


def with_free(d, names, free, values):
    """parameters of d with the free ones replaced"""
    out = {n: getattr(d, n) for n in names}
    out.update(zip(free, values))
    return out
