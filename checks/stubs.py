"""Fully general base laws with few atoms / few cells.

``discrete``: any probability law on the integers lo..lo+K.
``continuous``: any law with a piecewise constant density on given cells.
They are computed the same way symbolically and concretely, and stand for "any
base distribution" when the modifiers and the interval routines are checked.
"""

import math

import numpy as np

from preliz.distributions.distributions import Continuous, Discrete

MINP = 1 / 64


def ite(c, a, b):
    """c ? a : b without forking when possible"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    from engine import sym

    return sym.ite(c, a, b)


def elementwise(f, x):
    from engine.errs import SymError  # noqa: F401

    if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray):
        a = np.asarray(x, dtype=object)
        out = [f(v) for v in a.ravel()]
        if any(_issym(v) for v in out) or any(_issym(v) for v in a.ravel()):
            from engine.nps import mkarr

            r = mkarr(out).reshape(a.shape)
            return r if a.ndim else (out[0])
        r = np.array(out, dtype=float).reshape(a.shape)
        return r if a.ndim else r[()]
    return f(x)


def _issym(v):
    return type(v).__name__ in ("R", "B") and type(v).__module__ == "engine.sym"


def _log(v):
    if _issym(v):
        from engine import sym

        return sym.log(v)
    v = float(v)
    return math.log(v) if v > 0 else -math.inf


class _Base:
    """parameter bookkeeping of a family with one parameter, already given"""

    def _setup(self, tag):
        self.param_names = ("loc",)
        self.params_support = ((-np.inf, np.inf),)
        self.loc = 0.5
        self.params = (0.5,)
        self.is_frozen = True
        self.tag = tag
        self.reset = 0

    def _parametrization(self, loc=None):
        self.reset += 1
        self.loc = loc
        self.params = (loc,)
        self.is_frozen = loc is not None

    def sf(self, x):
        return 1 - self.cdf(x)


class DStub(_Base, Discrete):
    def __init__(self, probs, lo=0, tag="base"):
        Discrete.__init__(self)
        self._setup(tag)
        self.p = probs
        self.lo = lo
        self.hi = lo + len(probs) - 1
        self.support = (lo, self.hi)
        self.atoms = list(range(lo, self.hi + 1))

    def pdf(self, x):
        return elementwise(self._pdf, x)

    def _pdf(self, x):
        out = 0.0
        for a, p in zip(self.atoms, self.p):
            out = ite(x == a, p, out)
        return out

    def logpdf(self, x):
        return elementwise(self._logpdf, x)

    def _logpdf(self, x):
        for a, p in zip(self.atoms, self.p):
            if x == a:
                return _log(p)
        return -math.inf

    def cdf(self, x):
        return elementwise(self._cdf, x)

    def _cdf(self, x):
        out = 0.0
        for a, p in zip(self.atoms, self.p):
            out = out + ite(x >= a, p, 0.0)
        return out

    def ppf(self, q):
        return elementwise(self._ppf, q)

    def _ppf(self, q):
        if q < 0 or q > 1:
            return math.nan
        out = float(self.hi)
        c = 1.0 - self.p[-1]
        for a, p in list(zip(self.atoms, self.p))[-2::-1]:
            # cdf(a) = c
            out = ite(q <= c + 1e-12, float(a), out)
            c = c - p
        return out

    def mean(self):
        return sum(a * p for a, p in zip(self.atoms, self.p))

    def var(self):
        m = self.mean()
        return sum((a - m) ** 2 * p for a, p in zip(self.atoms, self.p))

    def std(self):
        return self.var() ** 0.5

    def median(self):
        return self._ppf(0.5)

    def prob(self, pred):
        """P(pred(X))"""
        return sum(ite(pred(a), p, 0.0) for a, p in zip(self.atoms, self.p))

    def rvs(self, size=None, random_state=None):
        g = np.random.default_rng(random_state)
        return self.ppf(g.uniform(size=size))


class CStub(_Base, Continuous):
    """piecewise constant density; heights h_i on [edges_i, edges_{i+1}]"""

    def __init__(self, heights, edges, tag="base"):
        Continuous.__init__(self)
        self._setup(tag)
        self.h = heights
        self.edges = edges
        self.support = (edges[0], edges[-1])

    def pdf(self, x):
        return elementwise(self._pdf, x)

    def _pdf(self, x):
        out = 0.0
        for a, b, h in list(zip(self.edges, self.edges[1:], self.h))[::-1]:
            last = b == self.edges[-1]
            out = ite((x >= a) & ((x <= b) if last else (x < b)), h, out)
        return out

    def logpdf(self, x):
        return elementwise(self._logpdf, x)

    def _logpdf(self, x):
        if x < self.edges[0] or x > self.edges[-1]:
            return -math.inf
        for a, b, h in zip(self.edges, self.edges[1:], self.h):
            if x < b or b == self.edges[-1]:
                return _log(h)

    def cdf(self, x):
        return elementwise(self._cdf, x)

    def _cdf(self, x):
        if x <= self.edges[0]:
            return 0.0
        if x >= self.edges[-1]:
            return 1.0
        acc = 0.0
        for a, b, h in zip(self.edges, self.edges[1:], self.h):
            if x < b or b == self.edges[-1]:
                return acc + h * (x - a)
            acc = acc + h * (b - a)

    def ppf(self, q):
        return elementwise(self._ppf, q)

    def _ppf(self, q):
        if q < 0 or q > 1:
            return math.nan
        acc = 0.0
        for a, b, h in zip(self.edges, self.edges[1:], self.h):
            nxt = acc + h * (b - a)
            if b == self.edges[-1] or q <= nxt:
                return a + (q - acc) / h
            acc = nxt

    def _mom(self, k, c=0.0, lo=None, hi=None):
        """integral of (x - c)**k pdf(x) over [lo, hi] within the support"""
        out = 0.0
        for a, b, h in zip(self.edges, self.edges[1:], self.h):
            out = out + h * ((b - c) ** (k + 1) - (a - c) ** (k + 1)) / (k + 1)
        return out

    def mean(self):
        return self._mom(1)

    def var(self):
        return self._mom(2, self.mean())

    def std(self):
        return self.var() ** 0.5

    def median(self):
        return self._ppf(0.5)

    def rvs(self, size=None, random_state=None):
        g = np.random.default_rng(random_state)
        return self.ppf(g.uniform(size=size))


def discrete(sx, K, lo=0, tag="p", minp=MINP):
    ps = [sx.real(f"{tag}{i}", minp, 1) for i in range(K)]
    rest = 1 - sum(ps)
    sx.assume(rest >= minp)
    return DStub(ps + [rest], lo, tag)


def one_param(sx, ratios, lo=0, edges=None, minp=MINP):
    """laws p, (1-p) r_1, ... with one free weight and fixed ratios (sum 1)"""
    p = sx.real("p0", minp, 1 - minp)
    ps = [p] + [(1 - p) * r for r in ratios]
    if edges is None:
        return DStub(ps, lo)
    return CStub([w / (b - a) for w, a, b in zip(ps, edges, edges[1:])], list(edges))


def continuous(sx, edges, tag="h", minh=MINP):
    m = len(edges) - 1
    ws = [sx.real(f"{tag}{i}", minh, 1) for i in range(m - 1)]
    rest = 1 - sum(ws)
    sx.assume(rest >= minh)
    ws = ws + [rest]
    return CStub([w / (b - a) for w, a, b in zip(ws, edges, edges[1:])], list(edges), tag)
