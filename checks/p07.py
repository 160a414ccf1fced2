"""Truncation = the base law conditioned on the interval."""

import math

import numpy as np

import preliz as pz
from checks import lawtools as L
from checks.common import _exp, _log
from checks.stubs import continuous, discrete, ite, one_param
from engine.harness import Case
from preliz.distributions import distributions as _dd

BOUNDS = [
    "discrete bases: every law on 4 (quick) / 5 (thorough) consecutive integers with each mass >= 1/64; truncation points real, infinite or absent",
    "continuous bases: every law with piecewise constant density on 3 cells, masses >= 1/64; moments by the trapezoidal rule on 5 grid points instead of 1000",
]
ASSUMPTIONS = []
INF = math.inf
GRID = 5


def bound(sx, tag, kind, lo, hi):
    if kind == "none":
        return None
    if kind == "inf":
        return -INF if tag == "lower" else INF
    if isinstance(kind, (int, float)):
        return kind
    if kind == "int":
        return sx.int(tag, lo, hi)
    return sx.real(tag, lo, hi)


def eff(v, default):
    return default if v is None else v


def setup_discrete(sx, K, lk, uk, lo=0):
    base = one_param(sx, K, lo) if isinstance(K, tuple) else discrete(sx, K, lo)
    lower = bound(sx, "lower", lk, lo - 2, base.hi)
    upper = bound(sx, "upper", uk, lo, base.hi + 2)
    lw, up = eff(lower, -INF), eff(upper, INF)
    sx.assume(lw <= up)
    inside = lambda a: (a >= lw) & (a <= up)
    Z = sum(ite(inside(a), p, 0.0) for a, p in zip(base.atoms, base.p))
    sx.assume(Z >= 1 / 64)
    law = L.Atoms(base.atoms, [ite(inside(a), p, 0.0) / Z for a, p in zip(base.atoms, base.p)])
    return base, lower, upper, lw, up, law


def _discrete_point(K, lk, uk, lo=0):
    def body(sx):
        base, lower, upper, lw, up, law = setup_discrete(sx, K, lk, uk, lo)
        d = pz.Truncated(base, lower, upper)
        sx.check("kind", d.kind == "discrete")
        x = sx.int("x", lo - 3, base.hi + 3)
        want = law.mass(lambda a: a == x)
        sx.check("pmf", sx.eq(d.pdf(x), want))
        lp = L.item(d.logpdf(x))
        if sx.is_true(want > 0):
            sx.check("logpmf", sx.eq(_exp(sx, lp), want))
        else:
            sx.check("logpmf outside", lp == -INF)
        sx.check("cdf", sx.eq(d.cdf(x), law.mass(lambda a: a <= x)))
        sx.check("sf", sx.eq(d.sf(x), law.mass(lambda a: a > x)))
        sx.check("support", sx.eq(d.support, [base.atoms[0] if lw <= base.atoms[0] else lw, base.hi if up >= base.hi else up]))
        sx.check("names", tuple(d.param_names) == ("loc", "lower", "upper"))
        sx.check("values", sx.eq(d.params, [0.5, lw, up]))
        sx.check("defined", d.is_frozen is True)
        sx.observe("pmf", d.pdf(x))
        sx.observe("cdf", d.cdf(x))

    return body


def _discrete_quantile(K, lk, uk, what, lo=0):
    def body(sx):
        base, lower, upper, lw, up, law = setup_discrete(sx, K, lk, uk, lo)
        d = pz.Truncated(base, lower, upper)
        cdf = lambda y: law.mass(lambda a: a <= y)
        if what == "median":
            L.check_quantile(sx, "median", L.item(d.median()), 0.5, cdf, lw, up)
            return
        if what == "bad":
            bad = sx.real("bad", -2, 3)
            sx.assume((bad < 0) | (bad > 1))
            sx.check("no quantile outside [0, 1]", L.isnan(d.ppf(bad)))
            return
        q = sx.real("q", 1 / 256, 1 - 1 / 256)
        if what == "ppf":
            v = L.item(d.ppf(q))
            L.check_quantile(sx, "quantile", v, q, cdf, lw, up)
            sx.observe("ppf", v)
        elif what == "isf":
            L.check_quantile(sx, "isf", L.item(d.isf(q)), 1 - q, cdf, lw, up)
        else:
            v = d.ppf([q, 0.25])
            sx.check("vector shape", np.shape(v) == (2,))
            L.check_quantile(sx, "vector of probabilities", v[0], q, cdf, lw, up)
            L.check_quantile(sx, "vector of probabilities 2", v[1], 0.25, cdf, lw, up)

    return body


def _discrete_rvs(K, lk, uk):
    def body(sx):
        base, lower, upper, lw, up, law = setup_discrete(sx, K, lk, uk)
        d = pz.Truncated(base, lower, upper)
        r = d.rvs(size=2, random_state=3)
        sx.check("draws are possible values", sx.all(*[sx.all(law.mass(lambda a, v=v: a == v) > 0) for v in r]))
        sx.check("shape", np.shape(r) == (2,))

    return body


def _discrete_moments(K, lk, uk, high):
    def body(sx):
        base, lower, upper, lw, up, law = setup_discrete(sx, K, lk, uk)
        d = pz.Truncated(base, lower, upper)
        m, v = law.mean(), law.var()
        if not high:
            sx.check("mean", sx.eq(d.mean(), m))
            sx.check("var", sx.eq(d.var(), v))
            s = d.std()
            sx.check("std", sx.all(sx.eq(s**2, d.var()), sx.ge(s, 0)))
            md = L.item(d.mode())
            sx.check("mode", sx.all(*[law.mass(lambda a: a == md) >= p - 1e-9 for p in law.ps]))
            sx.observe("mean", d.mean())
        else:
            sx.assume(v >= 1 / 64)
            s = d.std()
            sx.check("skewness", sx.eq(d.skewness() * s**3, law.moment(3, m)))
            sx.check("kurtosis", sx.eq((d.kurtosis() + 3) * v**2, law.moment(4, m)))

    return body


def _discrete_entropy(K, lk, uk):
    def body(sx):
        base, lower, upper, lw, up, law = setup_discrete(sx, K, lk, uk)
        d = pz.Truncated(base, lower, upper)
        sx.check("entropy", sx.eq(d.entropy(), law.entropy(lambda p: _log(sx, p))))

    return body


EDGES = [0.0, 1.0, 2.0, 4.0]


def setup_cont(sx, lk, uk, one=False):
    base = one_param(sx, (0.25, 0.75), edges=EDGES) if one else continuous(sx, EDGES)
    lower = bound(sx, "lower", lk, -1, 3.5)
    upper = bound(sx, "upper", uk, 0.5, 5)
    lw, up = eff(lower, -INF), eff(upper, INF)
    sx.assume(lw + 0.25 <= up)
    Z = base._cdf(up) - base._cdf(lw)
    return base, lower, upper, lw, up, Z


def _cont_point(lk, uk):
    def body(sx):
        base, lower, upper, lw, up, Z = setup_cont(sx, lk, uk)
        d = pz.Truncated(base, lower, upper)
        sx.check("kind", d.kind == "continuous")
        x = sx.real("x", -2, 6)
        inside = sx.is_true(sx.all(x >= lw, x <= up).exact if False else (x >= lw)) and sx.is_true(x <= up)
        want = base._pdf(x) / Z if inside else 0.0
        sx.check("pdf", sx.eq(d.pdf(x), want))
        wc = 0.0 if sx.is_true(x < lw) else (1.0 if sx.is_true(x > up) else (base._cdf(x) - base._cdf(lw)) / Z)
        sx.check("cdf", sx.eq(d.cdf(x), wc))
        sx.check("sf", sx.eq(d.sf(x), 1 - wc))
        lp = L.item(d.logpdf(x))
        if sx.is_true(want > 0):
            sx.check("logpdf", sx.eq(_exp(sx, lp), want))
        else:
            sx.check("logpdf outside", lp == -INF)
        sx.check("support", sx.eq(d.support, [EDGES[0] if lw <= EDGES[0] else lw, EDGES[-1] if up >= EDGES[-1] else up]))
        sx.check("values", sx.eq(d.params, [0.5, lw, up]))
        sx.observe("pdf", d.pdf(x))
        sx.observe("cdf", d.cdf(x))

    return body


def _cont_quantile(lk, uk, what):
    def body(sx):
        base, lower, upper, lw, up, Z = setup_cont(sx, lk, uk)
        d = pz.Truncated(base, lower, upper)
        inv = lambda v: base._cdf(v) - base._cdf(lw)
        if what == "median":
            m = L.item(d.median())
            sx.check("median", sx.eq(inv(m), 0.5 * Z))
            return
        if what == "bad":
            bad = sx.real("bad", -2, 3)
            sx.assume((bad < 0) | (bad > 1))
            sx.check("no quantile outside [0, 1]", L.isnan(d.ppf(bad)))
            return
        if what == "rvs":
            r = d.rvs(size=2, random_state=3)
            sx.check("draws inside", sx.all(*[sx.all(v >= lw - 1e-9, v <= up + 1e-9) for v in r]))
            return
        q = sx.real("q", 0, 1)
        v = L.item(d.ppf(q) if what == "ppf" else d.isf(q))
        sx.check("quantile inverts the distribution function", sx.eq(inv(v), (q if what == "ppf" else 1 - q) * Z))
        sx.check("quantile inside", sx.all(sx.ge(v, lw), sx.le(v, up)))
        sx.observe("q", v)

    return body


def trapz(ys, xs):
    return sum((b - a) * (p + q) / 2 for a, b, p, q in zip(xs, xs[1:], ys, ys[1:]))


def grid(lo, hi, n=GRID):
    return [lo + (hi - lo) * i / (n - 1) for i in range(n)]


def coarse():
    return (_dd, "_continuous_xvals", lambda lo, hi, n: np.linspace(lo, hi, GRID))


def _lin(sx):
    if not sx.symbolic:
        return lambda lo, hi, n: np.linspace(lo, hi, GRID)
    from engine.nps import mkarr

    return lambda lo, hi, n: mkarr(grid(lo, hi))


def _cont_moments(lk, uk, high):
    def body(sx):
        base, lower, upper, lw, up, Z = setup_cont(sx, lk, uk, high or uk == "inf")
        d = pz.Truncated(base, lower, upper)
        lo = EDGES[0] if lw <= EDGES[0] else lw
        hi = EDGES[-1] if up >= EDGES[-1] else up
        xs = grid(lo, hi)
        fs = [base._pdf(x) / Z for x in xs]
        m = trapz([x * f for x, f in zip(xs, fs)], xs)
        v = trapz([(x - m) ** 2 * f for x, f in zip(xs, fs)], xs)
        with sx.patched((_dd, "_continuous_xvals", _lin(sx))):
            if not high:
                sx.check("mean", sx.eq(d.mean(), m))
                sx.check("var", sx.eq(d.var(), v))
                s = d.std()
                sx.check("std", sx.all(sx.eq(s**2, d.var()), sx.ge(s, 0)))
            else:
                s = d.std()
                sk = trapz([(x - m) ** 3 * f for x, f in zip(xs, fs)], xs)
                ku = trapz([(x - m) ** 4 * f for x, f in zip(xs, fs)], xs)
                sx.check("skewness", sx.eq(d.skewness() * s**3, sk))
                sx.check("kurtosis", sx.eq((d.kurtosis() + 3) * v**2, ku))

    return body


def _undefined():
    def body(sx):
        lo, hi = sx.real("lo", -3, 0), sx.real("hi", 1, 3)
        d = pz.Truncated(pz.Normal(), lo, hi)
        sx.check("not defined", d.is_frozen is False)
        sx.check("keeps bounds", sx.all(sx.eq(d.lower, lo), sx.eq(d.upper, hi)))
        mu, sigma = sx.real("mu", -3, 3), sx.real("sigma", 0.1, 3)
        lo2 = sx.real("lo2", -3, 0)
        d._parametrization(mu=mu, sigma=sigma, lower=lo2, upper=hi)
        sx.check("defined once complete", d.is_frozen is True)
        sx.check("values", sx.eq(d.params, [mu, sigma, lo2, hi]))
        sx.check("base receives them", sx.all(sx.eq(d.dist.mu, mu), sx.eq(d.dist.sigma, sigma)))
        sx.check("support", sx.eq(d.support, [lo2, hi]))
        sx.check("attributes", sx.all(sx.eq(d.mu, mu), sx.eq(d.sigma, sigma), sx.eq(d.lower, lo2)))

    return body


def cases(tier):
    K = 3 if tier == "quick" else 4
    kinds = ["none", "inf", "int", "real"]
    out = [Case("undefined base", _undefined())]
    for lk in kinds:
        for uk in kinds:
            t = f"{lk}-{uk}"
            out.append(Case(f"discrete/{t}/point", _discrete_point(K, lk, uk)))
            for w in ("ppf", "isf", "median", "vector", "bad"):
                k = 2 if w == "vector" else K
                out.append(Case(f"discrete/{t}/{w}", _discrete_quantile(k, lk, uk, w)))
            if (lk, uk) in (("int", "int"), ("real", "real"), ("none", "int"), ("int", "none")) or tier == "thorough":
                out.append(Case(f"discrete/{t}/moments", _discrete_moments(K, lk, uk, False)))
                out.append(Case(f"discrete/{t}/rvs", _discrete_rvs(2, lk, uk)))
                out.append(Case(f"discrete/{t}/entropy", _discrete_entropy(2, lk, uk), tier="thorough"))
    for lk, uk in ((1, "none"), ("none", 1), (0, 2), (0.5, 2.5), (1, 3)):
        k = (0.25, 0.75) if uk != 3 else (0.25, 0.5, 0.25)
        out.append(Case(f"discrete/at {lk},{uk}/high moments", _discrete_moments(k, lk, uk, True)))
    for lk in ("none", "real"):
        for uk in ("inf", "real"):
            t = f"{lk}-{uk}"
            out.append(Case(f"continuous/{t}/point", _cont_point(lk, uk)))
            for w in ("ppf", "isf", "median", "bad"):
                out.append(Case(f"continuous/{t}/{w}", _cont_quantile(lk, uk, w)))
    for lk, uk in (("none", "none"), (0.5, "inf"), ("none", 3.0), (0.5, 2.5), (-1.0, 1.5), (1.25, 1.75), (1.0, 8.0)):
        t = f"at {lk},{uk}"
        out.append(Case(f"continuous/{t}/moments", _cont_moments(lk, uk, False)))
        out.append(Case(f"continuous/{t}/rvs", _cont_quantile(lk, uk, "rvs")))
        out.append(Case(f"continuous/{t}/high moments", _cont_moments(lk, uk, True)))
    out.append(Case("discrete/shifted/point", _discrete_point(3, "int", "int", lo=-2)))
    out.append(Case("discrete/shifted/quantile", _discrete_quantile(3, "int", "int", "ppf", lo=-2)))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
