"""Censoring = every value clipped into the interval."""

import math

import numpy as np

import preliz as pz
from checks import lawtools as L
from checks.common import _exp, _log
from checks.p07 import EDGES, GRID, _dd, _lin, bound, eff, grid, trapz
from checks.stubs import continuous, discrete, ite, one_param
from engine.harness import Case

BOUNDS = [
    "discrete bases: every law on 3-4 (quick) / 5 (thorough) consecutive integers with each mass >= 1/64; integer, infinite or absent censoring points with some mass between them",
    "continuous bases: every law with piecewise constant density on 3 cells, masses >= 1/64; moments for censoring points inside one cell, by the trapezoidal rule on %d grid points instead of 1000" % GRID,
]
ASSUMPTIONS = ["the density of a continuous censored law at a censoring point is the probability collected there (as documented)"]
INF = math.inf


def setup_discrete(sx, K, lk, uk, lo=0):
    base = one_param(sx, K, lo) if isinstance(K, tuple) else discrete(sx, K, lo)
    lower = bound(sx, "lower", lk, lo - 2, base.hi)
    upper = bound(sx, "upper", uk, lo, base.hi + 2)
    lw, up = eff(lower, -INF), eff(upper, INF)
    lw2 = ite(lw <= base.lo, base.lo, lw) if lw != -INF else base.lo
    up2 = ite(up >= base.hi, base.hi, up) if up != INF else base.hi
    sx.assume(lw2 < up2)
    # some mass inside, as [lower, upper] contains an atom
    law = L.Atoms([ite(a < lw2, lw2, ite(a > up2, up2, a)) for a in base.atoms], base.p)
    return base, lower, upper, lw2, up2, law


def _discrete_point(K, lk, uk, lo=0):
    def body(sx):
        base, lower, upper, lw, up, law = setup_discrete(sx, K, lk, uk, lo)
        d = pz.Censored(base, lower, upper)
        sx.check("kind", d.kind == "discrete")
        x = sx.int("x", lo - 3, base.hi + 3)
        want = law.mass(lambda a: a == x)
        sx.check("pmf", sx.eq(d.pdf(x), want))
        lp = L.item(d.logpdf(x))
        if sx.is_true(want > 0):
            sx.check("logpmf", sx.eq(_exp(sx, lp), want))
        else:
            sx.check("logpmf outside", lp == -INF)
        sx.check("cdf", sx.eq(d.cdf(x), law.mass(lambda a: a <= x)))
        sx.check("sf", sx.eq(d.sf(x), law.mass(lambda a: a > x)))
        sx.check("support", sx.eq(d.support, [lw, up]))
        sx.check("values", sx.eq(d.params, [0.5, eff(lower, -INF), eff(upper, INF)]))
        sx.check("names", tuple(d.param_names) == ("loc", "lower", "upper"))
        sx.check("defined", d.is_frozen is True)
        sx.observe("pmf", d.pdf(x))
        sx.observe("cdf", d.cdf(x))

    return body


def _discrete_quantile(K, lk, uk, what, lo=0):
    def body(sx):
        base, lower, upper, lw, up, law = setup_discrete(sx, K, lk, uk, lo)
        d = pz.Censored(base, lower, upper)
        cdf = lambda y: law.mass(lambda a: a <= y)
        if what == "median":
            L.check_quantile(sx, "median", L.item(d.median()), 0.5, cdf, lw, up)
            return
        if what == "bad":
            bad = sx.real("bad", -2, 3)
            sx.assume((bad < 0) | (bad > 1))
            sx.check("no quantile outside [0, 1]", L.isnan(d.ppf(bad)))
            return
        if what == "rvs":
            r = d.rvs(size=2, random_state=3)
            b = base.rvs(size=2, random_state=3)
            clip = lambda v: ite(v < lw, lw, ite(v > up, up, v))
            sx.check("draws are clipped draws", sx.eq(r, [clip(v) for v in b]))
            return
        q = sx.real("q", 1 / 256, 1 - 1 / 256)
        v = L.item(d.ppf(q) if what == "ppf" else d.isf(q))
        L.check_quantile(sx, what, v, q if what == "ppf" else 1 - q, cdf, lw, up)
        sx.observe("q", v)

    return body


def _discrete_moments(K, lk, uk, what):
    def body(sx):
        base, lower, upper, lw, up, law = setup_discrete(sx, K, lk, uk)
        d = pz.Censored(base, lower, upper)
        m = law.mean()
        if what == "low":
            v = law.var()
            sx.check("mean", sx.eq(d.mean(), m))
            sx.check("var", sx.eq(d.var(), v))
            s = d.std()
            sx.check("std", sx.all(sx.eq(s**2, d.var()), sx.ge(s, 0)))
            sx.observe("mean", d.mean())
        elif what == "mode":
            md = L.item(d.mode())
            mine = law.mass(lambda a: a == md)
            sx.check("mode", sx.all(*[sx.ge(mine, law.mass(lambda a, y=y: a == y)) for y in base.atoms]))
        elif what == "entropy":
            ps = [law.mass(lambda a, y=y: a == y) for y in base.atoms]
            out = 0.0
            for p in ps:
                out = out - (p * _log(sx, p) if sx.is_true(p > 0) else 0.0)
            sx.check("entropy", sx.eq(d.entropy(), out))
            sx.observe("entropy", d.entropy())
        else:
            s = d.std()
            if what == "skewness":
                sx.check("skewness", sx.eq(d.skewness() * s**3, law.moment(3, m)))
            else:
                sx.check("kurtosis", sx.eq((d.kurtosis() + 3) * s**4, law.moment(4, m)))

    return body


def setup_cont(sx, lk, uk, one=False):
    base = one_param(sx, (0.25, 0.75), edges=EDGES) if one else continuous(sx, EDGES)
    lower = bound(sx, "lower", lk, -1, 3.5)
    upper = bound(sx, "upper", uk, 0.5, 5)
    lw, up = eff(lower, -INF), eff(upper, INF)
    lw2 = ite(lw <= EDGES[0], EDGES[0], lw) if lw != -INF else EDGES[0]
    up2 = ite(up >= EDGES[-1], EDGES[-1], up) if up != INF else EDGES[-1]
    sx.assume(lw2 + 0.25 <= up2)
    return base, lower, upper, lw2, up2


def _cont_point(lk, uk):
    def body(sx):
        base, lower, upper, lw, up = setup_cont(sx, lk, uk)
        d = pz.Censored(base, lower, upper)
        x = sx.real("x", -2, 6)
        if sx.is_true(x < lw) or sx.is_true(x > up):
            want = 0.0
        elif sx.is_true(x == lw):
            want = base._cdf(lw)
        elif sx.is_true(x == up):
            want = 1 - base._cdf(up)
        else:
            want = base._pdf(x)
        sx.check("pdf", sx.eq(d.pdf(x), want))
        wc = 0.0 if sx.is_true(x < lw) else (1.0 if sx.is_true(x >= up) else base._cdf(x))
        sx.check("cdf", sx.eq(d.cdf(x), wc))
        sx.check("sf", sx.eq(d.sf(x), 1 - wc))
        sx.check("support", sx.eq(d.support, [lw, up]))
        sx.check("values", sx.eq(d.params, [0.5, eff(lower, -INF), eff(upper, INF)]))
        sx.observe("pdf", d.pdf(x))
        sx.observe("cdf", d.cdf(x))

    return body


def _cont_quantile(lk, uk, what):
    def body(sx):
        base, lower, upper, lw, up = setup_cont(sx, lk, uk)
        d = pz.Censored(base, lower, upper)
        clip = lambda v: ite(v < lw, lw, ite(v > up, up, v))
        if what == "median":
            sx.check("median", sx.eq(d.median(), clip(base._ppf(0.5))))
            return
        if what == "bad":
            bad = sx.real("bad", -2, 3)
            sx.assume((bad < 0) | (bad > 1))
            sx.check("no quantile outside [0, 1]", L.isnan(d.ppf(bad)))
            return
        if what == "rvs":
            r = d.rvs(size=2, random_state=3)
            b = base.rvs(size=2, random_state=3)
            sx.check("draws are clipped draws", sx.eq(r, [clip(v) for v in b]))
            return
        q = sx.real("q", 0, 1)
        p = q if what == "ppf" else 1 - q
        v = L.item(d.ppf(q) if what == "ppf" else d.isf(q))
        sx.check(what, sx.eq(v, clip(base._ppf(p))))
        sx.observe("q", v)

    return body


def _cont_moments(lk, uk, what):
    def body(sx):
        base, lower, upper, lw, up = setup_cont(sx, lk, uk, what in ("skewness", "kurtosis"))
        d = pz.Censored(base, lower, upper)
        xs = grid(lw, up)
        fs = [base._pdf(x) for x in xs]
        pl, pu = base._cdf(lw), 1 - base._cdf(up)

        def mom(k, c):
            return (lw - c) ** k * pl + trapz([(x - c) ** k * f for x, f in zip(xs, fs)], xs) + (up - c) ** k * pu

        m = mom(1, 0.0)
        with sx.patched((_dd, "_continuous_xvals", _lin(sx))):
            if what == "low":
                sx.check("mean", sx.eq(d.mean(), m))
                sx.check("var", sx.eq(d.var(), mom(2, m)))
                s = d.std()
                sx.check("std", sx.all(sx.eq(s**2, d.var()), sx.ge(s, 0)))
                sx.observe("mean", d.mean())
            elif what == "skewness":
                s = d.std()
                sx.check("skewness", sx.eq(d.skewness() * s**3, mom(3, m)))
            else:
                s = d.std()
                sx.check("kurtosis", sx.eq((d.kurtosis() + 3) * s**4, mom(4, m)))

    return body


def _undefined():
    def body(sx):
        lo, hi = sx.real("lo", -3, 0), sx.real("hi", 1, 3)
        d = pz.Censored(pz.Normal(), lo, hi)
        sx.check("not defined", d.is_frozen is False)
        sx.check("keeps bounds", sx.all(sx.eq(d.lower, lo), sx.eq(d.upper, hi)))
        mu, sigma = sx.real("mu", -3, 3), sx.real("sigma", 0.1, 3)
        lo2 = sx.real("lo2", -3, 0)
        d._parametrization(mu=mu, sigma=sigma, lower=lo2, upper=hi)
        sx.check("defined once complete", d.is_frozen is True)
        sx.check("values", sx.eq(d.params, [mu, sigma, lo2, hi]))
        sx.check("base receives them", sx.all(sx.eq(d.dist.mu, mu), sx.eq(d.dist.sigma, sigma)))
        sx.check("support", sx.eq(d.support, [lo2, hi]))
        sx.check("attributes", sx.all(sx.eq(d.mu, mu), sx.eq(d.sigma, sigma), sx.eq(d.lower, lo2)))

    return body


def cases(tier):
    th = tier == "thorough"
    K = 4 if th else 3
    kinds = ["none", "inf", "int"]
    out = [Case("undefined base", _undefined())]
    for lk in kinds:
        for uk in kinds:
            t = f"{lk}-{uk}"
            out.append(Case(f"discrete/{t}/point", _discrete_point(K, lk, uk)))
            for w in ("ppf", "isf", "median", "bad", "rvs"):
                out.append(Case(f"discrete/{t}/{w}", _discrete_quantile(K, lk, uk, w)))
            out.append(Case(f"discrete/{t}/moments", _discrete_moments(K if th else 2, lk, uk, "low")))
            out.append(Case(f"discrete/{t}/mode", _discrete_moments(K, lk, uk, "mode")))
    for lk, uk in (("none", "none"), (1, "none"), ("none", 2), (0, 2), (1, 3), (1, 2), (-1, 2)):
        t = f"at {lk},{uk}"
        out.append(Case(f"discrete/{t}/entropy", _discrete_moments(3, lk, uk, "entropy")))
        k = (0.25, 0.5, 0.25)
        out.append(Case(f"discrete/{t}/skewness", _discrete_moments(k, lk, uk, "skewness")))
        out.append(Case(f"discrete/{t}/kurtosis", _discrete_moments(k, lk, uk, "kurtosis")))
    for lk in ("none", "real"):
        for uk in ("inf", "real"):
            t = f"{lk}-{uk}"
            out.append(Case(f"continuous/{t}/point", _cont_point(lk, uk)))
            for w in ("ppf", "isf", "median", "bad", "rvs"):
                out.append(Case(f"continuous/{t}/{w}", _cont_quantile(lk, uk, w)))
    for lk, uk in (("none", 0.75), (1.25, 1.75), (1.0, 1.5), (2.5, "inf"), (2.25, 8.0), (-1.0, 0.5)):
        t = f"at {lk},{uk}"
        for w in ("low", "skewness", "kurtosis"):
            out.append(Case(f"continuous/{t}/{w}", _cont_moments(lk, uk, w)))
    return out
