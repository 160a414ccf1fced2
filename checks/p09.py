"""Hurdle = zero with probability 1 - psi, else the base law given a positive value."""

import math

import numpy as np

import preliz as pz
from checks import lawtools as L
from checks.common import _exp, _log
from checks.p07 import EDGES, GRID, _dd, _lin, grid, trapz
from checks.stubs import CStub, continuous, discrete, ite
from engine.harness import Case
from preliz.distributions import hurdle as _hm

BOUNDS = [
    "discrete bases: every law on 3-4 (quick) / 5 (thorough) consecutive integers from 0, 1 or 2, each mass >= 1/64; psi in [1/64, 1]",
    "continuous bases: every law with piecewise constant density on 3 non-negative cells, masses >= 1/64; mean by the trapezoidal rule on %d grid points, variance for uniform bases" % GRID,
]
ASSUMPTIONS = ["non-negative base laws", "for continuous bases machine epsilon is taken as zero"]
INF = math.inf
MIN = 1 / 64


def setup(sx, K, lo, top=1.0):
    base = discrete(sx, K, lo)
    psi = sx.real("psi", MIN, top)
    rest = 1 - (base.p[0] if lo == 0 else 0.0)
    atoms = [0] + [a for a in base.atoms if a > 0]
    ps = [1 - psi] + [psi * p / rest for a, p in zip(base.atoms, base.p) if a > 0]
    return base, psi, L.Atoms(atoms, ps)


def _discrete_point(K, lo):
    def body(sx):
        base, psi, law = setup(sx, K, lo)
        d = pz.Hurdle(base, psi)
        sx.check("kind", d.kind == "discrete")
        x = sx.int("x", -3, base.hi + 3)
        want = law.mass(lambda a: a == x)
        sx.check("pmf", sx.eq(d.pdf(x), want))
        lp = L.item(d.logpdf(x))
        if sx.is_true(want > 0):
            sx.check("logpmf", sx.eq(_exp(sx, lp), want))
        else:
            sx.check("logpmf outside", lp == -INF)
        sx.check("cdf", sx.eq(d.cdf(x), law.mass(lambda a: a <= x)))
        sx.check("sf", sx.eq(d.sf(x), law.mass(lambda a: a > x)))
        sx.check("values", sx.eq(d.params, [0.5, psi]))
        sx.check("names", tuple(d.param_names) == ("loc", "psi"))
        sx.check("defined", d.is_frozen is True)
        sx.check("support", sx.eq(d.support, [0, base.hi]))
        y = sx.int("y", -3, base.hi + 3)
        sx.check("list of points", sx.eq(d.pdf([x, y]), [want, law.mass(lambda a: a == y)]))
        sx.check("list of points cdf", sx.eq(d.cdf([x, y]), [law.mass(lambda a: a <= x), law.mass(lambda a: a <= y)]))
        sx.observe("pmf", d.pdf(x))
        sx.observe("cdf", d.cdf(x))

    return body


def _discrete_quantile(K, lo, what):
    def body(sx):
        base, psi, law = setup(sx, K, lo)
        d = pz.Hurdle(base, psi)
        cdf = lambda y: law.mass(lambda a: a <= y)
        if what == "median":
            L.check_quantile(sx, "median", L.item(d.median()), 0.5, cdf, 0, base.hi)
            return
        if what == "bad":
            bad = sx.real("bad", -2, 3)
            sx.assume((bad < 0) | (bad > 1))
            sx.check("no quantile outside [0, 1]", L.isnan(d.ppf(bad)))
            return
        if what == "ends":
            L.check_quantile(sx, "integer probability one", L.item(d.ppf(1)), 1.0, cdf, 0, base.hi)
            L.check_quantile(sx, "probability one", L.item(d.ppf(1.0)), 1.0, cdf, 0, base.hi)
            return
        if what == "rvs":
            r = d.rvs(size=3, random_state=5)
            sx.check("draws are possible values", sx.all(*[law.mass(lambda a, v=v: a == v) > 0 for v in r]))
            sx.check("shape", np.shape(r) == (3,))
            return
        q = sx.real("q", 1 / 256, 1 - 1 / 256)
        if what == "vector":
            v = d.ppf([q, 0.25])
            L.check_quantile(sx, "vector of probabilities", v[0], q, cdf, 0, base.hi)
            L.check_quantile(sx, "vector of probabilities 2", v[1], 0.25, cdf, 0, base.hi)
            return
        v = L.item(d.ppf(q) if what == "ppf" else d.isf(q))
        L.check_quantile(sx, what, v, q if what == "ppf" else 1 - q, cdf, 0, base.hi)
        sx.observe("q", v)

    return body


def _discrete_moments(K, lo):
    def body(sx):
        base, psi, law = setup(sx, K, lo)
        d = pz.Hurdle(base, psi)
        sx.check("mean", sx.eq(d.mean(), law.mean()))
        sx.check("var", sx.eq(d.var(), law.var()))
        s = d.std()
        sx.check("std", sx.all(sx.eq(s**2, d.var()), sx.ge(s, 0)))
        md = L.item(d.mode())
        sx.check("mode", sx.all(*[sx.ge(law.mass(lambda a: a == md), p) for p in law.ps]))
        sx.observe("mean", d.mean())

    return body


def _discrete_entropy(K, lo):
    def body(sx):
        base, psi, law = setup(sx, K, lo, 1 - MIN)
        d = pz.Hurdle(base, psi)
        sx.check("entropy", sx.eq(d.entropy(), law.entropy(lambda p: _log(sx, p))))

    return body


def _eps0():
    return (_hm, "eps", 0.0)


def _cont_point(edges):
    def body(sx):
        base = continuous(sx, edges)
        psi = sx.real("psi", MIN, 1)
        x = sx.real("x", -2, 6)
        with sx.patched(_eps0()):
            d = pz.Hurdle(base, psi)
            if sx.is_true(x < 0):
                want, wc = 0.0, 0.0
            elif sx.is_true(x == 0):
                want, wc = 1 - psi, 1 - psi
            else:
                want, wc = psi * base._pdf(x), 1 - psi * (1 - base._cdf(x))
            sx.check("pdf", sx.eq(d.pdf(x), want))
            sx.check("cdf", sx.eq(d.cdf(x), wc))
            sx.check("sf", sx.eq(d.sf(x), 1 - wc))
            lp = L.item(d.logpdf(x))
            if sx.is_true(want > 0):
                sx.check("logpdf", sx.eq(_exp(sx, lp), want))
            else:
                sx.check("logpdf outside", lp == -INF)
            sx.check("values", sx.eq(d.params, [0.5, psi]))
            sx.observe("pdf", d.pdf(x))
            sx.observe("cdf", d.cdf(x))

    return body


def _cont_quantile(edges, what):
    def body(sx):
        base = continuous(sx, edges)
        psi = sx.real("psi", MIN, 1)
        with sx.patched(_eps0()):
            d = pz.Hurdle(base, psi)

            def spec(p):
                if sx.is_true(p <= 1 - psi):
                    return 0.0
                return base._ppf((p - (1 - psi)) / psi)

            if what == "median":
                sx.assume((psi < 0.5) | (psi > 0.5))
                sx.check("median", sx.eq(d.median(), spec(0.5)))
                return
            if what == "bad":
                bad = sx.real("bad", -2, 3)
                sx.assume((bad < 0) | (bad > 1))
                sx.check("no quantile outside [0, 1]", L.isnan(d.ppf(bad)))
                return
            q = sx.real("q", 0, 1)
            p = q if what == "ppf" else 1 - q
            sx.assume((p < 1 - psi) | (p > 1 - psi))
            v = L.item(d.ppf(q) if what == "ppf" else d.isf(q))
            sx.check(what, sx.eq(v, spec(p)))
            sx.observe("q", v)

    return body


def _cont_moments(edges):
    def body(sx):
        base = continuous(sx, edges)
        psi = sx.real("psi", MIN, 1)
        xs = grid(edges[0], edges[-1])
        with sx.patched(_eps0(), (_dd, "_continuous_xvals", _lin(sx))):
            d = pz.Hurdle(base, psi)
            m = psi * trapz([x * base._pdf(x) for x in xs], xs)
            sx.check("mean", sx.eq(d.mean(), m))
            sx.observe("mean", d.mean())

    return body


def _cont_var(a):
    def body(sx):
        b = a + sx.real("width", 0.5, 4)
        psi = sx.real("psi", MIN, 1)
        base = CStub([1 / (b - a)], [a, b])
        xs = grid(a, b)
        with sx.patched(_eps0(), (_dd, "_continuous_xvals", _lin(sx))):
            d = pz.Hurdle(base, psi)
            f = 1 / (b - a)
            m = psi * trapz([x * f for x in xs], xs)
            m2 = psi * trapz([x * x * f for x in xs], xs)
            sx.check("mean", sx.eq(d.mean(), m))
            sx.check("var", sx.eq(d.var(), m2 - m * m))
            s = d.std()
            sx.check("std", sx.all(sx.eq(s**2, d.var()), sx.ge(s, 0)))

    return body


def _undefined():
    def body(sx):
        mu, sigma, psi = sx.real("mu", 0.5, 3), sx.real("sigma", 0.1, 3), sx.real("psi", MIN, 1)
        d = pz.Hurdle(pz.Gamma(mu=mu, sigma=sigma))
        sx.check("psi missing", d.is_frozen is False)
        d = pz.Hurdle(pz.Gamma(), psi)
        sx.check("base missing", d.is_frozen is False)
        sx.check("keeps psi", sx.eq(d.psi, psi))
        d._parametrization(psi, alpha=mu, beta=sigma)
        sx.check("defined once complete", d.is_frozen is True)
        sx.check("values", sx.eq(d.params, [mu, sigma, psi]))
        sx.check("base receives them", sx.all(sx.eq(d.dist.alpha, mu), sx.eq(d.dist.beta, sigma)))
        psi2 = sx.real("psi2", MIN, 1)
        d._parametrization(psi=psi2, alpha=sigma, beta=mu)
        sx.check("updated", sx.eq(list(d.params) + [d.psi, d.alpha, d.beta, d.dist.alpha], [sigma, mu, psi2, psi2, sigma, mu, sigma]))

    return body


def cases(tier):
    th = tier == "thorough"
    K = 4 if th else 3
    out = [Case("parameters", _undefined())]
    for lo in (0, 1, 2):
        t = f"discrete/from {lo}"
        out.append(Case(f"{t}/point", _discrete_point(K, lo)))
        for w in ("ppf", "isf", "median", "bad", "rvs", "ends", "vector"):
            if lo < 2 or w == "ppf":
                out.append(Case(f"{t}/{w}", _discrete_quantile(2 if w == "vector" else K, lo, w)))
        if lo < 2:
            out.append(Case(f"{t}/moments", _discrete_moments(K if th else 2, lo)))
    out.append(Case("discrete/from 0/entropy", _discrete_entropy(2, 0)))
    out.append(Case("discrete/from 1/entropy", _discrete_entropy(2, 1)))
    for i, e in enumerate((EDGES, [0.5, 1.0, 2.0, 4.0])):
        t = f"continuous/{e[0]}"
        out.append(Case(f"{t}/point", _cont_point(e)))
        for w in ("ppf", "isf", "median", "bad"):
            out.append(Case(f"{t}/{w}", _cont_quantile(e, w)))
        out.append(Case(f"{t}/moments", _cont_moments(e)))
        out.append(Case(f"{t}/var", _cont_var(e[0])))
    return out
