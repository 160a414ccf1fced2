"""Maximum likelihood fits maximise the likelihood."""

import importlib
import math

import numpy as np

import preliz as pz
from checks import families
from checks.common import ALT, DISTS, DISCRETE, cls, draw, draw_alt
from engine.harness import Case
from preliz.internal import optimization as _opt

BOUNDS = [
    "samples of 2 or 3 (quick) / 4 (thorough) values in [-8, 8] (or the part of it inside the support), spread at least 1/16 where the family has a scale",
    "rival parameters in [1/32, 32] (reals in [-32, 32])",
    "iterative fits: samples of two values",
]
ASSUMPTIONS = [
    "log t <= t - 1, stated for the ratios of fitted to rival parameters (a fact about real numbers)",
    "iterative fits: scipy.optimize.minimize is replaced by its contract, a point inside the bounds it is given whose objective is not larger than at any other such point",
    "iterative fits: densities of the numerical library are uninterpreted functions of their named arguments",
]


def lemma(sx, t):
    sx.assume(sx.le(_log(sx, t), t - 1))


def _log(sx, v):
    if not sx.symbolic:
        return math.log(v)
    from engine import sym

    return sym.log(v)


def sample(sx, n, kind):
    out = []
    for i in range(n):
        if kind == "real":
            out.append(sx.real(f"x{i}", -8, 8))
        elif kind == "pos":
            out.append(sx.real(f"x{i}", 1 / 16, 8))
        elif kind == "unit":
            out.append(sx.real(f"x{i}", 1 / 16, 15 / 16))
        elif kind == "count":
            out.append(sx.int(f"x{i}", 0, 9))
        elif kind == "count1":
            out.append(sx.int(f"x{i}", 1, 9))
        elif kind == "int":
            out.append(sx.int(f"x{i}", -5, 9))
    return out


def arr(sx, xs):
    if not sx.symbolic:
        return np.array(xs)
    from engine.nps import mkarr

    return mkarr(xs)


def ll(sx, d, xs):
    return sum(d.logpdf(x) for x in xs)


def spread(sx, xs):
    sx.assume(sx.any(*[sx.any(sx.ge(a - b, 1 / 16), sx.ge(b - a, 1 / 16)) for i, a in enumerate(xs) for b in xs[:i]]))


def _mean(xs):
    return sum(xs) / len(xs)


def _var(xs):
    m = _mean(xs)
    return sum((x - m) ** 2 for x in xs) / len(xs)


def closed(name, kind, rivals, lemmas, assume=None):
    """fit a sample, compare with the likelihood of every rival"""

    def make(n):
        def body(sx):
            xs = sample(sx, n, kind)
            if assume is not None:
                assume(sx, xs)
            d = cls(name)()
            d._fit_mle(arr(sx, xs))
            sx.check("fitted law is complete", d.is_frozen is True)
            if name in SCALED:
                # the one stationary point of the likelihood
                ys = SCALED[name](sx, xs)
                if name != "HalfNormal":
                    sx.check("location", sx.eq(d.mu, _mean(ys)))
                sx.check("scale", sx.eq(d.sigma**2, _mean([y * y for y in ys]) if name == "HalfNormal" else _var(ys)))
                if n > 2:
                    return
            c = rivals(sx, xs)
            for t in lemmas(d, c):
                lemma(sx, t)
            sx.check("no parameters have higher likelihood", sx.ge(ll(sx, d, xs), ll(sx, cls(name)(**c), xs)))

        return body

    return make


def _draw(name, **over):
    return lambda sx, xs: draw(sx, name, "rival.", **over)


def _logs(sx, xs):
    return [_log(sx, x) for x in xs]


def _logits(sx, xs):
    return [_log(sx, x) - _log(sx, 1 - x) for x in xs]


def _around(sx, xs, integer=False):
    """bounds that contain the sample"""
    lo = sx.int("lower", -9, 9) if integer else sx.real("lower", -16, 16)
    up = sx.int("upper", -9, 12) if integer else sx.real("upper", -16, 16)
    for x in xs:
        sx.assume((lo <= x) & (x <= up))
    return {"lower": lo, "upper": up}


def _normalish(d, c):
    return [d.sigma**2 / c["sigma"] ** 2]


def _laplace(d, c):
    return [d.b / c["b"]]


def _some(sx, xs):
    sx.assume(sum(xs) >= 1)


def _pareto(sx, xs):
    spread(sx, xs)


def _pareto_rivals(sx, xs):
    c = draw(sx, "Pareto", "rival.")
    for x in xs:
        sx.assume(c["m"] <= x)
    return c


def _pareto_lemmas(d, c):
    return [c["alpha"] / d.alpha]


def _geom_assume(sx, xs):
    sx.assume(sum(xs) >= len(xs) + 1)


def _geom(d, c):
    return [c["p"] / d.p, (1 - c["p"]) / (1 - d.p)]


SCALED = {"Normal": lambda sx, xs: xs, "HalfNormal": lambda sx, xs: xs, "LogNormal": _logs, "LogitNormal": _logits}
CLOSED = {
    "Normal": closed("Normal", "real", _draw("Normal"), _normalish, spread),
    "LogNormal": closed("LogNormal", "pos", _draw("LogNormal"), _normalish, spread),
    "LogitNormal": closed("LogitNormal", "unit", _draw("LogitNormal"), _normalish, spread),
    "HalfNormal": closed("HalfNormal", "pos", _draw("HalfNormal"), _normalish),
    "Laplace": closed("Laplace", "real", _draw("Laplace"), _laplace, spread),
    "Exponential": closed("Exponential", "pos", _draw("Exponential"), lambda d, c: [c["lam"] / d.lam]),
    "Poisson": closed("Poisson", "count", _draw("Poisson"), lambda d, c: [c["mu"] / d.mu], _some),
    "Geometric": closed("Geometric", "count1", _draw("Geometric"), _geom, _geom_assume),
    "Uniform": closed("Uniform", "real", _around, lambda d, c: [], spread),
    "DiscreteUniform": closed("DiscreteUniform", "int", lambda sx, xs: _around(sx, xs, True), lambda d, c: []),
    "Pareto": closed("Pareto", "pos", _pareto_rivals, _pareto_lemmas, _pareto),
}


# ------------------------------------------------- approximate closed forms
def skewness(xs):
    m = _mean(list(xs))
    v = _var(list(xs))
    return _mean([(x - m) ** 3 for x in xs]) / v**1.5


def _valid(name, n):
    def body(sx):
        kind = {"Binomial": "count", "Triangular": "real", "ExGaussian": "real"}[name]
        xs = sample(sx, n, kind)
        d = cls(name)()
        if name != "Binomial":
            spread(sx, xs)
        if name == "ExGaussian":
            g = sx.real("skew", -20, 20)
            m = importlib.import_module("preliz.distributions.exgaussian")
            with sx.patched((m, "skew", lambda v, **k: g)):
                d._fit_mle(arr(sx, xs))
            sx.check("valid parameters", sx.all(d.sigma > 0, d.nu > 0))
            sx.check("mean of the sample", sx.eq(d.mu + d.nu, _mean(xs)))
            sx.check("variance of the sample", sx.eq(d.sigma**2 + d.nu**2, _var(xs)))
            if sx.is_true((g >= 1e-3) & (g <= 1.9)):
                sx.check("skewness of the sample", sx.eq(2 * d.nu**3, g * _var(xs) ** 1.5))
            return
        d._fit_mle(arr(sx, xs))
        if name == "Binomial":
            sx.check("valid parameters", sx.all(d.n >= 1, d.p > 0, d.p < 1))
            for x in xs:
                sx.check("allows the sample", d.n >= x)
            sx.check("mean of the sample", sx.eq(d.p, _mean(xs) / d.n, 1e-9))
        else:
            sx.check("valid parameters", sx.all(d.lower <= d.c, d.c <= d.upper, d.lower < d.upper))
            for x in xs:
                sx.check("allows the sample", sx.all(d.lower <= x, x <= d.upper))
            third = 3 * _mean(xs) - d.lower - d.upper
            if sx.is_true((third >= d.lower) & (third <= d.upper)):
                sx.check("mean of the sample", sx.eq((d.lower + d.c + d.upper) / 3, _mean(xs)))

    return body


# ------------------------------------------------------------------ iterative
ITER = (
    "AsymmetricLaplace Bernoulli Beta BetaBinomial BetaScaled Cauchy ChiSquared DiscreteWeibull Gamma Gumbel HalfCauchy "
    "HalfStudentT HyperGeometric InverseGamma Kumaraswamy Logistic LogLogistic Moyal NegativeBinomial Rice SkewNormal "
    "SkewStudentT StudentT TruncatedNormal Wald Weibull ZeroInflatedBinomial ZeroInflatedNegativeBinomial ZeroInflatedPoisson"
).split()


def _iter(name, alt=None):
    def body(sx):
        start, best, rival = (draw(sx, name, t) for t in ("start.", "best.", "rival."))
        n = 2
        if name in DISCRETE:
            xs = [sx.int(f"x{i}", 0, 9) for i in range(n)]
        else:
            xs = [sx.real(f"x{i}", 1 / 8, 7 / 8) for i in range(n)]
        seen = {}
        names = list(DISTS[name])

        def minimize(fun, x0, bounds=None, args=(), **k):
            seen["x0"], seen["bounds"] = x0, bounds
            one = fun(arr(sx, [best[p] for p in names]), *args)
            two = fun(arr(sx, [rival[p] for p in names]), *args)
            if sx.symbolic:
                sx.assume(one <= two)
            elif not one <= two:
                # the densities are real now: the optimiser returns the better of the two
                swap = dict(best)
                best.update(rival)
                rival.update(swap)
            fun(arr(sx, [start[p] for p in names]), *args)
            return {"x": arr(sx, [best[p] for p in names]), "fun": one, "success": True}

        # the law may be new or defined before, in any of its parametrizations
        d = cls(name)() if alt is None else cls(name)(**(draw(sx, name, "old.") if alt == "canon" else draw_alt(sx, name, alt, "old.")))
        moments = []

        def fit_moments(mean, sigma):
            moments.append((mean, sigma))
            d._update(*[start[p] for p in names])

        d._fit_moments = fit_moments
        pats = [(_opt, "minimize", minimize)]
        if name == "SkewNormal":
            m = importlib.import_module("preliz.distributions.skewnormal")
            g = sx.real("skew", -20, 20)
            pats.append((m, "skew", lambda v, **k: g))
        with sx.patched(*pats):
            d._fit_mle(arr(sx, xs))
        sx.check("the optimum is adopted", sx.all(*[sx.eq(getattr(d, p), best[p]) for p in names], d.is_frozen is True))
        if alt is None or alt == "canon":
            sx.check("parameters", sx.eq(d.params, [best[p] for p in names]))
        sx.check("the optimiser may use the whole parameter space", tuple(seen["bounds"]) == tuple(cls(name)().params_support))
        got = ll(sx, d, xs)
        sx.check("no parameters have higher likelihood", sx.ge(got, ll(sx, cls(name)(**rival), xs)))

    return body


def cases(tier):
    out = []
    for name, mk in CLOSED.items():
        for n in (2, 3) if tier == "quick" or name == "Laplace" else (2, 3, 4):
            out.append(Case(f"closed/{name}/{n}", mk(n)))
    for name in ("Binomial", "Triangular", "ExGaussian"):
        for n in (2, 3) if tier == "quick" or name == "Binomial" else (2, 3, 4):
            out.append(Case(f"approximate/{name}/{n}", _valid(name, n)))
    for name in ITER:
        for alt in ALT.get(name, []):
            out.append(Case(f"iterative/{name}/{'-'.join(alt['names'])}", _iter(name, alt), ptd_hook=families.ptd_hook, plain_log=True, models=2))
        out.append(Case(f"iterative/{name}/defined", _iter(name, "canon"), ptd_hook=families.ptd_hook, plain_log=True, models=2, max_paths=600))
        out.append(Case(f"iterative/{name}", _iter(name), ptd_hook=families.ptd_hook, plain_log=True, models=2))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
