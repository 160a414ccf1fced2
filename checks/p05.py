"""Fits by moments give the mean and the standard deviation asked for."""

import importlib
import math

import numpy as np

import preliz as pz
from checks.common import ALT, DISTS, _exp, cls, draw, draw_alt
from engine.harness import Case
from preliz.internal import optimization as _opt

BOUNDS = [
    "means and standard deviations in [1/16, 16] (means of families on the whole line in [-16, 16], of families on an interval inside it)",
    "iterative fits: any valid rival parameters, new, partly fixed and defined laws",
]
ASSUMPTIONS = [
    "the mean and standard deviation of each family are the documented formulas",
    "iterative fits: scipy.optimize.least_squares is replaced by its contract, a point inside the bounds whose loss is not larger than at any other such point; mean and standard deviation are uninterpreted functions of the parameters",
    "Rice: the root finder returns a root",
    "the gamma function is uninterpreted (the same at equal arguments)",
]
PI = math.pi
EG = float(np.euler_gamma)
INF = math.inf


def _m(sx, where):
    if where == "real":
        return sx.real("mean", -16, 16)
    if where == "unit":
        return sx.real("mean", 1 / 16, 15 / 16)
    if where == "above 1":
        return sx.real("mean", 1 + 1 / 16, 16)
    return sx.real("mean", 1 / 16, 16)


# mean and variance as documented, of the fitted law d
def _lognormal(sx, d, m, s):
    """mean exp(mu + sigma^2 / 2), variance (exp(sigma^2) - 1) mean^2"""
    from engine import sym

    ratio = 1 + (s / m) ** 2
    sx.check("standard deviation", sx.eq(d.sigma**2, sym.log(ratio)))
    sx.check("mean", sx.eq(sym.exp(2 * d.mu) * ratio, m**2))


def _asym(d):
    k = d.kappa
    return d.mu - (k - 1 / k) * d.b, (1 / k**2 + k**2) * d.b**2


MOM = {
    "Normal": ("real", lambda sx, d: (d.mu, d.sigma**2)),
    "Laplace": ("real", lambda sx, d: (d.mu, 2 * d.b**2)),
    "AsymmetricLaplace": ("real", lambda sx, d: _asym(d)),
    "Logistic": ("real", lambda sx, d: (d.mu, d.s**2 * PI**2 / 3)),
    "Gumbel": ("real", lambda sx, d: (d.mu + EG * d.beta, d.beta**2 * PI**2 / 6)),
    "Moyal": ("real", lambda sx, d: (d.mu + d.sigma * (EG + math.log(2)), d.sigma**2 * PI**2 / 2)),
    "Uniform": ("real", lambda sx, d: ((d.lower + d.upper) / 2, (d.upper - d.lower) ** 2 / 12)),
    "Triangular": (
        "real",
        lambda sx, d: (
            (d.lower + d.c + d.upper) / 3,
            (d.lower**2 + d.c**2 + d.upper**2 - d.lower * d.c - d.lower * d.upper - d.c * d.upper) / 18,
        ),
    ),
    "Gamma": ("pos", lambda sx, d: (d.alpha / d.beta, d.alpha / d.beta**2)),
    "InverseGamma": ("pos", lambda sx, d: (d.beta / (d.alpha - 1), d.beta**2 / ((d.alpha - 1) ** 2 * (d.alpha - 2)))),
    "Wald": ("pos", lambda sx, d: (d.mu, d.mu**3 / d.lam)),
    "Pareto": ("pos", lambda sx, d: (d.alpha * d.m / (d.alpha - 1), d.alpha * d.m**2 / ((d.alpha - 1) ** 2 * (d.alpha - 2)))),
    "LogNormal": ("pos", None),
}
# one parameter: only one of the two can be met
ONE = {
    "Bernoulli": ("unit", lambda d: d.p),
    "ChiSquared": ("pos", lambda d: d.nu),
    "Exponential": ("pos", lambda d: 1 / d.lam),
    "Geometric": ("above 1", lambda d: 1 / d.p),
    "Poisson": ("pos", lambda d: d.mu),
}


def _valid(sx, d):
    """every parameter inside its declared range"""
    ok = []
    for v, (lo, hi) in zip(d.params, d.params_support):
        ok.append(sx.ge(v, lo))
        ok.append(sx.le(v, hi))
    return sx.all(*ok)


def _state(sx, name, how):
    if how == "new":
        return cls(name)()
    if how == "defined":
        return cls(name)(**draw(sx, name, "old."))
    return cls(name)(**draw_alt(sx, name, how, "old."))


def _complete(sx, d, name):
    sx.check("complete", d.is_frozen is True)
    sx.check("parameters", sx.eq(list(d.params), [getattr(d, n) for n in d.param_names]))


def _two(name, how):
    where, mom = MOM[name]

    def body(sx):
        m, s = _m(sx, where), sx.real("sd", 1 / 16, 16)
        d = _state(sx, name, how)
        d._fit_moments(m, s)
        _complete(sx, d, name)
        if not sx.symbolic:
            sx.check("mean", abs(float(d.mean()) - m) <= 1e-4 * max(1, abs(m)))
            sx.check("standard deviation", abs(float(d.std()) - s) <= 1e-4 * s * 10)
            return
        if mom is None:
            _lognormal(sx, d, m, s)
            return
        got_m, got_v = mom(sx, d)
        tol = 1e-4 if name == "Uniform" else 1e-9
        sx.check("mean", sx.eq(got_m, m) if tol < 1e-6 else sx.all(got_m - m <= 1e-9, m - got_m <= 1e-9))
        if tol < 1e-6:
            sx.check("standard deviation", sx.eq(got_v, s**2))
        else:
            sx.check("standard deviation", sx.all(got_v <= s**2 * (1 + tol), got_v >= s**2 * (1 - tol)))
        sx.check("ordered", d.lower < d.upper if name in ("Uniform", "Triangular") else True)

    return body


def _one(name, how):
    where, mean = ONE[name]

    def body(sx):
        m, s = _m(sx, where), sx.real("sd", 1 / 16, 16)
        d = _state(sx, name, how)
        d._fit_moments(m, s)
        _complete(sx, d, name)
        sx.check("mean", sx.eq(mean(d), m) if sx.symbolic else abs(float(d.mean()) - m) <= 1e-6 * max(1, m))

    return body


def _beta(scaled, how):
    """exact unless that needs a parameter below one half"""

    def body(sx):
        if scaled:
            lo = sx.real("lower", -8, 8)
            up = lo + sx.real("width", 1 / 2, 8)
            d = pz.BetaScaled(lower=lo, upper=up)
            if how == "defined":
                d = pz.BetaScaled(sx.real("a0", 1 / 2, 8), sx.real("b0", 1 / 2, 8), lo, up)
        else:
            lo, up = 0, 1
            d = _state(sx, "Beta", how)
        u, t = sx.real("mean", 1 / 16, 15 / 16), sx.real("sd", 1 / 32, 1 / 2)
        sx.assume(t * t < u * (1 - u))
        m, s = lo + u * (up - lo), t * (up - lo)
        d._fit_moments(m, s)
        _complete(sx, d, "BetaScaled" if scaled else "Beta")
        if scaled:
            sx.check("bounds", sx.all(sx.eq(d.lower, lo), sx.eq(d.upper, up)))
        sx.check("valid", sx.all(d.alpha >= 0.5, d.beta >= 0.5))
        k = u * (1 - u) / t**2 - 1
        if sx.is_true(k * u >= 0.5) and sx.is_true(k * (1 - u) >= 0.5):
            if not sx.symbolic:
                sx.check("mean", abs(float(d.mean()) - m) <= 1e-6 * max(1, abs(m)))
                sx.check("standard deviation", abs(float(d.std()) - s) <= 1e-5 * s)
                return
            a, b = d.alpha, d.beta
            sx.check("mean", sx.eq(a / (a + b), u))
            sx.check("standard deviation", sx.eq(a * b, t**2 * (a + b) ** 2 * (a + b + 1)))

    return body


def _half(sx_name, how):
    def body(sx):
        m, s = _m(sx, "pos"), sx.real("sd", 1 / 16, 16)
        d = _state(sx, sx_name, how)
        d._fit_moments(m, s)
        _complete(sx, d, sx_name)
        got = d.sigma**2 * (1 - 2 / PI) if sx.symbolic else float(d.var())
        sx.check("standard deviation", sx.eq(got, s**2, tol=1e-5))

    return body


def _student(nu):
    """degrees of freedom given: kept, and the deviation is exact when there is one"""

    def body(sx):
        m, s = _m(sx, "real"), sx.real("sd", 1 / 16, 16)
        v = sx.real("nu", 2 + 1 / 16, 30) if nu == "given" else None
        d = pz.StudentT(nu=v)
        d._fit_moments(m, s)
        _complete(sx, d, "StudentT")
        sx.check("mean", sx.eq(d.mu, m))
        if nu == "given":
            sx.check("degrees of freedom", sx.eq(d.nu, v))
            sx.check("standard deviation", sx.eq(d.sigma**2 * v, s**2 * (v - 2)) if sx.symbolic else abs(float(d.std()) - s) < 1e-6 * s)
        else:
            sx.check("valid", sx.all(d.nu > 2, d.sigma > 0))
            # nearly normal
            r = d.sigma**2 * d.nu / (d.nu - 2)
            sx.check("standard deviation", sx.all(r >= s**2 * 0.95, r <= s**2 * 1.05))

    return body


def _gamma(mod, sx):
    """the gamma function as an uninterpreted function"""
    return (mod, "gamma", lambda z: sx.uf("gamma", z))


def _halfstudent(nu):
    mod = importlib.import_module("preliz.distributions.halfstudentt")

    def body(sx):
        m, s = _m(sx, "pos"), sx.real("sd", 1 / 16, 16)
        v = sx.real("nu", 2 + 1 / 16, 30) if nu == "given" else None
        d = pz.HalfStudentT(nu=v)
        if not sx.symbolic:
            d._fit_moments(m, s)
            sx.check("standard deviation", abs(float(d.std()) - s) < 1e-4 * s)
            return
        v_ = v if v is not None else 100
        with sx.patched(_gamma(mod, sx)):
            g0, g1 = sx.uf("gamma", (v_ + 1) / 2), sx.uf("gamma", v_ / 2)
            sx.assume(g0 > 0)
            sx.assume(g1 > 0)
            var1 = v_ / (v_ - 2) - 4 * v_ / (PI * (v_ - 1) ** 2) * (g0 / g1) ** 2
            sx.assume(var1 > 1 / 64)
            d._fit_moments(m, s)
        _complete(sx, d, "HalfStudentT")
        if v is not None:
            sx.check("degrees of freedom", sx.eq(d.nu, v))
        sx.check("standard deviation", sx.eq(d.sigma**2 * var1, s**2))

    return body


def _weibull(how):
    mod = importlib.import_module("preliz.internal.special")

    def body(sx):
        m = _m(sx, "pos")
        z = sx.real("ratio", 1 / 16, 1)
        s = m * z
        d = _state(sx, "Weibull", how)
        if not sx.symbolic:
            d._fit_moments(m, s)
            sx.check("mean", abs(float(d.mean()) - m) < 1e-6 * m)
            sx.check("standard deviation", abs(float(d.std()) - s) < 0.02 * s)
            return
        with sx.patched(_gamma(mod, sx)):
            d._fit_moments(m, s)
            g = sx.uf("gamma", 1 + 1 / d.alpha)
        sx.assume(g > 0)
        _complete(sx, d, "Weibull")
        sx.check("mean", sx.eq(d.beta * g, m))
        # Garcia's polynomial: 1 / alpha = z (1 + (1 - z)^2 sum k_i z^i)
        k = [-0.221016417, 0.010060668, 0.117358987, -0.050999126]
        p = sum(c * z**i for i, c in enumerate(k))
        sx.check("shape", sx.eq(d.alpha * z * (1 + (1 - z) ** 2 * p), 1))

    return body


def _rice(how):
    """E[x^2] = nu^2 + 2 sigma^2; the ratio of the moments is that of the root found"""

    def body(sx):
        s = sx.real("sd", 1 / 16, 16)
        r = sx.real("ratio", 1, 6)
        m = s * r
        d = _state(sx, "Rice", how)
        if not sx.symbolic:
            d._fit_moments(m, s)
            _complete(sx, d, "Rice")
            if r >= 1.92:
                sx.check("mean", abs(float(d.mean()) - m) < 1e-3 * m)
            sx.check("standard deviation", abs(float(d.std()) - s) < 2e-3 * s)
            return
        seen = {}

        def minimize(fun, x0, bounds=None, **k):
            from types import SimpleNamespace

            from engine.nps import mkarr

            t = sx.real("root", 0, 40)
            # variance of the noise per sigma^2 at this theta, between that of Rayleigh and 1
            b0, b1 = sx.uf("i0", t**2 / 4), sx.uf("i1", t**2 / 4)
            e = _exp(sx, -(t**2) / 2)
            xi = 2 + t**2 - PI / 8 * e * ((2 + t**2) * b0 + t**2 * b1) ** 2
            sx.assume(xi > 0.42)
            sx.assume(xi <= 1)
            sx.assume(xi * (1 + r**2) >= 2)
            v = fun([t])
            sx.assume(sx.eq(v, 0))
            seen["xi"] = xi
            return SimpleNamespace(x=mkarr([t]))

        def bessel(name):
            return lambda z: sx.uf(name, z) if type(z) is not float else _scipy(name, z)

        with sx.patched((_opt, "minimize", minimize), (_opt, "i0", bessel("i0")), (_opt, "i1", bessel("i1")), (_opt, "float", _Float)):
            d._fit_moments(m, s)
        _complete(sx, d, "Rice")
        sx.check("valid", sx.all(d.nu >= 0, d.sigma > 0))
        if seen:
            sx.check("standard deviation", sx.eq(d.sigma**2 * seen["xi"], s**2))
            sx.check("second moment", sx.eq(d.nu**2 + 2 * d.sigma**2, m**2 + s**2))
        else:
            # no Rice law has a smaller ratio: the deviation is that of a Rayleigh law
            sx.check("only below the ratio of a Rayleigh law", r <= 1.9131)
            got = d.sigma**2 * (2 - PI / 2)
            sx.check("standard deviation", sx.all(got >= s**2 * 0.998, got <= s**2 * 1.002))

    return body


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class _Float(float, metaclass=_FloatMeta):
    """float() that keeps symbolic values"""

    dtype = np.dtype(float)

    def __new__(cls, v=0.0):
        return v if isinstance(v, float) else float(v)


def _scipy(name, z):
    import scipy.special

    return float(getattr(scipy.special, name)(z))


def _discrete_uniform(how):
    def body(sx):
        m, s = _m(sx, "real"), sx.real("sd", 1 / 16, 8)
        d = _state(sx, "DiscreteUniform", how)
        d._fit_moments(m, s)
        _complete(sx, d, "DiscreteUniform")
        # the real bounds with these moments, rounded outwards
        n = (12 * s**2 + 1) ** 0.5
        lo, up = m - (n - 1) / 2, m + (n - 1) / 2
        tol = 1e-9
        sx.check("lower", sx.all(d.lower <= lo + tol, d.lower > lo - 1 - tol))
        sx.check("upper", sx.all(d.upper >= up - tol, d.upper < up + 1 + tol))
        sx.check("support", sx.eq(list(d.support), [d.lower, d.upper]))

    return body


# families fitted by a numerical search
SEARCH = (
    "BetaBinomial Binomial DiscreteWeibull Kumaraswamy LogLogistic NegativeBinomial SkewStudentT SkewNormal VonMises "
    "ZeroInflatedBinomial ZeroInflatedNegativeBinomial ZeroInflatedPoisson"
).split()


def _search(name, how):
    """the loss is the distance to the mean plus the distance to the deviation, over the free parameters"""

    def body(sx):
        from checks.pymcgraph import NAN  # noqa: F401

        names = list(DISTS[name])
        m, s = _m(sx, "unit" if name in ("Kumaraswamy",) else "pos"), sx.real("sd", 1 / 16, 16)
        old = draw(sx, name, "old.")
        if how == "new":
            d, fixed = cls(name)(), []
        elif how == "defined":
            d, fixed = cls(name)(**old), []
        else:
            d, fixed = cls(name)(**{how: old[how]}), [how]
        if name == "SkewNormal" and how in ("new", "mu", "sigma"):
            # an open skewness is taken as none
            fixed, old = fixed + ["alpha"], dict(old, alpha=0)
        free = [n for n in names if n not in fixed]
        best, rival = draw(sx, name, "best."), draw(sx, name, "rival.")
        for n in fixed:
            best[n] = rival[n] = old[n]
        seen = {}

        def mean(self=d):
            return sx.uf("mean", *[getattr(d, n) for n in names])

        def std(self=d):
            return sx.uf("std", *[getattr(d, n) for n in names])

        def at(c):
            dm, ds = sx.uf("mean", *[c[n] for n in names]) - m, sx.uf("std", *[c[n] for n in names]) - s
            return abs(dm) + abs(ds)

        def least_squares(fun, x0, args=(), bounds=None, **k):
            seen["bounds"] = bounds
            sx.check("start", len(x0) == len(free))
            for c in (rival, best):
                v = fun(_arr(sx, [c[n] for n in free]), *args)
                sx.check("loss", sx.eq(v if not hasattr(v, "__len__") else v[0], at(c)))
            fun(_arr(sx, [rival[n] for n in free]), *args)
            return {"x": _arr(sx, [best[n] for n in free]), "cost": 0}

        d.mean, d.std = mean, std
        with sx.patched((_opt, "least_squares", least_squares)):
            d._fit_moments(m, s)
        sx.check("complete", d.is_frozen is True)
        sx.check("the optimum is adopted", sx.all(*[sx.eq(getattr(d, n), best[n]) for n in names]))
        sx.check("fixed parameters are kept", sx.all(*[sx.eq(getattr(d, n), old[n]) for n in fixed]))
        lim = [cls(name)().params_support[names.index(n)] for n in free]
        sx.check("the search may use the whole parameter space", [tuple(b) for b in zip(*seen["bounds"])] == [tuple(b) for b in lim])

    return body


def _arr(sx, xs):
    if not sx.symbolic:
        return np.array(xs, dtype=float)
    from engine.nps import mkarr

    return mkarr(xs)


def _modified(kind, base, lo, up):
    """the base is fitted, the bounds (or psi) stay"""

    def body(sx):
        m, s = sx.real("mean", 1, 8), sx.real("sd", 1 / 4, 4)
        b = getattr(pz, base)()
        psi = None
        if kind == "Hurdle":
            psi = sx.real("psi", 1 / 16, 15 / 16)
            d = pz.Hurdle(b, psi)
        else:
            l = sx.real("lower", 1 / 16, 1) if lo else None
            u = sx.real("upper", 9, 12) if up else None
            d = getattr(pz, kind)(b, l, u)
            want = (d.lower, d.upper)
        d._fit_moments(m, s)
        sx.check("complete", d.is_frozen is True)
        e = getattr(pz, base)()
        e._fit_moments(m, s)
        sx.check("base", sx.all(*[sx.eq(getattr(d, n), getattr(e, n)) for n in e.param_names]))
        sx.check("base law", sx.all(*[sx.eq(getattr(d.dist, n), getattr(e, n)) for n in e.param_names]))
        if psi is not None:
            sx.check("psi", sx.eq(d.psi, psi))
        else:
            sx.check("bounds", sx.all(sx.eq(d.lower, want[0]), sx.eq(d.upper, want[1])))
            sx.check("support", sx.all(sx.eq(d.support[0], want[0] if lo else e.support[0]), sx.eq(d.support[1], want[1] if up else e.support[1])))

    return body


def cases(tier):
    out = []

    def states(name):
        return ["new", "defined"] + ALT.get(name, [])

    def tag(h):
        return h if isinstance(h, str) else "-".join(h["names"])

    for name in MOM:
        for h in states(name):
            out.append(Case(f"two/{name}/{tag(h)}", _two(name, h)))
    for name in ONE:
        for h in states(name):
            out.append(Case(f"one/{name}/{tag(h)}", _one(name, h)))
    for h in states("Beta"):
        out.append(Case(f"beta/{tag(h)}", _beta(False, h)))
    for h in ("new", "defined"):
        out.append(Case(f"betascaled/{h}", _beta(True, h)))
    for h in states("HalfNormal"):
        out.append(Case(f"half/HalfNormal/{tag(h)}", _half("HalfNormal", h)))
    for nu in ("open", "given"):
        out.append(Case(f"StudentT/{nu}", _student(nu)))
        out.append(Case(f"HalfStudentT/{nu}", _halfstudent(nu)))
    for h in states("Weibull"):
        out.append(Case(f"Weibull/{tag(h)}", _weibull(h)))
    for h in states("Rice"):
        out.append(Case(f"Rice/{tag(h)}", _rice(h)))
    for h in ("new", "defined"):
        out.append(Case(f"DiscreteUniform/{h}", _discrete_uniform(h)))
    for name in SEARCH:
        opts = ["new", "defined"] + (list(DISTS[name]) if len(DISTS[name]) > 1 else [])
        for h in opts:
            out.append(Case(f"search/{name}/{h}", _search(name, h)))
    for kind in ("Truncated", "Censored"):
        for base in ("Normal", "Gamma"):
            for lo, up in ((1, 1), (1, 0), (0, 1)):
                out.append(Case(f"{kind}/{base}/{lo}{up}", _modified(kind, base, lo, up)))
    out.append(Case("Hurdle/Gamma", _modified("Hurdle", "Gamma", 0, 0)))
    return out
