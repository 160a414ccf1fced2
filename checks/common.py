"""Independent description of the families and of their documented relations.

Written from the documentation (docstrings), not from the implementation.
"""

import math

import preliz as pz

LO, HI = 1 / 32, 32.0

# kinds of parameters: (lower, upper) ranges used as stated bounds
POS = ("pos",)
REAL = ("real",)
UNIT = ("unit",)
INT = ("int",)

DISTS = {
    "AsymmetricLaplace": dict(kappa=POS, mu=REAL, b=POS),
    "Beta": dict(alpha=POS, beta=POS),
    "BetaScaled": dict(alpha=POS, beta=POS, lower=REAL, upper=REAL),
    "Cauchy": dict(alpha=REAL, beta=POS),
    "ChiSquared": dict(nu=POS),
    "ExGaussian": dict(mu=REAL, sigma=POS, nu=POS),
    "Exponential": dict(lam=POS),
    "Gamma": dict(alpha=POS, beta=POS),
    "Gumbel": dict(mu=REAL, beta=POS),
    "HalfCauchy": dict(beta=POS),
    "HalfNormal": dict(sigma=POS),
    "HalfStudentT": dict(nu=POS, sigma=POS),
    "InverseGamma": dict(alpha=POS, beta=POS),
    "Kumaraswamy": dict(a=POS, b=POS),
    "Laplace": dict(mu=REAL, b=POS),
    "Logistic": dict(mu=REAL, s=POS),
    "LogLogistic": dict(alpha=POS, beta=POS),
    "LogNormal": dict(mu=REAL, sigma=POS),
    "LogitNormal": dict(mu=REAL, sigma=POS),
    "Moyal": dict(mu=REAL, sigma=POS),
    "Normal": dict(mu=REAL, sigma=POS),
    "Pareto": dict(alpha=POS, m=POS),
    "Rice": dict(nu=POS, sigma=POS),
    "SkewNormal": dict(mu=REAL, sigma=POS, alpha=REAL),
    "SkewStudentT": dict(mu=REAL, sigma=POS, a=POS, b=POS),
    "StudentT": dict(nu=POS, mu=REAL, sigma=POS),
    "Triangular": dict(lower=REAL, c=REAL, upper=REAL),
    "TruncatedNormal": dict(mu=REAL, sigma=POS, lower=REAL, upper=REAL),
    "Uniform": dict(lower=REAL, upper=REAL),
    "VonMises": dict(mu=("pi",), kappa=POS),
    "Wald": dict(mu=POS, lam=POS),
    "Weibull": dict(alpha=POS, beta=POS),
    "Bernoulli": dict(p=UNIT),
    "BetaBinomial": dict(alpha=POS, beta=POS, n=INT),
    "Binomial": dict(n=INT, p=UNIT),
    "DiscreteUniform": dict(lower=INT, upper=INT),
    "DiscreteWeibull": dict(q=UNIT, beta=POS),
    "Geometric": dict(p=UNIT),
    "HyperGeometric": dict(N=INT, k=INT, n=INT),
    "NegativeBinomial": dict(mu=POS, alpha=POS),
    "Poisson": dict(mu=POS),
    "ZeroInflatedBinomial": dict(psi=UNIT, n=INT, p=UNIT),
    "ZeroInflatedNegativeBinomial": dict(psi=UNIT, mu=POS, alpha=POS),
    "ZeroInflatedPoisson": dict(psi=UNIT, mu=POS),
}

DISCRETE = {
    "Bernoulli",
    "BetaBinomial",
    "Binomial",
    "DiscreteUniform",
    "DiscreteWeibull",
    "Geometric",
    "HyperGeometric",
    "NegativeBinomial",
    "Poisson",
    "ZeroInflatedBinomial",
    "ZeroInflatedNegativeBinomial",
    "ZeroInflatedPoisson",
}

INF = math.inf


def support_of(name, p):
    """documented support"""
    if name in ("Beta", "Kumaraswamy", "LogitNormal", "Bernoulli"):
        return (0, 1)
    if name in (
        "ChiSquared Exponential Gamma HalfCauchy HalfNormal HalfStudentT InverseGamma LogLogistic LogNormal Rice "
        "Wald Weibull DiscreteWeibull NegativeBinomial Poisson ZeroInflatedNegativeBinomial ZeroInflatedPoisson"
    ).split():
        return (0, INF)
    if name == "Geometric":
        return (1, INF)
    if name == "Pareto":
        return (p["m"], INF)
    if name in ("BetaScaled", "Triangular", "TruncatedNormal", "Uniform", "DiscreteUniform"):
        return (p["lower"], p["upper"])
    if name in ("BetaBinomial", "Binomial", "ZeroInflatedBinomial"):
        return (0, p["n"])
    if name == "HyperGeometric":
        lo = p["n"] - p["N"] + p["k"]
        return (lo if lo > 0 else 0, p["k"] if p["k"] < p["n"] else p["n"])
    if name == "VonMises":
        return (-math.pi, math.pi)
    return (-INF, INF)


def draw(sx, name, tag="", **over):
    """symbolic canonical parameters of a valid member of the family"""
    out = {}
    for k, kind in {**DISTS[name], **over}.items():
        n = f"{name}.{tag}{k}"
        out[k] = draw1(sx, n, kind)
    if "lower" in out and "upper" in out:
        if DISTS[name]["lower"] == INT:
            sx.assume(out["lower"] <= out["upper"])
        else:
            sx.assume(out["lower"] + LO <= out["upper"])
    if name == "Triangular":
        sx.assume(out["lower"] <= out["c"])
        sx.assume(out["c"] <= out["upper"])
    if name == "HyperGeometric":
        sx.assume(out["k"] <= out["N"])
        sx.assume(out["n"] <= out["N"])
    return out


def draw1(sx, n, kind):
    if kind == POS:
        return sx.real(n, LO, HI)
    if kind == REAL:
        return sx.real(n, -HI, HI)
    if kind == UNIT:
        return sx.real(n, LO, 1 - LO)
    if kind == INT:
        return sx.int(n, 1, 40)
    if kind == ("pi",):
        return sx.real(n, -3, 3)
    return sx.real(n, kind[0], kind[1])


def cls(name):
    return getattr(pz, name)


def sqrt(x):
    return x**0.5


# documented alternative parametrizations:
#   names, kinds, canonical(alt) , alt(canonical)
def _logit(sx, p):
    import numpy as np  # noqa: F401

    from preliz.internal import special  # noqa: F401

    raise NotImplementedError


ALT = {
    "AsymmetricLaplace": [
        dict(
            names=("q", "mu", "b"),
            kinds=dict(q=UNIT, mu=REAL, b=POS),
            # q = kappa^2 / (1 + kappa^2)
            rel=lambda sx, c, a: [(a["q"] * (1 + c["kappa"] ** 2), c["kappa"] ** 2)],
        )
    ],
    "Beta": [
        dict(
            names=("mu", "sigma"),
            kinds=dict(mu=UNIT, sigma=(1 / 64, 0.49)),
            assume=lambda sx, a: a["sigma"] ** 2 * 1.01 <= a["mu"] * (1 - a["mu"]),
            # mean and variance of the Beta
            rel=lambda sx, c, a: [
                (a["mu"] * (c["alpha"] + c["beta"]), c["alpha"]),
                (
                    a["sigma"] ** 2 * (c["alpha"] + c["beta"]) ** 2 * (c["alpha"] + c["beta"] + 1),
                    c["alpha"] * c["beta"],
                ),
            ],
        ),
        dict(
            names=("mu", "nu"),
            kinds=dict(mu=UNIT, nu=POS),
            rel=lambda sx, c, a: [(a["mu"] * a["nu"], c["alpha"]), ((1 - a["mu"]) * a["nu"], c["beta"])],
        ),
    ],
    "Exponential": [dict(names=("scale",), kinds=dict(scale=POS), rel=lambda sx, c, a: [(a["scale"] * c["lam"], 1)])],
    "Gamma": [
        dict(
            names=("mu", "sigma"),
            kinds=dict(mu=POS, sigma=POS),
            rel=lambda sx, c, a: [
                (a["mu"] * c["beta"], c["alpha"]),
                (a["sigma"] ** 2 * c["beta"] ** 2, c["alpha"]),
            ],
        )
    ],
    "InverseGamma": [
        dict(
            names=("mu", "sigma"),
            kinds=dict(mu=(1 / 8, 8.0), sigma=(1 / 8, 8.0)),
            canon=dict(alpha=(2.25, HI), beta=POS),
            rel=lambda sx, c, a: [
                (a["mu"] * (c["alpha"] - 1), c["beta"]),
                (a["sigma"] ** 2 * (c["alpha"] - 1) ** 2 * (c["alpha"] - 2), c["beta"] ** 2),
            ],
        )
    ],
    "HalfNormal": [dict(names=("tau",), kinds=dict(tau=POS), rel=lambda sx, c, a: [(a["tau"] * c["sigma"] ** 2, 1)])],
    "HalfStudentT": [
        dict(
            names=("nu", "lam"),
            kinds=dict(nu=POS, lam=POS),
            rel=lambda sx, c, a: [(a["lam"] * c["sigma"] ** 2, 1), (a["nu"], c["nu"])],
        )
    ],
    "LogitNormal": [
        dict(
            names=("mu", "tau"),
            kinds=dict(mu=REAL, tau=POS),
            rel=lambda sx, c, a: [(a["tau"] * c["sigma"] ** 2, 1), (a["mu"], c["mu"])],
        )
    ],
    "Normal": [
        dict(
            names=("mu", "tau"),
            kinds=dict(mu=REAL, tau=POS),
            rel=lambda sx, c, a: [(a["tau"] * c["sigma"] ** 2, 1), (a["mu"], c["mu"])],
        )
    ],
    "NegativeBinomial": [
        dict(
            names=("p", "n"),
            kinds=dict(p=UNIT, n=POS),
            rel=lambda sx, c, a: [(a["p"] * (c["mu"] + c["alpha"]), c["alpha"]), (a["n"], c["alpha"])],
        )
    ],
    "Rice": [
        dict(
            names=("b", "sigma"),
            kinds=dict(b=POS, sigma=POS),
            rel=lambda sx, c, a: [(a["b"] * c["sigma"], c["nu"]), (a["sigma"], c["sigma"])],
        )
    ],
    "SkewNormal": [
        dict(
            names=("mu", "tau", "alpha"),
            kinds=dict(mu=REAL, tau=POS, alpha=REAL),
            rel=lambda sx, c, a: [
                (a["tau"] * c["sigma"] ** 2, 1),
                (a["mu"], c["mu"]),
                (a["alpha"], c["alpha"]),
            ],
        )
    ],
    "SkewStudentT": [
        dict(
            names=("mu", "lam", "a", "b"),
            kinds=dict(mu=REAL, lam=POS, a=POS, b=POS),
            rel=lambda sx, c, a: [
                (a["lam"] * c["sigma"] ** 2, 1),
                (a["mu"], c["mu"]),
                (a["a"], c["a"]),
                (a["b"], c["b"]),
            ],
        )
    ],
    "StudentT": [
        dict(
            names=("nu", "mu", "lam"),
            kinds=dict(nu=POS, mu=REAL, lam=POS),
            rel=lambda sx, c, a: [(a["lam"] * c["sigma"] ** 2, 1), (a["mu"], c["mu"]), (a["nu"], c["nu"])],
        )
    ],
    "Wald": [
        dict(
            names=("mu", "phi"),
            kinds=dict(mu=POS, phi=POS),
            rel=lambda sx, c, a: [(a["phi"] * c["mu"], c["lam"]), (a["mu"], c["mu"])],
        ),
        dict(
            names=("lam", "phi"),
            kinds=dict(lam=POS, phi=POS),
            rel=lambda sx, c, a: [(a["phi"] * c["mu"], c["lam"]), (a["lam"], c["lam"])],
        ),
    ],
    "ZeroInflatedNegativeBinomial": [
        dict(
            names=("psi", "p", "n"),
            kinds=dict(psi=UNIT, p=UNIT, n=POS),
            rel=lambda sx, c, a: [
                (a["p"] * (c["mu"] + c["alpha"]), c["alpha"]),
                (a["n"], c["alpha"]),
                (a["psi"], c["psi"]),
            ],
        )
    ],
    "Bernoulli": [
        dict(
            names=("logit_p",),
            kinds=dict(logit_p=(-8.0, 8.0)),
            # p / (1 - p) = exp(logit_p)
            rel=lambda sx, c, a: [(c["p"], (1 - c["p"]) * _exp(sx, a["logit_p"]))],
        )
    ],
}


def _exp(sx, x):
    import math as m

    if sx.symbolic:
        from engine import sym

        return sym.exp(x)
    return m.exp(x)


def _log(sx, x):
    if sx.symbolic:
        from engine import sym

        return sym.log(x)
    return math.log(x) if x > 0 else -math.inf


def draw_alt(sx, name, alt, tag=""):
    out = {}
    for k in alt["names"]:
        out[k] = draw1(sx, f"{name}.{tag}{k}", alt["kinds"][k])
    if "assume" in alt:
        sx.assume(alt["assume"](sx, out))
    return out


def holds(sx, pairs, tol=1e-6):
    return sx.all(*[sx.eq(l, r, tol=tol) for l, r in pairs])
