"""Reference: what each family's queries mean, straight from the numerical library.

``ref(sx, name, method, args)`` is ``pytensor_distributions.<family>.<method>``
with the parameters passed *by name*.  On the symbolic side every such function
is an uninterpreted function of its named arguments (and the calls preliz makes
are recorded as the same functions); on the concrete side it is evaluated.
"""

import importlib
import inspect
import types

import numpy as np

FAM = {
    "AsymmetricLaplace": "asymmetriclaplace",
    "Bernoulli": "bernoulli",
    "Beta": "beta",
    "BetaBinomial": "betabinomial",
    "BetaScaled": "betascaled",
    "Binomial": "binomial",
    "Cauchy": "cauchy",
    "ChiSquared": "chisquared",
    "DiscreteUniform": "discreteuniform",
    "DiscreteWeibull": "discreteweibull",
    "ExGaussian": "exgaussian",
    "Exponential": "exponential",
    "Gamma": "gamma",
    "Geometric": "geometric",
    "Gumbel": "gumbel",
    "HalfCauchy": "halfcauchy",
    "HalfNormal": "halfnormal",
    "HalfStudentT": "halfstudentt",
    "HyperGeometric": "hypergeometric",
    "InverseGamma": "inversegamma",
    "Kumaraswamy": "kumaraswamy",
    "Laplace": "laplace",
    "Logistic": "logistic",
    "LogitNormal": "logitnormal",
    "LogLogistic": "loglogistic",
    "LogNormal": "lognormal",
    "Moyal": "moyal",
    "NegativeBinomial": "negativebinomial",
    "Normal": "normal",
    "Pareto": "pareto",
    "Poisson": "poisson",
    "Rice": "rice",
    "SkewStudentT": "skew_studentt",
    "SkewNormal": "skewnormal",
    "StudentT": "studentt",
    "Triangular": "triangular",
    "TruncatedNormal": "truncatednormal",
    "Uniform": "uniform",
    "VonMises": "vonmises",
    "Wald": "wald",
    "Weibull": "weibull",
    "ZeroInflatedBinomial": "zi_binomial",
    "ZeroInflatedNegativeBinomial": "zi_negativebinomial",
    "ZeroInflatedPoisson": "zi_poisson",
}
POINT = ("pdf", "cdf", "ppf", "logpdf", "logcdf", "sf", "logsf", "isf", "logisf")
SCALAR = (
    "mean mode median var std skewness kurtosis entropy lmoment1 lmoment2 lmoment3 lmoment4".split()
)


def ptmod(name):
    return importlib.import_module("pytensor_distributions." + FAM[name])


# how the library names the parameters the documentation calls otherwise
def library_params(name, c):
    """canonical values -> values by the library's parameter names"""
    out = dict(c)
    if name in ("NegativeBinomial", "ZeroInflatedNegativeBinomial"):
        # number of successes alpha, success probability alpha / (mu + alpha)
        out["n"] = c["alpha"]
        out["p"] = c["alpha"] / (c["mu"] + c["alpha"])
    return out


def has(name, method):
    return callable(getattr(ptmod(name), method, None))


def _sig(name, method):
    ps = list(inspect.signature(getattr(ptmod(name), method)).parameters)
    return [p for p in ps if p not in ("size", "random_state", "rng")]


def _key(name, method):
    return f"{FAM[name]}.{method}"


def ref(sx, name, method, c, x=None):
    """value of the family's method (None if the library has none)"""
    if not has(name, method):
        return None
    lib = library_params(name, c)
    ps = _sig(name, method)
    if not set(ps[1:] if method in POINT else ps) <= set(lib):
        return None
    if method in POINT:
        first, rest = ps[0], ps[1:]
        args = [x] + [lib[p] for p in rest]
        ps = [first] + rest
    else:
        args = [lib[p] for p in ps]
    if sx.symbolic:
        from engine import nps

        if isinstance(x, (list, tuple, np.ndarray)):
            from engine.nps import mkarr

            return mkarr([_uf(sx, name, method, [v] + args[1:]) for v in x])
        del nps
        return _uf(sx, name, method, args)
    return evaluate(name, method, args)


def _uf(sx, name, method, args):
    return sx.uf(_key(name, method), *args)


_FN = {}


def evaluate(name, method, args):
    import pytensor
    import pytensor.tensor as pt
    from pytensor.compile.mode import Mode

    vals = [np.asarray(a) for a in args]
    key = (name, method, tuple((v.ndim, v.dtype.kind) for v in vals))
    if key not in _FN:
        vs = [pt.tensor(shape=(None,) * v.ndim, dtype=str(v.dtype)) for v in vals]
        out = getattr(ptmod(name), method)(*vs)
        _FN[key] = pytensor.function(vs, out, mode=Mode(linker="py", optimizer="fast_run"), on_unused_input="ignore")
    return _FN[key](*vals)


class _Recorder:
    """stands for the library module: every call becomes an uninterpreted term"""

    def __init__(self, mod):
        self.mod = mod
        self.fam = mod.__name__.split(".")[-1]

    def __getattr__(self, method):
        real = getattr(self.mod, method)
        fam = self.fam

        def f(*a, **k):
            ba = inspect.signature(real).bind(*a, **k)
            args = list(ba.arguments.values())
            return apply(fam, method, list(inspect.signature(real).parameters), ba.arguments, args)

        return f


def apply(fam, method, params, named, args):
    from engine import nps, sym

    order = [p for p in params if p in named]
    vals = [named[p] for p in order]
    vals = [nps.scal(v) if isinstance(v, np.ndarray) and v.ndim == 0 else v for v in vals]
    return nps.ew(lambda *v: sym.CTX.apply(f"h_{fam}.{method}", v, None), *vals)


def ptd_hook(mod, f, a):
    """called for every compiled function of preliz"""
    raw = f.__wrapped__
    g = dict(raw.__globals__)
    found = False
    for k, v in list(g.items()):
        if isinstance(v, types.ModuleType) and v.__name__.startswith("pytensor_distributions."):
            g[k] = _Recorder(v)
            found = True
    if not found:
        return NotImplemented
    h = types.FunctionType(raw.__code__, g, raw.__name__, raw.__defaults__, raw.__closure__)
    try:
        return h(*a)
    except TypeError:
        return NotImplemented
