"""Every query answers for the family at the current parameters."""

import numpy as np

from checks import families
from checks.common import ALT, DISCRETE, DISTS, cls, draw, draw_alt
from checks.families import POINT, SCALAR, has, ref
from engine.harness import Case

BOUNDS = [
    "parameters in [1/32, 32] (narrower where a family's domain is), integers 1..40; evaluation points in [-40, 40], probabilities in (0, 1)",
    "vectors of evaluation points of length 2; moment strings up to length 5",
]
ASSUMPTIONS = [
    "the numerical library (pytensor_distributions) is trusted: its functions are uninterpreted functions of their named arguments",
    "a query without a library counterpart is defined through cdf or ppf (survival = 1 - cdf, its logarithms, inverse survival = ppf(1 - q))",
]


# the mode of these is found by a numerical search
SEARCHED_MODE = ("ExGaussian", "Rice", "SkewNormal", "SkewStudentT")


def draw_(sx, name, tag=""):
    c = draw(sx, name, tag)
    if name == "TruncatedNormal":
        # elsewhere the library's own answers are dominated by cancellation
        sx.assume(c["lower"] <= c["mu"])
        sx.assume(c["mu"] <= c["upper"])
    if name == "HyperGeometric":
        sx.assume(c["k"] < c["N"])
        sx.assume(c["n"] < c["N"])
    if name == "DiscreteWeibull":
        # heavier tails exhaust memory in the library's sums
        sx.assume(c["beta"] >= 1)
        sx.assume(c["q"] <= 0.75)
    return c


def points(sx, name, tag=""):
    if name in DISCRETE:
        return sx.int(f"{tag}x", -3, 45), sx.int(f"{tag}y", -3, 45)
    return sx.real(f"{tag}x", -40, 40), sx.real(f"{tag}y", -40, 40)


def probs(sx, tag=""):
    return sx.real(f"{tag}q", 1e-3, 1 - 1e-3), sx.real(f"{tag}r", 1e-3, 1 - 1e-3)


def _log(sx, v):
    if not sx.symbolic:
        with np.errstate(all="ignore"):
            return np.log(v)
    from engine import nps

    return nps.NP.log(v)


def _sub1(sx, v):
    return 1 - v


def expected(sx, name, m, c, x):
    """acceptable answers of query m at x"""
    out = []
    r = ref(sx, name, m, c, x)
    if r is not None:
        out.append(r)
    if m in ("sf", "logcdf", "logsf"):
        f = ref(sx, name, "cdf", c, x)
        out.append({"sf": lambda: 1 - f, "logcdf": lambda: _log(sx, f), "logsf": lambda: _log(sx, 1 - f)}[m]())
    if m in ("isf",):
        q = [1 - v for v in x] if isinstance(x, list) else 1 - x
        out.append(ref(sx, name, "ppf", c, q))
    return out


def zi_pdf(sx, name, c, x, r):
    """mass outside the support is zero"""
    if not name.startswith("ZeroInflated"):
        return r
    if isinstance(x, list):
        vs = list(r.ravel()) if hasattr(r, "ravel") else list(r)
        return [zi_pdf(sx, name, c, a, v) for a, v in zip(x, vs)]
    if sx.is_true(x < 0):
        return 0.0
    if name == "ZeroInflatedBinomial" and sx.is_true(x > c["n"]):
        return 0.0
    return r


def same(sx, got, wants):
    return sx.any(*[sx.eq(got, w) for w in wants])


def query_all(sx, d, name, c, tag, vec=False):
    x, y = points(sx, name, tag)
    q, r = probs(sx, tag)
    for m in POINT:
        f = getattr(d, m, None)
        if f is None:
            continue
        a = (q, r) if m in ("ppf", "isf", "logisf") else (x, y)
        arg = a[0]
        real = arg
        if vec:
            arg = list(a)
            real = np.array(arg) if not sx.symbolic else _arr(arg)
        wants = expected(sx, name, m, c, arg)
        if not wants:
            continue
        if m in ("pdf",):
            wants = [zi_pdf(sx, name, c, arg, w) for w in wants]
        got = f(real)
        if m.startswith("log") and not sx.symbolic:
            # deep in a tail only the probability itself is comparable
            with np.errstate(all="ignore"):
                got, wants = np.exp(got), [np.exp(w) for w in wants]
        sx.check(tag + m, same(sx, got, wants))


def _arr(v):
    from engine.nps import mkarr

    return mkarr(v)


def scalars(sx, d, name, c, tag):
    for m in SCALAR:
        if not has(name, m) or (m == "mode" and name in SEARCHED_MODE):
            continue
        w = ref(sx, name, m, c)
        sx.check(tag + m, sx.eq(getattr(d, m)(), w))


def _case_point(name, alt):
    def body(sx):
        if alt is None:
            v = draw_(sx, name, "0.")
        else:
            v = draw_alt(sx, name, alt, "0.")
        d = cls(name)(**v)
        c = {n: getattr(d, n) for n in DISTS[name]}
        query_all(sx, d, name, c, "")
        if alt is None:
            w = draw_(sx, name, "1.")
            d._update(*w.values())
            query_all(sx, d, name, w, "after refit: ")

    return body


def _case_vec(name):
    def body(sx):
        v = draw_(sx, name, "0.")
        d = cls(name)(**v)
        query_all(sx, d, name, v, "vector: ", vec=True)

    return body


def _case_scalar(name, alt):
    def body(sx):
        v = draw_(sx, name, "0.") if alt is None else draw_alt(sx, name, alt, "0.")
        d = cls(name)(**v)
        c = {n: getattr(d, n) for n in DISTS[name]}
        scalars(sx, d, name, c, "")
        if alt is None:
            w = draw_(sx, name, "1.")
            d._update(*w.values())
            scalars(sx, d, name, w, "after refit: ")

    return body


MOM = {"m": "mean", "d": "std", "v": "var", "s": "skewness", "k": "kurtosis"}
LMOM = {"1": "lmoment1", "2": "lmoment2", "3": "lmoment3", "4": "lmoment4"}
TYPES = ["m", "d", "v", "s", "k", "mvsk", "kdsvm", "vv", "dmk", "mdvsk", "sd"]
LTYPES = ["1", "2", "3", "4", "1234", "4321", "22", "31"]


def _case_moments(name):
    def body(sx):
        v = draw_(sx, name)
        d = cls(name)(**v)
        want = {k: ref(sx, name, m, v) for k, m in MOM.items()}
        if all(w is not None for w in want.values()):
            sx.check("moments default", sx.eq(d.moments(), [want[k] for k in "mvsk"]))
            for t in TYPES:
                sx.check(f"moments {t}", sx.eq(d.moments(t), [want[k] for k in t]))
        for bad in ("x", "mx", "M", "1"):
            r = sx.attempt(d.moments, bad)
            sx.check(f"moments {bad} rejected", getattr(r, "name", None) == "ValueError")
        want = {k: ref(sx, name, m, v) for k, m in LMOM.items()}
        if all(w is not None for w in want.values()):
            sx.check("lmoments default", sx.eq(d.lmoments(), [want[k] for k in "1234"]))
            for t in LTYPES:
                sx.check(f"lmoments {t}", sx.eq(d.lmoments(t), [want[k] for k in t]))
            for bad in ("0", "5", "m"):
                r = sx.attempt(d.lmoments, bad)
                sx.check(f"lmoments {bad} rejected", getattr(r, "name", None) == "ValueError")

    return body


SIZES = [None, 1, 3, (2,), (2, 3), 0]


def _case_rvs(name):
    def body(sx):
        v = draw_(sx, name)
        d = cls(name)(**v)
        lib = families.library_params(name, v)
        ps = families._sig(name, "rvs")
        if sx.symbolic:
            for size in SIZES:
                calls.clear()
                d.rvs(size=size, random_state=11)
                sx.check("one draw", len(calls) == 1)
                mod, f, a, k = calls[0]
                # parameters reach the library's sampler under the right names
                bound = _bind_rvs(f, a, k)
                sx.check("sampler parameters", sx.all(*[sx.eq(bound[p], lib[p]) for p in ps]))
                sx.check("requested size", bound["size"] == size)
                g = np.random.default_rng(11)
                sx.check("seeded generator", bound["random_state"].bit_generator.state == g.bit_generator.state)
            g = np.random.default_rng(5)
            calls.clear()
            d.rvs(size=2, random_state=g)
            sx.check("given generator is used", _bind_rvs(*calls[0][1:])["random_state"] is g)
        else:
            ok, par = True, True
            for size in SIZES:
                got = d.rvs(size=size, random_state=11)
                want = () if size is None else ((size,) if isinstance(size, int) else tuple(size))
                ok = ok and np.shape(got) == want
                exp = _rvs_ref(name, [lib[p] for p in ps], size, 11)
                par = par and np.shape(got) == np.shape(exp) and bool(np.allclose(got, exp))
            sx.check("one draw", True)
            sx.check("sampler parameters", par)
            sx.check("requested size", ok)
            sx.check("seeded generator", par)
            a = d.rvs(size=2, random_state=np.random.default_rng(5))
            b = _rvs_ref(name, [lib[p] for p in ps], 2, 5)
            sx.check("given generator is used", bool(np.allclose(a, b)))

    return body


calls = []


def _rvs_hook(mod, f, a, k):
    calls.append((mod, f, a, k))
    return 0.5


def _bind_rvs(f, a, k):
    """run the preliz sampler wrapper with a recording library"""
    import inspect
    import types

    raw = f.__wrapped__
    g = dict(raw.__globals__)
    got = {}

    class Rec:
        def __init__(self, mod):
            self.mod = mod

        def __getattr__(self, n):
            real = getattr(self.mod, n)

            def h(*a, **k):
                got["method"] = n
                got.update(inspect.signature(real).bind(*a, **k).arguments)

            return h

    for n, v in list(g.items()):
        if isinstance(v, types.ModuleType) and v.__name__.startswith("pytensor_distributions."):
            g[n] = Rec(v)
    h = types.FunctionType(raw.__code__, g, raw.__name__, raw.__defaults__, raw.__closure__)
    h(*a, **k)
    got.setdefault("size", None)
    return got


def _rvs_ref(name, args, size, seed):
    import pytensor
    import pytensor.tensor as pt
    from pytensor.compile import In
    from pytensor.compile.mode import Mode
    from pytensor.tensor.random.type import random_generator_type

    vals = [np.asarray(a) for a in args]
    vs = [pt.tensor(shape=(), dtype=str(v.dtype)) for v in vals]
    rng = random_generator_type("rng")
    sz = None if size is None else ((size,) if isinstance(size, int) else tuple(size))
    out = families.ptmod(name).rvs(*vs, size=sz, random_state=rng)
    f = pytensor.function(
        vs + [In(rng, mutable=True)], out, mode=Mode(linker="py", optimizer=None), on_unused_input="ignore"
    )
    return f(*vals, np.random.default_rng(seed))


def cases(tier):
    out = []
    n = 1
    for name in DISTS:
        hook = dict(ptd_hook=families.ptd_hook, witnesses=n, models=2, plain_log=True)
        out.append(Case(f"{name}/points", _case_point(name, None), **hook))
        out.append(Case(f"{name}/scalars", _case_scalar(name, None), **hook))
        out.append(Case(f"{name}/vector", _case_vec(name), **dict(hook, witnesses=n if tier == "thorough" else 0)))
        out.append(Case(f"{name}/moments", _case_moments(name), **dict(hook, witnesses=n if tier == "thorough" else 0)))
        out.append(Case(f"{name}/rvs", _case_rvs(name), rvs_hook=_rvs_hook, **dict(hook, witnesses=n if tier == "thorough" else 0)))
        for i, a in enumerate(ALT.get(name, [])):
            t = "_".join(a["names"])
            h2 = dict(hook, witnesses=0)
            h2.pop("ptd_hook")
            out.append(Case(f"{name}/{t}/points", _case_point(name, a), **dict(h2, ptd_hook=families.ptd_hook)))
            out.append(Case(f"{name}/{t}/scalars", _case_scalar(name, a), **dict(h2, ptd_hook=families.ptd_hook)))
    return out
