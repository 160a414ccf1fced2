"""A mixture is the weighted sum of its components."""

import math

import numpy as np

import preliz as pz
from checks import lawtools as L
from checks.common import _exp, _log
from checks.p07 import GRID, _dd, _lin, grid, trapz
from checks.stubs import continuous, discrete, ite, one_param
from engine.harness import Case
from preliz.internal import optimization as _opt

BOUNDS = [
    "two components (three for points), each an arbitrary law on 2-3 (quick) / 4 (thorough) consecutive integers, or an arbitrary piecewise constant density on 2-3 cells, possibly far apart; masses >= 1/64",
    "weights any numbers in [1/16, 16], need not sum to one",
    "the root finder is replaced by its contract: any point within 1e-6 of a sign change of the function, inside the bracket it is given",
]
ASSUMPTIONS = ["the root finder meets its contract when the bracket changes sign"]
INF = math.inf


def weights(sx, n):
    ws = [sx.real(f"w{i}", 1 / 16, 16) for i in range(n)]
    s = sum(ws)
    return ws, [w / s for w in ws]


def rooter(sx):
    """contract of scipy.optimize.brentq"""
    if not sx.symbolic:
        return _opt.brentq
    count = [0]

    def brentq(f, a, b, args=(), **k):
        count[0] += 1
        x = sx.real(f"root{count[0]}", a, b)
        sx.check("the bracket changes sign", sx.all(f(a, *args) <= 1e-9, f(b, *args) >= -1e-9))
        eps = 1e-6
        sx.assume((f(x - eps, *args) <= 0) & (f(x + eps, *args) >= 0))
        return x

    return brentq


def exact_rooter(sx):
    """for continuous increasing functions: the root itself"""
    if not sx.symbolic:
        return _opt.brentq

    def brentq(f, a, b, args=(), **k):
        x = sx.real("root", a, b)
        sx.check("the bracket changes sign", sx.all(f(a, *args) <= 1e-9, f(b, *args) >= -1e-9))
        sx.assume(f(x, *args) == 0)
        return x

    return brentq


def comps(sx, Ks, los):
    return [discrete(sx, K, lo, tag=f"p{i}_") if K else discrete(sx, 1, lo, tag=f"p{i}_") for i, (K, lo) in enumerate(zip(Ks, los))]


def law_of(ds, ws):
    return L.Atoms([a for d in ds for a in d.atoms], [w * p for d, w in zip(ds, ws) for p in d.p])


def _discrete_point(Ks, los):
    def body(sx):
        ds = comps(sx, Ks, los)
        raw, ws = weights(sx, len(ds))
        d = pz.Mixture(ds, raw)
        law = law_of(ds, ws)
        lo, hi = min(c.lo for c in ds), max(c.hi for c in ds)
        sx.check("kind", d.kind == "discrete")
        x = sx.int("x", lo - 2, hi + 2)
        want = law.mass(lambda a: a == x)
        sx.check("pmf", sx.eq(d.pdf(x), want))
        lp = L.item(d.logpdf(x))
        if sx.is_true(want > 0):
            sx.check("logpmf", sx.eq(_exp(sx, lp), want))
        else:
            sx.check("logpmf outside", lp == -INF)
        sx.check("cdf", sx.eq(d.cdf(x), law.mass(lambda a: a <= x)))
        sx.check("sf", sx.eq(d.sf(x), law.mass(lambda a: a > x)))
        sx.check("support", sx.eq(d.support, [lo, hi]))
        sx.check("normalised weights", sx.eq(d.weights, ws))
        sx.check("values", sx.all(sx.eq(d.params[:-1], [0.5] * len(ds)), sx.eq(d.params[-1], raw)))
        sx.check("names", list(d.param_names) == ["loc"] * len(ds) + ["weights"])
        sx.check("one support per parameter", len(d.params_support) == len(d.params) == len(d.param_names))
        sx.check("defined", d.is_frozen is True)
        y = sx.int("y", lo - 2, hi + 2)
        sx.check("vector", sx.all(sx.eq(d.pdf(np.array([x, y])), [want, law.mass(lambda a: a == y)]), sx.eq(d.cdf(np.array([x, y])), [law.mass(lambda a: a <= x), law.mass(lambda a: a <= y)])))
        sx.observe("pmf", d.pdf(x))
        sx.observe("cdf", d.cdf(x))

    return body


def _discrete_quantile(Ks, los, what):
    def body(sx):
        ds = comps(sx, Ks, los)
        raw, ws = weights(sx, len(ds))
        d = pz.Mixture(ds, raw)
        law = law_of(ds, ws)
        lo, hi = min(c.lo for c in ds), max(c.hi for c in ds)
        cdf = lambda y: law.mass(lambda a: a <= y)
        with sx.patched((_opt, "brentq", rooter(sx))):
            if what == "bad":
                bad = sx.real("bad", -2, 3)
                sx.assume((bad < 0) | (bad > 1))
                sx.check("no quantile outside [0, 1]", L.isnan(d.ppf(bad)))
                return
            if what == "ends":
                sx.check("largest value", sx.eq(d.ppf(1.0), hi))
                sx.check("below the smallest value", sx.eq(d.ppf(0.0), lo - 1))
                sx.check("integer probabilities", sx.eq(d.ppf([0, 1]), [lo - 1, hi]))
                return
            q = 0.5 if what == "median" else sx.real("q", 1 / 128, 1 - 1 / 128)
            if what == "vector":
                vs = d.ppf([q, 2.0, 1.0])
                sx.check("vector", sx.all(L.isnan(vs[1]), np.shape(vs) == (3,), sx.eq(vs[2], hi)))
                L.check_quantile(sx, what, vs[0], q, cdf, lo, hi)
                return
            v = L.item(d.median() if what == "median" else d.isf(q) if what == "isf" else d.ppf(q))
            L.check_quantile(sx, what, v, 1 - q if what == "isf" else q, cdf, lo, hi)
            sx.check("a whole number", v == (v // 1))

    return body


def _discrete_moments(los, what, ratios=None):
    def body(sx):
        ds = comps(sx, [1, 2 if what == "low" else 1], los) if ratios is None else [one_param(sx, r, lo) for r, lo in zip(ratios[:1], los)]
        if ratios is not None:
            from checks.stubs import DStub

            ds.append(DStub(list(ratios[1]), los[1]))
        if what not in ("low", "entropy"):
            raw, ws = [1.0, 3.0], [0.25, 0.75]
        else:
            raw, ws = weights(sx, 2)
        d = pz.Mixture(ds, raw)
        law = law_of(ds, ws)
        m = law.mean()
        if what == "low":
            sx.check("mean", sx.eq(d.mean(), m))
            sx.check("var", sx.eq(d.var(), law.var()))
            sx.observe("mean", d.mean())
        elif what == "entropy":
            out = 0.0
            lo, hi = min(c.lo for c in ds), max(c.hi for c in ds)
            # its extreme quantiles are checked elsewhere
            with sx.patched((pz.Mixture, "ppf", lambda self, q: float(lo if q < 0.5 else hi))):
                e = d.entropy()
            for a in range(lo, hi + 1):
                p = law.mass(lambda y, a=a: a == y)
                out = out - (p * _log(sx, p) if sx.is_true(p > 0) else 0.0)
            sx.check("entropy", sx.eq(e, out))
        else:
            s = d.std()
            if what == "std":
                sx.check("std", sx.all(sx.eq(s**2, d.var()), sx.ge(s, 0)))
            elif what == "skewness":
                sx.check("skewness", sx.eq(d.skewness() * s**3, law.moment(3, m)))
            else:
                sx.check("kurtosis", sx.eq((d.kurtosis() + 3) * s**4, law.moment(4, m)))

    return body


SPANS = {"overlap": ([0.0, 1.0, 2.0], [1.0, 2.0, 3.0]), "apart": ([-14.0, -13.0, -12.0], [11.0, 12.0, 13.0]), "nested": ([0.0, 1.0, 2.0, 3.0], [0.5, 1.5, 2.5])}


def setup_cont(sx, span):
    ds = [continuous(sx, e, tag=f"h{i}_") for i, e in enumerate(SPANS[span])]
    raw, ws = weights(sx, 2)
    return ds, raw, ws, pz.Mixture(ds, raw)


def _cont_point(span):
    def body(sx):
        ds, raw, ws, d = setup_cont(sx, span)
        lo, hi = min(c.edges[0] for c in ds), max(c.edges[-1] for c in ds)
        x = sx.real("x", lo - 1, hi + 1)
        want = sum(w * c._pdf(x) for w, c in zip(ws, ds))
        sx.check("kind", d.kind == "continuous")
        sx.check("pdf", sx.eq(d.pdf(x), want))
        sx.check("cdf", sx.eq(d.cdf(x), sum(w * c._cdf(x) for w, c in zip(ws, ds))))
        sx.check("sf", sx.eq(d.sf(x), 1 - sum(w * c._cdf(x) for w, c in zip(ws, ds))))
        lp = L.item(d.logpdf(x))
        if sx.is_true(want > 0):
            sx.check("logpdf", sx.eq(_exp(sx, lp), want))
        else:
            sx.check("logpdf outside", lp == -INF)
        sx.check("support", sx.eq(d.support, [lo, hi]))
        m = sum(w * c.mean() for w, c in zip(ws, ds))
        sx.check("mean", sx.eq(d.mean(), m))
        sx.check("var", sx.eq(d.var(), sum(w * c._mom(2, m) for w, c in zip(ws, ds))))
        sx.observe("pdf", d.pdf(x))

    return body


def _cont_quantile(span, what):
    def body(sx):
        ds, raw, ws, d = setup_cont(sx, span)
        lo, hi = min(c.edges[0] for c in ds), max(c.edges[-1] for c in ds)
        cdf = lambda v: sum(w * c._cdf(v) for w, c in zip(ws, ds))
        with sx.patched((_opt, "brentq", exact_rooter(sx))):
            if what == "ends":
                sx.check("ends", sx.eq(d.ppf(np.array([0.0, 1.0])), [lo, hi]))
                bad = sx.real("bad", -2, 3)
                sx.assume((bad < 0) | (bad > 1))
                sx.check("no quantile outside [0, 1]", L.isnan(d.ppf(bad)))
                return
            q = 0.5 if what == "median" else sx.real("q", 1 / 128, 1 - 1 / 128)
            v = L.item(d.median() if what == "median" else d.isf(q) if what == "isf" else d.ppf(q))
            sx.check("quantile inverts the distribution function", sx.eq(cdf(v), 1 - q if what == "isf" else q))

    return body


def _cont_shape(what):
    """numerical integrals run over the whole support"""

    def body(sx):
        ds = [continuous(sx, e, tag=f"h{i}_") for i, e in enumerate(SPANS["overlap"])]
        raw, ws = [1.0, 3.0], [0.25, 0.75]
        d = pz.Mixture(ds, raw)
        xs = grid(0.0, 3.0)
        fs = [sum(w * c._pdf(x) for w, c in zip(ws, ds)) for x in xs]
        m, v = d.mean(), d.var()
        with sx.patched((_dd, "_continuous_xvals", _lin(sx))):
            s = d.std()
            if what == "skewness":
                sx.check("skewness", sx.eq(d.skewness() * s**3, trapz([(x - m) ** 3 * f for x, f in zip(xs, fs)], xs)))
            else:
                sx.check("kurtosis", sx.eq((d.kurtosis() + 3) * v**2, trapz([(x - m) ** 4 * f for x, f in zip(xs, fs)], xs)))

    return body


class _Rng:
    def __init__(self, picks, sx, ws):
        self.picks, self.sx, self.ws = picks, sx, ws
        self.seen = []

    def choice(self, a, size=None, replace=True, p=None, **k):
        n = a if isinstance(a, int) else len(a)
        self.sx.check("components chosen with the weights", self.sx.all(n == len(self.ws), self.sx.eq(p, self.ws)))
        self.seen.append(size)
        out = np.asarray(self.picks)
        return out if isinstance(a, int) else np.asarray(a)[out]


def _rvs(size, shape):
    """which component each draw comes from, for every outcome of the component choice"""

    def body(sx):
        from checks.stubs import DStub

        raw, ws = weights(sx, 2)
        count = [0]

        class Draws(DStub):
            def rvs(self, size=None, random_state=None):
                sx.check("the same generator is used", random_state is rng)
                n = int(np.prod(size)) if size is not None else 1
                out = [self.lo + count[0] + i for i in range(n)]
                count[0] += n
                return np.array(out).reshape(size) if size is not None else np.int64(out[0])

        ds = [Draws([0.5, 0.5], 100), Draws([0.25, 0.75], 200)]
        n = int(np.prod(shape)) if shape else 1
        picks = np.array([int(sx.flag(f"second{i}")) for i in range(n)]).reshape(shape)
        rng = _Rng(picks, sx, ws)
        d = pz.Mixture(ds, raw)
        real = np.random.default_rng
        with sx.patched((np.random, "default_rng", lambda seed=None: rng)):
            r = d.rvs(size, random_state=7)
        sx.check("requested number of choices", np.array_equal(rng.seen, [size]) or (size is None and rng.seen in ([None], [1])))
        sx.check("shape", np.shape(r) == shape)
        if np.shape(r) != shape:
            return
        flat = np.asarray(r).ravel()
        sx.check("each draw comes from its component", all((v >= 200) == bool(k) for v, k in zip(flat, picks.ravel())))
        sx.check("no draw is reused", len(set(v % 100 for v in flat)) == n)

    return body


def _fit():
    def body(sx):
        m, s = sx.real("m", -3, 3), sx.real("s", 0.25, 3)
        m0 = sx.real("m0", -3, 3)
        d = pz.Mixture([pz.Normal(m0, 1.0), pz.Normal(1.0, 2.0)], [1.0, 3.0])
        d._fit_moments(m, s)
        sx.check("values", sx.all(sx.eq(d.params[:-1], [m, s, m, s]), sx.eq(d.params[-1], [0.5, 0.5]), sx.eq(d.weights, [0.5, 0.5])))
        sx.check("components", sx.all(*[sx.all(sx.eq(c.mu, m), sx.eq(c.sigma, s)) for c in d.dist]))
        sx.check("defined", d.is_frozen is True)

    return body


def _refused():
    def body(sx):
        r = sx.attempt(pz.Mixture, [pz.Poisson(2.0), pz.Normal(0.0, 1.0)], [0.5, 0.5])
        sx.check("mixed kinds are refused", type(r).__name__ == "Raised" and isinstance(r.exc, ValueError))
        w = sx.real("w", 0.1, 3)
        d = pz.Mixture([pz.Poisson(), pz.Poisson(2.0)], [w, w])
        sx.check("not defined while a component is not", d.is_frozen is False)

    return body


def cases(tier):
    out = [Case("refused", _refused()), Case("fit moments", _fit())]
    layouts = [([1, 2], [0, 1]), ([1, 1], [-1, 12]), ([1, 1, 1], [0, 0, 2])]
    if tier == "thorough":
        layouts += [([3, 2], [0, 1]), ([2, 2], [-13, 11])]
    for Ks, los in layouts:
        out.append(Case(f"discrete/{Ks}@{los}/point", _discrete_point(Ks, los)))
    for Ks, los in [([1, 1], [0, 1]), ([1, 1], [-1, 12]), ([1, 1], [-13, -1])] + ([([2, 1], [0, 1]), ([2, 2], [0, 11])] if tier == "thorough" else []):
        for w in ("ppf", "isf", "median", "vector", "bad", "ends"):
            out.append(Case(f"discrete/{Ks}@{los}/{w}", _discrete_quantile(Ks, los, w)))
    out.append(Case("discrete/moments", _discrete_moments([0, 1], "low")))
    out.append(Case("discrete/moments apart", _discrete_moments([-2, 5], "low")))
    R = ((0.25, 0.75), (0.25, 0.25, 0.5))
    for w in ("std", "skewness", "kurtosis", "entropy"):
        out.append(Case(f"discrete/{w}", _discrete_moments([0, 1], w, None if w == "entropy" else R)))
        out.append(Case(f"discrete/{w} negative", _discrete_moments([-2, 2], w, None if w == "entropy" else R)))
    for span in SPANS:
        out.append(Case(f"continuous/{span}/point", _cont_point(span)))
        for w in ("ppf", "isf", "median", "ends"):
            out.append(Case(f"continuous/{span}/{w}", _cont_quantile(span, w)))
    for w in ("skewness", "kurtosis"):
        out.append(Case(f"continuous/{w}", _cont_shape(w)))
    for size, shape in ((None, ()), (3, (3,)), ((2, 2), (2, 2)), (1, (1,))):
        out.append(Case(f"draws/{size}", _rvs(size, shape)))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
