"""Dirichlet elicitation and the multivariate laws."""

import importlib
import sys
import warnings
from types import SimpleNamespace

import numpy as np

import preliz as pz
from checks.common import _exp
from checks.p06 import arr
from engine.harness import Case, Raised
from preliz.internal import optimization as _opt
from preliz.internal.rcparams import rcParams

dm = sys.modules["preliz.multidimensional.dirichlet_mode"]
mv = importlib.import_module("preliz.distributions.continuous_multivariate")
ph = importlib.import_module("preliz.internal.plot_helper_multivariate")

BOUNDS = [
    "two and three categories, mode entries in [1/16, 15/16], bounds in (0, 1/2], any mass in (0, 1]; searches of up to 4 steps (quick) or 6 (thorough)",
    "unreachable masses: up to 200 steps",
    "Dirichlet and MvNormal laws of dimension 2 to 4; covariance and precision matrices 2 by 2, positive definite",
]
ASSUMPTIONS = [
    "the beta distribution function is uninterpreted (P02 decides it), scipy's frozen Dirichlet and multivariate normal are replaced by their documented mean and variance",
    "figures are replaced by stand-ins that record what is drawn",
]


class _Unrolled(Exception):
    """more steps than the stated bound"""


def _beta(sx, steps, k, low=None):
    """stand-in for Beta: an uninterpreted distribution function; at most `steps` evaluations of the k marginals"""

    class Beta:
        n = 0

        def __init__(self, alpha=None, beta=None):
            self.alpha, self.beta = alpha, beta

        def _parametrization(self, alpha=None, beta=None, mu=None, sigma=None, nu=None):
            self.alpha, self.beta = alpha, beta

        _update = _parametrization

        def cdf(self, x):
            Beta.n += 1
            if Beta.n > steps * k:
                raise _Unrolled()
            v = sx.uf("cdf", self.alpha, self.beta, x)
            if sx.symbolic:
                sx.assume((v >= 0) & (v <= 1))
            if low is not None and sx.symbolic:
                sx.assume(v < low)
            return v

    return Beta


class _Law:
    def __init__(self, alpha=None):
        self.alpha = alpha
        self.drawn = []

    def plot_pdf(self, *a, **k):
        self.drawn.append((a, k))
        return "axes"


def _run(sx, Beta, mode, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with sx.patched((dm, "Beta", Beta), (dm, "Dirichlet", _Law)):
            try:
                out = sx.attempt(dm.dirichlet_mode, mode, **k)
            except _Unrolled:
                raise
    return out, [str(v.message) for v in w]


def _mode(sx, k, how):
    if how == "normalised":
        m = [sx.real(f"m{i}", 1 / 16, 15 / 16) for i in range(k - 1)]
        last = 1 - sum(m)
        sx.assume(last >= 1 / 16)
        return m + [last]
    m = [sx.real(f"m{i}", 1 / 16, 4) for i in range(k)]
    s = sum(m)
    if how == "not":
        sx.assume((s >= 1.001) | (s <= 0.999))
    return m


def _elicit(k, how, steps, mass="given"):
    def body(sx):
        mode = _mode(sx, k, how)
        given = list(mode)
        p = sx.real("mass", 1 / 64, 1)
        bound = sx.real("bound", 1 / 64, 1 / 2)
        kw = {"mass": p} if mass == "given" else {}
        Beta = _beta(sx, steps, k)
        pats = [] if mass == "given" else [(dm, "rcParams", {"stats.ci_prob": p, "plots.show_plot": False})]
        with sx.patched(*pats):
            out, w = _run(sx, Beta, mode, bound=bound, plot=False, **kw)
        if isinstance(out, Raised) and isinstance(out.exc, _Unrolled):
            # a longer search than the bound
            if sx.symbolic:
                sx.assume(False)
            return
        sx.check("an answer", not isinstance(out, Raised))
        if isinstance(out, Raised):
            return
        ax, law = out
        sx.check("no axes without a plot", ax is None)
        a = list(law.alpha)
        sx.check("one concentration per category", len(a) == k)
        tot = sum(given)
        target = [v / tot for v in given] if how == "not" else given
        a0 = sum(a)
        t = a0 - k
        sx.check("concentrations above one", sx.all(*[v > 1 for v in a]))
        for i in range(k):
            sx.check("mode", sx.eq(a[i] - 1, t * target[i], 1e-6))
        below = []
        for i in range(k):
            lb = target[i] - bound
            lb = lb if sx.is_true(lb >= 0) else 0
            below.append(sx.uf("cdf", a[i], a0 - a[i], lb))
        got, want = sum(below) / k, (1 - p) / 2
        sx.check("mass", sx.all(got - want <= 1.001e-4, want - got <= 1.001e-4))
        if how == "not":
            sx.check("told that the mode is normalised", any("normalising" in m for m in w))
            sx.check("the argument is left alone", sx.eq(list(mode), given))
        else:
            sx.check("no warning", not w)

    return body


def _unreachable(k):
    """the mass of a flat Dirichlet law is already too large"""

    def body(sx):
        p = sx.real("mass", 1 / 64, 15 / 16)
        bound = sx.real("bound", 1 / 64, 1 / 2)
        mode = [1 / k] * k if k != 3 else [0.5, 0.25, 0.25]
        Beta = _beta(sx, 200, k, low=(1 - p) / 2 - 2e-4)
        out, _ = _run(sx, Beta, mode, mass=p, bound=bound, plot=False)
        sx.check("ValueError", isinstance(out, Raised) and isinstance(out.exc, ValueError))

    return body


def _invalid(what):
    def body(sx):
        mode = [0.25, 0.75]
        p, bound = sx.real("mass", 1 / 64, 1), sx.real("bound", 1 / 64, 1 / 2)
        bad = True
        if what == "mass":
            p = sx.real("bad", -2, 2)
            bad = sx.is_true((p <= 0) | (p > 1))
        elif what == "bound":
            bound = sx.real("bad", -2, 0)
        elif what == "mode":
            v = sx.real("bad", -2, 0)
            mode = [v, 1 - v] if sx.is_true(sx.flag("first") if sx.symbolic else sx.flag("first")) else [1 - v, v]
        Beta = _beta(sx, 1, 2)
        out, _ = _run(sx, Beta, mode, mass=p, bound=bound, plot=False)
        if isinstance(out, Raised) and isinstance(out.exc, _Unrolled):
            # the search started: the input was accepted
            sx.check("accepted only when valid", not bad)
            return
        sx.check("ValueError", (isinstance(out, Raised) and isinstance(out.exc, ValueError)) == bad)

    return body


def _plot(sx):
    """the plot shows the law that is returned"""
    mode = [0.25, 0.75]
    p = sx.real("mass", 1 / 64, 1)
    Beta = _beta(sx, 1, 2)
    show = sx.choice("show", [True, False])
    how = sx.choice("how", ["argument", "default"])
    other = sx.choice("other", [True, False])
    pats = [(dm, "rcParams", {"stats.ci_prob": 0.5, "plots.show_plot": show if how == "default" else other})]
    with sx.patched(*pats):
        kw = {"plot": show} if how == "argument" else {}
        out, _ = _run(sx, Beta, mode, mass=p, plot_kwargs={"legend": None}, ax="my axes", **kw)
    if isinstance(out, Raised) and isinstance(out.exc, _Unrolled):
        if sx.symbolic:
            sx.assume(False)
        return
    sx.check("an answer", not isinstance(out, Raised))
    if isinstance(out, Raised):
        return
    ax, law = out
    sx.check("drawn when asked", len(law.drawn) == (1 if show else 0))
    if show:
        sx.check("arguments of the plot", law.drawn[0] == ((), {"legend": None, "ax": "my axes"}))
        sx.check("axes", ax == "axes")


# ------------------------------------------------------------------ the laws
def _frozen(sx):
    """scipy's frozen laws by their documentation"""

    def dirichlet(alpha, **k):
        alpha = list(alpha)
        a0 = sum(alpha)
        return SimpleNamespace(
            mean=lambda: arr(sx, [v / a0 for v in alpha]),
            var=lambda: arr(sx, [v * (a0 - v) / (a0**2 * (a0 + 1)) for v in alpha]),
            pdf=lambda x: sx.uf("pdf", *alpha, *list(x)),
            logpdf=lambda x: sx.uf("logpdf", *alpha, *list(x)),
            entropy=lambda: sx.uf("entropy", *alpha),
            rvs=lambda *a, **k: ("rvs", alpha, a, k),
        )

    def normal(mean=None, cov=1, allow_singular=False, **k):
        mu = list(mean)
        c = [cov[i][j] for i in range(len(mu)) for j in range(len(mu))]
        return SimpleNamespace(
            mean=mean,
            pdf=lambda x: sx.uf("pdf", *mu, *c, *list(x)),
            logpdf=lambda x: sx.uf("logpdf", *mu, *c, *list(x)),
            entropy=lambda: sx.uf("entropy", *mu, *c),
            rvs=lambda *a, **k: ("rvs", (mu, c), a, k),
        )

    if not sx.symbolic:
        return []
    return [(mv, "stats", SimpleNamespace(dirichlet=dirichlet, multivariate_normal=normal))]


class _Linalg:
    """numpy with the inverse of a two by two matrix"""

    def __init__(self, sx, real):
        self._real = real
        self.linalg = SimpleNamespace(inv=lambda m: _inv(sx, m))

    def __getattr__(self, n):
        return getattr(self._real, n)


def _inv(sx, m):
    (a, b), (c, d) = [list(r) for r in m]
    det = a * d - b * c
    return arr(sx, [[d / det, -b / det], [-c / det, a / det]])


def _np(sx):
    return [(mv, "np", _Linalg(sx, mv.np))] if sx.symbolic else []


def _dirichlet(k):
    def body(sx):
        al = [sx.real(f"a{i}", 1 / 16, 16) for i in range(k)]
        with sx.patched(*_frozen(sx)):
            late = sx.choice("late", [False, True])
            if late:
                d = pz.Dirichlet()
                sx.check("open", d.is_frozen is False)
                d._parametrization(al)
            else:
                d = pz.Dirichlet(al)
            a0 = sum(al)
            sx.check("complete", d.is_frozen is True)
            sx.check("alpha", sx.eq(list(d.alpha), al))
            sx.check("params", sx.eq(list(d.params[0]), al))
            sx.check("mean", sx.eq(list(d.mean()), [v / a0 for v in al]))
            var = [v * (a0 - v) / (a0**2 * (a0 + 1)) for v in al]
            sx.check("variance", sx.eq(list(d.var()), var))
            s = d.summary()
            sx.check("summary", sx.all(sx.eq(list(s.mean), [v / a0 for v in al]), sx.eq([v**2 for v in s.std], var)))
            inside = sx.is_true(al[0] > 1) and all(sx.is_true(v > 1) for v in al[1:])
            m = d.mode()
            if inside:
                sx.check("mode", sx.eq(list(m), [(v - 1) / (a0 - k) for v in al]))
            else:
                sx.check("no mode inside", m is None)
            if sx.symbolic:
                x = [0.5] * k
                sx.check("pdf", sx.eq(d.pdf(x), sx.uf("pdf", *al, *x)))
                sx.check("logpdf", sx.eq(d.logpdf(x), sx.uf("logpdf", *al, *x)))
                sx.check("entropy", sx.eq(d.entropy(), sx.uf("entropy", *al)))
                r = d.rvs(3, random_state=1)
                sx.check("draws", sx.all(r[2:] == ((3,), {"random_state": 1}), sx.eq(r[1], al)))

    return body


def _mvnormal(by):
    def body(sx):
        mu = [sx.real(f"mu{i}", -8, 8) for i in range(2)]
        a, d_ = sx.real("a", 1 / 4, 8), sx.real("d", 1 / 4, 8)
        r = sx.real("r", -7 / 8, 7 / 8)
        b = r * (a if sx.is_true(a <= d_) else d_)
        m = [[a, b], [b, d_]]
        with sx.patched(*_frozen(sx), *_np(sx)):
            late = sx.choice("late", [False, True])
            given = arr(sx, m)
            if late:
                d = pz.MvNormal()
                d._parametrization(mu, **{by: given})
            else:
                d = pz.MvNormal(mu, **{by: given})
            inv = _inv(sx, m)
            cov, tau = (given, inv) if by == "cov" else (inv, given)
            flat = lambda q: [q[i][j] for i in range(2) for j in range(2)]  # noqa: E731
            sx.check("complete", d.is_frozen is True)
            sx.check("names", tuple(d.param_names) == ("mu", by))
            sx.check("mu", sx.eq(list(d.mu), mu))
            sx.check("covariance", sx.eq(flat(d.cov), flat(cov)))
            sx.check("precision", sx.eq(flat(d.tau), flat(tau)))
            sx.check("params", sx.all(sx.eq(list(d.params[0]), mu), sx.eq(flat(d.params[1]), flat(given))))
            sx.check("mean", sx.eq(list(d.mean()), mu))
            sx.check("mode", sx.eq(list(d.mode()), mu))
            var = [cov[0][0], cov[1][1]]
            sx.check("variance", sx.eq(list(d.var()), var))
            s = d.summary()
            sx.check("summary", sx.all(sx.eq(list(s.mean), mu), sx.eq([v**2 for v in s.std], var)))
            if sx.symbolic:
                x = [0.5, -1]
                sx.check("pdf", sx.eq(d.pdf(x), sx.uf("pdf", *mu, *flat(cov), *x)))
                sx.check("logpdf", sx.eq(d.logpdf(x), sx.uf("logpdf", *mu, *flat(cov), *x)))
                sx.check("entropy", sx.eq(d.entropy(), sx.uf("entropy", *mu, *flat(cov))))
            both = sx.attempt(pz.MvNormal, mu, given, given)
            sx.check("one of the two", isinstance(both, Raised) and isinstance(both.exc, ValueError))

    return body


# ------------------------------------------------------------------ plots
class _Marginal:
    def __init__(self, log):
        self.log = log

    def __call__(self, *pars):
        m = SimpleNamespace(pars=pars)
        for kind in ("pdf", "cdf", "ppf", "sf", "isf"):

            def draw(kind=kind, **k):
                self.log.append((kind, pars, k))

            setattr(m, f"plot_{kind}", draw)
        return m


class _Ax:
    def __init__(self, fig, i):
        self.figure, self.i, self.gone = fig, i, False

    def get_figure(self):
        return self.figure

    def remove(self):
        self.gone = True

    def set_title(self, *a, **k):
        self.title = a


class _Fig:
    def __init__(self):
        self.texts = []

    def text(self, *a, **k):
        self.texts.append(a)


class _Axes(list):
    def flatten(self):
        return self

    ravel = flatten

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return _Axes(r) if isinstance(i, slice) else r


def _marginals(law, kind, k, given):
    def body(sx):
        log, figs = [], []

        def grid(n):
            fig = _Fig()
            figs.append(fig)
            return fig, _Axes([_Ax(fig, i) for i in range(n)])

        def subplots(rows=1, cols=1, **q):
            return grid(rows * cols)

        with sx.patched(*_frozen(sx), *_np(sx), (ph, "plt", SimpleNamespace(subplots=subplots))):
            if law == "Dirichlet":
                al = [sx.real(f"a{i}", 1 / 16, 16) for i in range(k)]
                d = pz.Dirichlet(al)
                want = [(v, sum(al) - v) for v in al]
            else:
                mu = [sx.real(f"mu{i}", -8, 8) for i in range(k)]
                a, d_ = sx.real("a", 1 / 4, 8), sx.real("d", 1 / 4, 8)
                r = sx.real("r", -1 / 8, 1 / 8)
                d = pz.MvNormal(mu, arr(sx, [[a, r], [r, d_]]))
                want = [(mu[0], a), (mu[1], d_)]
            d.marginal = _Marginal(log)
            ax = grid(k)[1] if given else None
            out = sx.attempt(getattr(d, f"plot_{kind}"), interval="eti", levels=[0.5, 0.9], pointinterval=True, ax=ax)
        sx.check("drawn", not isinstance(out, Raised))
        if isinstance(out, Raised):
            return
        sx.check("one marginal per variable", len(log) == k and all(v[0] == kind for v in log))
        for (_, pars, opts), w in zip(log, want):
            if law == "Dirichlet":
                sx.check("marginal law", sx.eq(list(pars), list(w)))
            else:
                sx.check("marginal law", sx.all(sx.eq(pars[0], w[0]), sx.eq(pars[1] ** 2, w[1]), pars[1] > 0))
            sx.check("intervals", opts["interval"] == "eti" and opts["levels"] == [0.5, 0.9] and opts["pointinterval"] is True)
        axes = [v[2]["ax"] for v in log]
        sx.check("own axes", len({id(v) for v in axes}) == k and [v.i for v in axes] == list(range(k)) and not any(v.gone for v in axes))
        sx.check("labelled once", sum(len(f.texts) for f in figs) == 1 and len(figs) == 1)
        sx.check("unused axes are removed", all(v.gone for v in list(out)[k:]))

    return body


def _simplex(sx):
    """density on the simplex"""
    al = [sx.real(f"a{i}", 1, 8) for i in range(3)]
    x = [sx.real("x0", 1 / 16, 7 / 8), sx.real("x1", 1 / 16, 7 / 8)]
    x.append(1 - x[0] - x[1])
    sx.assume(x[2] >= 1 / 16)

    class Refiner:
        def __init__(self, *a):
            pass

        def refine_triangulation(self, **k):
            return SimpleNamespace(x=[0.5], y=[0.25])

    lg = lambda v: sx.uf("gammaln", v)  # noqa: E731
    pats = []
    if sx.symbolic:
        pats = [(ph, "gammaln", lg), (ph, "tri", SimpleNamespace(Triangulation=lambda *a: None, UniformTriRefiner=Refiner))]
    with sx.patched(*pats):
        d = ph.DirichletOnSimplex(arr(sx, al))
        got = d.pdf(x)
    if sx.symbolic:
        c = _exp(sx, lg(sum(al)) - lg(al[0]) - lg(al[1]) - lg(al[2]))
        want = c * x[0] ** (al[0] - 1) * x[1] ** (al[1] - 1) * x[2] ** (al[2] - 1)
    else:
        from scipy import stats

        want = float(stats.dirichlet(al).pdf(x))
    sx.check("density", sx.eq(got, want, 1e-6))
    # barycentric coordinates of the corners and of the centre
    r3 = 0.75**0.5
    for xy, want in (((0.0, 0.0), (1, 0, 0)), ((1.0, 0.0), (0, 1, 0)), ((0.5, r3), (0, 0, 1)), ((0.5, r3 / 3), (1 / 3,) * 3)):
        got = d.xy2bc(np.array(xy))
        sx.check("coordinates", all(abs(float(g) - w) < 2e-3 for g, w in zip(got, want)))


def _contours(n):
    """each level encloses at most its probability, and the next lower value would exceed it"""

    def body(sx):
        xs = [sx.real(f"d{i}", 1 / 16, 1) for i in range(n)]
        for i in range(n):
            for j in range(i):
                sx.assume(sx.any(xs[i] - xs[j] > 1 / 64, xs[j] - xs[i] > 1 / 64))
        probs = [0.1, 0.5, 0.94]
        lev = list(ph.find_hdi_contours(arr(sx, xs), probs))
        tot = sum(xs)
        order = sorted(xs, reverse=True)
        want = []
        for p in probs:
            top, acc, cut = order[0], 0, order[0]
            for v in order:
                acc = acc + v
                if sx.is_true(acc <= p * tot):
                    cut = v
                else:
                    break
            want.append(cut)
        sx.check("levels", sx.eq(lev, list(reversed(want))))

    return body


def cases(tier):
    steps = 4 if tier == "quick" else 6
    out = []
    for k in (2, 3):
        out.append(Case(f"elicit/normalised/{k}", _elicit(k, "normalised", steps), max_paths=1500))
        out.append(Case(f"elicit/not normalised/{k}", _elicit(k, "not", steps), max_paths=1500))
        out.append(Case(f"elicit/default mass/{k}", _elicit(k, "normalised", 2, mass="default"), max_paths=600))
    for k in (2, 3):
        out.append(Case(f"unreachable/{k}", _unreachable(k)))
    for what in ("mass", "bound", "mode"):
        out.append(Case(f"invalid/{what}", _invalid(what)))
    out.append(Case("plot", _plot))
    for k in (2, 3) if tier == "quick" else (2, 3, 4):
        out.append(Case(f"Dirichlet/{k}", _dirichlet(k)))
    for by in ("cov", "tau"):
        out.append(Case(f"MvNormal/{by}", _mvnormal(by)))
    for kind in ("pdf", "cdf", "ppf", "sf", "isf"):
        for given in (False, True):
            tag = "given axes" if given else "new axes"
            out.append(Case(f"marginals/MvNormal/{kind}/{tag}", _marginals("MvNormal", kind, 2, given)))
            for k in (2, 3, 4):
                out.append(Case(f"marginals/Dirichlet/{k}/{kind}/{tag}", _marginals("Dirichlet", kind, k, given)))
    out.append(Case("simplex", _simplex))
    for n in (2, 3):
        out.append(Case(f"contours/{n}", _contours(n)))
    return out
