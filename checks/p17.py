"""Matching a law or a sample by moments or quantiles."""

import preliz as pz
from checks import families
from checks.common import ALT, DISTS, cls, draw, draw_alt
from checks.famstub import CFam, DFam, mk
from checks.p18 import Res, quiet, setup, values
from engine.harness import Case
from preliz.internal import optimization as _opt
from preliz.unidimensional import matching as _matching

BOUNDS = [
    "target laws and families of two or three parameters about which nothing is known, every subset of fixed parameters; samples of three values in [-5, 5]",
    "requests of up to three moments in any order, three quantile levels in (0, 1); parameters in [-9, 9]",
    "every family of the package with every single parameter fixed, in every parametrization",
]
ASSUMPTIONS = [
    "scipy's minimize returns a point within the bounds whose objective is not larger than at any other such point",
]
INF = float("inf")
NAMES = {"m": "mean", "v": "var", "d": "std", "s": "skewness", "k": "kurtosis"}


def raises(r, kind=ValueError):
    return type(r).__name__ == "Raised" and isinstance(r.exc, kind)


def sample_moments(sx, xs):
    n = len(xs)
    m = sum(xs) / n
    dev = [x - m for x in xs]
    v = sum(d**2 for d in dev) / n
    sd = v**0.5
    return {
        "m": m,
        "v": v,
        "d": sd,
        "s": sum(d**3 for d in dev) / n / (sd * v),
        "k": sum(d**4 for d in dev) / n / v**2 - 3,
    }


def source(sx, what, hard=False):
    if what == "law":
        src = CFam(sx, "uw", tag="src.", **{n: sx.real(f"src.{n}", -9, 9) for n in "uw"})
        sx.assume(src.std() > 0)
        return src, lambda m: getattr(src, NAMES[m])(), src.mean(), src.std()
    if hard:
        xs = [0.0, 1.0, sx.real("x2", 1, 5)]
    else:
        xs = [sx.real(f"x{i}", -5, 5) for i in range(3)]
        sx.assume((xs[0] + 1 / 8 <= xs[1]) & (xs[1] <= xs[2]))
    mm = sample_moments(sx, xs)
    return mk(xs, sx), lambda m: mm[m], mm["m"], mm["d"]


def off(got, want, tol):
    """certainly off / certainly right, with some room around the tolerance"""
    err = (got - want) * 100
    den = want + 1e-6
    return err, den


def warn_check(sx, got, want, tol, warned):
    far, near = [], []
    for g, w in zip(got, want):
        e, d = (g - w) * 100, w + 1e-6
        sx.assume(sx.any(d >= 1e-3, d <= -1e-3))
        p = sx.is_true(d > 0)
        d = d if p else -d
        far.append(sx.any(e >= 1.1 * tol * d, e <= -1.1 * tol * d))
        near.append(sx.all(e <= 0.9 * tol * d, e >= -0.9 * tol * d))
    if sx.is_true(sx.any(*far)):
        sx.check("warns about a mismatch", warned == 1)
    elif sx.is_true(sx.all(*near)):
        sx.check("no warning for a match", warned == 0)


def _moments(kind, names, free, what, which, rank):
    def body(sx):
        F, d, fixed = setup(sx, kind, names, free)
        src, want, mean, std = source(sx, what, hard=len(which) > 1 and ("s" in which or "k" in which))
        targets = [want(m) for m in which]
        best, rival = values(sx, "best", free), values(sx, "rival", free)
        other = F(sx, names, **{**fixed, **dict(zip(free, rival))})

        def goal(law):
            return sum((getattr(law, NAMES[m])() - t) ** 2 for m, t in zip(which, targets))

        seen = []

        def minimize(fun, x0, bounds=None, **k):
            one, two = fun(mk(best, sx)), fun(mk(rival, sx))
            seen.append((x0, bounds, one, two))
            if rank:
                sx.assume(sx.le(one, two))
            return Res(x=mk(best, sx), fun=one, success=True)

        start = d.start()
        patches = [(_opt, "minimize", minimize)]
        if what == "sample" and "s" in which and hasattr(_matching, "_check_relative_error"):
            # the warning is covered by the requests of a single moment
            patches.append((_matching, "_check_relative_error", lambda *a, **k: None))
        with sx.patched(*patches):
            r, warned = quiet(pz.match_moments, src, d, which, plot=False)
        sx.check("the same object is returned, complete", r is d and d.is_frozen is True)
        sx.check("fixed parameters keep their values", sx.all(True, *[sx.eq(getattr(d, n), v) for n, v in fixed.items()]))
        sx.check("free parameters are the optimum", sx.all(*[sx.eq(getattr(d, n), v) for n, v in zip(free, best)]))
        if rank:
            sx.check("no law is closer to the requested moments", sx.le(goal(d), goal(other)))
        for x0, b, one, two in seen:
            sx.check("squared distance between the requested moments", sx.eq(one, goal(d)))
            sx.check("squared distance between the requested moments (rival)", sx.eq(two, goal(other)))
            sx.check("only free parameters are searched", len(x0) == len(free) == len(b))
            sx.check("search starts at the law with the moments of the target", sx.all(*[sx.eq(x, start[names.index(n)]) for x, n in zip(x0, free)]))
        sx.check("started from the mean and standard deviation of the target", sx.all(len(d.told) == 1, sx.eq(d.told[0][0], mean), sx.eq(d.told[0][1], std)))
        sx.check("the result of the search is kept", sx.eq(d.opt.x, best))
        if what == "law":
            sx.check("the target law is unchanged", sx.all(sx.eq(src.params, [sx.real(f"src.{n}", -9, 9) for n in "uw"]), not src.told))
        if len(which) == 1 and (what == "law" or which in "mvd"):
            warn_check(sx, [getattr(d, NAMES[m])() for m in which], targets, 0.01, warned)

    return body


def _quantiles(kind, names, free, what, levels, nonfinite=None):
    def body(sx):
        F, d, fixed = setup(sx, kind, names, free)
        src, _, mean, std = source(sx, what)
        if levels is None:
            qs, arg = [0.25, 0.5, 0.75], {}
        else:
            qs = [sx.real(f"q{i}", 1 / 64, 63 / 64) for i in range(levels)] if what == "law" else [0.1, 0.7, 0.4][:levels]
            arg = dict(quantiles=mk(qs, sx))
        if what == "law":
            targets = [src.ppf(q) for q in qs]
            if nonfinite:
                quart = [src.ppf(q) for q in (0.25, 0.5, 0.75)]
                setattr(src, nonfinite[0], lambda: nonfinite[1])
                mean, std = quart[1], (quart[2] - quart[0]) / 1.35
        else:
            # linear interpolation of the order statistics
            xs = [sx.real(f"x{i}", -5, 5) for i in range(3)]
            targets = []
            for q in qs:
                lowhalf = sx.is_true(q <= 0.5)
                a, b, f = (xs[0], xs[1], 2 * q) if lowhalf else (xs[1], xs[2], 2 * q - 1)
                targets.append(a + (b - a) * f)
        best, rival = values(sx, "best", free), values(sx, "rival", free)
        other = F(sx, names, **{**fixed, **dict(zip(free, rival))})

        def goal(law):
            return sum((law.ppf(q) - t) ** 2 for q, t in zip(qs, targets))

        seen = []

        def minimize(fun, x0, bounds=None, **k):
            one, two = fun(mk(best, sx)), fun(mk(rival, sx))
            seen.append((x0, bounds, one, two))
            sx.assume(sx.le(one, two))
            return Res(x=mk(best, sx), fun=one, success=True)

        with sx.patched((_opt, "minimize", minimize)):
            r, warned = quiet(pz.match_quantiles, src, d, plot=False, **arg)
        sx.check("the same object is returned, complete", r is d and d.is_frozen is True)
        sx.check("fixed parameters keep their values", sx.all(True, *[sx.eq(getattr(d, n), v) for n, v in fixed.items()]))
        sx.check("free parameters are the optimum", sx.all(*[sx.eq(getattr(d, n), v) for n, v in zip(free, best)]))
        for x0, b, one, two in seen:
            sx.check("squared distance between the requested quantiles", sx.eq(one, goal(d)))
            sx.check("squared distance between the requested quantiles (rival)", sx.eq(two, goal(other)))
            sx.check("only free parameters are searched", len(x0) == len(free) == len(b))
        sx.check("no law is closer to the requested quantiles", sx.le(goal(d), goal(other)))
        sx.check("started from the location and scale of the target", sx.all(len(d.told) == 1, sx.eq(d.told[0][0], mean), sx.eq(d.told[0][1], std)))
        if levels == 1:
            warn_check(sx, [d.ppf(q) for q in qs], targets, 0.1, warned)

    return body


def _refused():
    def body(sx):
        a, b, q = sx.real("a", -9, 9), sx.real("b", -9, 9), sx.real("q", -2, 2)

        def no(*x, **k):
            raise AssertionError("optimised")

        src = CFam(sx, "uw", tag="src.", u=a, w=b)
        open_ = CFam(sx, "uw", tag="src.", u=a)
        d = CFam(sx, "ab", a=a)

        def same(tag):
            sx.check(f"the law is unchanged ({tag})", sx.all(sx.eq(d.a, a), d.b is None, d.is_frozen is False, not d.told))

        with sx.patched((_opt, "minimize", no)):
            sx.check("incomplete target is refused", raises(sx.attempt(pz.match_moments, open_, d, plot=False)))
            sx.check("incomplete target is refused (quantiles)", raises(sx.attempt(pz.match_quantiles, open_, d, plot=False)))
            same("open")
            for bad in ("x", "mx", "m v", "M"):
                sx.check("unknown moment is refused", raises(sx.attempt(pz.match_moments, src, d, bad, plot=False)))
            same("letters")
            for which in ("m", "mv", "vk", "sm"):
                for m in which:
                    for bad in (INF, -INF, float("nan")):
                        one = CFam(sx, "uw", tag="src.", u=a, w=b)
                        setattr(one, NAMES[m], lambda: bad)
                        sx.check("a moment that is not finite cannot be matched", raises(sx.attempt(pz.match_moments, one, d, which, plot=False)))
            same("finite")
            if sx.is_true(sx.any(q <= 0, q >= 1)):
                for qs in ([q], [0.5, q], [q, 0.5]):
                    sx.check("impossible quantile level is refused", raises(sx.attempt(pz.match_quantiles, src, d, mk(qs, sx), plot=False)))
                same("levels")

    return body


def _notfinite_result():
    def body(sx):
        a, b = sx.real("a", -9, 9), sx.real("b", -9, 9)
        src = CFam(sx, "uw", tag="src.", u=a, w=b)
        for bad in (INF, -INF, float("nan")):
            d = CFam(sx, "ab")
            n = [0]

            def minimize(fun, x0, bounds=None, **k):
                d.var = lambda: bad
                return Res(x=mk([a, b], sx), fun=0.0, success=True)

            with sx.patched((_opt, "minimize", minimize)):
                r = sx.attempt(pz.match_moments, src, d, "mv", plot=False)
            sx.check("a fit without the requested moments is not returned as a match", raises(r))

    return body


def _family(name, alt, keep, how):
    def body(sx):
        if alt is None:
            c = draw(sx, name)
            names = list(DISTS[name])
        else:
            c = draw_alt(sx, name, alt)
            names = list(alt["names"])
        kept = {keep: c[keep]}
        if name in ("BetaScaled", "TruncatedNormal"):
            kept.update(lower=c["lower"], upper=c["upper"])
        d = cls(name)(**kept)
        given = list(d.param_names)
        if not set(given) <= set(names):
            return
        free = [n for n in given if n not in kept]
        want = [c[n] for n in free]
        src = CFam(sx, "uw", tag="src.", u=sx.real("u", -9, 9), w=sx.real("w", -9, 9))

        def minimize(fun, x0, bounds=None, **k):
            sx.check("bounds of the free parameters", [tuple(map(float, b)) for b in bounds] == [tuple(map(float, d.params_support[d.param_names.index(n)])) for n in free])
            return Res(x=mk(want, sx), fun=0.0, success=True)

        def fit_moments(mean, sigma):
            vals = draw(sx, name, "moments.")
            d._update(*[vals[p] for p in DISTS[name]])

        d._fit_moments = fit_moments
        # the moments and quantiles are the subject of other properties
        for q in ("mean", "var"):
            setattr(d, q, lambda q=q: sx.uf(f"{name}.{q}", *d.params))
        d.ppf = lambda v: mk([sx.uf(f"{name}.ppf", x, *d.params) for x in v], sx)
        with sx.patched((_opt, "minimize", minimize)):
            if how == "moments":
                quiet(pz.match_moments, src, d, plot=False)
            else:
                quiet(pz.match_quantiles, src, d, mk([0.25], sx), plot=False)
        for n, v in kept.items():
            sx.check("fixed parameter keeps its value", sx.eq(getattr(d, n), v))
        sx.check("free parameters are the optimum", sx.all(True, *[sx.eq(getattr(d, n), v) for n, v in zip(free, want)]))
        sx.check("visible parameters", sx.all(tuple(d.param_names) == tuple(given), sx.eq(d.params, [c[n] for n in given])))
        ref = cls(name)(**{n: c[n] for n in given})
        sx.check("same law as built directly", sx.all(*[sx.eq(getattr(d, p), getattr(ref, p)) for p in DISTS[name]], d.is_frozen is True))

    return body


def cases(tier):
    out = [Case("refused", _refused()), Case("fit without moments", _notfinite_result())]
    subsets = {"ab": ("a", "b", "ab"), "abc": ("a", "b", "c", "ab", "ac", "bc", "abc")}
    for kind in ("continuous", "discrete"):
        for names in ("ab", "abc"):
            for free in subsets[names]:
                out.append(Case(f"moments/{kind}/{names}/free {free}", _moments(kind, names, free, "law", "mv", True)))
                out.append(Case(f"quantiles/{kind}/{names}/free {free}", _quantiles(kind, names, free, "law", None)))
    for which in ("m", "v", "d", "s", "k", "vm", "md", "mk", "sk", "kms", "dsk", "mvs", "svm"):
        out.append(Case(f"moments/law/{which}", _moments("continuous", "ab", "ab", "law", which, True)))
        out.append(Case(f"moments/sample/{which}", _moments("continuous", "ab", "b", "sample", which, False)))
    for what in ("law", "sample"):
        for n in (1, 2, 3):
            out.append(Case(f"quantiles/{what}/{n} levels", _quantiles("continuous", "ab", "ab", what, n)))
    out.append(Case("quantiles/sample/default", _quantiles("continuous", "ab", "ab", "sample", None)))
    for m in ("mean", "std"):
        for v in (INF, float("nan")):
            out.append(Case(f"quantiles/{m} is {v}", _quantiles("continuous", "ab", "a", "law", 2, (m, v))))
    for name in DISTS:
        for alt in [None] + ALT.get(name, []):
            names = list(DISTS[name]) if alt is None else list(alt["names"])
            if len(names) < 2 or name == "HyperGeometric":
                continue
            for keep in names:
                for how in ("moments", "quantiles"):
                    t = "canonical" if alt is None else "-".join(names)
                    out.append(Case(f"{name}/{t}/{keep} fixed/{how}", _family(name, alt, keep, how), max_paths=600, ptd_hook=families.ptd_hook, plain_log=True))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
