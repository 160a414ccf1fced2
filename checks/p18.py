"""Elicitation by mass or quartiles returns what was asked for."""

import warnings

import preliz as pz
from checks import families
from checks.common import ALT, DISCRETE, DISTS, cls, draw, draw_alt
from checks.famstub import CFam, DFam, mk
from engine.harness import Case
from preliz.internal import optimization as _opt

BOUNDS = [
    "families of two or three parameters about which nothing is known (any distribution function, moments and entropy), every subset of fixed parameters",
    "every family of the package with every single parameter fixed, in every parametrization",
    "masses in [1/16, 1], end points in [-5, 5]; parameters in [-9, 9]",
]
ASSUMPTIONS = [
    "scipy's minimize returns a point satisfying the constraints whose objective is not larger than at any other such point; least_squares one with no larger sum of squares; both within the bounds they are given",
]
INF = float("inf")


class Res(dict):
    __getattr__ = dict.__getitem__


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        return f(*a, **k), len(w)


def constraints_of(k):
    c = k.get("constraints", ())
    return [c] if isinstance(c, dict) else list(c)


def setup(sx, kind, names, free):
    F = DFam if kind == "discrete" else CFam
    fixed = {n: sx.real(f"fixed.{n}", -9, 9) for n in names if n not in free}
    d = F(sx, names, **fixed)
    if not fixed:
        d = F(sx, names)
    return F, d, fixed


def window(sx, kind):
    if kind == "discrete":
        lo, up = sx.int("lower", -4, 4), sx.int("upper", -4, 5)
    else:
        lo, up = sx.real("lower", -5, 5), sx.real("upper", -5, 5)
    sx.assume(lo < up)
    return lo, up


def prob(d, kind, lo, up):
    return d.cdf(up) - d.cdf(lo - 1 if kind == "discrete" else lo)


def values(sx, tag, free):
    return [sx.real(f"{tag}.{n}", -9, 9) for n in free]


def _maxent(kind, names, free, how="given", stat=None):
    def body(sx):
        F, d, fixed = setup(sx, kind, names, free)
        lo, up = window(sx, kind)
        mass = sx.real("mass", 1 / 16, 1)
        best, rival = values(sx, "best", free), values(sx, "rival", free)
        target = sx.real("target", -5, 5)
        other = F(sx, names, **{**fixed, **dict(zip(free, rival))})
        # the rival has the requested mass (and statistic)
        sx.assume(prob(other, kind, lo, up) == mass)
        if stat:
            sx.assume(getattr(other, stat)() == target)
        calls = []

        def minimize(fun, x0, bounds=None, args=(), **k):
            calls.append((x0, bounds))
            out = mk(best, sx)
            for x in (best, rival):
                for c in constraints_of(k):
                    v = c["fun"](mk(x, sx), *c.get("args", ()))
                    sx.assume(sx.eq(v, 0.0))
            one, two = fun(out, *args), fun(mk(rival, sx), *args)
            sx.assume(sx.le(one, two))
            return Res(x=out, fun=one, success=True)

        kw = {}
        if how == "fixed_params":
            d, kw = F(sx, names), dict(fixed_params=fixed)
        if stat:
            kw["fixed_stat"] = (stat, target)
        with sx.patched((_opt, "minimize", minimize)):
            r, warned = quiet(pz.maxent, d, lo, up, mass, plot=False, **kw)
        sx.check("the same object is returned, complete", r is d and d.is_frozen is True)
        sx.check("fixed parameters keep their values", sx.all(True, *[sx.eq(getattr(d, n), v) for n, v in fixed.items()]))
        sx.check("free parameters are the optimum", sx.all(*[sx.eq(getattr(d, n), v) for n, v in zip(free, best)]))
        sx.check("requested mass", sx.eq(prob(d, kind, lo, up), mass))
        if stat:
            sx.check("requested statistic", sx.eq(getattr(d, stat)(), target))
        sx.check("no law with that mass has larger entropy", sx.ge(d.entropy(), other.entropy()))
        sx.check("the optimiser is told about the free parameters only", all(len(x0) == len(free) and len(b) == len(free) for x0, b in calls))
        sx.check("the optimisation result is kept", d.opt is not None and sx.eq(d.opt.x, best))

    return body


def _starts(kind, fail):
    """several starting points with different outcomes"""

    def body(sx):
        names, free = "ab", "a"
        F, d, fixed = setup(sx, kind, names, free)
        lo, up = window(sx, kind)
        mass = sx.real("mass", 1 / 16, 1)
        xs = [values(sx, f"end{i}", free) for i in range(2)]
        n = [0]

        def minimize(fun, x0, bounds=None, args=(), **k):
            i = n[0]
            n[0] += 1
            if i >= 2:
                if fail:
                    raise ValueError("no progress")
                i = i % 2
            out = mk(xs[i], sx)
            return Res(x=out, fun=fun(out, *args), success=True)

        laws = [F(sx, names, **{**fixed, "a": x[0]}) for x in xs]
        errors = []
        for law in laws:
            e = prob(law, kind, lo, up) - mass
            # not on the edge of what counts as having the mass
            sx.assume(sx.any(sx.ge(e, 1.1e-4), sx.le(e, -1.1e-4), sx.all(sx.le(e, 0.9e-4), sx.ge(e, -0.9e-4))))
            errors.append(e)
        with sx.patched((_opt, "minimize", minimize)):
            r, warned = quiet(pz.maxent, d, lo, up, mass, plot=False)
        good = [sx.is_true(sx.all(e <= 1e-4, e >= -1e-4)) for e in errors]
        sx.check("one of the candidates", sx.any(*[sx.eq(d.a, x[0]) for x in xs]))
        sx.check("fixed parameter keeps its value", sx.eq(d.b, fixed["b"]))
        if any(good):
            err = prob(d, kind, lo, up) - mass
            sx.check("a candidate with the requested mass is preferred", sx.all(sx.le(err, 1e-4), sx.ge(err, -1e-4)))
            for law, g in zip(laws, good):
                if g:
                    sx.check("the one with most entropy", sx.ge(d.entropy(), law.entropy()))
        got = prob(d, kind, lo, up)
        rel = (got - mass) / mass * 100
        if sx.is_true(sx.any(rel >= 0.0101, rel <= -0.0101)):
            sx.check("warns when the mass is off", warned >= 1)
        elif sx.is_true(sx.all(rel <= 0.0099, rel >= -0.0099)):
            sx.check("no warning when the mass is right", warned == 0)

    return body


def sq(vals, targets):
    return sum((v - t) ** 2 for v, t in zip(vals, targets))


def _quartile(kind, names, free, how="given"):
    def body(sx):
        F, d, fixed = setup(sx, kind, names, free)
        mkq = (lambda n: sx.int(n, -5, 5)) if kind == "discrete" else (lambda n: sx.real(n, -5, 5))
        q = [mkq("q1"), mkq("q2"), mkq("q3")]
        sx.assume((q[0] < q[1]) & (q[1] < q[2]))
        best, rival = values(sx, "best", free), values(sx, "rival", free)
        other = F(sx, names, **{**fixed, **dict(zip(free, rival))})
        want = [0.25, 0.5, 0.75]
        seen = []

        def least_squares(fun, x0, args=(), bounds=(-INF, INF), **k):
            seen.append((x0, bounds))
            one, two = (list(fun(mk(x, sx), *args)) for x in (best, rival))
            sx.assume(sx.le(sq(one, [0] * 3), sq(two, [0] * 3)))
            return Res(x=mk(best, sx), cost=sq(one, [0] * 3) / 2, success=True)

        kw = {}
        if how == "fixed_params":
            d, kw = F(sx, names), dict(fixed_params=fixed)
        with sx.patched((_opt, "least_squares", least_squares)):
            r, warned = quiet(pz.quartile, d, *q, plot=False, **kw)
        sx.check("the same object is returned, complete", r is d and d.is_frozen is True)
        sx.check("fixed parameters keep their values", sx.all(True, *[sx.eq(getattr(d, n), v) for n, v in fixed.items()]))
        sx.check("free parameters are the optimum", sx.all(*[sx.eq(getattr(d, n), v) for n, v in zip(free, best)]))
        sx.check("no law is closer to the quartiles", sx.le(sq([d.cdf(v) for v in q], want), sq([other.cdf(v) for v in q], want)))
        sx.check("the optimiser is told about the free parameters only", all(len(x0) == len(free) and len(b[0]) == len(free) for x0, b in seen))
        off = (d.cdf(q[2]) - d.cdf(q[0]) - 0.5) / 0.5 * 100
        if sx.is_true(sx.any(off >= 0.0101, off <= -0.0101)):
            sx.check("warns when the quartiles are not reached", warned >= 1)
        elif sx.is_true(sx.all(off <= 0.0099, off >= -0.0099)):
            sx.check("no warning when the central half is right", warned == 0)

    return body


def _refused():
    def body(sx):
        a = sx.real("a", -9, 9)
        lo, up = sx.real("lower", -5, 5), sx.real("upper", -5, 5)
        mass = sx.real("mass", -2, 2)
        d = CFam(sx, "ab", a=a)
        d2 = CFam(sx, "ab", a=a)

        def no(*x, **k):
            raise AssertionError("optimised")

        def err(r):
            return type(r).__name__ == "Raised" and isinstance(r.exc, ValueError)

        with sx.patched((_opt, "minimize", no), (_opt, "least_squares", no)):
            if sx.is_true(sx.any(mass <= 0, mass > 1, up <= lo)):
                sx.check("impossible mass or interval is refused", err(sx.attempt(pz.maxent, d, lo, up, mass, plot=False)))
                sx.check("the law is unchanged", sx.all(sx.eq(d.a, a), d.b is None, d.is_frozen is False))
            else:
                full = CFam(sx, "ab", a=a, b=mass)
                sx.check("nothing left to fit is refused", err(sx.attempt(pz.maxent, full, lo, up, mass, plot=False)))
                sx.check("still the same", sx.all(sx.eq(full.params, [a, mass])))
                sx.check("unknown statistic is refused", err(sx.attempt(pz.maxent, d, lo, up, mass, plot=False, fixed_stat=("foo", lo))))
                sx.check("still the same (2)", sx.all(sx.eq(d.a, a), d.b is None, d.is_frozen is False))
            q2 = sx.real("q2", -5, 5)
            if sx.is_true(sx.any(q2 <= lo, q2 >= up)):
                sx.check("quartiles out of order are refused", err(sx.attempt(pz.quartile, d2, lo, q2, up, plot=False)))
                sx.check("unchanged", sx.all(sx.eq(d2.a, a), d2.b is None))
            else:
                full = CFam(sx, "ab", a=a, b=mass)
                sx.check("nothing left to fit is refused (quartile)", err(sx.attempt(pz.quartile, full, lo, q2, up, plot=False)))
                out = CFam(sx, "ab", support=(1.0, 2.0), a=a)
                if sx.is_true(sx.any(lo < 1, up > 2)):
                    sx.check("quartiles outside the support are refused", err(sx.attempt(pz.quartile, out, lo, q2, up, plot=False)))
                    sx.check("interval outside the support is refused", err(sx.attempt(pz.maxent, out, lo, up, 0.5, plot=False)))

    return body


# ------------------------------------------------------------ every family
def _family(name, alt, keep, what, how="given"):
    """one parameter fixed by the user, the others from the optimiser"""

    def body(sx):
        if alt is None:
            c = draw(sx, name)
            names = list(DISTS[name])
        else:
            c = draw_alt(sx, name, alt)
            names = list(alt["names"])
        kept = {keep: c[keep]}
        if name in ("BetaScaled", "TruncatedNormal"):
            # the bounds have defaults
            kept.update(lower=c["lower"], upper=c["upper"])
        kw = {}
        d = cls(name)(**kept)
        given = list(d.param_names)
        if how == "fixed_params":
            d, kw = cls(name)(), dict(fixed_params=kept)
        if not set(given) <= set(names):
            # a single parameter does not tell the parametrization
            return
        free = [n for n in given if n not in kept]
        for n in free:
            sx.check("unset before", getattr(d, n, None) is None)
        want = [c[n] for n in free]

        def minimize(fun, x0, bounds=None, args=(), **k):
            sx.check("bounds of the free parameters", [tuple(map(float, b)) for b in bounds] == [tuple(map(float, d.params_support[d.param_names.index(n)])) for n in free])
            return Res(x=mk(want, sx), fun=fun(mk(want, sx), *args), success=True)

        def least_squares(fun, x0, args=(), bounds=(-INF, INF), **k):
            fun(mk(want, sx), *args)
            return Res(x=mk(want, sx), cost=0.0, success=True)

        lo, up = (sx.int("lower", 1, 3), sx.int("upper", 4, 8)) if name in DISCRETE else (sx.real("lower", 1 / 8, 3 / 8), sx.real("upper", 1 / 2, 7 / 8))

        def fit_moments(mean, sigma):
            vals = draw(sx, name, "moments.")
            d._update(*[vals[p] for p in DISTS[name]])

        d._fit_moments = fit_moments
        d._check_endpoints = lambda *a, **k: None
        with sx.patched((_opt, "minimize", minimize), (_opt, "least_squares", least_squares)):
            if what == "maxent":
                quiet(pz.maxent, d, lo, up, 0.5, plot=False, **kw)
            elif what == "quartile":
                quiet(pz.quartile, d, lo, (lo + up) / 2, up, plot=False, **kw)
        for n, v in kept.items():
            sx.check("fixed parameter keeps its value", sx.eq(getattr(d, n), v))
        sx.check("free parameters are the optimum", sx.all(True, *[sx.eq(getattr(d, n), v) for n, v in zip(free, want)]))
        sx.check("visible parameters", sx.all(tuple(d.param_names) == tuple(given), sx.eq(d.params, [c[n] for n in given])))
        ref = cls(name)(**{n: c[n] for n in given})
        sx.check("same law as built directly", sx.all(*[sx.eq(getattr(d, p), getattr(ref, p)) for p in DISTS[name]], d.is_frozen is True))

    return body


def cases(tier):
    out = [Case("refused", _refused())]
    subsets = {"ab": ("a", "b", "ab"), "abc": ("a", "b", "c", "ab", "ac", "bc", "abc")}
    for kind in ("continuous", "discrete"):
        for names in ("ab", "abc"):
            for free in subsets[names]:
                out.append(Case(f"maxent/{kind}/{names}/free {free}", _maxent(kind, names, free)))
                out.append(Case(f"quartile/{kind}/{names}/free {free}", _quartile(kind, names, free)))
        for how in ("fixed_params",):
            out.append(Case(f"maxent/{kind}/{how}", _maxent(kind, "abc", "ac", how)))
            out.append(Case(f"quartile/{kind}/{how}", _quartile(kind, "abc", "b", how)))
        for stat in ("mean", "mode", "median", "var", "std", "skewness", "kurtosis"):
            out.append(Case(f"maxent/{kind}/fixed {stat}", _maxent(kind, "ab", "ab", stat=stat)))
        for fail in (False, True):
            out.append(Case(f"starts/{kind}/{'failing' if fail else 'all'}", _starts(kind, fail)))
    for name in DISTS:
        for alt in [None] + ALT.get(name, []):
            names = list(DISTS[name]) if alt is None else list(alt["names"])
            if len(names) < 2:
                continue
            for keep in names:
                for what in ("maxent", "quartile"):
                    if name == "HyperGeometric" and what == "maxent":
                        # its entropy is a sum of symbolic length
                        continue
                    t = "canonical" if alt is None else "-".join(names)
                    for how in ("given", "fixed_params"):
                        tag = f"{name}/{t}/{keep} fixed/{what}" + ("" if how == "given" else "/fixed_params")
                        out.append(Case(tag, _family(name, alt, keep, what, how), ptd_hook=families.ptd_hook, plain_log=True))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
