"""Variables of PyMC and Priors become the PreliZ distribution they denote."""

import math

import numpy as np

import preliz as pz
from checks.common import ALT, DISTS, INT, LO, draw, draw_alt
from engine.harness import Case

BOUNDS = [
    "scalar parameters in [1/32, 32] (narrower where a family's domain is), integers 1..40",
    "mixtures of two or three components",
]
ASSUMPTIONS = [
    "PyMC's own conversion between parametrizations is read from the graph the installed PyMC builds",
    "graph operations are read as real arithmetic",
]
INF = math.inf
NAN = float("nan")
NO_PYMC = ("BetaScaled", "LogLogistic")
# what PyMC makes of a ChiSquared is a Gamma variable
SAME = {"ChiSquared": "Gamma"}


def _pm(name):
    import pymc as pm

    return getattr(pm, name).dist


def _ints(name):
    return [k for k, kind in DISTS[name].items() if kind == INT]


def _convert(v):
    from preliz.ppls.pymc_io import if_pymc_get_preliz

    return if_pymc_get_preliz(v)


def _build(sx, make, args, ints=()):
    from checks.pymcgraph import build

    return build(sx, make, args, ints)


def _same(sx, d, name, c, tag=""):
    """d is the family member with canonical parameters c"""
    sx.check(tag + "family", type(d).__name__ == name)
    if type(d).__name__ != name:
        return
    sx.check(tag + "defined", d.is_frozen is True)
    names = tuple(DISTS[name])
    sx.check(tag + "parameters", sx.all(*[sx.eq(getattr(d, n), c[n]) for n in names]))
    sx.check(tag + "reported", sx.eq(list(d.params), [c[n] for n in d.param_names]) if tuple(sorted(d.param_names)) == tuple(sorted(names)) else True)


def _plain(name):
    def body(sx):
        c = draw(sx, name)
        d = _convert(_build(sx, _pm(name), c, _ints(name)))
        if name == "ChiSquared":
            _same(sx, d, "Gamma", dict(alpha=c["nu"] / 2, beta=0.5))
        else:
            _same(sx, d, name, c)
        sx.check("reached", True)

    return body


def _alt(name, alt):
    def body(sx):
        a = draw_alt(sx, name, alt)
        d = _convert(_build(sx, _pm(name), a, _ints(name)))
        sx.check("family", type(d).__name__ == name)
        sx.check("defined", d.is_frozen is True)
        c = {n: getattr(d, n) for n in DISTS[name]}
        if "canon" in alt and not all(sx.is_true(c[n] >= k[0]) for n, k in alt["canon"].items() if k[0] != "pos"):
            return
        sx.check("relation", sx.all(*[sx.eq(x, y, tol=1e-5) for x, y in alt["rel"](sx, c, a)]))

    return body


# parameters PyMC's inputs still determine when another one is not given
LOST = {
    # the second input is nu / sigma, or N - k
    ("Rice", "sigma"): {"nu"},
    ("HyperGeometric", "k"): {"N"},
    ("NegativeBinomial", "alpha"): {"mu"},
}


def _open(name, missing):
    """a parameter given as nan stays open; the others are kept"""

    def body(sx):
        c = draw(sx, name)
        given = dict(c)
        for m in missing:
            given[m] = NAN
        ints = [k for k in _ints(name) if k not in missing]
        d = _convert(_build(sx, _pm(name), given, ints))
        sx.check("family", type(d).__name__ == name)
        lost = set(missing)
        for m in missing:
            lost |= LOST.get((name, m), set())
        # what PreliZ says of the same partial definition
        e = getattr(pz, name)(**{n: (None if n in lost else c[n]) for n in c})
        sx.check("open", d.is_frozen is e.is_frozen)
        for n in DISTS[name]:
            sx.check(f"{n}", _eqn(sx, getattr(d, n), getattr(e, n)))
        sx.check("names", tuple(d.param_names) == tuple(e.param_names))
        sx.check("support", sx.eq(list(d.support), list(e.support)))

    return body


def _eqn(sx, a, b):
    if a is None or b is None:
        return a is b
    return sx.eq(a, b)


def _bounds(sx, lk, uk, hi=6):
    # only the relation matters to the conversion
    lo = sx.real("lower", -4, 1) if lk else None
    up = sx.real("upper", 2, hi) if uk else None
    return lo, up


def _wrapped(kind, name, lk, uk):
    def body(sx):
        import pymc as pm

        c = draw(sx, name)
        lo, up = _bounds(sx, lk, uk)
        over = {}
        if lk:
            over["lower_"] = lo
        if uk:
            over["upper_"] = up
        ints = [f"{k}" for k in _ints(name)]

        def make(**kw):
            b = {k[2:]: v for k, v in kw.items() if k.startswith("b.")}
            f = pm.Truncated if kind == "Truncated" else pm.Censored
            return f.dist(_pm(name)(**b), lower=kw.get("lower_"), upper=kw.get("upper_"))

        v = _build(sx, make, {**{"b." + k: x for k, x in c.items()}, **over}, ints)
        d = _convert(v)
        if kind == "Truncated" and name == "Normal":
            c = dict(c, lower=lo if lk else -INF, upper=up if uk else INF)
            return _same(sx, d, "TruncatedNormal", c)
        sx.check("modifier", type(d).__name__ == kind)
        _same(sx, d.dist, name, c, "base ")
        # the bounds mean what they mean to PreliZ's own modifier
        e = getattr(pz, kind)(getattr(pz, name)(**c), lower=lo if lk else -INF, upper=up if uk else INF)
        sx.check("lower", sx.eq(d.lower, e.lower))
        sx.check("upper", sx.eq(d.upper, e.upper))

    return body


def _hurdle(name):
    def body(sx):
        import pymc as pm

        c = draw(sx, name)
        psi = sx.real("psi", LO, 1 - LO)
        f = getattr(pm, "Hurdle" + name).dist
        d = _convert(_build(sx, lambda **kw: f(**kw), {"psi": psi, **c}, _ints(name)))
        sx.check("modifier", type(d).__name__ == "Hurdle")
        sx.check("psi", sx.eq(d.psi, psi))
        _same(sx, d.dist, name, c, "base ")

    return body


def _mixture(names):
    def body(sx):
        import pymc as pm

        cs = [draw(sx, n, f"{i}.") for i, n in enumerate(names)]
        ws = [sx.real(f"w{i}", 0.1, 0.8) for i in range(len(names) - 1)]
        rest = 1
        for w in ws:
            rest = rest - w
        sx.assume(rest >= 0.05)
        ws = ws + [rest]
        args = {f"c{i}.{k}": v for i, c in enumerate(cs) for k, v in c.items()}
        ints = [k for n in names for k in _ints(n)]

        def make(**kw):
            comps = [
                _pm(n)(**{k.split(".", 1)[1]: v for k, v in kw.items() if k.startswith(f"c{i}.")})
                for i, n in enumerate(names)
            ]
            w = kw["w"]
            return pm.Mixture.dist(w=w, comp_dists=comps)

        d = _convert(_build(sx, make, {**args, "w": ws}, ints))
        sx.check("modifier", type(d).__name__ == "Mixture")
        sx.check("components", len(d.dist) == len(names))
        for i, (n, c) in enumerate(zip(names, cs)):
            _same(sx, d.dist[i], n, c, f"component {i} ")
        sx.check("weights", sx.eq(list(d.weights), ws))

    return body


class Prior:
    """what pymc-extras' Prior shows: a name, parameters, and ``to_dict``"""

    def __init__(self, distribution, **parameters):
        self.distribution = distribution
        self.parameters = parameters

    def to_dict(self):
        out = {"dist": self.distribution}
        if self.parameters:
            out["kwargs"] = {k: v.to_dict() if isinstance(v, Prior) else v for k, v in self.parameters.items()}
        return out


def _prior(name, alt=None):
    def body(sx):
        a = draw_alt(sx, name, alt) if alt else draw(sx, name)
        d = _convert(Prior(name, **a))
        e = getattr(pz, name)(**a)
        sx.check("family", type(d) is type(e))
        sx.check("names", tuple(d.param_names) == tuple(e.param_names))
        sx.check("parameters", sx.eq(list(d.params), list(e.params)))
        sx.check("given", sx.all(*[sx.eq(getattr(d, k), v) for k, v in a.items()]))

    return body


def _prior_wrapped(kind, name, lk, uk):
    def body(sx):
        c = draw(sx, name)
        if kind == "Hurdle":
            psi = sx.real("psi", LO, 1 - LO)
            d = _convert(Prior("Hurdle" + name, psi=psi, **c))
            sx.check("psi", sx.eq(d.psi, psi))
        else:
            lo, up = _bounds(sx, lk, uk)
            kw = {}
            if lk:
                kw["lower"] = lo
            if uk:
                kw["upper"] = up
            d = _convert(Prior(kind, dist=Prior(name, **c), **kw))
            e = getattr(pz, kind)(getattr(pz, name)(**c), **kw)
            sx.check("lower", sx.eq(d.lower, e.lower))
            sx.check("upper", sx.eq(d.upper, e.upper))
        sx.check("modifier", type(d).__name__ == kind)
        _same(sx, d.dist, name, c, "base ")

    return body


def _prior_mixture(names):
    def body(sx):
        cs = [draw(sx, n, f"{i}.") for i, n in enumerate(names)]
        w = sx.real("w", 0.1, 0.9)
        ws = [w, 1 - w]
        d = _convert(Prior("Mixture", comp_dists=[Prior(n, **c) for n, c in zip(names, cs)], w=ws))
        sx.check("modifier", type(d).__name__ == "Mixture")
        for i, (n, c) in enumerate(zip(names, cs)):
            _same(sx, d.dist[i], n, c, f"component {i} ")
        sx.check("weights", sx.eq(list(d.weights), ws))

    return body


def _prior_open(name, keep):
    def body(sx):
        c = draw(sx, name)
        given = {k: c[k] for k in keep}
        d = _convert(Prior(name, **given))
        e = getattr(pz, name)(**given)
        sx.check("family", type(d) is type(e))
        for n in DISTS[name]:
            sx.check(n, _eqn(sx, getattr(d, n), getattr(e, n)))
            sx.check(n + " kept", n not in keep or sx.eq(getattr(d, n), c[n]))

    return body


# --- priors written back as code -------------------------------------------------


class _Lib:
    """stands for pymc or bambi when the written text is run"""

    def __init__(self, log):
        self._log = log

    def Prior(self, family, **kw):
        return (family, kw)

    def __getattr__(self, family):
        def f(name, **kw):
            self._log.append((name, family, kw))

        return f


def _run_text(sx, text, engine):
    """variable -> (family, keyword arguments) of the text, run as Python"""
    import contextlib
    import re

    toks = sx.ctx.tokens if sx.symbolic else {}
    src = re.sub("\u27e8(\\d+)\u27e9", r"_tok(\1)", text)
    log = []
    lib = _Lib(log)
    env = {"_tok": lambda k: toks[k][0]}
    if engine == "bambi":
        return eval(src, {**env, "bmb": lib})
    lib.Model = contextlib.nullcontext
    exec(src, {**env, "pm": lib})
    sx.check("one line per variable", len({n for n, _, _ in log}) == len(log))
    return {n: (f, kw) for n, f, kw in log}


def _num(sx, got, want):
    """the text has the value, rounded to the digits shown"""
    fg = list(got) if isinstance(got, (list, tuple)) else [got]
    fw = list(np.ravel(want)) if not sx.symbolic else (list(want.ravel()) if isinstance(want, np.ndarray) else list(want) if isinstance(want, (list, tuple)) else [want])
    if sx.symbolic:
        return sx.eq(fg, fw)
    return len(fg) == len(fw) and bool(np.allclose(np.array(fg, float), np.array(fw, float), rtol=6e-3, atol=1e-300))


def _writer(engine):
    if engine == "bambi":
        from preliz.ppls.bambi_io import write_bambi_string as f
    else:
        from preliz.ppls.pymc_io import write_pymc_string as f
    return f


def _write_flat(engine, names, alts=()):
    """independent variables: each prior is written as it is"""

    def body(sx):
        priors, info, given = {}, {}, {}
        for i, n in enumerate(names):
            alt = dict(alts).get(i)
            a = draw_alt(sx, n, alt, f"{i}.") if alt else draw(sx, n, f"{i}.")
            v = f"v{i}"
            priors[v] = getattr(pz, n)(**a)
            info[v] = ((), 1, None, [])
            given[v] = (n, a)
        out = _run_text(sx, _writer(engine)(priors, info), engine)
        sx.check("variables", list(out) == list(given))
        for v, (n, a) in given.items():
            sx.check("family", out[v][0] == n)
            sx.check("names", set(out[v][1]) == set(a))
            sx.check("values", sx.all(*[_num(sx, out[v][1][k], x) for k, x in a.items()]))

    return body


def _write_vector(engine):
    def body(sx):
        from checks.p06 import arr

        mus = [sx.real(f"mu{i}", -5, 5) for i in range(2)]
        sg = [sx.real(f"sigma{i}", 0.1, 5) for i in range(2)]
        z = sx.real("z", 0.1, 5)
        d = pz.Normal()
        d._parametrization(arr(sx, mus), arr(sx, sg))
        priors = {"a": d, "b": pz.HalfNormal(z)}
        info = {"a": ((2,), 2, None, []), "b": ((), 1, None, [])}
        out = _run_text(sx, _writer(engine)(priors, info), engine)
        sx.check("variables", list(out) == ["a", "b"])
        sx.check("family", (out["a"][0], out["b"][0]) == ("Normal", "HalfNormal"))
        sx.check("shape", out["a"][1].get("shape") == 2 and "shape" not in out["b"][1])
        sx.check("mu", _num(sx, out["a"][1]["mu"], mus))
        sx.check("sigma", _num(sx, out["a"][1]["sigma"], sg))
        sx.check("b", _num(sx, out["b"][1]["sigma"], z))

    return body


def _write_hier(engine, order):
    """a variable whose parents are variables: the parents are written, with its moments"""

    def body(sx):
        m, s = sx.real("mu", -5, 5), sx.real("sigma", 0.1, 5)
        cm, cs = sx.real("child.mu", -5, 5), sx.real("child.sigma", 0.1, 5)
        h = sx.real("h", 0.1, 5)
        gm, gs = sx.real("other.mu", -5, 5), sx.real("other.sigma", 0.1, 5)
        make = {
            "loc": pz.Normal(m, s),
            "child": pz.Normal(cm, cs),
            "free": pz.HalfNormal(h),
            "scale": pz.Normal(m + 1, s),
            "other": pz.Normal(gm, gs),
        }
        priors = {v: make[v] for v in order}
        parents = {"child": ["loc"], "other": ["scale"]}
        info = {v: ((), 1, None, [order.index(p) for p in parents.get(v, [])]) for v in order}
        want = {}
        for v in order:
            if v == "free":
                want[v] = ("HalfNormal", dict(sigma=h))
            elif v == "loc":
                want[v] = ("Normal", dict(mu=cm, sigma=cs) if "child" in order else dict(mu=m, sigma=s))
            elif v == "scale":
                want[v] = ("Normal", dict(mu=gm, sigma=gs) if "other" in order else dict(mu=m + 1, sigma=s))
        out = _run_text(sx, _writer(engine)(priors, info), engine)
        sx.check("variables", set(out) == set(want))
        for v, (f, a) in want.items():
            sx.check(v + " family", out[v][0] == f)
            sx.check(v + " names", set(out[v][1]) == set(a))
            sx.check(v + " values", sx.all(*[_num(sx, out[v][1][k], x) for k, x in a.items()]))
        sx.check("the priors are not changed", sx.all(*[sx.eq(priors[v].mu, x) for v, x in (("loc", m), ("scale", m + 1)) if v in order]))

    return body


class _Vals:
    def __init__(self, values):
        self.values = values


def _refit(engine, families, how):
    """posterior to prior: every variable gets its own fit of the winning family"""

    def body(sx):
        import preliz.ppls.agnostic as ag
        import preliz.ppls.pymc_io as pio
        import pymc as pm

        from checks.p06 import arr

        names = [f"v{i}" for i in range(len(families))]
        with pm.Model() as model:
            for v, f in zip(names, families):
                over = dict(lower=0.0, c=0.5, upper=1.0)
                getattr(pm, f)(v, **{k: over.get(k, 0.5) for k in DISTS[f]})
            pm.Normal("obs", 0, 1, observed=[1.0, 2.0])
        post = {v: [sx.real(f"{v}.{i}", 0.1, 0.9) for i in range(3)] for v in names}
        new = {"none": None, "auto": "auto", "list": [pz.Laplace(), pz.Cauchy()], "dict": {names[-1]: [pz.Laplace()]}}[how]
        calls = []

        def fit(dists, sample, plot=True):
            c = len(calls)
            rows = []
            for j, d in enumerate(dists):
                vals = {k: sx.real(f"fit{c}.{j}.{k}", 0.5, 0.9) for k in d.param_names}
                d._parametrization(**vals)
                rows.append((type(d).__name__, vals))
            best = sx.choice(f"best{c}", list(range(len(dists))))
            calls.append((rows, best, [x for x in sample], plot))
            return np.array([best] + [j for j in range(len(dists)) if j != best]), None

        if how == "ppe":
            new = None
        with sx.patched((ag, "mle", fit), (ag, "extract", lambda x: x)):
            text = ag.posterior_to_prior(model, {v: _Vals(arr(sx, x) if sx.symbolic else np.array(x)) for v, x in post.items()}, new)
        out = _run_text(sx, text, "pymc")
        del pio
        sx.check("variables", list(out) == names)
        sx.check("one fit per variable", len(calls) == len(names))
        alts = {"none": [], "auto": ["Normal", "HalfNormal", "Gamma"], "list": ["Laplace", "Cauchy"]}
        for v, f, (rows, best, sample, plot) in zip(names, families, calls):
            extra = alts[how] if how != "dict" else (["Laplace"] if v == names[-1] else [])
            if how == "auto":
                extra = [e for e in extra if e != f]
            sx.check("families considered", [r[0] for r in rows] == [f] + extra)
            sx.check("its own values", sx.eq(sample, post[v]))
            sx.check("not drawn", plot is False)
            n, vals = rows[0] if how == "none" else rows[best]
            sx.check("family", out[v][0] == n)
            sx.check("names", set(out[v][1]) == set(vals))
            sx.check("values", sx.all(*[_num(sx, out[v][1][k], x) for k, x in vals.items()]))

    return body


def _refit_projection(how):
    """the same for a projection (ppe): scalar and vector variables"""

    def body(sx):
        import preliz.unidimensional as uni
        from checks.p06 import arr
        from preliz.ppls import pymc_io as pio

        T = 3
        cols = [[sx.real(f"x{j}.{i}", -3, 3) for i in range(T)] for j in range(4)]
        info = {
            "a": ((), 1, None, []),
            "b": ((2,), 2, None, []),
            "c": ((), 1, None, []),
        }
        calls, fits = [], []

        def fit(dists, sample, plot=True):
            c = len(calls)
            rows = []
            for j, d in enumerate(dists):
                vals = {k: sx.real(f"fit{c}.{j}.{k}", 0.5, 0.9) for k in d.param_names}
                d._parametrization(**vals)
                rows.append((type(d).__name__, vals))
            best = sx.choice(f"best{c}", list(range(len(dists))))
            calls.append((rows, best, [x for x in sample]))
            return np.array([best] + [j for j in range(len(dists)) if j != best]), None

        new = {"none": None, "auto": "auto", "list": [pz.Laplace()], "dict": {"c": [pz.Laplace()]}}[how]
        table = arr(sx, [cols[j][i] for i in range(T) for j in range(4)]).reshape((T, 4))
        un = pio.unravel_projection(table, info, T)
        sx.check("names", list(un) == ["a", "b", "c"])
        sx.check("a", sx.eq(list(un["a"].ravel()), cols[0]))
        sx.check("b", sx.all(un["b"].shape == (T, 2), sx.eq(list(un["b"].ravel()), [v for i in range(T) for v in (cols[1][i], cols[2][i])])))
        sx.check("c", sx.eq(list(un["c"].ravel()), cols[3]))
        model = {"a": pz.Normal(), "b": pz.Normal(), "c": pz.Normal()}
        with sx.patched((uni, "mle", fit)):
            pri = pio.back_fitting_pymc(un, model, info, new)
        sx.check("every variable", list(pri) == ["a", "b", "c"])
        sx.check("fits", len(calls) == 2)
        for v, j, (rows, best, sample) in zip(("a", "c"), (0, 3), calls):
            extra = {"none": [], "auto": ["HalfNormal", "Gamma"], "list": ["Laplace"], "dict": ["Laplace"] if v == "c" else []}[how]
            sx.check("families considered", [r[0] for r in rows] == ["Normal"] + extra)
            sx.check("its own values", sx.eq(sample, cols[j]))
            n, vals = rows[best]
            sx.check("family", type(pri[v]).__name__ == n)
            sx.check("values", sx.all(*[sx.eq(getattr(pri[v], k), x) for k, x in vals.items()]))
        b = pri["b"]
        for i, col in enumerate((cols[1], cols[2])):
            m = sum(col) / T
            sx.check("vector mean", sx.eq(list(b.mu.ravel())[i], m))
            sx.check("vector spread", sx.eq(list(b.sigma.ravel())[i] ** 2, sum((x - m) ** 2 for x in col) / T))
        del fits

    return body


def _scale(name):
    """a free variable is mapped back to the values its prior can take"""

    def body(sx):
        import pymc as pm

        from preliz.ppls import pymc_io as pio

        x = sx.real("x", -20, 20)
        over = dict(lower=-1.0, c=0.5, upper=2.0)
        kw = {k: over.get(k, 0.5) for k in DISTS[name]}
        with pm.Model() as model:
            getattr(pm, name)("v", **kw)
            getattr(pm, name)("w", shape=3, **kw)
            pm.Normal("obs", 0, 1, observed=[1.0, 2.0])
        made = []

        def compiled(inputs, outputs):
            made.append((inputs, outputs))
            return len(made) - 1

        with sx.patched(*([(pio, "function", compiled)] if sx.symbolic else [])):
            info, n = pio.retrieve_variable_info(model)
        sx.check("shapes", [info[v][:2] for v in ("v", "w")] == [((), 1), ((3,), 3)])
        sx.check("no parents", [info[v][3] for v in ("v", "w")] == [[], []])
        sx.check("draws", n == 2)
        for v in ("v", "w"):
            t = info[v][2]
            if t is None:
                y = x
            elif sx.symbolic:
                from checks.pymcgraph import Graph

                inputs, out = made[t]
                y = Graph(sx, {inputs[0].name: x}).value(out)
                sx.check("a function of the column", len(inputs) == 1)
            else:
                y = float(np.ravel(t(np.array([[x]])))[0])
            e = getattr(pz, name)(**kw)
            lo, hi = (float(b) for b in e.support)
            sx.check(v + " inside", sx.all(sx.ge(y, lo), sx.le(y, hi)))
            if t is not None and name != "VonMises":
                sx.check(v + " increasing", sx.implies(x > 0, sx.ge(y, _middle(name, lo, hi))))

    return body


def _middle(name, lo, hi):
    """where the transformation of zero falls"""
    return (lo + hi) / 2 if hi < INF else lo


def _unravel(T):
    """a transformed variable takes its own columns through its own transformation"""

    def body(sx):
        from checks.p06 import arr
        from preliz.ppls import pymc_io as pio

        rows = [[sx.real(f"x{i}.{j}", -3, 3) for j in range(7)] for i in range(T)]
        info = {
            "a": ((2, 2), 4, lambda v: 2 * v + 1, []),
            "b": ((), 1, None, []),
            "c": ((2,), 2, lambda v: -v, []),
        }
        un = pio.unravel_projection(arr(sx, [v for r in rows for v in r]).reshape((T, 7)), info, T)
        sx.check("shape", (un["a"].shape, un["b"].shape, un["c"].shape) == ((T, 2, 2), (T,), (T, 2)))
        sx.check("a", sx.eq(list(un["a"].ravel()), [2 * r[j] + 1 for r in rows for j in range(4)]))
        sx.check("b", sx.eq(list(un["b"].ravel()), [r[4] for r in rows]))
        sx.check("c", sx.eq(list(un["c"].ravel()), [-r[j] for r in rows for j in (5, 6)]))

    return body


def _place(d, leaves, prefix=""):
    """the parameters of d (and of what it is made of) become the named values of a graph"""
    if type(d).__name__ == "Mixture":
        for i, b in enumerate(d.dist):
            _place(b, leaves, f"{prefix}c{i}.")
        d.weights = leaves["w"]
        return
    names = tuple(d.param_names)
    vals = tuple(leaves[prefix + n] if prefix + n in leaves else v for n, v in zip(names, d.params))
    for n, v in zip(names, vals):
        setattr(d, n, v)
    d.params = vals
    if type(d).__name__ in ("Truncated", "Censored", "Hurdle"):
        _place(d.dist, leaves, prefix)


def _sent(sx, d, args, ints, inside, kind=None):
    """d.to_pymc(), inside or outside a model, read back"""
    import pymc as pm

    def make(**kw):
        if sx.symbolic:
            _place(d, kw)
        if not inside:
            return d.to_pymc()
        with pm.Model() as m:
            v = d.to_pymc("x")
        sx.check("named", v.name == "x")
        sx.check("in the model", [r.name for r in m.free_RVs] == ["x"])
        return v

    return _convert(_build(sx, make, args, ints))


def _to_pymc(name, alt, inside):
    def body(sx):
        if alt is None:
            a = c = draw(sx, name)
            d = getattr(pz, name)(**c)
        else:
            a = draw_alt(sx, name, alt)
            d = getattr(pz, name)(**a)
            c = {n: getattr(d, n) for n in DISTS[name]}
        e = _sent(sx, d, dict(a), _ints(name), inside)
        if name == "ChiSquared":
            return _same(sx, e, "Gamma", dict(alpha=c["nu"] / 2, beta=0.5))
        sx.check("family", type(e).__name__ == name)
        sx.check("defined", e.is_frozen is True)
        b = {n: getattr(e, n) for n in DISTS[name]}
        if alt is None:
            sx.check("parameters", sx.all(*[sx.eq(b[n], c[n]) for n in c]))
        else:
            sx.check("relation", sx.all(*[sx.eq(x, y, tol=1e-5) for x, y in alt["rel"](sx, b, a)]))

    return body


def _to_pymc_wrapped(kind, name, inside, inner=None):
    def body(sx):
        c = draw(sx, name)
        base = getattr(pz, name)(**c)
        args = dict(c)
        if kind == "Hurdle":
            psi = sx.real("psi", LO, 1 - LO)
            d = pz.Hurdle(base, psi)
            args["psi"] = psi
            e = _sent(sx, d, args, _ints(name), inside)
            sx.check("modifier", type(e).__name__ == "Hurdle")
            sx.check("psi", sx.eq(e.psi, psi))
            return _same(sx, e.dist, name, c, "base ")
        lo, up = _bounds(sx, 1, 1)
        # what PreliZ's own modifier takes the bounds to be
        d = getattr(pz, kind)(base, lower=lo, upper=up)
        want = (d.lower, d.upper)
        if kind == "Truncated":
            want = (lo, up)
        args.update(lower=d.params[-2], upper=d.params[-1])
        e = _sent(sx, d, args, _ints(name), inside)
        if kind == "Truncated" and name == "Normal":
            return _same(sx, e, "TruncatedNormal", dict(c, lower=lo, upper=up))
        sx.check("modifier", type(e).__name__ == kind)
        _same(sx, e.dist, name, c, "base ")
        sx.check("lower", sx.eq(e.lower, want[0]))
        sx.check("upper", sx.eq(e.upper, want[1]))

    return body


def _to_pymc_mixture(names, inside, truncated=False):
    def body(sx):
        cs = [draw(sx, n, f"{i}.") for i, n in enumerate(names)]
        ws = [sx.real(f"w{i}", 0.1, 0.8) for i in range(len(names) - 1)]
        rest = 1
        for w in ws:
            rest = rest - w
        sx.assume(rest >= 0.05)
        ws = ws + [rest]
        comps = [getattr(pz, n)(**c) for n, c in zip(names, cs)]
        if truncated:
            comps[0] = pz.Truncated(comps[0], 1.0, 3.0)
        args = {f"c{i}.{k}": v for i, c in enumerate(cs) for k, v in c.items()}
        d = pz.Mixture(comps, weights=ws)
        e = _sent(sx, d, {**args, "w": ws}, [k for n in names for k in _ints(n)], inside)
        sx.check("modifier", type(e).__name__ == "Mixture")
        sx.check("components", len(e.dist) == len(names))
        for i, (n, c) in enumerate(zip(names, cs)):
            b = e.dist[i]
            if truncated and i == 0:
                sx.check("truncated", type(b).__name__ == "Truncated" and sx.eq([b.lower, b.upper], [1.0, 3.0]))
                b = b.dist
            _same(sx, b, n, c, f"component {i} ")
        sx.check("weights", sx.eq(list(e.weights), ws))

    return body


def _to_bambi(names):
    def body(sx):
        import bambi

        for name in names:
            for alt in [None] + ALT.get(name, []):
                tag = f"{name}.{'-'.join(alt['names']) if alt else ''}"
                a = draw(sx, name, tag) if alt is None else draw_alt(sx, name, alt, tag)
                seen = []
                old = bambi.Prior
                bambi.Prior = lambda *p, **k: seen.append((p, k)) or seen
                try:
                    d = getattr(pz, name)(**a)
                    got = d.to_bambi(auto_scale=False)
                finally:
                    bambi.Prior = old
                sx.check("one prior", got is seen and len(seen) == 1)
                (p, k) = seen[0]
                sx.check("family", p == (name,) or (p == () and k.pop("name", None) == name))
                sx.check("options", k.pop("auto_scale", None) is False)
                sx.check("names", set(k) == set(d.param_names))
                sx.check("values", sx.all(*[sx.eq(v, dict(zip(d.param_names, d.params))[n]) for n, v in k.items()]))
                sx.check("given values", sx.all(*[sx.eq(k[n], v) for n, v in a.items() if n in k]))

    return body


def cases(tier):
    out = []
    for name in DISTS:
        if name in NO_PYMC:
            continue
        for alt in [None] + ALT.get(name, []):
            for inside in (0, 1):
                if inside and alt is not None and tier == "quick":
                    continue
                out.append(Case(f"to_pymc/{name}/{'-'.join(alt['names']) if alt else 'canon'}/{inside}", _to_pymc(name, alt, inside)))
    for inside in (0, 1):
        for kind in ("Truncated", "Censored"):
            for name in ("Normal", "Gamma", "HalfNormal", "Poisson", "Exponential"):
                out.append(Case(f"to_pymc/{kind}/{name}/{inside}", _to_pymc_wrapped(kind, name, inside)))
        for name in ("Gamma", "LogNormal", "Poisson", "NegativeBinomial"):
            out.append(Case(f"to_pymc/Hurdle/{name}/{inside}", _to_pymc_wrapped("Hurdle", name, inside)))
        for names in (("Normal", "Gamma"), ("Exponential", "Rice", "HalfNormal"), ("Poisson", "NegativeBinomial")):
            out.append(Case(f"to_pymc/Mixture/{'-'.join(names)}/{inside}", _to_pymc_mixture(names, inside)))
        out.append(Case(f"to_pymc/Mixture/truncated/{inside}", _to_pymc_mixture(("Gamma", "Normal"), inside, True)))
    names = [n for n in DISTS]
    for i in range(0, len(names), 4):
        out.append(Case(f"to_bambi/{'-'.join(names[i:i + 4])}", _to_bambi(names[i : i + 4])))
    for name in DISTS:
        if name in NO_PYMC:
            continue
        out.append(Case(f"pymc/{name}", _plain(name)))
        for alt in ALT.get(name, []):
            out.append(Case(f"pymc/{name}/{'-'.join(alt['names'])}", _alt(name, alt)))
        if name == "ChiSquared":
            continue
        ks = tuple(DISTS[name])
        if not name.startswith("ZeroInflated"):
            for m in [(k,) for k in ks] + ([ks] if len(ks) > 1 else []):
                if set(m) & set(_ints(name)):
                    continue  # PyMC has no open integers
                out.append(Case(f"open/{name}/{'-'.join(m)}", _open(name, m)))
    trunc = [n for n in DISTS if n not in NO_PYMC and not n.startswith("ZeroInflated") and n != "ChiSquared"]
    for kind in ("Truncated", "Censored"):
        for name in trunc:
            out.append(Case(f"{kind}/{name}/both", _wrapped(kind, name, 1, 1)))
            if tier == "thorough" or name in ("Normal", "Gamma", "HalfNormal", "Poisson"):
                out.append(Case(f"{kind}/{name}/lower", _wrapped(kind, name, 1, 0)))
                out.append(Case(f"{kind}/{name}/upper", _wrapped(kind, name, 0, 1)))
    for name in ("Gamma", "LogNormal", "Poisson", "NegativeBinomial"):
        out.append(Case(f"Hurdle/{name}", _hurdle(name)))
    for names in (("Normal", "Gamma"), ("Exponential", "Rice", "HalfNormal"), ("Poisson", "NegativeBinomial"), ("LogitNormal", "Beta"), ("SkewStudentT", "AsymmetricLaplace", "Wald")):
        out.append(Case(f"Mixture/{'-'.join(names)}", _mixture(names)))
    for name in DISTS:
        out.append(Case(f"prior/{name}", _prior(name)))
        for alt in ALT.get(name, []):
            out.append(Case(f"prior/{name}/{'-'.join(alt['names'])}", _prior(name, alt)))
        ks = tuple(DISTS[name])
        if len(ks) > 1:
            for k in ks:
                out.append(Case(f"prior open/{name}/{k}", _prior_open(name, (k,))))
    for kind in ("Truncated", "Censored"):
        for name in ("Normal", "Gamma", "HalfNormal", "Poisson"):
            for lk, uk in ((1, 1), (1, 0), (0, 1)):
                out.append(Case(f"prior {kind}/{name}/{lk}{uk}", _prior_wrapped(kind, name, lk, uk)))
    for name in ("Gamma", "LogNormal", "Poisson", "NegativeBinomial"):
        out.append(Case(f"prior Hurdle/{name}", _prior_wrapped("Hurdle", name, 0, 0)))
    out.append(Case("prior Mixture", _prior_mixture(("Normal", "Gamma"))))
    flat = [n for n in DISTS if n not in ("BetaScaled",)]
    for engine in ("pymc", "bambi"):
        for i in range(0, len(flat), 3):
            out.append(Case(f"write {engine}/{'-'.join(flat[i:i + 3])}", _write_flat(engine, flat[i : i + 3])))
        out.append(Case(f"write {engine}/other names", _write_flat(engine, ("Gamma", "Beta", "Normal"), ((0, ALT["Gamma"][0]), (1, ALT["Beta"][0])))))
        out.append(Case(f"write {engine}/vector", _write_vector(engine)))
        for order in (
            ["loc", "child"],
            ["loc", "child", "free"],
            ["free", "loc", "child"],
            ["loc", "free", "child"],
            ["loc", "child", "scale", "other"],
            ["loc", "child", "free", "scale", "other"],
            ["loc", "scale", "other", "child"],
        ):
            out.append(Case(f"write {engine}/{'-'.join(order)}", _write_hier(engine, order)))
    plain = [n for n in DISTS if n not in NO_PYMC + ("ChiSquared",) and not n.startswith("ZeroInflated") and INT not in DISTS[n].values()]
    for i in range(0, len(plain), 3):
        out.append(Case(f"refit none/{'-'.join(plain[i:i + 3])}", _refit("pymc", plain[i : i + 3], "none")))
    for name in ("Normal", "Uniform", "Pareto", "Triangular", "TruncatedNormal", "HalfNormal", "Beta", "Gamma"):
        out.append(Case(f"scale/{name}", _scale(name)))
    for how in ("auto", "list", "dict"):
        out.append(Case(f"refit {how}", _refit("pymc", ("Normal", "HalfNormal"), how)))
        out.append(Case(f"projection {how}", _refit_projection(how)))
    out.append(Case("projection none", _refit_projection("none")))
    out.append(Case("unravel", _unravel(3)))
    return out
