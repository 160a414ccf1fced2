"""Elicitation with chips (roulette) and with interactive quartiles."""

import importlib
import types

import matplotlib.pyplot as plt

import preliz as pz
from checks.famstub import CFam, DFam, mk
from checks.p18 import Res
from engine.harness import Case
from preliz.internal import optimization as _opt

_rou = importlib.import_module("preliz.unidimensional.roulette")
_qin = importlib.import_module("preliz.unidimensional.quartile_int")
_dists = importlib.import_module("preliz.distributions")

BOUNDS = [
    "grids of 3 to 6 columns and 2 or 3 rows, up to three clicks anywhere on or around the grid",
    "up to three recorded elicitations with any probabilities, numbers of chips and weights in [0, 4]",
    "two or three candidate families about which nothing is known, and real families with fixed parameters",
]
ASSUMPTIONS = [
    "scipy's least_squares returns some point within the bounds and its cost; any cost is possible",
    "widgets and figures are stand-ins that keep the values and call the handlers",
]
INF = float("inf")


class Fits:
    """candidate families and the record of how they were fitted"""

    def __init__(self, sx, specs):
        self.sx = sx
        self.made, self.now, self.calls = [], None, []
        self.patches = []
        log = self
        for name, kind, support in specs:
            base = DFam if kind == "discrete" else CFam

            def init(self, base=base, name=name, support=support):
                base.__init__(self, sx, "ab", support=support, tag=name + ".", limits=(-9.0, 9.0))
                log.made.append(self)

            def fit(self, mean, sigma, base=base):
                log.now = self
                base._fit_moments(self, mean, sigma)

            self.patches.append((_dists, name, type(name, (base,), {"__init__": init, "_fit_moments": fit})))
        self.patches.append((_opt, "least_squares", self.least_squares))

    def least_squares(self, fun, x0, args=(), bounds=(-INF, INF), **k):
        d, sx = self.now, self.sx
        n = len(x0)
        end = [sx.real(f"{d.tag}end{i}", -9, 9) for i in range(n)]
        cost = sx.real(f"{d.tag}cost", 0, 9)
        res = list(fun(mk(end, sx), *args))
        self.calls.append(dict(d=d, x0=list(x0), end=end, cost=cost, res=res, bounds=bounds, told=d.told[-1]))
        return Res(x=mk(end, sx), cost=cost, success=True)

    def of(self, d):
        return [c for c in self.calls if c["d"] is d]

    def start_over(self):
        self.made.clear()
        self.calls.clear()


def sq(v):
    return sum(x**2 for x in v)


def judge(sx, fits, got, points, density, mean, var, inside, fixed=None):
    """got is the candidate with the smallest loss, fitted to the densities"""
    sx.check("only the candidates whose support contains the grid are fitted", sx.all(True, *[(len(fits.of(d)) == 1) == inside(d) for d in fits.made]))
    for c in fits.calls:
        d = c["d"]
        fx = (fixed or {}).get(type(d).__name__, {})
        free = [n for n in d.param_names if n not in fx]
        at = {**fx, **dict(zip(free, c["end"]))}
        vals = [at[n] for n in d.param_names]
        want = [sx.uf(d.tag + "pdf", x, *vals) - p for x, p in zip(points, density)]
        sx.check("fitted to the density of every filled column", sx.all(len(c["res"]) == len(want), sx.eq(sq(c["res"]), sq(want))))
        sx.check("mean of the chips", sx.eq(c["told"][0], mean))
        sx.check("standard deviation of the chips", sx.eq(c["told"][1] ** 2, var))
        sx.check("which is not negative", c["told"][1] >= 0)
        sx.check("only free parameters are searched", len(c["x0"]) == len(free))
        sx.check("the candidate keeps the result of its own fit", sx.eq(list(d.params), vals))
    if not fits.calls:
        sx.check("no candidate, no law", got is None)
        return
    mine = fits.of(got)
    sx.check("one of the candidates is chosen", len(mine) == 1)
    if mine:
        sx.check("the chosen candidate has the smallest loss", sx.all(*[mine[0]["cost"] <= c["cost"] for c in fits.calls]))


# ------------------------------------------------------------ combine_roulette
def _combine(grids, span, ncols, how, params=None, support=False):
    """grids: the columns (x values) filled in each elicitation"""

    def body(sx):
        lo, up = span
        step = (up - lo) / (ncols - 1)
        sl = sx.real("support", lo - 2, lo + 2) if support else -INF
        fits = Fits(sx, [("FamA", "continuous", (-INF, INF)), ("FamB", "continuous", (sl, INF))])
        responses, w = [], []
        for r, xs in enumerate(grids):
            ps = [sx.real(f"p{r}.{i}", 1 / 16, 1) for i in range(len(xs))]
            chips = sx.real(f"chips{r}", 1, 20)
            responses.append((list(xs), ps, chips, lo, up, 10, ncols))
            w.append(1.0 if how == "default" else sx.real(f"w{r}", 0 if r else 1 / 4, 4))
        pool = {}
        for (xs, ps, chips, *_), wr in zip(responses, w):
            for x, p in zip(xs, ps):
                pool[x] = pool.get(x, 0.0) + wr * chips * p
        total = sum(pool.values())
        mean = sum(x * v for x, v in pool.items()) / total
        var = sum((x - mean) ** 2 * v for x, v in pool.items()) / total
        copy = [(list(r[0]), list(r[1]), *r[2:]) for r in responses]
        kw = {} if how == "default" else dict(weights=list(w))
        fixed = {}
        if params:
            kw["params"], fixed = params
        with sx.patched(*fits.patches):
            got = pz.combine_roulette(responses, dist_names=["FamA", "FamB"], **kw)
        ok = sx.is_true(lo >= sl) if support else True
        judge(sx, fits, got, list(pool), [v / total / step for v in pool.values()], mean, var, lambda d: ok or type(d).__name__ == "FamA", fixed)
        same = [sx.eq(a[1], b[1]) for a, b in zip(responses, copy)]
        sx.check("the recorded elicitations are unchanged", sx.all(*same, *[a[0] == b[0] for a, b in zip(responses, copy)]))

    return body


def _combine_refused(field):
    def body(sx):
        fits = Fits(sx, [("FamA", "continuous", (-INF, INF))])
        base = [0, 10, 10, 11]
        a = ([1.5, 2.5], [0.5, 0.5], 4, *base)
        other = sx.int("other", base[field] - 3, base[field] + 3)
        if field == 3:
            sx.assume(other >= 2)
        changed = list(base)
        changed[field] = other
        b = ([1.5, 2.5], [0.5, 0.5], 4, *changed)
        w = sx.real("w", -2, 2)
        same = sx.is_true(other == base[field])
        with sx.patched(*fits.patches):
            for rs in ((a, b), (b, a), (a, a, b), (a, b, a)):
                r = sx.attempt(pz.combine_roulette, list(rs), dist_names=["FamA"])
                bad = type(r).__name__ == "Raised" and isinstance(r.exc, ValueError)
                sx.check("different grids are refused, equal grids are not", bad is (not same))
            if sx.is_true(w < 0):
                r = sx.attempt(pz.combine_roulette, [a, a], weights=[1.0, w], dist_names=["FamA"])
                sx.check("negative weights are refused", type(r).__name__ == "Raised" and isinstance(r.exc, ValueError))

    return body


REAL = {
    "StudentT(nu=8)": ("StudentT", dict(nu=8.0)),
    "TruncatedNormal(lower=0), StudentT(nu=8)": ("StudentT", dict(nu=8.0)),
    "Normal(mu=2.5)": ("Normal", dict(mu=2.5)),
    "Gamma(alpha = 3)": ("Gamma", dict(alpha=3.0)),
    "Gamma(mu=3), Beta(mu=0.3)": ("Gamma", dict(mu=3.0)),
    "TruncatedNormal(lower=-2, upper=inf)": ("TruncatedNormal", dict(lower=-2.0, upper=INF)),
    "BetaScaled(lower=-1, upper=12)": ("BetaScaled", dict(lower=-1.0, upper=12.0)),
    "BetaScaled(alpha=2)": ("BetaScaled", dict(alpha=2.0, lower=0.0, upper=10.0)),
    "BetaScaled(upper=11.5)": ("BetaScaled", dict(lower=0.0, upper=11.5)),
    "Exponential(lam=1)": ("BetaScaled", dict(lower=0.0, upper=10.0)),
}


def _real(params, where):
    """real families keep the parameters written by the user"""

    def body(sx):
        name, fixed = REAL[params]
        seen = []

        def end(i):
            # the central mass of the real families is not part of this case
            return sx.real(f"end{i}", 1 / 2, 4) if where == "combine" else (0.75, 1.5, 2.25)[i]

        def least_squares(fun, x0, args=(), bounds=(-INF, INF), **k):
            seen.append(len(x0))
            return Res(x=mk([end(i) for i in range(len(x0))], sx), cost=sx.real("cost", 0, 9), success=True)

        with sx.patched((_opt, "least_squares", least_squares)):
            if where == "combine":
                r = ([1.5, 2.5, 3.5], [0.2, 0.5, 0.3], 10, 0, 10, 10, 11)
                got = pz.combine_roulette([r], dist_names=[name], params=params)
            else:
                # fixed bounds of BetaScaled are part of the test of the quartiles too
                q = Quart(sx, [name])
                with sx.patched(*q.patches):
                    q.open()
                    q.w["w_q1"].value, q.w["w_q2"].value, q.w["w_q3"].value = 0.3, 0.5, 0.6
                    q.w["w_extra"].value = params
                    q.click()
                    got = q.obj.dist
                if name == "BetaScaled":
                    fixed = {k: v for k, v in fixed.items() if k + "=" in params}
        sx.check("family", type(got).__name__ == name)
        for k, v in fixed.items():
            sx.check("fixed parameter keeps its value", sx.eq(getattr(got, k), v))
        free = [n for n in got.param_names if n not in fixed and not (name == "BetaScaled" and n in ("lower", "upper"))]
        free = [n for n in free if not (name == "TruncatedNormal" and n in ("lower", "upper"))]
        sx.check("the others are fitted", sx.all(seen[-1] == len(free), *[sx.eq(getattr(got, n), end(i)) for i, n in enumerate(free)]))

    return body


# ------------------------------------------------------------ stand-ins
class W:
    def __init__(self, value=None, options=(), **k):
        self.__dict__.update(_value=value, options=options, _obs=[])

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        self._value = v
        for f, names in self._obs:
            if names in (None, "value"):
                f({"new": v, "name": "value", "owner": self})

    def observe(self, f, names=None):
        self._obs.append((f, names))


class Quiet:
    """accepts any call"""

    def __init__(self):
        self.handlers = {}

    def __getattr__(self, n):
        if n == "canvas":
            self.canvas = Canvas()
            return self.canvas
        return lambda *a, **k: Quiet()


class Canvas(Quiet):
    def mpl_connect(self, name, f):
        self.handlers.setdefault(name, []).append(f)


class Output(Quiet):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Axis(Quiet):
    pass


class Board:
    def __init__(self, sx, mod):
        self.sx = sx
        names = ("FloatText", "BoundedIntText", "IntText", "Textarea", "Text", "RadioButtons", "SelectMultiple", "Checkbox")
        self.fig, self.axes = Quiet(), [Axis(), Axis()]
        wid = types.SimpleNamespace(**{n: W for n in names}, Layout=lambda **k: None, Output=Output, VBox=lambda *a, **k: None, HBox=lambda *a, **k: None)
        self.patches = [
            (mod, "widgets", wid),
            (mod, "display", lambda *a, **k: None),
            (mod, "check_inside_notebook", lambda *a, **k: None),
            (mod, "representations", lambda *a, **k: None),
            (plt, "subplots", self.subplots),
        ]

    def subplots(self, rows=1, *a, **k):
        return self.fig, (self.axes if rows > 1 else self.axes[0])

    def fire(self, name, event=None):
        for f in self.fig.canvas.handlers.get(name, []):
            f(event)


class Quart(Board):
    def __init__(self, sx, names):
        super().__init__(sx, _qin)
        self.names = names

    def open(self, *q):
        self.obj = pz.QuartileInt(*q, dist_names=self.names)
        self.w = self.obj._widgets

    def click(self):
        self.fire("button_release_event")


class Grid(Board):
    def __init__(self, sx, **kw):
        super().__init__(sx, _rou)
        self.kw = kw

    def open(self):
        self.obj = pz.Roulette(**self.kw)
        self.w = self.obj._widgets

    def press(self, x, y, ax=None):
        self.fire("button_press_event", types.SimpleNamespace(inaxes=self.axes[0] if ax is None else ax, xdata=x, ydata=y))

    def release(self):
        self.fire("button_release_event")


# ------------------------------------------------------------ roulette
def _press(sx, g, chips, x, y, nrows, ncols):
    """what a click does to the chips, independently"""
    g.press(x, y)
    col = [k for k in range(ncols) if sx.is_true((x >= k) & (x < k + 1))]
    row = [k for k in range(nrows) if sx.is_true((y > k) & (y <= k + 1))]
    if col and row:
        c, r = col[0], row[0] + 1
        chips[c] = r - 1 if chips[c] >= r else r


def record(sx, g, fits, chips, span, nrows, ncols, label=""):
    lo, up = span
    step = (up - lo) / (ncols - 1)
    inp, d = g.obj.inputs, g.obj.dist
    total = sum(chips)
    filled = [k for k, c in enumerate(chips) if c]
    xs = [lo + (k + 0.5) * step for k in filled]
    ps = [chips[k] / total for k in filled]
    sx.check("recorded columns" + label, sx.all(len(inp[0]) == len(xs), sx.eq(list(inp[0]), xs)))
    sx.check("recorded proportions of chips" + label, sx.all(len(inp[1]) == len(ps), sx.eq(list(inp[1]), ps)))
    sx.check("recorded number of chips and grid" + label, sx.eq(list(inp[2:]), [total, lo, up, nrows, ncols]))
    if len(filled) < 2:
        sx.check("chips in one column do not give a law" + label, d is None and not fits.calls)
        return
    mean = sum(x * p for x, p in zip(xs, ps))
    var = sum((x - mean) ** 2 * p for x, p in zip(xs, ps))
    judge(sx, fits, d, xs, [p / step for p in ps], mean, var, lambda d: True)


def _roulette(span, nrows, ncols, clicks):
    def body(sx):
        fits = Fits(sx, [("FamA", "continuous", (-INF, INF)), ("FamB", "continuous", (-INF, INF))])
        g = Grid(sx, x_min=span[0], x_max=span[1], nrows=nrows, ncols=ncols, dist_names=["FamA", "FamB"], params="")
        chips = [0] * ncols
        with sx.patched(*fits.patches, *g.patches):
            g.open()
            for i, (x, y) in enumerate(clicks):
                x = sx.real(f"x{i}", -1, ncols + 1) if x is None else x
                y = sx.real(f"y{i}", -1, nrows + 1) if y is None else y
                _press(sx, g, chips, x, y, nrows, ncols)
            fits.start_over()
            g.release()
            record(sx, g, fits, chips, span, nrows, ncols)

    return body


def _outside():
    """clicks on the other panel, and a grid that is changed"""

    def body(sx):
        fits = Fits(sx, [("FamA", "continuous", (-INF, INF)), ("FamB", "continuous", (-INF, INF))])
        g = Grid(sx, x_min=0, x_max=10, nrows=3, ncols=3, dist_names=["FamA", "FamB"], params="")
        x, y = sx.real("x", 0, 3), sx.real("y", 0, 3)
        with sx.patched(*fits.patches, *g.patches):
            g.open()
            g.press(x, y, ax=g.axes[1])
            g.release()
            record(sx, g, fits, [0, 0, 0], (0, 10), 3, 3, " (other panel)")
            g.press(0.5, 2.5)
            g.press(1.5, 1.5)
            fits.start_over()
            g.release()
            record(sx, g, fits, [3, 2, 0], (0, 10), 3, 3, " (first grid)")
            g.w["w_ncols"].value = 4
            g.w["w_x_max"].value = 6
            fits.start_over()
            g.release()
            record(sx, g, fits, [0, 0, 0, 0], (0, 6), 3, 4, " (new grid)")
            chips = [0] * 4
            _press(sx, g, chips, 3.5, y, 3, 4)
            _press(sx, g, chips, 1.5, 1.5, 3, 4)
            fits.start_over()
            g.release()
            record(sx, g, fits, chips, (0, 6), 3, 4, " (new chips)")

    return body


# ------------------------------------------------------------ quartiles
def _quartiles(kinds, how):
    def body(sx):
        names = [f"Fam{c}" for c in "ABC"[: len(kinds)]]
        fits = Fits(sx, [(n, k, (-INF, INF)) for n, k in zip(names, kinds)])
        q = [sx.real(f"q{i}", -5, 5) for i in (1, 2, 3)]
        b = Quart(sx, names)
        with sx.patched(*fits.patches, *b.patches):
            if how == "given":
                b.open(*q)
            else:
                b.open()
                fits.start_over()
                b.w["w_q1"].value, b.w["w_q2"].value = q[0], q[1]
                fits.start_over()
                b.w["w_q3"].value = q[2]
        got = b.obj.dist
        if not sx.is_true(sx.all(q[0] < q[1], q[1] < q[2])):
            sx.check("quartiles out of order give no law", got is None and not fits.calls)
            return
        sx.check("every candidate is fitted once", sorted(type(c["d"]).__name__ for c in fits.calls) == names)
        err = {}
        for c in fits.calls:
            d = c["d"]
            want = [sx.uf(d.tag + "cdf", v, *c["end"]) - p for v, p in zip(q, (0.25, 0.5, 0.75))]
            sx.check("fitted to the three quartiles", sx.eq(sq(c["res"]), sq(want)))
            sx.check("starts at the median and the scale of the quartiles", sx.all(sx.eq(c["told"][0], q[1]), sx.eq(c["told"][1] * 1.35, q[2] - q[0])))
            sx.check("the candidate keeps the result of its own fit", sx.eq(list(d.params), c["end"]))
            e = want[2] - want[0]
            # the central half holds half of the probability
            err[id(d)] = e if sx.is_true(e >= 0) else -e
        sx.check("a candidate is chosen", id(got) in err)
        if id(got) in err:
            sx.check("central half closest to one half", sx.all(*[sx.le(err[id(got)], v) for v in err.values()]))

    return body


def cases(tier):
    out = []
    for how in ("default", "weights"):
        out.append(Case(f"combine/one/{how}", _combine([(1.5, 2.5, 4.5)], (0, 10), 11, how)))
        out.append(Case(f"combine/same columns/{how}", _combine([(0.5, 1.5), (0.5, 1.5)], (0, 4), 5, how)))
        out.append(Case(f"combine/overlapping/{how}", _combine([(1.0, 3.0), (3.0, 5.0)], (0, 8), 5, how)))
        out.append(Case(f"combine/disjoint/{how}", _combine([(-1.75,), (0.25, 0.75)], (-2, 2), 9, how)))
        out.append(Case(f"combine/three/{how}", _combine([(5.0,), (15.0,), (5.0, 25.0)], (0, 50), 6, how)))
    out.append(Case("combine/support", _combine([(1.5, 2.5, 4.5)], (0, 10), 11, "default", support=True)))
    out.append(Case("combine/params", _combine([(1.5, 2.5, 4.5)], (0, 10), 11, "default", ("FamA(a=2)", {"FamA": {"a": 2.0}}))))
    out.append(Case("combine/params of both", _combine([(1.5, 4.5)], (0, 10), 6, "default", ("FamB(b = -1), FamA(a=2)", {"FamA": {"a": 2.0}, "FamB": {"b": -1.0}}))))
    for f, n in enumerate(("x_min", "x_max", "rows", "columns")):
        out.append(Case(f"combine/grids differ in {n}", _combine_refused(f)))
    for p in REAL:
        for where in ("combine", "quartiles"):
            if where == "quartiles" and ("lower=0" in p and "Student" not in p or p.startswith("Exponential")):
                continue
            out.append(Case(f"params/{where}/{p}", _real(p, where)))
    for span, nrows, ncols in (((0, 10), 2, 3), ((-2, 3), 3, 6), ((0, 1), 2, 5)):
        for n, clicks in {
            "anywhere": [(0.5, 1.5), (None, None)],
            "twice in a column": [(0.5, 1.0), (1.5, None), (1.2, None)],
            "one column": [(2.5, None)],
            "edges": [(1.5, 0.5), (0.5, None), (None, 1.0)],
        }.items():
            out.append(Case(f"roulette/{nrows}x{ncols} on {span}/{n}", _roulette(span, nrows, ncols, clicks), max_paths=400))
    out.append(Case("roulette/changed grid", _outside()))
    for kinds in (("continuous",), ("continuous", "continuous"), ("continuous", "discrete"), ("discrete", "discrete"), ("continuous", "discrete", "continuous")):
        for how in ("given", "typed"):
            if len(kinds) == 3 and how == "typed":
                continue
            out.append(Case(f"quartiles/{'-'.join(kinds)}/{how}", _quartiles(kinds, how), max_paths=400))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
