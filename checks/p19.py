"""The prior predictive assistant: what is offered, selected and fitted."""

import math
import sys

import numpy as np

import preliz as pz
from checks.p06 import arr
from checks.p20 import _num
from engine.harness import Case

BOUNDS = [
    "3 to 5 prior predictive samples of 1 or 2 values, any distances between them",
    "histories of up to 3 rounds",
]
ASSUMPTIONS = [
    "the nearest neighbour index is replaced by its contract: any symmetric distances, no ties",
    "the random first sample is any sample the code allows",
]
INF = math.inf


class Tree:
    """k nearest neighbours under arbitrary distances; points are known by their number"""

    def __init__(self, sx, n, tag="d", target=True):
        self.sx, self.n = sx, n
        self.d = {}
        for i in range(n):
            for j in range(i):
                self.d[i, j] = self.d[j, i] = sx.real(f"{tag}{j}.{i}", 0.1, 9)
            self.d[i, i] = 0
            if target:
                self.d["t", i] = sx.real(f"{tag}t.{i}", 0.1, 9)
        for a in list(range(n)) + (["t"] if target else []):
            row = [self.d[a, j] for j in range(n) if j != a]
            for x in range(len(row)):
                for y in range(x):
                    sx.assume(abs(row[x] - row[y]) >= 0.0009 if not sx.symbolic else _apart(sx, row[x], row[y]))
        self.orders = {}

    def order(self, a):
        if a not in self.orders:
            left = [j for j in range(self.n) if j != a]
            out = [] if a == "t" else [a]
            while left:
                best = left[0]
                for j in left[1:]:
                    if self.sx.is_true(self.d[a, j] < self.d[a, best]):
                        best = j
                out.append(best)
                left.remove(best)
            self.orders[a] = out
        return self.orders[a]

    def _one(self, p, ks, ub):
        a = "t" if float(p[0]) < 0 else int(p[0])
        o = self.order(a)
        dist, idx = [], []
        for k in ks:
            if k < 1:
                raise ValueError("k must be positive")
            if k > self.n or not (ub == INF or self.sx.is_true(self.d[a, o[k - 1]] < ub)):
                dist.append(INF)
                idx.append(self.n)
            else:
                dist.append(self.d[a, o[k - 1]])
                idx.append(o[k - 1])
        return dist, idx

    def query(self, x, k, distance_upper_bound=INF, workers=1):
        x = np.asarray(x)
        ks = list(k)
        if x.ndim == 1:
            d, i = self._one(x, ks, distance_upper_bound)
            return arr(self.sx, d) if self.sx.symbolic else np.array(d), np.array(i)
        ds, is_ = [], []
        for p in x:
            d, i = self._one(p, ks, distance_upper_bound)
            ds += d
            is_.append(i)
        d = arr(self.sx, ds) if self.sx.symbolic else np.array(ds)
        return d.reshape((len(is_), len(ks))), np.array(is_)


def _apart(sx, a, b):
    return sx.any(sx.le(a + 0.001, b), sx.le(b + 0.001, a))


class _Rng:
    def __init__(self, sx):
        self.sx = sx
        self.k = 0

    def choice(self, options):
        self.k += 1
        opts = sorted(int(o) for o in options)
        return np.int64(self.sx.choice(f"first{self.k}", opts))


class _NP:
    def __init__(self, base, rng):
        self._base = base
        self.random = self
        self._rng = rng

    def default_rng(self, seed=None):
        return self._rng

    def __getattr__(self, n):
        return getattr(self._base, n)


def _assistant(sx, n, bounds=(0, 0), target=False, width=1, free=None):
    m = sys.modules["preliz.predictive.ppa"]

    lo = sx.real("lower", -2, 0) if bounds[0] else -INF
    hi = sx.real("upper", 0.5, 2) if bounds[1] else INF
    f = m.FilterDistribution(None, n, 0, (lo, hi), None, True, "preliz")
    pts = [[sx.real(f"y{i}.{j}", -3, 3) for j in range(width)] for i in range(n)]
    f.pp_samples = (arr(sx, [v for p in pts for v in p]) if sx.symbolic else np.array([v for p in pts for v in p])).reshape((n, width))
    f.kdt = Tree(sx, n, target=target)
    f.pp_octiles = np.arange(n, dtype=float)[:, None]
    if target:
        f.ref_octiles = np.array([-1.0])
    inside = []
    for p in pts:
        ok = True
        if free is not None and len(inside) not in free:
            # known to be inside the boundaries
            for v in p:
                sx.assume(sx.all(sx.ge(v, lo + 0.01) if bounds[0] else True, sx.le(v, hi - 0.01) if bounds[1] else True))
            inside.append(True)
            continue
        for v in p:
            if bounds[0]:
                ok = ok and sx.is_true(v >= lo)
            if bounds[1]:
                ok = ok and sx.is_true(v <= hi)
        inside.append(ok)
    return m, f, [i for i in range(n) if inside[i]]


def _patched_np(sx, m):
    return sx.patched((m, "np", _NP(m.np, _Rng(sx))))


def _offer(n, bounds, rounds):
    """samples are offered until all were seen, each once, none outside the boundaries"""

    def body(sx):
        m, f, inside = _assistant(sx, n, bounds)
        seen = []
        with _patched_np(sx, m):
            for r in range(rounds):
                got = [int(i) for i in f.initialize_subsamples(None)]
                rest = [i for i in inside if i not in seen]
                sx.check("offers what remains", len(got) == min(9, len(rest)))
                sx.check("not seen before, inside the boundaries", set(got) <= set(rest) and len(set(got)) == len(got))
                for k in range(1, len(got)):
                    left = [i for i in rest if i not in got[:k]]
                    sx.check("farthest from the last one", sx.all(*[f.kdt.d[got[k - 1], i] <= f.kdt.d[got[k - 1], got[k]] for i in left]))
                seen += got
                sx.check("marked as shown", set(int(i) for i in f.shown) == set(seen) | (set(range(n)) - set(inside)))
        sx.check("nothing selected", f.selected == set() and f.choices == [])

    return body


def _toward(n, bounds):
    """with a target, the nearest samples inside the boundaries are offered"""

    def body(sx):
        m, f, inside = _assistant(sx, n, bounds, target=True)
        with _patched_np(sx, m):
            got = [int(i) for i in f.initialize_subsamples((0, 1))]
        sx.check("offers what remains", sorted(got) == sorted(inside))
        sx.check("nearest first", sx.all(*[f.kdt.d["t", a] <= f.kdt.d["t", b] for a, b in zip(got, got[1:])]))
        sx.check("distances kept", sx.all(*[sx.eq(f.distances[i], f.kdt.d["t", i]) for i in got]))
        sx.check("marked as shown", set(int(i) for i in f.shown) == set(range(n)))

    return body


def _keep(n, shown, choices):
    """after a selection, the walk visits the nearest sample not yet seen"""

    def body(sx):
        m, f, _ = _assistant(sx, n)
        f.shown = set(shown)
        f.choices = list(choices)
        got = [int(i) for i in f.keep_sampling()]
        if not choices:
            sx.check("nothing", got == [] and f.shown == set(shown))
            return
        sx.check("one choice is used", f.choices == list(choices[1:]))
        rest = [i for i in range(n) if i not in shown and i != choices[0]]
        sx.check("visits the unseen ones", sorted(got) == sorted(rest)[: len(got)] or set(got) <= set(rest))
        sx.check("as many as there are", len(got) == min(9, len(rest)) and len(set(got)) == len(got))
        last = choices[0]
        for k, i in enumerate(got):
            left = [j for j in rest if j not in got[:k]]
            sx.check("nearest to the last one", sx.all(*[f.kdt.d[last, i] <= f.kdt.d[last, j] for j in left]))
            sx.check("its distance", sx.eq(f.distances[i], f.kdt.d[last, i]))
            last = i
        sx.check("marked as shown", set(int(i) for i in f.shown) == set(shown) | set(got))

    return body


def _extend(n, selected, known, bounds):
    """the selection grows by near samples inside the boundaries"""

    def body(sx):
        m, f, inside = _assistant(sx, n, bounds, free=[n - 1])
        f.selected = set(selected)
        f.shown = set(selected)
        ds = [sx.real(f"known{i}", 0.1, 9) for i in range(len(known))]
        f.distances = dict(zip(known, ds))
        used = [d for k, d in f.distances.items() if k in f.selected]
        if len(used) > 2:
            for a, b in zip(used, used[1:]):
                sx.assume(sx.le(a + 0.01, b))
        f.collect_more_samples()
        sel = set(int(i) for i in f.selected)
        sx.check("keeps the user's", set(selected) <= sel)
        new = sel - set(selected)
        if len(used) <= 2:
            want = {f.kdt.order(s)[1] for s in selected}
            may = want
        else:
            # the distance allowed is the mean without the ends
            keep = used[1:-1]
            far = sum(keep) / len(keep)
            want = set()
            for s in selected:
                for k, j in enumerate(f.kdt.order(s)[1:], 2):
                    if k < n and sx.is_true(f.kdt.d[s, j] < far):
                        want.add(j)
        if any(bounds):
            lo, hi = f.boundaries
            may = {j for j in want if j in inside}
            # a sample that touches a boundary may be left out
            must = set()
            for j in may:
                y = f.pp_samples[j][0]
                a = sx.is_true(y > lo) if bounds[0] else True
                b = sx.is_true(y < hi) if bounds[1] else True
                if a and b:
                    must.add(j)
        else:
            may = must = want
        sx.check("no far or forbidden sample", new <= may - set(selected) or new <= may)
        sx.check("every near sample", must <= sel)
        sx.check("marked as shown", set(int(i) for i in f.shown) == set(selected) | must)

    return body


class _Fig:
    def __init__(self):
        self.canvas = self
        self.title = None

    def suptitle(self, t, **k):
        self.title = t

    def draw(self):
        pass

    def clf(self):
        pass


class _Ax:
    def __init__(self, i):
        self.i = i
        self.spines = {}

    def get_title(self):
        return str(self.i)

    def cla(self):
        pass


def _rounds(n):
    """clicks: the clicked samples are selected for good, and new ones are shown"""

    def body(sx):
        m, f, _ = _assistant(sx, n)
        f.fig, f.fig_pp_mean = _Fig(), _Fig()
        drawn = []

        def samples(pp, idxs, *a):
            drawn.append(("samples", [int(i) for i in idxs], pp))

        def means(pp, idxs, *a):
            drawn.append(("means", sorted(int(i) for i in idxs), pp))

        patches = [
            (m, "plot_pp_samples", samples),
            (m, "plot_pp_mean", means),
            (m, "shuffle", lambda c: None),
            (m.plt, "setp", lambda *a, **k: None),
        ]
        with _patched_np(sx, m), sx.patched(*patches):
            first = [int(i) for i in f.initialize_subsamples(None)][:2]
            f.shown = set(first)
            f.display_pp_idxs = first
            f.axes = [_Ax(i) for i in first]
            f.clicked = [f.axes[sx.choice("click", [0, 1])]]
            pick = f.clicked[0].i
            f.carry_on("pdf", True)
            near = f.kdt.order(pick)[1]
            sx.check("the clicked one and its neighbour are selected", set(int(i) for i in f.selected) == {pick, near})
            sx.check("clicks are cleared", f.clicked == [] and f.choices == [])
            sx.check("mean of the selection", ("means", sorted({pick, near})) in [d[:2] for d in drawn])
            shown2 = [int(i) for i in f.display_pp_idxs]
            rest = [i for i in range(n) if i not in first and i != near]
            sx.check("only new ones are shown", sorted(shown2) == sorted(rest))
            # nothing clicked, nothing left
            f.carry_on("pdf", True)
            sx.check("all were seen", list(f.display_pp_idxs) == [] and f.fig.title == "We have seen all the samples")
            sx.check("the selection stays", set(int(i) for i in f.selected) == {pick, near})

    return body


def _return(k, enough):
    """the prior draws that are fitted are those of the selected samples"""

    def body(sx):
        m = sys.modules["preliz.predictive.ppa"]

        n = 7
        a = [sx.real(f"a{i}", -3, 3) for i in range(n)]
        b = [sx.real(f"b{i}", 0.1, 3) for i in range(n)]
        f = m.FilterDistribution(None, n, 0, (-INF, INF), None, False, "preliz")
        f.fig = _Fig()
        f.model = {"a": pz.Normal(), "b": pz.HalfNormal()}
        f.prior_samples = {"b": arr(sx, b) if sx.symbolic else np.array(b), "a": arr(sx, a) if sx.symbolic else np.array(a), "c": None}
        f.selected = set([5, 1, 6, 2, 0, 3][:k])
        text = []
        with sx.patched((m.plt, "text", lambda x, y, s, **kw: text.append(s)), (m.plt, "yticks", lambda *a: None), (m.plt, "xticks", lambda *a: None)):
            f.on_return_prior()
        if not enough:
            sx.check("asks for more", text == [] and f.fig.title == "Please select more distributions")
            sx.check("nothing is fitted", f.model["a"].is_frozen is False)
            return
        sel = sorted(f.selected)
        got = _lines(sx, text[0].split("new families")[0])
        ma = sum(a[i] for i in sel) / k
        sx.check("mean", _num(sx, got["a"][1]["mu"], ma))
        sx.check("family", (got["a"][0], got["b"][0]) == ("Normal", "HalfNormal"))
        sx.check("a", sx.all(sx.eq(f.model["a"].mu, ma), sx.eq(f.model["a"].sigma ** 2 * k, sum((a[i] - ma) ** 2 for i in sel))))
        sx.check("b", sx.eq(f.model["b"].sigma ** 2 * k, sum(b[i] ** 2 for i in sel)))

    return body


def _lines(sx, text):
    """name -> (family, parameters) of the lines "name = Family(k=v, ...)" """
    import re

    toks = sx.ctx.tokens if sx.symbolic else {}
    out = {}
    for name, fam, args in re.findall(r"^(\w+) = (\w+)\((.*)\)$", text, flags=re.M):
        src = re.sub("\u27e8(\\d+)\u27e9", r"_tok(\1)", args)
        out[name] = (fam, eval(f"dict({src})", {"_tok": lambda k: toks[k][0], "dict": dict, "nan": math.nan, "inf": INF}))
    return out


def _select(k):
    def body(sx):
        from preliz.internal.predictive_helper import select_prior_samples

        n = 5
        a = [sx.real(f"a{i}", -3, 3) for i in range(n)]
        b = [sx.real(f"b{i}", -3, 3) for i in range(2 * n)]
        pri = {
            "b": (arr(sx, b) if sx.symbolic else np.array(b)).reshape((n, 2)),
            "a": arr(sx, a) if sx.symbolic else np.array(a),
            "unused": None,
        }
        sel = [sx.choice(f"s{i}", list(range(n))) for i in range(k)]
        out = select_prior_samples(sel, pri, {"a": None, "b": None})
        sx.check("variables", set(out) == {"a", "b"})
        sx.check("a", sx.eq(list(out["a"].ravel()), [a[i] for i in sel]))
        sx.check("b", sx.eq(list(out["b"].ravel()), [b[2 * i + j] for i in sel for j in range(2)]))

    return body


def _pairs(engine, values):
    """the prior draw and the predictive sample number i come from the same run of the model"""

    def body(sx):
        from preliz.ppls.agnostic import get_prior_pp_samples

        T = 3
        run = [[sx.real(f"{v}{i}", -3, 3) for v in ("a", "b", "y0.", "y1.")] for i in range(T)]
        calls = []

        def model(*args):
            calls.append(args)
            if engine == "bambi":
                return tuple(arr(sx, [r[j] for r in run]) if sx.symbolic else np.array([r[j] for r in run]) for j in (0, 1)) + (
                    (arr(sx, [v for r in run for v in r[2:]]) if sx.symbolic else np.array([v for r in run for v in r[2:]])).reshape((T, 2)),
                )
            a, b, y0, y1 = run[len(calls) - 1]
            return a, b, arr(sx, [y0, y1]) if sx.symbolic else np.array([y0, y1])

        args = (T,) if not values else (T, engine, [7, 8])
        pp, pri = get_prior_pp_samples(model, ["a", "b", "y"], *args, **({} if values else {"engine": engine}))
        sx.check("runs", len(calls) == (1 if engine == "bambi" else T) and all(c == ((7, 8) if values else ()) for c in calls))
        sx.check("names", list(pri) == ["a", "b"])
        sx.check("a", sx.eq(list(pri["a"].ravel()), [r[0] for r in run]))
        sx.check("b", sx.eq(list(pri["b"].ravel()), [r[1] for r in run]))
        sx.check("y", sx.all(pp.shape == (T, 2), sx.eq(list(pp.ravel()), [v for r in run for v in r[2:]])))

    return body


def _refit(kinds, new):
    """every prior is fitted to its own draws, also when other families are considered"""

    def body(sx):
        import preliz.internal.predictive_helper as ph

        T = 3
        mk = {"cont": pz.Normal, "half": pz.HalfNormal, "disc": pz.Poisson, "gamma": pz.Exponential}
        model = {f"v{i}": mk[k]() for i, k in enumerate(kinds)}
        sub = {v: [sx.real(f"{v}.{i}", 0.5, 3) for i in range(T)] for v in model}
        calls = []

        def fit(dists, sample, plot=True):
            c = len(calls)
            rows = {}
            for d in dists:
                vals = {k: sx.real(f"fit{c}.{type(d).__name__}.{k}", 0.5, 0.9) for k in d.param_names}
                d._parametrization(**vals)
                rows[type(d).__name__] = vals
            names = [type(d).__name__ for d in dists]
            best = sx.choice(f"best{c}", sorted(names))
            calls.append((rows, best, [x for x in sample], plot))
            b = names.index(best)
            return np.array([b] + [j for j in range(len(dists)) if j != b]), None

        data = {v: arr(sx, x) if sx.symbolic else np.array(x) for v, x in sub.items()}
        with sx.patched((ph, "mle", fit)):
            text, values = ph.back_fitting_ppa(model, data, new)
        first, _, second = text.partition("(new families)")
        got = _lines(sx, first)
        want = []
        for (v, d), k in zip(model.items(), kinds):
            x = sub[v]
            s = sum(x) / T
            fam = {"cont": "Normal", "half": "HalfNormal", "disc": "Poisson", "gamma": "Exponential"}[k]
            sx.check("family", got[v][0] == fam)
            sq = {
                "cont": lambda: {"mu": s, "sigma": (sum((u - s) ** 2 for u in x) / T) ** 0.5},
                "half": lambda: {"sigma": (sum(u**2 for u in x) / T) ** 0.5},
                "disc": lambda: {"mu": s},
                "gamma": lambda: {"lam": 1 / s},
            }[k]()
            sx.check("names", set(got[v][1]) == set(sq))
            sx.check("fit", sx.all(*[_num(sx, got[v][1][n], z) for n, z in sq.items()]))
            want += [sq[n] for n in d.param_names]
        sx.check("returned parameters", sx.eq(list(np.ravel(values)) if not sx.symbolic else list(values.ravel()), want))
        sx.check("families considered", len(calls) == (len(model) if new else 0))
        if not new:
            sx.check("only the original ones", second == "")
            return
        got = _lines(sx, second)
        for (v, d), k, (rows, best, sample, plot) in zip(model.items(), kinds, calls):
            own = type(d).__name__
            sx.check("candidates", set(rows) == {own} | ({"Poisson", "NegativeBinomial"} if k == "disc" else {"Gamma", "Exponential"}))
            sx.check("its own draws", sx.eq(sample, sub[v]))
            sx.check("best one", got[v][0] == best)
            sx.check("its values", sx.all(*[_num(sx, got[v][1][n], z) for n, z in rows[best].items()]))
            sx.check("not drawn", plot is False)

    return body


def _octiles(n, rows_=2):
    """octiles of every predictive sample"""

    def body(sx):
        m = sys.modules["preliz.predictive.ppa"]

        rows = [[sx.real(f"y{i}.{j}", -3, 3) for j in range(n)] for i in range(rows_)]
        f = m.FilterDistribution(None, rows_, 0, (-INF, INF), None, True, "preliz")
        f.pp_samples = (arr(sx, [v for r in rows for v in r]) if sx.symbolic else np.array([v for r in rows for v in r])).reshape((rows_, n))
        made = []
        with sx.patched((m, "KDTree", lambda pts: made.append(pts) or "tree")):
            oct_, kdt = f.compute_octiles()
        sx.check("the tree holds the octiles", kdt == "tree" and made[0] is oct_)
        sx.check("shape", oct_.shape == (rows_, 7))
        for r, o in zip(rows, oct_):
            s = list(r)
            for i in range(n):
                for j in range(n - 1 - i):
                    if sx.is_true(s[j] > s[j + 1]):
                        s[j], s[j + 1] = s[j + 1], s[j]
            want = []
            for q in range(1, 8):
                pos = q * (n - 1) / 8
                k = int(pos)
                want.append(s[k] + (pos - k) * (s[min(k + 1, n - 1)] - s[k]))
            sx.check("octiles", sx.eq(list(o), want))

    return body


def _target(kind):
    def body(sx):
        m = sys.modules["preliz.predictive.ppa"]

        mu, sigma = sx.real("mu", -3, 3), sx.real("sigma", 0.5, 2)
        draws = [sx.real(f"r{i}", -3, 3) for i in range(2)]
        f = m.FilterDistribution(None, 2, 0, (-INF, INF), None, True, "preliz")
        f.pp_samples = np.zeros((5, 2))
        seen = []

        def rvs(d, size, **k):
            seen.append((d, size))
            return arr(sx, draws) if sx.symbolic else np.array(draws)

        f.target = (mu, sigma) if kind == "tuple" else pz.Gamma(mu=sigma, sigma=sigma)
        with sx.patched((pz.Normal, "rvs", rvs), (pz.Gamma, "rvs", rvs)):
            f.add_target_dist()
        d, size = seen[0]
        sx.check("as many values as a predictive sample", size == 2)
        if kind == "tuple":
            sx.check("mean and standard deviation", sx.all(type(d) is pz.Normal, sx.eq(d.mu, mu), sx.eq(d.sigma, sigma)))
        else:
            sx.check("the distribution itself", d is f.target)
        lo, hi = (draws[0], draws[1]) if sx.is_true(draws[0] <= draws[1]) else (draws[1], draws[0])
        sx.check("octiles", sx.eq(list(f.ref_octiles), [lo + (hi - lo) * q / 8 for q in range(1, 8)]))

    return body


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in (2, 3, 4) + ((5,) if th else ()):
        for bounds in ((0, 0), (1, 0), (0, 1), (1, 1)):
            if n >= 4 and any(bounds) and not th:
                continue
            out.append(Case(f"offer/{n}/{bounds[0]}{bounds[1]}", _offer(n, bounds, 2), max_paths=4000))
            out.append(Case(f"toward/{n}/{bounds[0]}{bounds[1]}", _toward(n, bounds), max_paths=4000))
    for n in (3, 4) + ((5,) if th else ()):
        for shown, choices in (((), ()), ((0, 1), ()), ((0,), (0,)), ((0, 1), (1, 0)), ((1, 2), (2,)), ((0, 1, 2), (2, 0))):
            out.append(Case(f"keep/{n}/{len(shown)}-{''.join(map(str, choices))}", _keep(n, shown, choices), max_paths=4000))
    for n, sel, known in ((3, (0,), ()), (4, (0, 2), (0,)), (4, (0, 1, 2), (0, 1, 2)), (4, (0, 1, 2), (0, 1, 3))):
        for bounds in ((0, 0), (1, 0), (0, 1)):
            if n == 4 and known == (0, 1, 2) and any(bounds) and not th:
                continue
            out.append(Case(f"extend/{n}/{''.join(map(str, sel))}/{''.join(map(str, known))}/{bounds[0]}{bounds[1]}", _extend(n, sel, known, bounds), max_paths=20000, case_s=900))
    for n in (3, 4) if th else (3,):
        out.append(Case(f"rounds/{n}", _rounds(n), max_paths=4000))
    for k, enough in ((0, False), (4, False), (5, True), (6, True)):
        out.append(Case(f"return/{k}", _return(k, enough)))
    out.append(Case("select", _select(3), max_paths=400))
    for engine in ("preliz", "bambi"):
        for values in (False, True):
            out.append(Case(f"pairs/{engine}/{values}", _pairs(engine, values)))
    for kinds in (("cont", "half"), ("disc",), ("disc", "cont"), ("gamma", "disc")):
        for new in (True, False):
            out.append(Case(f"refit/{'-'.join(kinds)}/{new}", _refit(kinds, new)))
    for n in (2, 3, 4):
        out.append(Case(f"octiles/{n}", _octiles(n, 2 if n < 4 else 1), max_paths=1000))
    for kind in ("tuple", "dist"):
        out.append(Case(f"target/{kind}", _target(kind)))
    return out
