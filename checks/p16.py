"""mle ranks the candidates by the corrected information criterion."""

import warnings

import numpy as np

import preliz as pz
from checks.p06 import arr, spread
from engine.harness import Case
from preliz.distributions.distributions import Continuous

BOUNDS = [
    "two or three candidate laws with 1 to 4 parameters, any log densities in [-50, 50] per value, any supports",
    "samples of 2 to 7 values (rows of a table: 2 x 2 and 2 x 3)",
]
ASSUMPTIONS = ["a candidate is anything that can be fitted and has log densities; its fit is an uninterpreted function of the sample"]
INF = float("inf")


class Candidate(Continuous):
    """k parameters; fitting sets them to values that depend on the sample"""

    def __init__(self, sx, tag, k, support):
        super().__init__()
        self.sx, self.tag, self.k = sx, tag, k
        self.param_names = tuple(f"p{i}" for i in range(k))
        self.params = (None,) * k
        self.support = support
        self.fits = []
        for n in self.param_names:
            setattr(self, n, None)

    def _parametrization(self, **kw):
        for n, v in kw.items():
            setattr(self, n, v)
        self.params = tuple(kw[n] for n in self.param_names)
        self.is_frozen = True

    def _fit_mle(self, sample):
        row = [v for v in sample]
        self.fits = self.fits + [row]
        self._parametrization(**{n: self.sx.real(f"{self.tag}.fit{len(self.fits) - 1}.{n}", -9, 9) for n in self.param_names})

    def logpdf(self, x):
        return arr(self.sx, [self.sx.real(f"{self.tag}.ll{len(self.fits) - 1}.{i}", -50, 50) for i, _ in enumerate(x)])

    @property
    def params_dict(self):
        return dict(zip(self.param_names, self.params))


class Inside(Candidate):
    pass


def aicc(k, n):
    return k + k * (k + 1) / (n - k - 1)


def _quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        return f(*a, **k), w


def _rank(ks, n, outside=()):
    def body(sx):
        xs = [sx.real(f"x{i}", 0, 1) for i in range(n)]
        dists = []
        for j, k in enumerate(ks):
            sup = (2.0, 3.0) if j in outside else (-INF, INF)
            dists.append(Inside(sx, f"d{j}", k, sup))
        (idx, ax), w = _quiet(pz.mle, dists, list(xs) if not sx.symbolic else arr(sx, xs), plot=0)
        loss = []
        for j, (d, k) in enumerate(zip(dists, ks)):
            if j in outside:
                sx.check("a law that can not produce the sample is not fitted", d.is_frozen is False and not d.fits)
                loss.append(INF)
                continue
            sx.check("fitted once, in place, to the whole sample", sx.all(len(d.fits) == 1, sx.eq(d.fits[0], xs), d.is_frozen is True))
            v = -sum(sx.real(f"d{j}.ll0.{i}", -50, 50) for i in range(n))
            loss.append(v + aicc(k, n) if n > k + 1 else INF)
        order = [int(i) for i in idx]
        sx.check("every candidate is ranked once", sorted(order) == list(range(len(ks))))
        for a, b in zip(order, order[1:]):
            sx.check("best first", loss[b] == INF or (loss[a] != INF and sx.le(loss[a], loss[b])) if INF in (loss[a], loss[b]) else sx.le(loss[a], loss[b]))
        sx.check("warns when nothing was fitted", bool(w) == (len(outside) == len(ks)))
        sx.check("nothing is drawn", ax is None)

    return body


def _edges(lk, uk):
    """a candidate with bounded support is fitted when the sample is inside it"""

    def body(sx):
        xs = [sx.real(f"x{i}", -4, 4) for i in range(3)]
        lo = sx.real("lower", -4, 0) if lk == "real" else -INF
        up = sx.real("upper", 0.5, 4) if uk == "real" else INF
        d = Inside(sx, "d", 1, (lo, up))
        e = Inside(sx, "e", 1, (-INF, INF))
        _quiet(pz.mle, [d, e], arr(sx, xs), plot=0)
        ok = sx.all(*[(x >= lo) & (x <= up) if lk == uk == "real" else (x >= lo if lk == "real" else x <= up) for x in xs])
        inside = sx.is_true(ok)
        sx.check("fitted if and only if the support contains the sample", d.is_frozen is inside)
        sx.check("the other one is fitted", e.is_frozen is True)

    return body


def _rows(rows, cols):
    def body(sx):
        xs = [[sx.real(f"x{r}{i}", 0, 1) for i in range(cols)] for r in range(rows)]
        ks = (1, 2)
        dists = [Inside(sx, f"d{j}", k, (-INF, INF)) for j, k in enumerate(ks)]
        table = np.array(xs) if not sx.symbolic else arr(sx, [v for row in xs for v in row]).reshape((rows, cols))
        # each fit is recorded in the copies made for the rows
        seen = {}
        for d in dists:
            seen[d.tag] = d.fits = Log()
        (idx, _), _w = _quiet(pz.mle, dists, table, plot=0)
        loss = []
        for j, (d, k) in enumerate(zip(dists, ks)):
            got = seen[d.tag].rows
            sx.check("one fit per row", sx.all(len(got) == rows, *[sx.eq(g, x) for g, x in zip(got, xs)]))
            for n in d.param_names:
                want = [sx.real(f"d{j}.fit{r}.{n}", -9, 9) for r in range(rows)]
                sx.check("one value of each parameter per row", sx.eq(getattr(d, n), want))
            loss.append(-sum(sx.real(f"d{j}.ll{r}.{i}", -50, 50) for r in range(rows) for i in range(cols)) + aicc(k, rows * cols))
        order = [int(i) for i in idx]
        sx.check("best first", sx.le(loss[order[0]], loss[order[1]]))

    return body


class Log:
    """a list shared by copies"""

    def __init__(self):
        self.rows = []

    def __add__(self, more):
        self.rows.extend(more)
        return self

    def __len__(self):
        return len(self.rows)


def _normal_rows():
    """a real family on a table"""

    def body(sx):
        xs = [[sx.real(f"x{r}{i}", -4, 4) for i in range(2)] for r in range(2)]
        for row in xs:
            spread(sx, row)
        table = np.array(xs) if not sx.symbolic else arr(sx, [v for row in xs for v in row]).reshape((2, 2))
        d = pz.Normal()
        _quiet(pz.mle, [d], table, plot=0)
        for r, row in enumerate(xs):
            sx.check("each row has its mean", sx.eq(d.mu[r], (row[0] + row[1]) / 2))
            sx.check("each row has its deviation", sx.eq(4 * d.sigma[r] ** 2, (row[0] - row[1]) ** 2))

    return body


def _bounded(name):
    """families whose bounds come from the sample, used again on another sample"""

    def body(sx):
        import preliz.internal.optimization as _opt

        d = getattr(pz, name)()
        for t in ("first", "second"):
            xs = [sx.real(f"{t}{i}", -4, 4) for i in range(2)]
            spread(sx, xs)
            out = {}

            def minimize(fun, x0, bounds=None, args=(), **k):
                return {"x": arr(sx, [1.0, 1.0, d.lower, d.upper])}

            d._fit_moments = lambda m, s: out.update(at=(d.lower, d.upper)) or d._update(1.0, 1.0, d.lower, d.upper)
            with sx.patched((_opt, "minimize", minimize), (_opt, "get_penalization", lambda n, dist: 0.0)):
                d.logpdf = lambda x: arr(sx, [0.0 for _ in x])
                _quiet(pz.mle, [d], arr(sx, xs), plot=0)
            lo, up = sx.ite(xs[0] <= xs[1], xs[0], xs[1]), sx.ite(xs[0] <= xs[1], xs[1], xs[0])
            sx.check(f"{t}: fitted", d.is_frozen is True)
            sx.check(f"{t}: bounds of the sample", sx.all(sx.eq(d.lower, lo), sx.eq(d.upper, up), sx.eq(d.support, [lo, up])))

    return body


def cases(tier):
    out = []
    n3 = [(1, 2, 3), (2, 2, 1)]
    for ks in [(1, 2), (2, 1), (3, 4)] + n3:
        for n in (6, 7) if tier == "quick" else (6, 7, 12, 40):
            out.append(Case(f"rank/{ks}/{n}", _rank(ks, n)))
    for n in (2, 3, 4):
        out.append(Case(f"small sample/{n}", _rank((1, 2), n)))
        out.append(Case(f"small sample/three/{n}", _rank((2, 1, 3), n)))
    for o in ((0,), (1,), (0, 1)):
        out.append(Case(f"outside/{o}", _rank((1, 2), 5, o)))
    out.append(Case("outside/0, 2", _rank((1, 2, 1), 5, (0, 2))))
    for lk, uk in (("real", "inf"), ("inf", "real"), ("real", "real")):
        out.append(Case(f"support/{lk}-{uk}", _edges(lk, uk)))
    out.append(Case("rows/2x2", _rows(2, 2)))
    out.append(Case("rows/2x3", _rows(2, 3)))
    out.append(Case("rows/normal", _normal_rows()))
    for name in ("BetaScaled", "TruncatedNormal"):
        out.append(Case(f"bounds of the sample/{name}", _bounded(name)))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
