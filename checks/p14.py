"""combine pools the laws in proportion to their weights."""

import warnings

import numpy as np

import preliz as pz
from checks.famstub import CFam, mk
from engine.harness import Case

BOUNDS = [
    "one to three laws, any non-negative weights in [0, 4] (not all zero), samples of up to 6 values, any values in [1/4, 4]",
    "candidates Normal, Laplace, Exponential and HalfNormal, alone or together",
]
ASSUMPTIONS = ["what a law draws is arbitrary; its own sampler is the subject of other properties"]


class Source(CFam):
    """draws arbitrary values and remembers how it was asked"""

    def rvs(self, size=None, random_state=None):
        state = random_state.bit_generator.state if isinstance(random_state, np.random.Generator) else None
        n = int(size)
        vals = [self.sx.real(f"{self.tag}x{len(self.told)}.{j}", 1 / 4, 4) for j in range(n)]
        self.told.append((n, random_state, state, vals))
        return mk(vals, self.sx)


def sources(sx, n, fixed_values=False):
    out = []
    for i in range(n):
        d = Source(sx, "ab", tag=f"law{i}.", a=float(i), b=1.0)
        if fixed_values:
            vals = [0.4 + 0.9 * i + 0.31 * j * (i + 1) for j in range(8)]

            def rvs(size=None, random_state=None, d=d, vals=vals):
                d.told.append((int(size), random_state, None, vals[: int(size)]))
                return mk(vals[: int(size)], sx)

            d.rvs = rvs
        out.append(d)
    return out


def pooled(laws):
    return [v for d in laws for _, _, _, vals in d.told for v in vals]


def shares(sx, laws, w, size):
    tot = sum(w)
    for i, d in enumerate(laws):
        sx.check("each law is asked once", len(d.told) == 1)
        n = sum(t[0] for t in d.told)
        # the share of the law, up to rounding to whole numbers
        sx.check("share of the sample in proportion to the weight", sx.all(sx.le(n * tot, size * w[i] + tot), sx.ge(n * tot, size * w[i] - tot)))
        sx.check("law is unchanged", sx.eq(d.params, [float(i), 1.0]))
    sx.check("no more values than asked for", sum(t[0] for d in laws for t in d.told) <= size)


def generators(sx, laws, seed):
    gens = [t[1] for d in laws for t in d.told]
    sx.check("one generator for all laws", all(isinstance(g, np.random.Generator) and g is gens[0] for g in gens))
    if isinstance(seed, int):
        first = next((t[2] for d in laws for t in d.told), None)
        sx.check("the generator is the seeded one", first == np.random.default_rng(seed).bit_generator.state)
    elif seed is not None:
        sx.check("the generator is the one given", gens[0] is seed)


def _pool(n, size, how, seed=0):
    def body(sx):
        laws = sources(sx, n)
        kw = {}
        w = [1.0] * n
        if how != "default":
            w = [sx.real(f"w{i}", 0, 4) for i in range(n)]
            if n == 3:
                # any proportions of a total of 5/2
                w[2] = 2.5 - w[0] - w[1]
                sx.assume(sx.ge(w[2], 0))
            else:
                sx.assume(sx.ge(sum(w), 1 / 4))
            kw["weights"] = list(w) if how == "list" else mk(w, sx)
        gen = np.random.default_rng(7) if seed == "generator" else seed
        if seed != 0:
            kw["rng"] = gen
        r, ax = pz.combine(laws, dist_names=["Normal"], sample_size=size, plot=0, **kw)
        shares(sx, laws, w, size)
        generators(sx, laws, gen)
        if how != "default":
            sx.check("the weights given are unchanged", sx.eq(list(kw["weights"]), w))
        sx.check("one fitted law", len(r) == 1 and type(r[0]).__name__ == "Normal" and r[0].is_frozen)
        xs = pooled(laws)
        m = sum(xs) / len(xs)
        sx.check("fitted to every value drawn (mean)", sx.eq(r[0].mu, m))
        if len(xs) > 1:
            sx.check("fitted to every value drawn (spread)", sx.eq(r[0].sigma ** 2, sum((x - m) ** 2 for x in xs) / len(xs)))
        sx.check("nothing is drawn", ax is None)

    return body


def _order(names, size):
    """the candidates come back sorted, fitted to the pooled sample"""

    def body(sx):
        laws = sources(sx, 2, fixed_values=True)
        w = [sx.real(f"w{i}", 0, 4) for i in range(2)]
        sx.assume(sx.ge(sum(w), 1 / 4))
        r, ax = pz.combine(laws, weights=list(w), dist_names=list(names), sample_size=size, plot=0)
        shares(sx, laws, w, size)
        xs = np.array(pooled(laws), dtype=float)
        sx.check("every candidate comes back once", sorted(type(d).__name__ for d in r) == sorted(names))
        loss = []
        for d in r:
            ref = getattr(pz, type(d).__name__)()
            ref._fit_mle(xs)
            sx.check("fitted to the pooled sample", sx.eq(list(d.params), list(ref.params)))
            k, n = len(d.params), len(xs)
            loss.append(float(-np.sum(ref.logpdf(xs))) + k + k * (k + 1) / (n - k - 1) if n > k + 1 else np.inf)
        sx.check("best first", all(a <= b + 1e-9 for a, b in zip(loss, loss[1:])))

    return body


def _defaults():
    def body(sx):
        laws = sources(sx, 2, fixed_values=True)
        sizes = []
        for d in laws:
            d.rvs = lambda size=None, random_state=None: sizes.append(int(size)) or np.linspace(1.0, 3.0, int(size))
        w = [sx.real(f"w{i}", 1 / 4, 4) for i in range(2)]
        # the exact sizes do not matter here
        sx.assume(sx.eq(w[0], w[1]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, ax = pz.combine(laws, plot=0)
        sx.check("default candidates", sorted(type(d).__name__ for d in r) == ["Gamma", "LogNormal", "Normal", "StudentT"])
        sx.check("ten thousand values in equal shares", sizes == [5000, 5000])

    return body


def _refused(n):
    def body(sx):
        laws = sources(sx, n)
        w = [sx.real(f"w{i}", -4, 4) for i in range(n)]
        neg = sx.any(*[x < 0 for x in w])
        if not sx.is_true(neg):
            return
        r = sx.attempt(pz.combine, laws, weights=list(w), dist_names=["Normal"], sample_size=4, plot=0)
        sx.check("negative weights are refused", type(r).__name__ == "Raised" and isinstance(r.exc, ValueError))
        sx.check("and nothing is drawn", all(not d.told for d in laws))

    return body


def cases(tier):
    out = []
    for n, size in ((1, 3), (2, 4), (2, 5), (3, 3), (3, 4)):
        for how in ("default", "list", "array"):
            if how == "array" and n == 3:
                continue
            out.append(Case(f"pool/{n} laws/{size} values/{how}", _pool(n, size, how)))
    for seed in (3, None, "generator"):
        out.append(Case(f"pool/rng {seed}", _pool(2, 3, "list", seed)))
    out.append(Case("pool/3 laws/6 values/list", _pool(3, 6, "list"), tier="thorough"))
    for names in (("Normal", "Laplace"), ("Exponential", "Normal", "HalfNormal"), ("HalfNormal", "Laplace", "Exponential", "Normal")):
        for size in (6, 8):
            out.append(Case(f"order/{'-'.join(names)}/{size}", _order(names, size)))
    out.append(Case("refused/2", _refused(2)))
    out.append(Case("refused/3", _refused(3)))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
