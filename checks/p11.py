"""Intervals contain the mass they promise."""

import math

import numpy as np

import preliz as pz
from checks import lawtools as L
from checks.p08 import setup_cont as censored_setup
from checks.stubs import continuous, discrete, ite
from engine.harness import Case
from preliz.internal import optimization as _opt
from preliz.internal.rcparams import rc_context, rcParams

BOUNDS = [
    "discrete laws: every law on 3-4 (quick) / 5 (thorough) consecutive integers, masses >= 1/64; requested mass in [1/16, 15/16]",
    "continuous laws: every piecewise constant density on 3 cells, masses >= 1/64; censored versions for every pair of censoring points of the given kind",
    "formatting to two decimals is taken as any value within 0.005",
]
ASSUMPTIONS = [
    "the constrained minimiser is replaced by its contract: a feasible point of the problem it is given that is not worse than any other feasible point",
    "for the shortest-interval claim on discrete laws: unimodal without ties",
]
INF = math.inf


def mass_of(sx):
    return sx.real("mass", 1 / 16, 15 / 16)


def _outside(law, l, u):
    return law.mass(lambda a: a < l), law.mass(lambda a: a > u)


def _discrete(K, lo, what):
    def body(sx):
        base = discrete(sx, K, lo)
        law = L.Atoms(base.atoms, base.p)
        mass = mass_of(sx)
        alpha = (1 - mass) / 2
        inside = lambda a, b: law.mass(lambda v: (v >= a) & (v <= b))
        if what == "eti":
            l, u = base.eti(mass, fmt="none")
            below, above = _outside(law, l, u)
            sx.check("equal tails", sx.all(sx.le(below, alpha), sx.le(above, alpha)))
            sx.check("not wider than needed", sx.all(sx.ge(law.mass(lambda a: a <= l), alpha), sx.ge(law.mass(lambda a: a >= u), alpha)))
            sx.check("values of the variable", sx.all(l >= lo, l <= u, u <= base.hi))
            sx.check("format does not matter", sx.eq(base.eti(mass), [l, u]))
            return
        if what == "shortest":
            k = sx.choice("mode", list(range(K + 1)))
            for i in range(K):
                sx.assume(base.p[i] < base.p[i + 1] if i < k else base.p[i] > base.p[i + 1])
            for i in range(K + 1):
                for j in range(i):
                    sx.assume((base.p[i] - base.p[j] >= 1e-3) | (base.p[j] - base.p[i] >= 1e-3))
        l, u = base.hdi(mass, fmt="none")
        sx.check("contains the mass", sx.ge(inside(l, u), mass))
        sx.check("values of the variable", sx.all(l >= lo, l <= u, u <= base.hi))
        if what == "shortest":
            for a in base.atoms:
                for b in base.atoms:
                    if b >= a and b - a < u - l:
                        sx.check("no shorter interval contains the mass", sx.le(inside(a, b), mass))

    return body


def minimiser(sx, rivals, base=None):
    """contract of scipy.optimize.minimize for two free end points"""

    def minimize(fun, x0, bounds=None, constraints=(), **k):
        cons = [constraints] if isinstance(constraints, dict) else list(constraints)
        (blo, bhi) = bounds[0]
        lo = -50.0 if blo == -INF else blo
        hi = 50.0 if bhi == INF else bhi
        l, u = sx.real("hdi_low", -50, 50), sx.real("hdi_up", -50, 50)
        sx.assume((l >= lo) & (l <= u) & (u <= hi))
        mk = lambda a, b: np.array([a, b])
        for c in cons:
            v = c["fun"](mk(l, u), *c.get("args", ()))
            sx.assume((v <= 0) & (v >= 0) if c["type"] == "eq" else v >= 0)
        for a, b, cond in rivals:
            if not sx.is_true(cond):
                continue
            ok = sx.is_true((a >= lo) & (b <= hi) & (a <= b))
            for c in cons:
                v = c["fun"](mk(a, b), *c.get("args", ()))
                ok = ok and sx.is_true((v <= 0) & (v >= 0) if c["type"] == "eq" else v >= 0)
            if ok:
                sx.assume(fun(mk(l, u)) <= fun(mk(a, b)))

        class Res:
            x = np.array([l, u])
            success = True
            fun_ = None

        return Res

    return minimize


EDGES = [0.0, 1.0, 2.0, 3.0]


def _within(sx, v, edges, i):
    sx.assume((v >= edges[i]) & ((v < edges[i + 1]) if i + 2 < len(edges) else (v <= edges[i + 1])))


def _cont(what, edges=EDGES, ca=0, cb=0):
    def body(sx):
        base = continuous(sx, edges)
        mass = mass_of(sx)
        alpha = (1 - mass) / 2
        if what == "eti":
            l, u = base.eti(mass, fmt="none")
            sx.check("equal tails", sx.all(sx.eq(base._cdf(l), alpha), sx.eq(base._cdf(u), 1 - alpha)))
            r = base.eti(mass)
            sx.check("rounded", sx.all(sx.le(r[0] - l, 0.005), sx.ge(r[0] - l, -0.005), sx.le(r[1] - u, 0.005), sx.ge(r[1] - u, -0.005)))
            return
        a, b = sx.real("a", 0, 3), sx.real("b", 0, 3)
        _within(sx, a, edges, ca)
        _within(sx, b, edges, cb)
        sx.assume(a <= b)
        sx.assume(base._cdf(b) - base._cdf(a) == mass)
        with sx.patched((_opt, "minimize", minimiser(sx, [(a, b, True)]))):
            l, u = base.hdi(mass, fmt="none")
        sx.check("contains the mass", sx.ge(base._cdf(u) - base._cdf(l), mass))
        sx.check("inside the support", sx.all(l >= 0, l <= u, u <= edges[-1]))
        sx.check("not longer than any interval with that mass", sx.le(u - l, b - a))

    return body


def _censored(lk, uk, edges, ca, cb, cl, cu):
    """[a, b]: any interval with at least the mass"""

    def body(sx):
        from checks.p07 import bound, eff

        end = edges[-1]
        base = continuous(sx, edges)
        lower = bound(sx, "lower", lk, -1, end - 0.5)
        upper = bound(sx, "upper", uk, 0.5, end + 1)
        lw, up = eff(lower, -INF), eff(upper, INF)
        if cl is not None:
            sx.assume(lw < edges[1] if cl == 0 else (lw >= edges[cl]) & (lw < edges[cl + 1]))
        if cu is not None:
            sx.assume(up >= edges[-2] if cu == len(edges) - 2 else (up >= edges[cu]) & (up < edges[cu + 1]))
        lo = 0.0 if lw == -INF or sx.is_true(lw <= 0) else lw
        hi = end if up == INF or sx.is_true(up >= end) else up
        sx.assume(lo + 0.25 <= hi)
        mass = mass_of(sx)
        lo_out, hi_out = base._cdf(lo), 1 - base._cdf(hi)

        # the rival: every interval [a, b] between the points that has the mass
        a, b = sx.real("a", 0, end), sx.real("b", 0, end)
        _within(sx, a, edges, ca)
        _within(sx, b, edges, cb)
        sx.assume((a >= lo) & (b <= hi) & (a <= b))
        at_lo, at_hi = sx.is_true(a <= lo), sx.is_true(b >= hi)
        inner = base._cdf(b) - base._cdf(a)
        total = inner + (lo_out if at_lo else 0.0) + (hi_out if at_hi else 0.0)
        # one that touches a point may have more than the mass, one that does
        # not is compared when it has exactly the mass (a longer one is no rival)
        sx.assume(total >= mass if at_lo or at_hi else inner == mass)
        d = pz.Censored(base, lower, upper)
        with sx.patched((_opt, "minimize", minimiser(sx, [(a, b, not (at_lo or at_hi))]))):
            l, u = d.hdi(mass, fmt="none")
        sx.check("inside the support", sx.all(sx.ge(l, lo), sx.le(l, u), sx.le(u, hi)))
        got = base._cdf(u) - base._cdf(l)
        got = got + ite(l <= lo, lo_out, 0.0) + ite(u >= hi, hi_out, 0.0)
        sx.check("contains the mass", sx.ge(got, mass))
        sx.check("not longer than any interval with that mass", sx.le(u - l, b - a))

    return body


def _summary(kind, interval):
    def body(sx):
        base = discrete(sx, 2, 0) if kind == "discrete" else continuous(sx, EDGES)
        mass = mass_of(sx)
        near = lambda x, y: sx.all(sx.le(x - y, 0.005), sx.ge(x - y, -0.005))
        if interval == "given":
            q1, q2 = sx.real("q1", 1 / 16, 1 / 2), sx.real("q2", 1 / 2, 15 / 16)
            s = base.summary(interval=(q1, q2))
            want = base.ppf([q1, q2])
        elif interval == "default":
            s = base.summary(mass)
            want = base.eti(mass, fmt="none")
        elif interval == "preferred":
            with rc_context({"stats.ci_prob": mass, "stats.ci_kind": "hdi" if kind == "discrete" else "eti"}):
                s = base.summary()
                want = base.hdi(mass, fmt="none") if kind == "discrete" else base.eti(mass, fmt="none")
                e = base.eti(fmt="none")
            sx.check("preferred mass", sx.eq(e, base.eti(mass, fmt="none")))
            sx.check("preferences restored", rcParams["stats.ci_prob"] == 0.94 or rcParams["stats.ci_prob"] == 0.89)
        else:
            s = base.summary(mass, interval="hdi")
            want = base.hdi(mass, fmt="none")
        sx.check("fields", tuple(s._fields) == ("mean", "median", "std", "lower", "upper"))
        sx.check("mean", near(s.mean, base.mean()))
        sx.check("median", near(s.median, base.median()))
        sx.check("std", near(s.std, base.std()))
        sx.check("interval", sx.all(near(s.lower, want[0]), near(s.upper, want[1])))

    return body


def _refused():
    def body(sx):
        mass = mass_of(sx)
        mu, k = sx.real("mu", -3, 3), sx.real("kappa", 0.1, 9)
        for q in ("eti", "hdi", "summary"):
            for d in (pz.Normal(), pz.Beta(alpha=k), pz.Poisson(), pz.Truncated(pz.Normal(), 0.0, 1.0), pz.VonMises()):
                r = sx.attempt(getattr(d, q), mass)
                sx.check(f"{q} of an undefined law is refused", type(r).__name__ == "Raised" and isinstance(r.exc, ValueError))
            r = sx.attempt(getattr(pz.Normal(mu, k), q), mass, fmt=2)
            sx.check(f"{q} with a format that is no string is refused", type(r).__name__ == "Raised" and isinstance(r.exc, ValueError))
            r = sx.attempt(getattr(pz.Normal(np.array([mu, mu]), k), q), mass)
            sx.check(f"{q} of array parameters is refused", type(r).__name__ == "Raised" and isinstance(r.exc, ValueError))
            d = pz.VonMises(mu, k)
            r = sx.attempt(getattr(d, q), mass, fmt=2)
            sx.check(f"a refused {q} leaves the law as it was", sx.all(sx.eq(d.mu, mu), sx.eq(d.kappa, k), sx.eq(d.params, [mu, k]), d.is_frozen is True))

    return body


def cases(tier):
    K = 3 if tier == "quick" else 4
    out = [Case("refused", _refused())]
    for lo in (0, -2):
        for w in ("eti", "hdi", "shortest"):
            out.append(Case(f"discrete/from {lo}/{w}", _discrete(K if lo == 0 or tier == "thorough" else 2, lo, w)))
    out.append(Case("continuous/eti", _cont("eti")))
    edges = EDGES[:3] if tier == "quick" else EDGES
    n = len(edges) - 1
    for ca in range(n):
        for cb in range(ca, n):
            out.append(Case(f"continuous/hdi/{ca}{cb}", _cont("hdi", edges, ca, cb), max_paths=600))
    kinds = ("none", "real", "inf")
    pairs = [(lk, uk) for lk in kinds for uk in kinds] if tier == "thorough" else [("none", "inf"), ("real", "none"), ("none", "real")]
    for lk, uk in pairs:
        for ca in range(n):
            for cb in range(ca, n):
                for cl in range(n) if lk == "real" else (None,):
                    for cu in range(n) if uk == "real" else (None,):
                        if (cl is None or cl <= ca) and (cu is None or cu >= cb):
                            name = f"censored/{lk}{cl if cl is not None else ''}-{uk}{cu if cu is not None else ''}/{ca}{cb}"
                            out.append(Case(name, _censored(lk, uk, edges, ca, cb, cl, cu), max_paths=1500, case_s=300))
    for kind in ("discrete", "continuous"):
        for i in ("given", "default", "preferred") + (("hdi",) if kind == "discrete" else ()):
            out.append(Case(f"summary/{kind}/{i}", _summary(kind, i)))
    return [c for c in out if tier == "thorough" or c.tier == "quick"]
