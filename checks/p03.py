"""Parameter combinations: incompatible ones rejected, partial ones leave the distribution undefined."""

import inspect

from checks.common import ALT, DISTS, cls, draw1
from engine.harness import Case

BOUNDS = ["every subset of the constructor's parameters, values in [1/32, 32]"]
ASSUMPTIONS = []

# limits that have a documented default (no limit, the unit interval)
DEFAULTED = {"BetaScaled": {"lower", "upper"}, "TruncatedNormal": {"lower", "upper"}}
QUERIES = ("summary", "eti", "hdi")


def _case(name, subset, later):
    def body(sx):
        sets = [tuple(DISTS[name])] + [tuple(a["names"]) for a in ALT.get(name, [])]
        kinds = {}
        for a in ALT.get(name, []):
            kinds.update(a["kinds"])
        kinds.update(DISTS[name])
        v = {n: draw1(sx, f"{name}.{n}", kinds[n]) for n in subset}
        if "lower" in v and "upper" in v:
            sx.assume(v["lower"] + 1 <= v["upper"])
        if "mu" in v and "sigma" in v and name == "Beta":
            sx.assume(v["mu"] <= 0.75)
            sx.assume(v["mu"] >= 0.25)
            sx.assume(v["sigma"] <= 0.25)
        ok = [s for s in sets if set(subset) <= set(s)]
        full = [s for s in ok if set(s) == set(subset)]
        dflt = DEFAULTED.get(name, set())
        if name == "BetaScaled" and {"alpha", "beta"} <= set(subset):
            full = sets
            if "lower" in v:
                sx.assume(v["lower"] <= 0)
            if "upper" in v:
                sx.assume(v["upper"] >= 1)
        if later:
            d = cls(name)()
            r = sx.attempt(d._parametrization, **v)
        else:
            r = sx.attempt(cls(name), **v)
            d = r
        if not ok:
            sx.check("incompatible combination rejected", getattr(r, "name", None) == "ValueError")
            return
        err = type(r).__name__ == "Raised"
        sx.check("compatible combination accepted", not err)
        if err:
            return
        sx.check("defined exactly when complete", d.is_frozen is bool(full))
        names = tuple(d.param_names)
        sx.check("names form a compatible documented parametrization", any(set(s) == set(names) for s in ok))
        sx.check("given values are kept", sx.all(*[sx.eq(getattr(d, n), v[n]) for n in subset]))
        sx.check("one range per parameter", len(d.params_support) == len(names))
        if full:
            sx.check("names are the given ones", set(names) - dflt == set(subset) - dflt)
            sx.check("params", sx.all(*[sx.eq(p, v[n]) for n, p in zip(names, d.params) if n in v]))
        else:
            sx.check("missing ones stay unset", all(getattr(d, n, None) is None for n in names if n not in subset and n not in dflt))
            sx.check("no params", d.params_dict is None)
            sx.check("no values in metadata", "params" not in d.info())
            for q in QUERIES:
                r = sx.attempt(getattr(d, q))
                sx.check(f"{q} rejects an undefined distribution", getattr(r, "name", None) == "ValueError")

    return body


def cases(tier):
    import itertools

    out = []
    for name in DISTS:
        sig = [p for p in inspect.signature(cls(name).__init__).parameters if p != "self"]
        for k in range(len(sig) + 1):
            for sub in itertools.combinations(sig, k):
                for later in (False, True):
                    if later and name == "BetaScaled":
                        continue  # limits are set by the constructor only
                    out.append(Case(f"{name}({','.join(sub)}){'/later' if later else ''}", _case(name, sub, later), witnesses=1))
    return out
