"""Reported state is consistent after any history of (re)parametrization and refits."""

from checks.common import ALT, DISTS, cls, draw, draw_alt, support_of
from engine.harness import Case

BOUNDS = [
    "parameters in [1/32, 32] (narrower where a family's domain is), integers 1..40",
    "histories of up to 2 (quick) or 3 (thorough) state-changing steps after construction",
]
ASSUMPTIONS = ["steps: construct, set parameters again (any documented parametrization), set canonical values the way fits do"]


def consistent(sx, d, name, want, tag):
    """want: names -> value given by the last step"""
    names = tuple(d.param_names)
    c = {n: getattr(d, n) for n in DISTS[name]}
    sx.check(tag + "defined", d.is_frozen is True)
    sx.check(tag + "attributes hold the last values", sx.all(*[sx.eq(getattr(d, n), v) for n, v in want.items()]))
    sx.check(tag + "params match attributes", len(d.params) == len(names))
    sx.check(tag + "params equal attributes", sx.all(*[sx.eq(p, getattr(d, n)) for n, p in zip(names, d.params)]))
    pd = d.params_dict
    sx.check(tag + "params_dict names", tuple(pd) == names)
    sx.check(tag + "params_dict values", sx.all(*[sx.eq(pd[n], getattr(d, n)) for n in names]))
    lo, hi = support_of(name, c)
    slo, shi = d.support
    sx.check(tag + "support", sx.all(_close_support(sx, slo, lo), _close_support(sx, shi, hi)))
    valid = [tuple(DISTS[name])] + [tuple(a["names"]) for a in ALT.get(name, [])]
    sx.check(tag + "names form a documented parametrization", tuple(sorted(names)) in [tuple(sorted(v)) for v in valid])
    info = d.info()
    sx.check(tag + "info params", sx.all(*[sx.eq(p, q) for p, q in zip(info["params"], d.params)]))
    sx.check(tag + "info names", tuple(info["param_names"]) == names)
    sx.check(tag + "info kind", info["kind"] == d.kind)
    for a in ALT.get(name, []):
        av = {n: getattr(d, n) for n in a["names"]}
        if "canon" in a and not all(sx.is_true(c[n] >= k[0]) for n, k in a["canon"].items() if k[0] != "pos"):
            continue  # mean and standard deviation do not exist there
        rel = a["rel"](sx, c, av)
        sx.check(tag + "derived " + "_".join(a["names"]), sx.all(*[sx.eq(x, y, tol=1e-5) for x, y in rel]))
        pv = info.get("parametrization_values", {}).get(tuple(a["names"]))
        if pv is not None:
            sx.check(
                tag + "info values " + "_".join(a["names"]),
                sx.all(*[sx.eq(p, av[n]) for p, n in zip(pv, a["names"])]),
            )
    return c


def _close_support(sx, got, want):
    return sx.eq(got, want, tol=1e-9)


def _set_alt(alt):
    def f(sx, d, name, tag):
        if alt is None:
            v = draw(sx, name, tag)
        else:
            v = draw_alt(sx, name, alt, tag)
        if d is None:
            d = cls(name)(**v)
        else:
            d._parametrization(**v)
        return d, v, tuple(v)

    return f


def _update(sx, d, name, tag):
    v = draw(sx, name, tag)
    if d is None:
        d = cls(name)()
    keep = tuple(d.param_names)
    d._update(*v.values())
    return d, v, keep


def _history(name, steps):
    def body(sx):
        d, names = None, None
        for i, st in enumerate(steps):
            d, v, names = st(sx, d, name, f"{i}.")
        sx.check("names", tuple(d.param_names) == names)
        c = consistent(sx, d, name, v, "")
        # equivalent to building afresh
        e = cls(name)(**c)
        sx.check("same support as a fresh one", sx.all(*[_close_support(sx, x, y) for x, y in zip(d.support, e.support)]))
        sx.check("same bounds on parameters", len(d.params_support) == len(d.params))
        for n in c:
            sx.observe(n, c[n])
        for p in d.params:
            sx.observe("p", p)

    return body


def _undefined(name):
    def body(sx):
        d = cls(name)()
        sx.check("undefined", d.is_frozen is False)
        sx.check("no params", d.params_dict is None)
        r = sx.attempt(d.summary)
        sx.check("summary rejects", getattr(r, "name", None) == "ValueError")
        r = sx.attempt(d.eti)
        sx.check("eti rejects", getattr(r, "name", None) == "ValueError")
        r = sx.attempt(d.hdi)
        sx.check("hdi rejects", getattr(r, "name", None) == "ValueError")
        sx.check("info has no values", "params" not in d.info())

    return body


def cases(tier):
    import itertools

    out = []
    for name in DISTS:
        ops = {"canon": _set_alt(None), "update": _update}
        for a in ALT.get(name, []):
            ops["_".join(a["names"])] = _set_alt(a)
        out.append(Case(f"{name}/undefined", _undefined(name)))
        for depth in (1, 2, 3):
            if depth == 3 and tier == "quick":
                continue
            for combo in itertools.product(ops, repeat=depth):
                if depth == 3 and combo[0] == combo[1]:
                    continue
                out.append(Case(f"{name}/" + ">".join(combo), _history(name, [ops[o] for o in combo]), witnesses=1))
    return out
