"""Alternative parametrizations describe the same distribution."""

from checks.common import ALT, DISTS, cls, draw, draw_alt, draw1, holds
from engine.harness import Case

BOUNDS = ["parameters in [1/32, 32] (narrower where a family's domain is), integer parameters in 1..40"]
ASSUMPTIONS = ["the precision/scale relation is compared within a relative tolerance of 1e-6"]


def _attrs(d, names):
    return {n: getattr(d, n) for n in names}


def _from_alt(name, alt):
    def body(sx):
        a = draw_alt(sx, name, alt)
        d = cls(name)(**a)
        c = _attrs(d, DISTS[name])
        sx.check("is fully defined", d.is_frozen is True)
        sx.check("canonical values follow the documented relation", holds(sx, alt["rel"](sx, c, a)))
        sx.check("keeps the requested names", tuple(d.param_names) == tuple(alt["names"]))
        sx.check("params are the supplied values", sx.all(*[sx.eq(p, a[n]) for n, p in zip(alt["names"], d.params)]))
        sx.check("attributes are the supplied values", sx.all(*[sx.eq(getattr(d, n), a[n]) for n in alt["names"]]))
        pd = d.params_dict
        sx.check("params_dict names", sorted(pd) == sorted(alt["names"]))
        sx.check("params_dict values", sx.all(*[sx.eq(pd[n], a[n]) for n in pd]))
        for n in alt["names"]:
            sx.observe(n, getattr(d, n))
        for n in c:
            sx.observe("c." + n, c[n])
        # rebuild from the canonical values: same member of the family
        e = cls(name)(**c)
        sx.check("rebuilding from canonical keeps canonical", sx.all(*[sx.eq(getattr(e, n), c[n]) for n in c]))
        sx.check("rebuilding from canonical gives the alternative back", sx.all(*[sx.eq(getattr(e, n), a[n]) for n in a]))

    return body


def _from_canon(name, alt):
    def body(sx):
        if "canon" in alt:
            c = {k: draw1(sx, f"{name}.{k}", alt["canon"].get(k, DISTS[name][k])) for k in DISTS[name]}
        else:
            c = draw(sx, name)
        d = cls(name)(**c)
        a = _attrs(d, alt["names"])
        sx.check("names are canonical", tuple(d.param_names) == tuple(DISTS[name]))
        sx.check("alternative values follow the documented relation", holds(sx, alt["rel"](sx, c, a)))
        sx.check("canonical values kept", sx.all(*[sx.eq(getattr(d, n), c[n]) for n in c]))
        for n in a:
            sx.observe(n, a[n])
        e = cls(name)(**a)
        tol = 1e-5 if name in ("Beta", "InverseGamma") else 1e-6
        sx.check("building from the alternative gives canonical back", sx.all(*[sx.eq(getattr(e, n), c[n], tol=tol) for n in c]))
        for other in ALT[name]:
            if other is not alt:
                b = _attrs(e, other["names"])
                sx.check("all alternatives agree " + "_".join(other["names"]), holds(sx, other["rel"](sx, c, b), tol=1e-5))

    return body


def _positional(name):
    """positional arguments are the canonical parameters, in the documented order"""

    def body(sx):
        c = draw(sx, name)
        d = cls(name)(*c.values())
        sx.check("positional = keyword", sx.all(*[sx.eq(getattr(d, n), c[n]) for n in c]))
        sx.check("params in order", sx.all(*[sx.eq(p, v) for p, v in zip(d.params, c.values())]))
        sx.check("number of params", len(d.params) == len(c))
        for n in c:
            sx.observe(n, getattr(d, n))

    return body


def cases(tier):
    out = []
    for name, alts in ALT.items():
        for alt in alts:
            tag = "_".join(alt["names"])
            out.append(Case(f"{name}/{tag}/from_alt", _from_alt(name, alt)))
            out.append(Case(f"{name}/{tag}/from_canon", _from_canon(name, alt)))
    for name in DISTS:
        out.append(Case(f"{name}/positional", _positional(name)))
    return out
