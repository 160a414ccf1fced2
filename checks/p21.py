"""rcParams always hold valid settings, contexts give them back, and defaults follow them."""

import importlib
import io
import os
import sys
import warnings

import numpy as np

import preliz as pz
from engine.harness import Case, Raised
from preliz.internal import plot_helper as _ph

rc = importlib.import_module("preliz.internal.rcparams")
maxent_mod = sys.modules["preliz.unidimensional.maxent"]
dist_mod = importlib.import_module("preliz.distributions.distributions")

BOUNDS = [
    "probabilities in [-2, 3] and the special values; histories of three (quick) or four (thorough) changes; two nested contexts",
    "files of up to three lines",
]
ASSUMPTIONS = ["open() of a settings file gives the lines of the case", "fits started by maxent, and the interval searches, are replaced by stand-ins that record the mass they were given"]
NAN = float("nan")
KEYS = ("plots.show_plot", "stats.ci_kind", "stats.ci_prob")


def _fresh():
    """the settings of the case, and those of the library restored afterwards"""
    return [(rc.rcParams, "_underlying_storage", dict(rc.rcParams._underlying_storage))]


def _state():
    return {k: rc.rcParams[k] for k in rc.rcParams}


def _same(sx, a, b):
    return sx.all(list(a) == list(b), *[sx.eq(a[k], b[k]) if k == "stats.ci_prob" else (a[k] is b[k] or (a[k] == b[k] and type(a[k]) is type(b[k]))) for k in a if k in b])


def _valid(sx):
    """whatever was done the settings are complete and valid"""
    s = _state()
    p = s["stats.ci_prob"]
    sx.check("complete", tuple(s) == KEYS)
    sx.check("a probability", sx.all(p == p, p >= 0, p <= 1))
    sx.check("a kind of interval", s["stats.ci_kind"] in ("eti", "hdi"))
    sx.check("a switch", s["plots.show_plot"] is True or s["plots.show_plot"] is False)


PROBS = [(NAN, None), (float("inf"), None), (-float("inf"), None), (None, None), ("abc", None), ("1.5", None), ([], None), ("0.25", 0.25), (0, 0.0), (1, 1.0), (np.float64(0.5), 0.5), (np.array(0.5), 0.5)]
KINDS = [("eti", "eti"), ("hdi", "hdi"), ("HDI", "hdi"), ("Eti", "eti"), ("foo", None), ("", None), (None, None), (1, None), ([], None), ("etihdi", None)]
SWITCH = [
    (True, True), (False, False), ("true", True), ("False", False), ("TRUE", True), (1, True), (0, False), (np.True_, True), (np.False_, False),
    ("yes", None), (None, None), (2, None), ([], None), ({}, None), ("", None), (0.5, None),
]  # fmt: skip


def _setting(sx, tag):
    """a setting: key, the value given, the value to be stored or None when it must be refused"""
    key = sx.choice(f"{tag}key", ["stats.ci_prob", "stats.ci_prob special", "stats.ci_kind", "plots.show_plot", "unknown"])
    if key == "stats.ci_prob":
        v = sx.real(f"{tag}p", -2, 3)
        return key, v, v if sx.is_true((v >= 0) & (v <= 1)) else None
    if key == "unknown":
        return "stats.unknown", 1, None
    opts = {"stats.ci_prob special": PROBS, "stats.ci_kind": KINDS, "plots.show_plot": SWITCH}[key]
    v, w = sx.choice(f"{tag}v", opts)
    return key.split(" ")[0], v, w


def _one(how):
    def body(sx):
        key, v, want = _setting(sx, "")
        with sx.patched(*_fresh()):
            before = _state()
            if how == "item":
                out = sx.attempt(rc.rcParams.__setitem__, key, v)
            elif how == "update":
                out = sx.attempt(rc.rcParams.update, {key: v})
            else:
                out = sx.attempt(rc.RcParams, {key: v})
            if how == "new":
                if want is None:
                    sx.check("refused", isinstance(out, Raised))
                else:
                    sx.check("stored", sx.all(list(out) == [key], sx.eq(out[key], want) if key == "stats.ci_prob" else (out[key] == want and type(out[key]) is type(want))))
                sx.check("other settings are left alone", _same(sx, _state(), before))
                return
            if want is None:
                err = KeyError if key == "stats.unknown" else ValueError
                sx.check("refused", isinstance(out, Raised) and isinstance(out.exc, err))
                sx.check("nothing changed", _same(sx, _state(), before))
            else:
                sx.check("accepted", not isinstance(out, Raised))
                sx.check("stored", _same(sx, _state(), {**before, key: want}))
            _valid(sx)

    return body


def _history(n):
    """a sequence of changes, good and bad"""

    def body(sx):
        with sx.patched(*_fresh()):
            want = _state()
            for i in range(n):
                op = sx.choice(f"op{i}", ["prob", "kind", "bad kind", "switch", "two", "delete", "pop", "popitem", "clear", "setdefault", "copy"])
                v = sx.real(f"p{i}", -2, 3)
                ok = False
                P = rc.rcParams
                if op == "prob":
                    out = sx.attempt(P.__setitem__, "stats.ci_prob", v)
                    ok = sx.is_true((v >= 0) & (v <= 1))
                    if ok:
                        want["stats.ci_prob"] = v
                elif op == "kind":
                    out, ok = sx.attempt(P.update, {"stats.ci_kind": "hdi"}), True
                    want["stats.ci_kind"] = "hdi"
                elif op == "bad kind":
                    out = sx.attempt(P.update, {"stats.ci_kind": "both"})
                elif op == "switch":
                    out, ok = sx.attempt(P.__setitem__, "plots.show_plot", not want["plots.show_plot"]), True
                    want["plots.show_plot"] = not want["plots.show_plot"]
                elif op == "two":
                    # the first is valid: only what comes before the refused one may be stored
                    out = sx.attempt(P.update, {"stats.ci_kind": "eti", "stats.ci_prob": v})
                    ok = sx.is_true((v >= 0) & (v <= 1))
                    want["stats.ci_kind"] = "eti"
                    if ok:
                        want["stats.ci_prob"] = v
                elif op == "delete":
                    out = sx.attempt(P.__delitem__, "stats.ci_prob")
                elif op == "pop":
                    out = sx.attempt(P.pop, "stats.ci_prob")
                elif op == "popitem":
                    out = sx.attempt(P.popitem)
                elif op == "clear":
                    out = sx.attempt(P.clear)
                elif op == "setdefault":
                    out = sx.attempt(P.setdefault, "stats.ci_prob", 0.5)
                else:
                    out, ok = sx.attempt(P.copy), True
                    if not isinstance(out, Raised):
                        sx.check("copy", _same(sx, dict(sorted(out.items())), want))
                        out["stats.ci_prob"] = 0.125
                sx.check("refused or accepted", isinstance(out, Raised) != ok)
                sx.check("settings", _same(sx, _state(), want))
            _valid(sx)

    return body


def _context(depth):
    """settings inside a context, and after it, however it is left"""

    def body(sx):
        with sx.patched(*_fresh()):
            before = _state()

            class Stop(Exception):
                pass

            def level(i):
                here = _state()
                p = sx.real(f"p{i}", -1 / 2, 3 / 2)
                good = sx.is_true((p >= 0) & (p <= 1))
                what = sx.choice(f"what{i}", ["prob", "both", "unknown", "nothing"])
                new = {"prob": {"stats.ci_prob": p}, "both": {"stats.ci_kind": "hdi", "stats.ci_prob": p}, "unknown": {"plots.show_plot": False, "foo": 1}, "nothing": None}[what]
                ok = {"prob": good, "both": good, "unknown": False, "nothing": True}[what]
                ctx = sx.attempt(rc.rc_context, new)
                sx.check("refused or accepted", isinstance(ctx, Raised) != ok)
                if isinstance(ctx, Raised):
                    sx.check("a refused context changes nothing", _same(sx, _state(), here))
                    return
                leave = sx.choice(f"leave{i}", ["end", "error", "change"])
                try:
                    with ctx:
                        sx.check("inside", _same(sx, _state(), {**here, **(new or {})}))
                        if leave == "error":
                            raise Stop
                        if leave == "change":
                            rc.rcParams["plots.show_plot"] = False
                            rc.rcParams["stats.ci_prob"] = 0.125
                        if i + 1 < depth:
                            level(i + 1)
                except Stop:
                    pass
                sx.check("after", _same(sx, _state(), here))

            level(0)
            sx.check("restored", _same(sx, _state(), before))

    return body


LINES = ["comment", "blank", "prob", "kind", "duplicate", "illegal", "bad value", "trailing comment"]


def _file(n):
    """settings read from a file"""

    def body(sx):
        p = sx.real("p", -1, 2)
        good = sx.is_true((p >= 0) & (p <= 1))
        text = {
            "comment": "# stats.ci_prob : 0.2",
            "blank": "   ",
            "prob": f"stats.ci_prob : {p}",
            "kind": "stats.ci_kind: HDI",
            "duplicate": "stats.ci_kind :eti",
            "illegal": "stats.ci_kind eti",
            "bad value": "plots.show_plot : maybe",
            "trailing comment": "plots.show_plot: false # no plots",
        }
        rows = [sx.choice(f"line{i}", LINES) for i in range(n)]
        want, ok, warned, n_kind = {}, True, 0, 0
        for r in rows:
            if r in ("kind", "duplicate", "prob", "trailing comment", "bad value"):
                key = {"kind": "stats.ci_kind", "duplicate": "stats.ci_kind", "prob": "stats.ci_prob"}.get(r, "plots.show_plot")
                if key in want:
                    warned += 1
                if r == "bad value" or (r == "prob" and not good):
                    ok = False
                    break
                want[key] = {"kind": "hdi", "duplicate": "eti", "prob": p, "trailing comment": False}[r]
            elif r == "illegal":
                warned += 1
        where = sx.choice("where", ["read", "context", "start"])
        name = os.path.abspath(__file__)

        def fake_open(f, *a, **k):
            assert f == name
            return io.StringIO("\n".join(text[r] for r in rows) + "\n")

        with warnings.catch_warnings(record=True) as w, sx.patched(*_fresh(), (rc, "open", fake_open), (rc, "get_preliz_rcfile", lambda: name)):
            warnings.simplefilter("always")
            here = _state()
            full = {**here, **want}
            if where == "read":
                out = sx.attempt(rc.read_rcfile, name)
                got = None if isinstance(out, Raised) else {k: out[k] for k in out}
                full = dict(sorted(want.items()))
            elif where == "start":
                base = {k: v for k, (v, _) in sorted(rc.defaultParams.items())}
                out = sx.attempt(rc.rc_params)
                got = None if isinstance(out, Raised) else {k: out[k] for k in out}
                full = {**base, **want}
            else:
                out = sx.attempt(rc.rc_context, None, name)
                got = _state()
                if not isinstance(out, Raised):
                    with out:
                        pass
                sx.check("restored", _same(sx, _state(), here))
            sx.check("refused or accepted", isinstance(out, Raised) != ok)
            if isinstance(out, Raised):
                sx.check("ValueError", isinstance(out.exc, ValueError))
            else:
                sx.check("settings of the file", _same(sx, got, full))
                sx.check("told about lines that are not settings and repeated ones", len(w) == warned)

    return body


# ------------------------------------------------------------------ the defaults of the functions
class _Seen(Exception):
    pass


def _defaults(what):
    def body(sx):
        p = sx.real("p", 1 / 64, 63 / 64)
        q = sx.real("q", 1 / 64, 63 / 64)
        kind = sx.choice("kind", ["eti", "hdi"])
        given = sx.choice("given", [False, True])
        mass = q if given else p
        seen = []

        def hdi(d, m):
            seen.append(m)
            return 0.25, 0.75

        pats = _fresh() + [(dist_mod, "find_hdi", hdi)]
        with sx.patched(*pats):
            rc.rcParams["stats.ci_prob"] = p
            rc.rcParams["stats.ci_kind"] = kind
            kw = {"mass": q} if given else {}
            d = pz.Uniform(0, 2)
            if what == "eti":
                lo, up = d.eti(fmt="none", **kw)
                sx.check("interval", sx.eq([lo, up], [1 - mass, 1 + mass]))
            elif what == "hdi":
                d.hdi(fmt="none", **kw)
                sx.check("mass", sx.all(len(seen) == 1, sx.eq(seen[0], mass)))
            elif what == "summary":
                other = sx.choice("interval", [None, "eti", "hdi"])
                calls = []
                e = pz.Uniform(0, 2)
                e.eti = lambda m=None, fmt=None: calls.append(("eti", m)) or (0.5, 1.5)
                e.hdi = lambda m=None, fmt=None: calls.append(("hdi", m)) or (0.25, 1.75)
                s = e.summary(interval=other, **kw)
                k = other or kind
                sx.check("interval", len(calls) == 1 and calls[0][0] == k and (s.lower, s.upper) == ((0.5, 1.5) if k == "eti" else (0.25, 1.75)))
                sx.check("mass", sx.eq(calls[0][1], mass) if calls[0][1] is not None else not given)
            elif what == "maxent":

                def opt(d, lower, upper, m, *a, **k):
                    seen.append(m)
                    raise _Seen

                with sx.patched((maxent_mod, "optimize_max_ent", opt)):
                    out = sx.attempt(pz.maxent, pz.Normal(), -1, 1, plot=False, **kw)
                sx.check("started", isinstance(out, Raised) and isinstance(out.exc, _Seen))
                sx.check("mass", sx.all(len(seen) == 1, sx.eq(seen[0], mass)))
            else:
                other = sx.choice("interval", [None, "eti", "hdi"])
                calls = []

                class D:
                    def eti(self, mass=None, fmt=None):
                        calls.append(("eti", mass))
                        return (0.0, 1.0)

                    def hdi(self, mass=None, fmt=None):
                        calls.append(("hdi", mass))
                        return (0.0, 1.0)

                    def median(self):
                        return 0.5

                class Ax:
                    def plot(self, *a, **k):
                        pass

                levels = [q] if given else None
                _ph.plot_pointinterval(D(), interval=other, levels=levels, ax=Ax())
                k = other or kind
                want = [q] if given else [0.5, p]
                sx.check("interval", all(c[0] == k for c in calls))
                sx.check("mass", sx.eq([c[1] for c in calls], want))

    return body


def cases(tier):
    out = []
    for how in ("item", "update", "new"):
        out.append(Case(f"one/{how}", _one(how)))
    n = 3 if tier == "quick" else 4
    out.append(Case(f"history/{n}", _history(n), max_paths=30000, case_s=400))
    for d in (1, 2):
        out.append(Case(f"context/{d}", _context(d), max_paths=3000))
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append(Case(f"file/{k}", _file(k), max_paths=6000))
    for what in ("eti", "hdi", "summary", "maxent", "pointinterval"):
        out.append(Case(f"defaults/{what}", _defaults(what)))
    return out
