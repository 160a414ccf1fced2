"""Harness API, symbolic runner, concrete replay, verdicts and evidence.

A *case* is a Python function ``body(sx)`` that drives real preliz code.  It is
executed twice: symbolically (``Sx``: inputs are solver variables, ``check``
asks the solver for a violating assignment on the current path) and concretely
(``Cx``: inputs are the numbers the solver found, preliz is unpatched).
"""

import contextlib
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
TOL = 1e-6


class Case:
    def __init__(self, name, body, tier="quick", **opts):
        self.name = name
        self.body = body
        self.tier = tier
        self.opts = opts


class Unreached(Exception):
    pass


class Raised:
    """result of sx.attempt"""

    def __init__(self, exc):
        self.exc = exc
        self.name = type(exc).__name__

    def __repr__(self):
        return f"Raised({self.name}: {self.exc})"


def _flat(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return list(np.asarray(x).ravel()) if x.dtype != object else list(x.view(np.ndarray).ravel())
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out.extend(_flat(v))
        return out
    return [x]


class _Base:
    def ite(self, c, a, b):
        if self.symbolic:
            from engine import sym

            return sym.ite(c, a, b)
        return a if c else b

    def attempt(self, f, *a, **k):
        from engine.errs import SymError

        try:
            return f(*a, **k)
        except SymError:
            raise
        except Exception as e:  # noqa: BLE001
            return Raised(e)

    @contextlib.contextmanager
    def patched(self, *triples):
        saved = []
        try:
            for obj, attr, val in triples:
                saved.append((obj, attr, obj.__dict__.get(attr, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, attr)))
                setattr(obj, attr, val)
            yield
        finally:
            for obj, attr, val in reversed(saved):
                if val is _MISSING:
                    delattr(obj, attr)
                else:
                    setattr(obj, attr, val)

    def reals(self, names, lo=None, hi=None, **k):
        return [self.real(n, lo, hi, **k) for n in names.split()]

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        raise NotImplementedError


_MISSING = object()


class Cond:
    """a condition with an exact and a tolerant reading (symbolic side)"""

    def __init__(self, exact, strong_neg=None, text=""):
        self.exact = exact  # z3 bool: holds exactly
        self.strong_neg = strong_neg  # z3 bool: violated by more than the tolerance
        self.text = text

    def __bool__(self):
        raise TypeError("a condition is not a truth value: use assume, check or is_true")


class Sx(_Base):
    symbolic = True

    def __init__(self, ctx, rec):
        self.ctx = ctx
        self.rec = rec

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        import z3

        from engine import sym

        v = self.ctx.inputs.get(name)
        if v is None:
            v = z3.Real("in_" + name)
            self.ctx.inputs[name] = v
            if lo is not None:
                self.ctx.pc.append(v > sym.num(lo) if open_lo else v >= sym.num(lo))
            if hi is not None:
                self.ctx.pc.append(v < sym.num(hi) if open_hi else v <= sym.num(hi))
        return sym.R(v)

    def int(self, name, lo, hi):
        import z3

        r = self.real(name, lo, hi)
        self.ctx.pc.append(z3.IsInt(r.e))
        from engine import sym

        k = z3.Int("int_" + name)
        self.ctx.pc.append(r.e == z3.ToReal(k))
        return sym.R(z3.ToReal(k))

    def flag(self, name):
        from engine import sym

        v = self.real(name, 0, 1)
        import z3

        self.ctx.pc.append(z3.Or(v.e == 0, v.e == 1))
        return sym.B(v.e == 1)

    def choice(self, name, options):
        v = self.int(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if self.ctx.branch(v.e == i):
                return options[i]
        return options[-1]

    def uf(self, name, *args, facts=None):
        r = self.ctx.apply("h_" + name, args, facts)
        return r

    def assume(self, c):
        from engine import sym

        if isinstance(c, Cond):
            self.ctx.assume(sym.B(c.exact))
            return
        for v in _flat(c):
            self.ctx.assume(v if isinstance(v, bool) or type(v) is sym.B else bool(v))

    def define(self, name, expr_fn):
        return expr_fn()

    def is_true(self, c):
        """fork on c"""
        if isinstance(c, Cond):
            return self.ctx.branch(c.exact)
        return bool(c)

    # -- conditions
    def eq(self, a, b, tol=TOL):
        import z3

        from engine import sym

        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            return Cond(z3.BoolVal(False), z3.BoolVal(True), "length")
        ex, sn = [], []
        for x, y in zip(fa, fb):
            e, s = self._eq1(x, y, tol)
            ex.append(e)
            sn.append(s)
        del sym
        return Cond(z3.And(*ex) if ex else z3.BoolVal(True), z3.Or(*sn) if sn else z3.BoolVal(False))

    def _eq1(self, x, y, tol):
        import z3

        from engine import sym

        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
            return (T, F) if (x is y or (type(x) is type(y) and x == y)) else (F, T)
        if type(x) is sym.B or type(y) is sym.B:
            c = sym.bterm(x) == sym.bterm(y)
            return c, z3.Not(c)
        sx_, sy_ = sym.isfinite(x), sym.isfinite(y)
        if not (sx_ and sy_):
            same = (not sx_) and (not sy_) and ((x == y) or (x != x and y != y))
            return (T, F) if same else (F, T)
        tx, ty = sym.term(x), sym.term(y)
        d = tx - ty
        t = sym.num(Fraction(tol))
        ay = z3.If(ty >= 0, ty, -ty)
        return tx == ty, z3.Or(d > t * (1 + ay), -d > t * (1 + ay))

    def le(self, a, b, tol=TOL):
        import z3

        from engine import sym

        ex, sn = [], []
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        for x, y in zip(fa, fb):
            if sym.isnan(x) or sym.isnan(y):
                return Cond(z3.BoolVal(False), z3.BoolVal(True))
            if not (sym.isfinite(x) and sym.isfinite(y)):
                ok = bool(x <= y)
                ex.append(z3.BoolVal(ok))
                sn.append(z3.BoolVal(not ok))
                continue
            tx, ty = sym.term(x), sym.term(y)
            t = sym.num(Fraction(tol))
            ex.append(tx <= ty)
            ay = z3.If(ty >= 0, ty, -ty)
            sn.append(tx - ty > t * (1 + ay))
        return Cond(z3.And(*ex) if ex else z3.BoolVal(True), z3.Or(*sn) if sn else z3.BoolVal(False))

    def ge(self, a, b, tol=TOL):
        return self.le(b, a, tol)

    def all(self, *cs):
        import z3

        cs = [self._cond(c) for c in cs]
        return Cond(
            z3.And(*[c.exact for c in cs]),
            z3.Or(*[c.strong_neg if c.strong_neg is not None else z3.Not(c.exact) for c in cs]),
        )

    def any(self, *cs):
        import z3

        cs = [self._cond(c) for c in cs]
        return Cond(
            z3.Or(*[c.exact for c in cs]),
            z3.And(*[c.strong_neg if c.strong_neg is not None else z3.Not(c.exact) for c in cs]),
        )

    def implies(self, p, c):
        import z3

        from engine import sym

        c = self._cond(c)
        pe = self._cond(p).exact
        del sym
        return Cond(
            z3.Implies(pe, c.exact),
            z3.And(pe, c.strong_neg if c.strong_neg is not None else z3.Not(c.exact)),
        )

    def _cond(self, c):
        import z3

        from engine import sym

        if isinstance(c, Cond):
            return c
        if type(c) is sym.B:
            return Cond(c.e, z3.Not(c.e))
        fl = _flat(c)
        ts = [sym.bterm(v) for v in fl]
        e = z3.And(*ts) if len(ts) != 1 else ts[0]
        return Cond(e, z3.Not(e))

    def check(self, label, c, known=None):
        """the property's assertion: must hold for every input on this path.

        known = (finding id, region): inside the region a failure is the listed
        finding; outside it is a violation.
        """
        import z3

        from engine import sym

        c = self._cond(c)
        rec = self.rec
        rec["labels"].setdefault(label, [0, 0, 0])
        pc = list(self.ctx.pc)
        if known is not None:
            kid, region = known
            reg = self._cond(region).exact if not isinstance(region, bool) else z3.BoolVal(region)
            self._decide(label, c, pc + [reg], known=kid)
            pc = pc + [z3.Not(reg)]
        self._decide(label, c, pc)

    def _decide(self, label, c, pc, known=None):
        import z3

        from engine import sym

        rec = self.rec
        ms = self.ctx.opts.get("check_ms", 8000)
        rec["obligations"] += 1
        ex = sym.simp(c.exact)
        if z3.is_true(ex):
            rec["discharged"] += 1
            rec["trivial"] += 1
            rec["labels"][label][0] += 1
            return
        from engine import ratnorm

        ex = ratnorm.simplify_equations(ex, self.ctx)
        if z3.is_true(ex):
            rec["discharged"] += 1
            rec["normalised"] = rec.get("normalised", 0) + 1
            rec["labels"][label][0] += 1
            return
        # failure beyond the tolerance?
        strong = c.strong_neg if c.strong_neg is not None else z3.Not(ex)
        if sym.narrow_unsat(pc, z3.Not(ex)):
            rec["discharged"] += 1
            rec["labels"][label][0] += 1
            return
        r, m = sym.solve(pc + [z3.Not(ex)], min(ms, 3000))
        if r == z3.unsat:
            rec["discharged"] += 1
            rec["labels"][label][0] += 1
            return
        models = []
        r2, m2 = sym.solve(pc + [strong], ms)
        if r2 == z3.unsat:
            rec["discharged"] += 1
            rec["labels"][label][0] += 1
            return
        if r2 == z3.sat:
            models.append(m2)
        elif r == z3.sat:
            models.append(m)
        if not models:
            rec["labels"][label][2] += 1
            rec["unknown"].append({"label": label, "why": "solver unknown"})
            # undecided: replay a few inputs of this path, which can only find, not prove
            if known is None and sum(1 for x in rec["cex"] if x.get("guess")) < 6:
                for mm in self.some_models(pc, 3):
                    with contextlib.suppress(sym.SymError):
                        rec["cex"].append({"label": label, "known": None, "guess": True, "inputs": self.model_inputs(mm)})
            return
        rec["labels"][label][1] += 1
        if known is not None and known in rec["known_seen"]:
            return
        if known is None and sum(1 for x in rec["cex"] if x["label"] == label and not x["known"]) >= 3:
            return
        # a few diverse models: UF abstractions can make some of them spurious
        models = self.some_models(list(pc) + [strong if r2 == z3.sat else z3.Not(ex)], self.ctx.opts.get("models", 4), models)
        for mm in models:
            try:
                inp = self.model_inputs(mm)
            except sym.SymError:
                continue
            rec["cex"].append({"label": label, "known": known, "inputs": inp})
        if known is not None:
            rec["known_seen"].add(known)

    def some_models(self, cons, n, models=()):
        import z3

        from engine import sym

        cons, models = list(cons), list(models)
        if not models:
            r, m = sym.solve(cons, 2000)
            if r != z3.sat:
                return []
            models = [m]
        for _ in range(n - 1):
            diff = []
            for n, v in self.ctx.inputs.items():
                try:
                    q = sym.val_of(models[-1], v)
                except Exception:  # noqa: BLE001
                    continue
                w = Fraction(1, 10) + abs(q) / 10
                diff.append(z3.Or(v > sym.num(Fraction(q + w)), v < sym.num(Fraction(q - w))))
            if not diff:
                break
            cons.append(z3.Or(*diff))
            r3, m3 = sym.solve(cons, 2000)
            if r3 != z3.sat:
                break
            models.append(m3)
        return models

    def model_inputs(self, m):
        from engine import sym

        inp = {}
        for n, v in self.ctx.inputs.items():
            q = sym.val_of(m, v)
            inp[n] = float(q)
        tab = {}
        for n, apps in self.ctx.apps.items():
            if n.startswith("h_"):
                tab[n[2:]] = [
                    [[float(sym.val_of(m, a)) for a in args], float(sym.val_of(m, v))] for args, v in apps
                ]
        return {"in": inp, "uf": tab}

    def observe(self, label, value):
        self.rec["obs_now"].append((label, value))

    def note(self, text):
        self.ctx.notes.add(text)


class ReplayDiverged(Exception):
    pass


class Cx(_Base):
    symbolic = False

    def __init__(self, inputs):
        self.vals = inputs["in"]
        self.tab = inputs["uf"]
        self.failed = []
        self.passed = []
        self.obs = []

    def real(self, name, lo=None, hi=None, **k):
        v = self.vals.get(name)
        if v is None:
            # not constrained on the solver's path
            v = lo if lo is not None else (hi if hi is not None else 0.0)
            if k.get("open_lo") and lo is not None:
                v = lo + (0.5 if hi is None else (hi - lo) / 2)
        return float(v)

    def int(self, name, lo, hi):
        v = self.vals.get(name)
        return int(lo if v is None else round(v))

    def flag(self, name):
        return self.vals.get(name, 0.0) >= 0.5

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def uf(self, name, *args, facts=None):
        args = [float(a) for a in args]
        best = None
        for pa, v in self.tab.get(name, []):
            d = max((abs(p - a) / (1 + abs(p)) for p, a in zip(pa, args)), default=0)
            if best is None or d < best[0]:
                best = (d, v)
        if best is None or best[0] > 1e-6:
            raise ReplayDiverged(f"{name}{args}")
        return best[1]

    def assume(self, c):
        for v in _flat(c):
            if not bool(v):
                raise ReplayDiverged("assumption does not hold in floating point")

    def is_true(self, c):
        return bool(c)

    def eq(self, a, b, tol=TOL):
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            return False
        return all(self._eq1(x, y, tol) for x, y in zip(fa, fb))

    @staticmethod
    def _eq1(x, y, tol):
        if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
            return x is y or (type(x) is type(y) and x == y)
        x, y = float(x), float(y)
        if not (math.isfinite(x) and math.isfinite(y)):
            return x == y or (x != x and y != y)
        return abs(x - y) <= 0.5 * tol * (1 + abs(y))

    def le(self, a, b, tol=TOL):
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        if len(fa) == 1:
            fa = fa * len(fb)
        ok = True
        for x, y in zip(fa, fb):
            x, y = float(x), float(y)
            ok = ok and (x <= y or x - y <= 0.5 * tol * (1 + abs(y)))
        return ok

    def ge(self, a, b, tol=TOL):
        return self.le(b, a, tol)

    def all(self, *cs):
        return all(self._t(c) for c in cs)

    def any(self, *cs):
        return any(self._t(c) for c in cs)

    def implies(self, p, c):
        return (not self._t(p)) or self._t(c)

    @staticmethod
    def _t(c):
        return all(bool(v) for v in _flat(c))

    def check(self, label, c, known=None):
        ok = self._t(c)
        (self.passed if ok else self.failed).append(label)

    def observe(self, label, value):
        self.obs.append((label, [_num(v) for v in _flat(value)]))

    def note(self, text):
        pass


def _num(v):
    try:
        return float(v)
    except Exception:  # noqa: BLE001
        return str(v)


# ------------------------------------------------------------------ symbolic run
FUNCS = set()


def _start_monitor():
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "verif")
    except ValueError:
        return
    from engine import load

    root = load.REPO + "/"

    def on_start(code, off):
        if code.co_filename.startswith(root):
            FUNCS.add(f"{code.co_filename[len(root):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)


def _until_timeout(paths, rec):
    from engine import sym

    try:
        yield from paths
    except sym.Timeout:
        rec["bounds"].append("bound: time")


def run_case(pid, case, deadline):
    """symbolically execute one case; returns a plain dict"""
    import random

    import numpy as np

    from engine import sym

    sym.STATS.__init__()
    rec = {
        "case": case.name,
        "paths": 0,
        "branches": 0,
        "obligations": 0,
        "discharged": 0,
        "trivial": 0,
        "labels": {},
        "unknown": [],
        "cex": [],
        "witness": [],
        "known_seen": set(),
        "errors": [],
        "bounds": [],
        "reached": 0,
        "notes": set(),
        "unknown_branches": 0,
    }
    opts = dict(case.opts)
    opts.setdefault("max_s", max(5.0, min(opts.get("case_s", 150), min(deadline, _DEADLINE.value) - time.time())))
    t0 = time.time()

    def run(ctx):
        rec["obs_now"] = []
        random.seed(0)
        np.random.seed(0)
        sx = Sx(ctx, rec)
        try:
            case.body(sx)
        except (sym.SymError, RecursionError, NotImplementedError) as e:
            ctx.notes.add(f"not encodable: {type(e).__name__}: {e}"[:300])
            rec["errors"].append(f"not encodable: {type(e).__name__}: {e}"[:400])
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return
        except Exception as e:  # noqa: BLE001
            # the real code (or the proxies) raised: only a replay can tell
            import z3

            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            r, m = sym.solve(ctx.pc, 5000)
            rec["obligations"] += 1
            if r == z3.unsat:
                rec["discharged"] += 1
                return
            if r == z3.sat:
                with contextlib.suppress(Exception):
                    rec["cex"].append(
                        {
                            "label": "no unexpected exception",
                            "known": None,
                            "inputs": sx.model_inputs(m),
                            "exc": f"{type(e).__name__}: {e}"[:300],
                            "tb": traceback.format_exc()[-800:],
                        }
                    )
                    return
            rec["unknown"].append({"label": "exception", "why": f"{type(e).__name__}: {e}"[:200]})
            return
        # reachability witness + a concrete run of the same path
        import z3

        r, m = sym.solve(ctx.pc, 5000)
        if r != z3.unsat:
            rec["reached"] += 1
        if r == z3.sat and len(rec["witness"]) < opts.get("witnesses", 2):
            with contextlib.suppress(Exception):
                w = sx.model_inputs(m)
                obs = []
                for label, v in rec["obs_now"]:
                    obs.append((label, [_obs_val(m, x, ctx) for x in _flat(v)]))
                rec["witness"].append({"inputs": w, "obs": obs})

    limit = t0 + opts["max_s"] + 60

    def tick(*_):
        if time.time() > min(limit, _DEADLINE.value + 15):
            raise sym.Timeout

    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 2, 2)
    for ctx, status in _until_timeout(sym.explore(run, opts), rec):
        if ctx is None:
            rec["bounds"].append(status)
            continue
        rec["paths"] += 1
        rec["branches"] += len(ctx.taken)
        rec["unknown_branches"] += ctx.unknown_branches
        rec["notes"] |= ctx.notes
        if status.startswith("bound"):
            rec["bounds"].append(status)
    signal.setitimer(signal.ITIMER_REAL, 0)
    rec["wall"] = time.time() - t0
    rec["stats"] = vars(sym.STATS).copy()
    rec["known_seen"] = sorted(rec["known_seen"])
    rec["notes"] = sorted(rec["notes"])
    rec.pop("obs_now", None)
    rec["funcs"] = sorted(FUNCS)
    return rec


def _obs_val(m, x, ctx):
    from engine import sym

    if type(x) is sym.R:
        # terms built from uninterpreted functions have no concrete meaning
        if _has_uf(x.e, ctx):
            return None
        return float(sym.val_of(m, x.e))
    if type(x) is sym.B:
        if _has_uf(x.e, ctx):
            return None
        return float(sym.val_of(m, x.e))
    return _num(x)


def _has_uf(e, ctx):
    import z3

    todo, seen = [e], set()
    defs = {}
    for k, v in ctx.quots.items():
        defs[k] = v
    roots = {v.get_id(): k for k, v in ctx.memo.items() if isinstance(k, tuple) and k[0] == "root"}
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n.startswith("uf_h_"):
                continue
            if n.startswith("uf_"):
                return True
            if t.get_id() in defs:
                todo.extend(defs[t.get_id()])
            elif t.get_id() in roots:
                rid = roots[t.get_id()][2]
                for kt in ctx.keep:
                    if kt.get_id() == rid:
                        todo.append(kt)
                        break
        todo.extend(t.children())
    return False


# ------------------------------------------------------------------- replay side
def replay_main(path):
    """run tasks concretely on the real, unpatched preliz"""
    from engine import load

    import resource

    load.load_real()
    lim = 8 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    with open(path) as f:
        tasks = json.load(f)
    out = []
    import importlib
    import random
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    cache = {}
    for t in tasks:
        pid = t["property"]
        if pid not in cache:
            mod = importlib.import_module(f"checks.{pid.lower()}")
            cache[pid] = {c.name: c for c in mod.cases(t.get("tier", "quick"))}
        case = cache[pid][t["case"]]
        random.seed(0)
        np.random.seed(0)
        cx = Cx(t["inputs"])
        res = {"failed": [], "passed": [], "diverged": None, "raised": None, "obs": []}
        signal.signal(signal.SIGALRM, _too_long)
        signal.setitimer(signal.ITIMER_REAL, 30, 5)
        try:
            case.body(cx)
        except ReplayDiverged as e:
            res["diverged"] = str(e)
        except _TooLong:
            res["diverged"] = "the replay takes too long"
        except Exception as e:  # noqa: BLE001
            res["raised"] = f"{type(e).__name__}: {e}"[:400]
            res["tb"] = traceback.format_exc()[-1500:]
        res["failed"] = cx.failed
        res["passed"] = cx.passed
        res["obs"] = cx.obs
        signal.setitimer(signal.ITIMER_REAL, 0)
        out.append(res)
        with open(path + ".out", "a") as f:
            f.write(json.dumps(res) + "\n")


class _TooLong(BaseException):
    pass


def _too_long(*_):
    raise _TooLong


def replay(tasks, tag, nproc=8, timeout=240):
    """concrete results for tasks, run in fresh interpreters"""
    if not tasks:
        return []
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    n = max(1, min(nproc, (len(tasks) + 2) // 3))
    chunks = [tasks[i::n] for i in range(n)]
    procs = []
    env = dict(os.environ)
    env["PYTHONPATH"] = VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for i, ch in enumerate(chunks):
        p = os.path.join(d, f"replay_{tag}_{os.getpid()}_{i}.json")
        with open(p, "w") as f:
            json.dump(ch, f)
        log = open(p + ".log", "w")
        procs.append(
            (p, subprocess.Popen([PY, "-m", "engine.replay", p], cwd=VERIF, env=env, stdout=log, stderr=log), log)
        )
    res = [None] * len(tasks)
    end = time.time() + timeout
    for i, (p, pr, log) in enumerate(procs):
        try:
            pr.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill()
        log.close()
        try:
            with open(p + ".out") as f:
                outs = [json.loads(x) for x in f if x.endswith("\n")]
        except Exception:  # noqa: BLE001
            outs = []
        if len(outs) < len(chunks[i]):
            tail = ""
            with contextlib.suppress(Exception):
                tail = open(p + ".log").read()[-300:]
            outs += [{"failed": [], "passed": [], "diverged": "replay process failed " + tail, "raised": None, "obs": []}] * (
                len(chunks[i]) - len(outs)
            )
        for j, o in enumerate(outs):
            res[i + j * n] = o
        for q in (p, p + ".out", p + ".log"):
            with contextlib.suppress(OSError):
                os.remove(q)
    return res


# ------------------------------------------------------------------------ driver
_WORK = {}
_DEADLINE = mp.Value("d", float("inf"))


def _worker(args):
    pid, name, deadline = args
    case = _WORK[name]
    try:
        return run_case(pid, case, deadline)
    except BaseException as e:  # noqa: BLE001
        return {"case": name, "fatal": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)["findings"]


def run_property(pid, tier, seed):
    t0 = time.time()
    import importlib

    from engine import load

    budget = float(os.environ.get("VERIF_BUDGET_S", "600" if tier == "quick" else "840"))
    load.load_sym()
    _start_monitor()
    mod = importlib.import_module(f"checks.{pid.lower()}")
    cases = mod.cases(tier)
    only = os.environ.get("VERIF_CASE")
    if only:
        cases = [c for c in cases if only in c.name]
    assert len({c.name for c in cases}) == len(cases), "duplicate case names"
    _WORK.clear()
    _WORK.update({c.name: c for c in cases})
    deadline = t0 + budget
    _DEADLINE.value = deadline
    jobs = [(pid, c.name, deadline) for c in cases]
    recs = []
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    if nproc == 1:
        recs = [_worker(j) for j in jobs]
    else:
        with mp.get_context("fork").Pool(min(nproc, len(jobs)) or 1, maxtasksperchild=20) as pool:
            hits = 0
            todo = pool.imap_unordered(_worker, jobs, chunksize=1)
            while len(recs) < len(jobs):
                try:
                    r = todo.next(timeout=5)
                except mp.TimeoutError:
                    if time.time() > _DEADLINE.value + 45:
                        # stuck inside a library call
                        done = {r["case"] for r in recs}
                        recs += [{"case": c.name, "fatal": "bound: time"} for c in cases if c.name not in done]
                    continue
                recs.append(r)
                hits += any(not c.get("guess") and not c["known"] for c in r.get("cex", ()))
                if hits >= 4:
                    # broken in many cases: what is left gets one more minute
                    _DEADLINE.value = min(_DEADLINE.value, time.time() + 60)
    recs.sort(key=lambda r: r["case"])
    return conclude(pid, tier, seed, mod, cases, recs, t0)


def _close(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return a == b or (a != a and b != b)
    return abs(a - b) <= 1e-5 * (1 + abs(b))


def conclude(pid, tier, seed, mod, cases, recs, t0):
    kf = [k for k in known_findings() if k["property"] == pid and k.get("status", "open") == "open"]
    tasks, meta = [], []
    fatal = [r for r in recs if "fatal" in r]
    recs = [r for r in recs if "fatal" not in r]
    for r in recs:
        for c in r["cex"]:
            tasks.append({"property": pid, "case": r["case"], "inputs": c["inputs"], "tier": tier})
            meta.append(("cex", r, c))
        for w in r["witness"]:
            tasks.append({"property": pid, "case": r["case"], "inputs": w["inputs"], "tier": tier})
            meta.append(("wit", r, w))
    results = replay(tasks, pid)
    violations, known_hits, spurious, mismatches, validated = [], {}, [], [], 0
    for (kind, r, c), t, res in zip(meta, tasks, results):
        if kind == "cex":
            lab = c["label"]
            hit = lab in res["failed"] if lab != "no unexpected exception" else res["raised"] is not None
            if not hit and lab != "no unexpected exception" and res["raised"] is not None and not res["diverged"]:
                # the symbolic run reached the check and failed it; really it crashes before it
                hit = True
            if hit and c["known"]:
                known_hits.setdefault(c["known"], (r, c, t, res))
            elif hit:
                violations.append((r, c, t, res))
            elif not c.get("guess"):
                if os.environ.get("VERIF_DEBUG"):
                    print("  spurious", r["case"], lab, t["inputs"], res["passed"])
                spurious.append((r["case"], lab, res.get("diverged") or res.get("raised") or "passes concretely"))
        else:
            if res["diverged"]:
                mismatches.append((r["case"], "diverged: " + res["diverged"][:120]))
            elif res["raised"]:
                mismatches.append((r["case"], "raised: " + res["raised"][:160]))
            else:
                bad = None
                if len(res["obs"]) != len(c["obs"]):
                    bad = "different observations"
                else:
                    for (la, va), (lb, vb) in zip(c["obs"], res["obs"]):
                        if la != lb or len(va) != len(vb) or not all(_close(x, y) for x, y in zip(va, vb)):
                            bad = f"{la}: encoded {va} real {vb}"
                if bad is None and res["failed"]:
                    kn = {k["label"] for k in kf}
                    rest = [x for x in res["failed"] if x not in kn]
                    if rest:
                        # inputs the solver chose to reach this path: the real code breaks the property on them
                        for lab in rest[:3]:
                            violations.append((r, {"label": lab}, t, res))
                        continue
                if bad:
                    mismatches.append((r["case"], bad[:300]))
                else:
                    validated += 1
    out = os.path.join(VERIF, "out")
    os.makedirs(out, exist_ok=True)
    nviol = 0
    listed = {k["id"]: k for k in kf}
    for kid, (r, c, t, res) in known_hits.items():
        if kid in listed:
            print(f"KNOWN-FINDING: property={pid} {kid} {listed[kid]['what']}")
        else:
            violations.append((r, c, t, res))
    seen = set()
    for r, c, t, res in violations:
        key = (r["case"], c["label"])
        if key in seen:
            continue
        seen.add(key)
        h = hashlib.sha1(json.dumps([t, c["label"]], sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(out, f"cex_{pid}_{h}.json")
        with open(p, "w") as f:
            json.dump({"task": t, "label": c["label"], "concrete": res, "exc": c.get("exc")}, f, indent=1)
        nviol += 1
        if nviol <= int(os.environ.get("VERIF_SHOW","15")):
            print(f"  counterexample: case={r['case']} label={c['label']} inputs={t['inputs']['in']} {res['raised'] or ''}")
        if nviol == 1:
            print(f"VIOLATION property={pid} replay={os.path.relpath(p, VERIF)}")
    S = {"queries": 0, "solver_s": 0.0, "unknown": 0, "sat": 0, "unsat": 0}
    for r in recs:
        for k in S:
            S[k] += r["stats"][k]
    inconcl = []
    for r in recs:
        for u in r["unknown"]:
            inconcl.append(f"{r['case']}: {u['label']}: {u['why']}")
        for e in sorted(set(r["errors"])):
            inconcl.append(f"{r['case']}: {e}")
        for b in sorted(set(r["bounds"])):
            inconcl.append(f"{r['case']}: {b}")
        if r["reached"] == 0:
            inconcl.append(f"{r['case']}: VACUOUS (no path reaches the end)")
    for r in fatal:
        inconcl.append(f"{r['case']}: {r['fatal']}")
    for s in spurious:
        inconcl.append(f"{s[0]}: {s[1]}: counterexample does not reproduce ({s[2]})"[:300])
    funcs = sorted(set().union(*[set(r["funcs"]) for r in recs])) if recs else []
    ob = sum(r["obligations"] for r in recs)
    dis = sum(r["discharged"] for r in recs)
    paths = sum(r["paths"] for r in recs)
    cov = {
        "states": paths,
        "transitions": sum(r["branches"] for r in recs),
        "traces_validated_against_impl": validated,
        "samples": [
            {"case": r["case"], "paths": r["paths"], "obligations": r["obligations"], "labels": r["labels"], "witness": (r["witness"] or [None])[0]}
            for r in recs[:6]
        ],
        "meaning": "states = feasible symbolic paths of the real code; transitions = branch decisions on them; "
        "each validated trace is a solver model of one path, re-run on unpatched preliz with matching observations",
        "obligations": ob,
        "discharged_by_solver": dis,
        "discharged_syntactically": sum(r["trivial"] for r in recs),
        "discharged_as_algebraic_identities": sum(r.get("normalised", 0) for r in recs),
        "cases": len(recs),
        "reached_paths": sum(r["reached"] for r in recs),
        "solver": S,
        "functions_encoded": funcs,
        "bounds": getattr(mod, "BOUNDS", []),
        "inconclusive": inconcl[:80],
        "inconclusive_count": len(inconcl),
        "encoding_mismatches": [f"{a}: {b}" for a, b in mismatches][:40],
        "undecided_branches": sum(r["unknown_branches"] for r in recs),
        "known_findings_seen": sorted(known_hits),
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
        "assumptions": getattr(mod, "ASSUMPTIONS", [])
        + [
            "floating point arithmetic is modelled by exact real arithmetic with concrete inf/nan; counterexamples are re-run in floating point",
        ],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} {tier}: cases={len(recs)} paths={paths} obligations={ob} discharged={dis} "
        f"validated={validated} inconclusive={len(inconcl)} mismatches={len(mismatches)} "
        f"violations={nviol} queries={S['queries']} solver={S['solver_s']:.1f}s wall={ev['wall_s']}s"
    )
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(recs, key=lambda r: -r["wall"])[: int(os.environ["VERIF_TIMES"])]:
            print(f"  time {r['wall']:7.1f}s paths={r['paths']} queries={r['stats']['queries']} {r['case']}")
    for i in inconcl[:20]:
        print("  inconclusive:", i)
    for a, b in mismatches[:20]:
        print("  mismatch:", a, b)
    return 1 if nviol else 0
