"""Load preliz from /repo for symbolic execution.

The modules are the real ones; only names that refer to numpy, to numba-compiled
helpers, to scipy routines and to pytensor-compiled functions are rebound to
versions that understand symbolic values.
"""

import builtins
import importlib
import math
import os
import pkgutil
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_env():
    scratch = os.environ.setdefault("VERIF_SCRATCH", f"/tmp/verif_scratch_{os.getuid()}")
    os.makedirs(scratch, exist_ok=True)
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("NUMBA_CACHE_DIR", os.path.join(scratch, f"nb{os.getpid()}"))
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(scratch, "mpl"))
    os.environ.setdefault("PYTENSOR_FLAGS", f"base_compiledir={scratch}/pt")
    for d in (os.environ["MPLCONFIGDIR"],):
        os.makedirs(d, exist_ok=True)
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


LOADED = False
MODS = {}
PTD_MODE = "graph"  # or "uf"


def preliz_modules():
    return {n: m for n, m in sys.modules.items() if (n == "preliz" or n.startswith("preliz.")) and m is not None}


def _vectorized(f, name):
    from engine import nps

    def g(*a):
        return nps.ew(f, *a)

    g.__name__ = name
    g.py_func = f
    return g


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SInt(int, metaclass=_IntMeta):
    """int() that truncates symbolic values instead of failing"""

    def __new__(cls, x=0, *a):
        from engine import nps, sym

        if sym.is_sym(x):
            return sym.trunc(x)
        if isinstance(x, nps.SArr) and x.size == 1:
            return SInt(x.ravel()[0])
        if isinstance(x, str) and x.startswith("\u27e8"):
            return sym.trunc(_token(x))
        return int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class SFloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        from engine import nps, sym

        if sym.is_sym(x):
            return sym.lift(x)
        if isinstance(x, nps.SArr) and x.size == 1:
            return SFloat(x.view(__import__("numpy").ndarray).ravel()[0])
        if isinstance(x, str) and x.startswith("\u27e8"):
            return _token(x)
        return float(x)


def _token(s):
    """value of float(f"{x:.2f}") for symbolic x"""
    from engine import sym

    k = int(s[1 : s.index("\u27e9")])
    x, spec = sym.CTX.tokens[k]
    if spec.startswith(".") and spec.endswith("f"):
        return sym.rnd(x, int(spec[1:-1]))
    if spec in ("", "r"):
        return x
    raise sym.SymError(f"format {spec}")


def _whole(f):
    """math.floor / math.ceil: a whole number that can be an index or a key"""

    def g(x):
        from engine import sym

        if sym.is_sym(x):
            return sym.CTX.concretize_int(f(x))
        return f(x)

    return g


def ptd_name(mod, f):
    return f"{mod.__name__.split('.')[-1]}.{f.__name__}"


def _ptd(mod, f):
    """replacement of a pytensor_jit function"""
    raw = f.__wrapped__

    def g(*a, **k):
        from engine import graph, nps, sym

        if "rng" in k or "size" in k:
            h = sym.CTX.opts.get("rvs_hook") if sym.CTX is not None else None
            if h is not None:
                return h(mod, f, a, k)
            if not any(nps.has_sym(x) for x in a):
                return f(*a, **k)
            raise sym.SymError("rvs")
        hook = sym.CTX.opts.get("ptd_hook") if sym.CTX is not None else None
        if hook is not None:
            r = hook(mod, f, a)
            if r is not NotImplemented:
                return r
        return graph.call(raw, a, f.__name__)

    g.__name__ = f.__name__
    g.__wrapped__ = raw
    g.__real__ = f
    return g


def load_real():
    """preliz as users get it"""
    setup_env()
    return importlib.import_module("preliz")


def load_sym():
    """preliz with symbolic-aware environment; returns the preliz package"""
    global LOADED
    setup_env()
    pz = importlib.import_module("preliz")
    if LOADED:
        return pz
    for m in pkgutil.walk_packages(pz.__path__, "preliz."):
        if ".tests" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    import numpy as np
    import numba
    import scipy.special as sps

    from engine import graph, nps, sym

    from numba.np.ufunc.dufunc import DUFunc

    # scipy.special functions used directly on symbolic values
    ext = {
        "gamma": ("gamma", sps.gamma),
        "gammaln": ("lgamma", sps.gammaln),
        "psi": ("psi", sps.psi),
        "digamma": ("psi", sps.digamma),
        "i0e": ("i0e", sps.i0e),
        "i1e": ("i1e", sps.i1e),
        "i0": ("i0", sps.i0),
        "i1": ("i1", sps.i1),
        "erf": ("erf", sps.erf),
        "ive": ("ive", sps.ive),
        "betaln": ("betaln", sps.betaln),
        "loggamma": ("lgamma", sps.loggamma),
    }
    for n, (u, f) in ext.items():
        nps.EXTERN[n] = graph._g(u, f)
    nps.EXTERN["xlogy"] = lambda x, y: sym.ite(x == 0, 0.0, x * sym.log(y))

    import scipy.special

    def logsumexp(a, axis=None, b=None, **k):
        if not nps.has_sym(a):
            return scipy.special.logsumexp(a, axis=axis, b=b, **k)
        e = nps.ew(lambda v: 0.0 if sym.isinf(v) else sym.exp(v), a)
        s = nps.NPF["sum"](e if b is None else e * b, axis=axis)
        return nps.ew(sym.log, s)

    real_logsumexp = scipy.special.logsumexp
    conv = {}

    def wrap(mod, v):
        key = id(v)
        if key in conv:
            return conv[key]
        r = None
        if v is np:
            r = nps.NP
        elif v is math.floor or v is math.ceil:
            r = _whole(v)
        elif v is np.float64:
            r = nps.F64
        elif v is np.int64:
            r = nps.I64
        elif v is real_logsumexp:
            r = logsumexp
        elif isinstance(v, DUFunc):
            d = getattr(v, "_dispatcher", None)
            r = _vectorized(d.py_func, d.py_func.__name__)
        elif isinstance(v, numba.core.registry.CPUDispatcher):
            r = v.py_func
        elif isinstance(v, np.ufunc):
            if v.__name__ in nps.UFN:
                r = nps._UF(v, nps.UFN[v.__name__])
            elif v.__name__ in nps.EXTERN:
                r = nps._UF(v, nps.EXTERN[v.__name__])
        elif isinstance(v, types.FunctionType) and getattr(v, "__wrapped__", None) is not None and (
            v.__code__.co_filename.endswith("distribution_helper.py")
        ):
            r = _ptd(mod, v)
        elif callable(v) and getattr(v, "__module__", "") and str(getattr(v, "__module__", "")).startswith("numpy"):
            n = getattr(v, "__name__", None)
            if n in nps.NPF and getattr(np, n, None) is v:
                r = getattr(nps.NP, n)
        if r is not None:
            conv[key] = r
            keepalive.append(v)
        return r

    keepalive = []
    for name, mod in preliz_modules().items():
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            r = wrap(mod, v)
            if r is not None:
                setattr(mod, k, r)
        mod.__dict__["int"] = SInt
        mod.__dict__["float"] = SFloat
    # helpers hidden inside closures of py_funcs share the module globals: done
    sym.REAL = conv
    LOADED = True
    return pz


def func_src(f):
    f = getattr(f, "__wrapped__", f)
    try:
        return f"{f.__code__.co_filename.replace(REPO + '/', '')}:{f.__qualname__}"
    except AttributeError:
        return repr(f)


builtins  # noqa: B018
