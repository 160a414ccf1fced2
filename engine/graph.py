"""pytensor graphs -> symbolic terms.

``ptd_*`` functions of preliz are traced with pytensor variables (the same
tracing pytensor_jit does before compiling) and the resulting graph, before any
rewriting, is evaluated on symbolic values.
"""

import math

import numpy as np
import pytensor
import pytensor.tensor as pt
import z3
from pytensor.graph.basic import Constant
from scipy import special as sps

from engine import nps
from engine import sym as S
from engine.sym import B, R, SymError, is_sym

_CACHE = {}


def _g(name, f):
    def h(*a):
        if any(is_sym(x) for x in a):
            if any(S.isnan(x) for x in a):
                return math.nan
            if any(S.isinf(x) for x in a):
                raise SymError(f"{name} of inf")
            return S.uf(name, *a)
        with np.errstate(all="ignore"):
            return float(f(*a))

    return h


def _gammaln(x):
    if not is_sym(x):
        return float(sps.gammaln(x))
    return S.uf("lgamma", x)


def _lgamma_facts(ts, v, prev):
    out = []
    for pts, pv in prev:
        d = z3.simplify(ts[0] - pts[0])
        if z3.is_rational_value(d) and d.denominator_as_long() == 1:
            k = d.numerator_as_long()
            if k == 1:
                out.append(v == S.CTX.log_term(pts[0]) + pv)
            elif k == -1:
                out.append(pv == S.CTX.log_term(ts[0]) + v)
    return out


S.UF_FACTS["lgamma"] = _lgamma_facts


def _xlogy(x, y):
    if x == 0:
        return 0.0 if not S.isnan(y) else math.nan
    return x * S.log(y)


def _erfc(x):
    if not is_sym(x):
        return math.erfc(x)
    return 1 - S.uf("erf", x)


def _erf(x):
    if S.isnan(x):
        return math.nan
    if S.isinf(x):
        return 1.0 if x > 0 else -1.0
    if not is_sym(x):
        return math.erf(x)
    return S.uf("erf", x)


def _safe(f):
    def h(*a):
        if not any(is_sym(x) for x in a):
            with np.errstate(all="ignore"):
                a = [np.float64(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x for x in a]
                r = f(*a)
                return r.item() if hasattr(r, "item") else r
        return f(*a)

    return h


def _mul(*a):
    r = a[0]
    for x in a[1:]:
        r = r * x
    return r


def _add(*a):
    r = a[0]
    for x in a[1:]:
        r = r + x
    return r


def _sigmoid(x):
    return 1 / (1 + S.exp(-x))


def _softplus(x):
    return S.log(1 + S.exp(x))


def _log1mexp(x):
    return S.log(1 - S.exp(x))


def _cast(x):
    return S.lift(x) if type(x) is B else x


SCALAR = {
    "Add": _safe(_add),
    "Mul": _safe(_mul),
    "Sub": _safe(lambda a, b: a - b),
    "TrueDiv": nps._fdiv,
    "IntDiv": _safe(lambda a, b: a // b),
    "Mod": _safe(lambda a, b: a % b),
    "Pow": _safe(lambda a, b: a**b),
    "Neg": lambda a: -a,
    "Abs": S.fabs,
    "Sqr": _safe(lambda a: a * a),
    "Sqrt": S.sqrt,
    "Exp": S.exp,
    "Exp2": lambda x: S._pow(2, S.lift(x)),
    "Expm1": lambda x: S.exp(x) - 1,
    "Log": S.log,
    "Log1p": lambda x: S.log(1 + x),
    "Log2": lambda x: S.log(x) / math.log(2),
    "Log10": lambda x: S.log(x) / math.log(10),
    "Log1mexp": _log1mexp,
    "Reciprocal": lambda x: nps._fdiv(1.0, x),
    "Switch": S.ite,
    "LT": lambda a, b: a < b,
    "LE": lambda a, b: a <= b,
    "GT": lambda a, b: a > b,
    "GE": lambda a, b: a >= b,
    "EQ": lambda a, b: a == b,
    "NEQ": lambda a, b: a != b,
    "AND": nps._land,
    "OR": nps._lor,
    "XOR": nps._xor,
    "Invert": nps._lnot,
    "IsNan": S.isnan,
    "IsInf": S.isinf,
    "Floor": S.floor,
    "Ceil": S.ceil,
    "Trunc": S.trunc,
    "RoundHalfToEven": S.rnd,
    "Sign": nps._sign,
    "Sgn": nps._sign,
    "Identity": lambda a: a,
    "ScalarMaximum": S.smax,
    "ScalarMinimum": S.smin,
    "Maximum": S.smax,
    "Minimum": S.smin,
    "Clip": lambda x, lo, hi: S.smin(S.smax(x, lo), hi),
    "Sigmoid": _sigmoid,
    "Softplus": _softplus,
    "Erf": _erf,
    "Erfc": _erfc,
    "Erfinv": _g("erfinv", sps.erfinv),
    "Erfcinv": _g("erfcinv", sps.erfcinv),
    "Erfcx": _g("erfcx", sps.erfcx),
    "Gamma": _g("gamma", sps.gamma),
    "GammaLn": _gammaln,
    "Psi": _g("psi", sps.digamma),
    "TriGamma": _g("trigamma", lambda x: sps.polygamma(1, x)),
    "GammaInc": _g("gammainc", sps.gammainc),
    "GammaIncC": _g("gammaincc", sps.gammaincc),
    "GammaIncInv": _g("gammaincinv", sps.gammaincinv),
    "GammaIncCInv": _g("gammainccinv", sps.gammainccinv),
    "BetaInc": _g("betainc", sps.betainc),
    "BetaIncInv": _g("betaincinv", sps.betaincinv),
    "Sin": _g("sin", math.sin),
    "Cos": _g("cos", math.cos),
    "Tan": _g("tan", math.tan),
    "ArcTan": _g("arctan", math.atan),
    "Tanh": _g("tanh", math.tanh),
    "Sinh": _g("sinh", math.sinh),
    "Cosh": _g("cosh", math.cosh),
    "I0": _g("i0", sps.i0),
    "I1": _g("i1", sps.i1),
    "Second": lambda a, b: b,
}


def _scalar(op):
    n = type(op).__name__
    if n in ("Cast",):
        t = str(getattr(op, "o_type", ""))
        if "int" in t and "uint8" not in t:
            return S.trunc
        return _cast
    return SCALAR.get(n)


OPAQUE = {"n": 0}


def _eval(node, env, args_key):
    from pytensor.scalar.basic import Composite  # noqa: F401

    op = node.op
    name = type(op).__name__
    ins = [ev(i, env, args_key) for i in node.inputs]
    if name == "Elemwise":
        f = _scalar(op.scalar_op)
        if f is None:
            on = type(op.scalar_op).__name__
            f = _g("op_" + on, lambda *a: (_ for _ in ()).throw(SymError(on)))
        return [nps.ew(f, *ins)]
    if name == "XLogY":
        return [nps.ew(_xlogy, *ins)]
    if name == "DimShuffle":
        x = ins[0]
        no = op.new_order
        if all(o == "x" for o in no):
            if not no:
                return [nps.scal(nps.mkarr(x).reshape(())) if not is_sym(x) and isinstance(x, np.ndarray) else x]
            return [nps.mkarr(x).reshape((1,) * len(no))]
        a = nps.mkarr(x).view(np.ndarray)
        a = a.transpose([o for o in no if o != "x"])
        idx = tuple(None if o == "x" else slice(None) for o in no)
        return [a[idx].view(nps.SArr)]
    if name == "Sum":
        ax = op.axis
        if ax is not None and len(ax) == 1:
            return [nps.NPF["sum"](ins[0], axis=ax[0])]
        return [nps.NPF["sum"](ins[0])]
    if name == "Prod":
        return [nps.NPF["prod"](ins[0])]
    if name in ("Max",):
        return [nps.NPF["max"](ins[0])]
    if name in ("Min",):
        return [nps.NPF["min"](ins[0])]
    if name in ("All",):
        return [nps.NPF["all"](ins[0])]
    if name in ("Any",):
        return [nps.NPF["any"](ins[0])]
    if name == "CAReduce":
        raise SymError("CAReduce")
    if name == "MakeVector":
        return [nps.mkarr(list(ins))]
    if name in ("TensorFromScalar", "ScalarFromTensor", "SpecifyShape", "Unbroadcast"):
        return [ins[0]]
    if name == "Alloc":
        if len(ins) == 1 or all(v == 1 for v in ins[1:]):
            return [ins[0]]
        shp = tuple(int(v) for v in ins[1:])
        return [nps.NPF["full"](shp, ins[0])]
    if name == "Shape":
        return [np.array(nps.NPF["shape"](ins[0]))]
    if name == "Shape_i":
        return [nps.NPF["shape"](ins[0])[op.i]]
    if name == "Subtensor":
        from pytensor.tensor.subtensor import get_idx_list

        idx = []
        it = iter(ins[1:])

        def conv(s):
            if isinstance(s, slice):
                return slice(*[next(it) if hasattr(v, "type") or isinstance(v, type) else v for v in (s.start, s.stop, s.step)])
            return int(next(it)) if not isinstance(s, int) else s

        try:
            idx = tuple(conv(s) for s in op.idx_list)
            return [nps.mkarr(ins[0])[idx]]
        except Exception as e:
            raise SymError(f"Subtensor {e}")
    if name == "ARange":
        lo, hi, st = (int(v) for v in ins)
        return [np.arange(lo, hi, st)]
    if name == "Join":
        return [nps.NPF["concatenate"](ins[1:], axis=int(ins[0]))]
    if name == "Reshape":
        return [nps.mkarr(ins[0]).reshape(tuple(int(v) for v in np.atleast_1d(nps.scal(nps.mkarr(ins[1])))))]
    if name == "Assert" or name == "CheckAndRaise":
        return [ins[0]]
    raise SymError(f"pytensor op {name}")


def ev(var, env, args_key):
    if var in env:
        return env[var]
    if isinstance(var, Constant):
        d = var.data
        if isinstance(d, np.ndarray) and d.ndim == 0:
            d = d.item()
        env[var] = d
        return d
    node = var.owner
    outs = _eval(node, env, args_key)
    for o, v in zip(node.outputs, outs):
        env[o] = v
    return env[var]


def trace(func, ndims, ints):
    key = (func, ndims, ints)
    if key not in _CACHE:
        vs = [
            pt.tensor(f"a{i}", shape=(None,) * n, dtype="int64" if it else "float64")
            for i, (n, it) in enumerate(zip(ndims, ints))
        ]
        _CACHE[key] = (vs, func(*vs))
    return _CACHE[key]


def _isint(a):
    a0 = np.asarray(a) if not is_sym(a) else None
    return a0 is not None and a0.dtype.kind in "iub"


def call(func, args, label):
    """value of the preliz function ``func`` (undecorated) at ``args``"""
    args = [a if is_sym(a) else (np.asarray(a) if not isinstance(a, nps.SArr) else a) for a in args]
    nd = tuple(0 if is_sym(a) else a.ndim for a in args)
    ints = tuple(_isint(a) for a in args)
    vs, out = trace(func, nd, ints)
    env = {}
    for v, a in zip(vs, args):
        env[v] = a if is_sym(a) else (a.item() if a.ndim == 0 and a.dtype != object else a)
    return ev(out, env, label)


pytensor.config.cxx  # noqa: B018  (import check)
