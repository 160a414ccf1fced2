"""numpy for symbolic values: a proxy module put in place of ``np`` in preliz.

Every function falls through to numpy unless a symbolic value is involved.
"""

import builtins
import itertools
import math
import types

import numpy as _np
import z3

from engine import sym as S
from engine.sym import B, R, SymError, is_sym


class SArr(_np.ndarray):
    """object array holding symbolic (and concrete) scalars"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __getitem__(self, k):
        k = _index(k)
        out = self.view(_np.ndarray)[k]
        return _wrap(out)

    def __setitem__(self, k, v):
        k = _index(k)
        base = self.view(_np.ndarray)
        if is_sym(v) or not hasattr(v, "__len__"):
            v = v
        base[k] = v.view(_np.ndarray) if isinstance(v, SArr) else v

    def __iter__(self):
        for x in self.view(_np.ndarray):
            yield _wrap(x)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(_np.ndarray).ravel()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        if self.size == 1:
            return float(self.view(_np.ndarray).ravel()[0])
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")

    def astype(self, t, *a, **k):
        return cast(self, t)

    def item(self, *a):
        return self.view(_np.ndarray).item(*a)

    def sum(self, axis=None, **k):
        return NPF["sum"](self, axis=axis)

    def mean(self, axis=None, **k):
        return NPF["mean"](self, axis=axis)

    def std(self, axis=None, **k):
        return NPF["std"](self, axis=axis, **k)

    def var(self, axis=None, **k):
        return NPF["var"](self, axis=axis, **k)

    def min(self, axis=None, **k):
        return NPF["min"](self, axis=axis)

    def max(self, axis=None, **k):
        return NPF["max"](self, axis=axis)

    def prod(self, axis=None, **k):
        return NPF["prod"](self, axis=axis)

    def cumsum(self, axis=None, **k):
        return NPF["cumsum"](self)

    def any(self, axis=None, **k):
        return NPF["any"](self)

    def all(self, axis=None, **k):
        return NPF["all"](self)

    def argmax(self, axis=None, **k):
        return NPF["argmax"](self)

    def argmin(self, axis=None, **k):
        return NPF["argmin"](self)

    def argsort(self, axis=-1, **k):
        return NPF["argsort"](self)

    def round(self, n=0):
        return NPF["round"](self, n)

    def tolist(self):
        return self.view(_np.ndarray).tolist()

    def __reduce__(self):
        raise SymError("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()


def _index(k):
    """masks of symbolic booleans are decided element by element (forks)"""
    if isinstance(k, tuple):
        return tuple(_index(x) for x in k)
    if type(k) is B:
        return bool(k)
    if type(k) is R:
        return int(k)
    if isinstance(k, _np.ndarray) and k.dtype == object:
        a = k.view(_np.ndarray)
        flat = [x for x in a.ravel()]
        if all(type(x) is B or isinstance(x, (bool, _np.bool_)) for x in flat):
            return _np.array([bool(x) for x in flat], dtype=bool).reshape(a.shape)
        return _np.array([int(x) for x in flat], dtype=int).reshape(a.shape)
    return k


def _wrap(x):
    if isinstance(x, _np.ndarray) and x.dtype == object:
        if x.ndim == 0:
            return x[()]
        return x.view(SArr)
    return x


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, SArr):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.ravel())
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(has_sym(v, depth + 1) for v in x)
    return False


def mkarr(x):
    """array (object) of nested lists / arrays / scalars"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, _np.ndarray):
        return x.astype(object).view(SArr)
    if is_sym(x) or not isinstance(x, (list, tuple, range, types.GeneratorType)):
        a = _np.empty((), dtype=object)
        a[()] = S.conc(x) if S._isnum(x) else x
        return a.view(SArr)
    parts = [mkarr(v) for v in x]
    if not parts:
        return _np.empty((0,), dtype=object).view(SArr)
    shp = parts[0].shape
    if any(p.shape != shp for p in parts):
        raise ValueError("inhomogeneous shape")
    out = _np.empty((len(parts),) + shp, dtype=object)
    for i, p in enumerate(parts):
        out[i] = p[()] if p.ndim == 0 else p.view(_np.ndarray)
        if p.ndim == 0:
            out[i] = p.view(_np.ndarray)[()]
    return out.view(SArr)


def scal(a):
    """0-d array -> scalar; all-concrete array -> ordinary numpy array"""
    if isinstance(a, _np.ndarray):
        if a.ndim == 0:
            v = a.view(_np.ndarray)[()]
            return v
        flat = list(a.view(_np.ndarray).ravel())
        if a.dtype == object and flat and not any(is_sym(v) for v in flat):
            if all(isinstance(v, (bool, _np.bool_)) for v in flat):
                return a.view(_np.ndarray).astype(bool)
            if all(isinstance(v, (int, float, _np.number, bool, _np.bool_)) for v in flat):
                return a.view(_np.ndarray).astype(float)
    return a


def ew(fn, *args):
    """elementwise application with broadcasting"""
    if all(is_sym(a) or S._isnum(a) or not isinstance(a, (_np.ndarray, list, tuple)) for a in args):
        r = fn(*[S.conc(a) if S._isnum(a) else a for a in args])
        return _np.bool_(r) if r is True or r is False else r
    arrs = [mkarr(a).view(_np.ndarray) for a in args]
    b = _np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = b.shape if b is not None else arrs[0].shape
    out = _np.empty(shape, dtype=object)
    bc = [_np.broadcast_to(a, shape) for a in arrs]
    for idx in _np.ndindex(*shape):
        out[idx] = fn(*[S.conc(v) if S._isnum(v) else v for v in (a[idx] for a in bc)])
    return scal(out.view(SArr))


def _log1p(x):
    return S.log(1 + x)


def _expm1(x):
    return S.exp(x) - 1


def _sign(x):
    x = S.lift(x)
    if type(x) is not R:
        return float(_np.sign(x))
    return R(z3.If(x.e > 0, z3.RealVal(1), z3.If(x.e < 0, z3.RealVal(-1), z3.RealVal(0))))


def _land(a, b):
    return B(z3.And(S.bterm(a), S.bterm(b))) if is_sym(a) or is_sym(b) else bool(a) and bool(b)


def _lor(a, b):
    return B(z3.Or(S.bterm(a), S.bterm(b))) if is_sym(a) or is_sym(b) else bool(a) or bool(b)


def _lnot(a):
    return B(z3.Not(S.bterm(a))) if is_sym(a) else not a


def _xor(a, b):
    return B(z3.Xor(S.bterm(a), S.bterm(b))) if is_sym(a) or is_sym(b) else bool(a) != bool(b)


def _guard(name, f):
    def g(x):
        if is_sym(x):
            return S.uf(name, x)
        return f(x)

    return g


def _fdiv(a, b):
    """true division with numpy semantics for concrete zeros"""
    if is_sym(a) or is_sym(b):
        a, b = S.lift(a), S.lift(b)
        if type(a) is R:
            return a / b
        return b.__rtruediv__(a)
    with _np.errstate(all="ignore"):
        return float(_np.float64(a) / _np.float64(b))


def _npbin(f):
    def g(a, b):
        if is_sym(a) or is_sym(b):
            return f(S.lift(a), S.lift(b))
        with _np.errstate(all="ignore"):
            return f(_np.float64(a), _np.float64(b)).item() if not isinstance(a, bool) else f(a, b)

    return g


def _cmp(f):
    def g(a, b):
        return f(a, b)

    return g


import operator as _op

UFN = {
    "add": _op.add,
    "subtract": _op.sub,
    "multiply": _op.mul,
    "true_divide": _fdiv,
    "divide": _fdiv,
    "floor_divide": _op.floordiv,
    "remainder": _op.mod,
    "mod": _op.mod,
    "power": _op.pow,
    "float_power": _op.pow,
    "negative": _op.neg,
    "positive": _op.pos,
    "absolute": S.fabs,
    "abs": S.fabs,
    "fabs": S.fabs,
    "square": lambda x: x * x,
    "sqrt": S.sqrt,
    "cbrt": lambda x: S.root(x, 3),
    "exp": S.exp,
    "exp2": lambda x: S._pow(2, S.lift(x)),
    "expm1": _expm1,
    "log": S.log,
    "log1p": _log1p,
    "log2": lambda x: S.log(x) / math.log(2),
    "log10": lambda x: S.log(x) / math.log(10),
    "floor": S.floor,
    "ceil": S.ceil,
    "trunc": S.trunc,
    "rint": S.rnd,
    "sign": _sign,
    "reciprocal": lambda x: _fdiv(1.0, x),
    "maximum": S.smax,
    "minimum": S.smin,
    "fmax": S.smax,
    "fmin": S.smin,
    "less": _op.lt,
    "less_equal": _op.le,
    "greater": _op.gt,
    "greater_equal": _op.ge,
    "equal": _op.eq,
    "not_equal": _op.ne,
    "logical_and": _land,
    "logical_or": _lor,
    "logical_not": _lnot,
    "logical_xor": _xor,
    "bitwise_and": _land,
    "bitwise_or": _lor,
    "bitwise_xor": _xor,
    "invert": _lnot,
    "isnan": S.isnan,
    "isinf": S.isinf,
    "isfinite": S.isfinite,
    "sin": _guard("sin", math.sin),
    "cos": _guard("cos", math.cos),
    "tanh": _guard("tanh", math.tanh),
    "logaddexp": lambda a, b: S.log(S.exp(a) + S.exp(b)),
    "conjugate": lambda x: x,
}


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = {k: v for k, v in kw.items() if v is not None}
    out = kw.pop("out", None)
    if name == "matmul" and method == "__call__":
        return NPF["dot"](*inputs)
    fn = UFN.get(name)
    if fn is None:
        fn2 = EXTERN.get(name)
        if fn2 is None or method != "__call__":
            raise SymError(f"ufunc {name}.{method}")
        fn = fn2
    if method == "__call__":
        where = kw.pop("where", True)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        r = ew(fn, *inputs)
        if where is not True:
            base = out[0] if out is not None else 0.0
            r = ew(S.ite, where, r, base)
        if out is not None:
            out[0][...] = r
            return out[0]
        return r
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        return _reduce(fn, a, axis, {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name))
    if method == "accumulate":
        a = mkarr(inputs[0]).view(_np.ndarray)
        out = list(itertools.accumulate(list(a), fn))
        return mkarr(out)
    if method == "outer":
        a, b = mkarr(inputs[0]), mkarr(inputs[1])
        return ew(fn, a.reshape(-1, 1), b.reshape(1, -1))
    raise SymError(f"ufunc {name}.{method}")


# functions of scipy / third parties usable elementwise, filled in by load.py
EXTERN = {}


def _reduce(fn, a, axis=None, init=None, keepdims=False):
    a = mkarr(a).view(_np.ndarray)
    if axis is None or a.ndim <= 1:
        items = list(a.ravel())
        if not items:
            if init is None:
                raise ValueError("zero-size array to reduction operation")
            return float(init) if not isinstance(init, bool) else init
        r = items[0]
        for v in items[1:]:
            r = fn(r, v)
        return r
    if isinstance(axis, tuple):
        axis = axis[0]
    a = _np.moveaxis(a, axis, 0)
    r = a[0]
    for i in range(1, a.shape[0]):
        r = ew(fn, r, a[i])
    r = _wrap(r) if isinstance(r, _np.ndarray) else r
    if keepdims:
        r = mkarr(r)
        r = _np.expand_dims(r.view(_np.ndarray), axis).view(SArr)
    return r


NPF = {}


def impl(*names):
    def d(f):
        for n in names or (f.__name__,):
            NPF[n] = f
        return f

    return d


def cast(x, t):
    """astype"""
    k = None
    if t in (int, "int", "int64", _np.int64, "int32") or (isinstance(t, type) and issubclass(t, builtins.int) and t is not bool):
        k = "i"
    elif isinstance(t, type) and getattr(t, "__symname__", None) == "int64":
        k = "i"
    elif t in (bool, "bool", _np.bool_):
        k = "b"
    if k == "i":
        return ew(S.trunc, x)
    if k == "b":
        return ew(lambda v: B(S.bterm(v)) if is_sym(v) else bool(v), x)
    return x.copy() if isinstance(x, _np.ndarray) else x


@impl("asarray", "array", "asanyarray", "ascontiguousarray", "atleast_1d_")
def _asarray(x, dtype=None, *a, ndmin=0, **k):
    if is_sym(x):
        r = x  # behaves as a 0-d array
        if ndmin:
            r = mkarr([x])
    else:
        r = mkarr(x)
    if dtype is not None and not (dtype is object):
        r = cast(r, dtype)
    elif isinstance(r, SArr):
        r = r.copy()
    return r


@impl()
def atleast_1d(x, *rest):
    if rest:
        return [atleast_1d(v) for v in (x, *rest)]
    a = mkarr(x)
    return a.reshape(1) if a.ndim == 0 else a


@impl()
def atleast_2d(x):
    a = mkarr(x)
    if a.ndim == 0:
        return a.reshape(1, 1)
    return a.reshape(1, -1) if a.ndim == 1 else a


@impl()
def where(c, *ab):
    if not ab:
        c = _index(mkarr(c))
        return _np.where(c)
    return ew(S.ite, c, *ab)


@impl()
def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = ew(S.ite, c, v, r)
    return r


@impl()
def clip(x, lo=None, hi=None, *, a_min=None, a_max=None, min=None, max=None, out=None, **k):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    lo = min if lo is None else lo
    hi = max if hi is None else hi
    if lo is not None:
        x = ew(S.smax, x, lo)
    if hi is not None:
        x = ew(S.smin, x, hi)
    return x


@impl("sum")
def sum_(x, axis=None, keepdims=False, **k):
    return _reduce(_op.add, ew(lambda v: S.lift(v), x) if not is_sym(x) else x, axis, 0, keepdims)


@impl("nansum")
def nansum(x, axis=None, **k):
    return _reduce(_op.add, ew(lambda v: 0.0 if S.isnan(v) else v, x), axis, 0)


@impl("prod")
def prod(x, axis=None, **k):
    return _reduce(_op.mul, x, axis, 1)


@impl("cumsum")
def cumsum(x, axis=None, **k):
    a = mkarr(x).view(_np.ndarray).ravel()
    return mkarr(list(itertools.accumulate(list(a), lambda p, q: p + q)))


@impl("mean", "nanmean")
def mean(x, axis=None, keepdims=False, **k):
    a = mkarr(x)
    n = a.size if axis is None else a.shape[axis]
    s = _reduce(_op.add, a, axis, 0, keepdims)
    return ew(lambda v: v / n, s) if isinstance(s, _np.ndarray) else s / n


@impl("average")
def average(x, axis=None, weights=None, **k):
    if weights is None:
        return mean(x, axis)
    a, w = mkarr(x), mkarr(weights)
    return sum_(a * w, axis) / sum_(w)


@impl("var", "nanvar")
def var(x, axis=None, ddof=0, **k):
    a = mkarr(x)
    if axis is not None and a.ndim > 1:
        m = mean(a, axis, keepdims=True)
        d = (a - m) ** 2
        return sum_(d, axis) / (a.shape[axis] - ddof)
    m = mean(a)
    return sum_((a - m) ** 2) / (a.size - ddof)


@impl("std", "nanstd")
def std(x, axis=None, ddof=0, **k):
    return ew(S.sqrt, var(x, axis, ddof))


@impl("min", "amin", "nanmin")
def min_(x, axis=None, **k):
    return _reduce(S.smin, x, axis)


@impl("max", "amax", "nanmax")
def max_(x, axis=None, **k):
    return _reduce(S.smax, x, axis)


@impl("ptp")
def ptp(x, axis=None, **k):
    return max_(x, axis) - min_(x, axis)


@impl("any")
def any_(x, axis=None, **k):
    return _reduce(_lor, x, axis, False)


@impl("all")
def all_(x, axis=None, **k):
    return _reduce(_land, x, axis, True)


@impl("argmax")
def argmax(x, axis=None, **k):
    a = list(mkarr(x).ravel())
    best = 0
    for i in range(1, len(a)):
        if a[i] > a[best]:
            best = i
    return best


@impl("argmin")
def argmin(x, axis=None, **k):
    a = list(mkarr(x).ravel())
    best = 0
    for i in range(1, len(a)):
        if a[i] < a[best]:
            best = i
    return best


@impl("argsort")
def argsort(x, axis=-1, kind=None, **k):
    """numpy leaves the order of ties open only for unstable kinds; stable here"""
    a = list(mkarr(x).ravel())
    idx = []
    for i, v in enumerate(a):
        j = len(idx)
        while j > 0 and v < a[idx[j - 1]]:
            j -= 1
        idx.insert(j, i)
    return _np.array(idx, dtype=int)


@impl("sort")
def sort(x, axis=-1, **k):
    a = mkarr(x)
    return a[argsort(a)]


@impl("median")
def median(x, axis=None, **k):
    a = sort(mkarr(x).ravel())
    n = len(a)
    return a[n // 2] if n % 2 else (a[n // 2 - 1] + a[n // 2]) / 2


@impl("unique")
def unique(x, return_counts=False, **k):
    a = list(sort(mkarr(x).ravel()))
    out, cnt = [], []
    for v in a:
        if out and bool(out[-1] == v):
            cnt[-1] += 1
        else:
            out.append(v)
            cnt.append(1)
    if return_counts:
        return mkarr(out), _np.array(cnt)
    return mkarr(out)


@impl("searchsorted")
def searchsorted(a, v, side="left", **k):
    a = list(mkarr(a))

    def one(t):
        n = 0
        for y in a:
            if (y < t) if side == "left" else (y <= t):
                n += 1
            else:
                break
        return n

    return ew(one, v)


@impl("zeros_like")
def zeros_like(x, dtype=None, **k):
    return _np.zeros(mkarr(x).shape).astype(object).view(SArr)


@impl("empty_like")
def empty_like(x, dtype=None, **k):
    return zeros_like(x)


@impl("ones_like")
def ones_like(x, dtype=None, **k):
    return _np.ones(mkarr(x).shape).astype(object).view(SArr)


@impl("full_like")
def full_like(x, v, dtype=None, **k):
    if is_sym(x):
        return v
    a = _np.empty(mkarr(x).shape, dtype=object)
    a[...] = v
    return a.view(SArr)


@impl("full")
def full(shape, v, dtype=None, **k):
    a = _np.empty(shape, dtype=object)
    a[...] = v
    return a.view(SArr)


@impl("repeat")
def repeat(x, n, axis=None):
    a = mkarr(x).ravel()
    if isinstance(n, (list, tuple, _np.ndarray)):
        return mkarr([v for v, c in zip(a, n) for _ in range(int(c))])
    return mkarr([v for v in a for _ in range(int(n))])


@impl("tile")
def tile(x, n):
    a = list(mkarr(x).ravel())
    return mkarr(a * int(n))


@impl("dot", "inner", "vdot", "matmul")
def dot(a, b):
    a, b = mkarr(a), mkarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return sum_(a * b)
    return _wrap(_np.ndarray.dot(a.view(_np.ndarray), b.view(_np.ndarray)))


@impl("trapezoid", "trapz")
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = mkarr(y)
    if x is None:
        d = dx
    else:
        x = mkarr(x)
        d = x[1:] - x[:-1]
    return sum_(d * (y[1:] + y[:-1]) / 2.0)


@impl("diff")
def diff(x, n=1, axis=-1, **k):
    x = mkarr(x)
    return x[1:] - x[:-1]


@impl("linspace")
def linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    n = int(num)
    div = n - 1 if endpoint else n
    out = []
    for i in range(n):
        v = a + (b - a) * i / div if div else a
        out.append(v)
    r = mkarr(out)
    if dtype in (int, "int"):
        r = ew(S.floor, r)
    return r


@impl("arange")
def arange(*a, dtype=None, **k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a[:3]
    out = []
    v = lo
    lim = S.CTX.opts.get("max_arange", 8)
    while v < hi:
        out.append(v)
        v = v + st
        if len(out) > lim:
            raise S.Bound("arange length")
    return mkarr(out)


@impl("nan_to_num")
def nan_to_num(x, *a, nan=0.0, **k):
    return ew(lambda v: nan if S.isnan(v) else (math.copysign(1.7976931348623157e308, v) if S.isinf(v) else v), x)


@impl("round", "around")
def round_(x, decimals=0, **k):
    return ew(lambda v: S.rnd(v, decimals) if is_sym(v) else float(_np.round(v, decimals)), x)


@impl("isscalar")
def isscalar(x):
    return is_sym(x) or (not isinstance(x, _np.ndarray) and _np.isscalar(x))


@impl("ndim")
def ndim(x):
    return 0 if is_sym(x) else mkarr(x).ndim


@impl("shape")
def shape(x):
    return () if is_sym(x) else mkarr(x).shape


@impl("size")
def size(x, axis=None):
    return 1 if is_sym(x) else mkarr(x).size


@impl("copy")
def copy(x, *a, **k):
    return x if is_sym(x) else mkarr(x).copy()


@impl("squeeze")
def squeeze(x, axis=None):
    return x if is_sym(x) else scal(mkarr(x).view(_np.ndarray).squeeze().view(SArr))


@impl("ravel")
def ravel(x, *a):
    return mkarr(x).ravel() if not is_sym(x) else mkarr([x])


@impl("reshape")
def reshape(x, s, *a):
    return mkarr(x).reshape(s)


@impl("transpose")
def transpose(x, axes=None):
    return mkarr(x).view(_np.ndarray).transpose(axes).view(SArr)


@impl("concatenate")
def concatenate(xs, axis=0, **k):
    return _wrap(_np.concatenate([_np.atleast_1d(mkarr(x).view(_np.ndarray)) for x in xs], axis=axis))


@impl("append")
def append(a, b, axis=None):
    return concatenate([ravel(a), ravel(b)])


@impl("hstack")
def hstack(xs, **k):
    return _wrap(_np.hstack([mkarr(x).view(_np.ndarray) for x in xs]))


@impl("vstack", "row_stack")
def vstack(xs, **k):
    return _wrap(_np.vstack([mkarr(x).view(_np.ndarray) for x in xs]))


@impl("stack")
def stack(xs, axis=0, **k):
    return _wrap(_np.stack([mkarr(x).view(_np.ndarray) for x in xs], axis=axis))


@impl("column_stack")
def column_stack(xs, **k):
    return _wrap(_np.column_stack([mkarr(x).view(_np.ndarray) for x in xs]))


@impl("broadcast_arrays")
def broadcast_arrays(*xs, **k):
    return tuple(_wrap(a) for a in _np.broadcast_arrays(*[mkarr(x).view(_np.ndarray) for x in xs]))


@impl("broadcast_to")
def broadcast_to(x, s, **k):
    return _wrap(_np.broadcast_to(mkarr(x).view(_np.ndarray), s))


@impl("allclose")
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return all_(isclose(a, b, rtol, atol))


@impl("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def one(p, q):
        if not S.isfinite(p) or not S.isfinite(q):
            return (not is_sym(p)) and (not is_sym(q)) and p == q
        return S.fabs(p - q) <= atol + rtol * S.fabs(q)

    return ew(one, a, b)


@impl("array_equal")
def array_equal(a, b, **k):
    a, b = mkarr(a), mkarr(b)
    return a.shape == b.shape and all_(ew(_op.eq, a, b))


@impl("interp")
def interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = list(mkarr(xp)), list(mkarr(fp))

    def one(t):
        if t <= xp[0]:
            return fp[0] if left is None or bool(t == xp[0]) else left
        for i in range(1, len(xp)):
            if t <= xp[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (t - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[-1] if right is None else right

    return ew(one, x)


@impl("array_split", "split")
def array_split(x, n, axis=0):
    return [_wrap(a) for a in _np.array_split(mkarr(x).view(_np.ndarray), n)]


@impl("percentile")
def percentile(x, q, **k):
    return quantile(x, q / 100 if not isinstance(q, (list, tuple)) else [v / 100 for v in q])


@impl("quantile")
def quantile(x, q, axis=None, **k):
    x = mkarr(x)
    if axis is not None and x.ndim > 1:
        if x.ndim != 2:
            raise SymError("quantile along an axis of more than two")
        rows = x if axis in (1, -1) else x.T
        cols = [quantile(_wrap(r), q) for r in rows.view(_np.ndarray)]
        out = mkarr([list(mkarr(c).ravel()) for c in cols])
        return _wrap(out.view(_np.ndarray).T.copy()) if isinstance(q, (list, tuple, _np.ndarray)) else _wrap(out.view(_np.ndarray).ravel())
    a = list(sort(x.ravel()))
    n = len(a)

    def one(p):
        h = (n - 1) * p
        if is_sym(h):
            raise SymError("symbolic quantile level")
        f = math.floor(h)
        c = builtins.min(f + 1, n - 1)
        return a[f] + (a[c] - a[f]) * (h - f)

    return ew(one, q)


@impl("flatnonzero")
def flatnonzero(x):
    return _np.flatnonzero(_index(mkarr(x)))


@impl("nonzero")
def nonzero(x):
    return _np.nonzero(_index(mkarr(x)))


@impl("outer")
def outer(a, b):
    return ew(_op.mul, mkarr(a).reshape(-1, 1), mkarr(b).reshape(1, -1))


@impl("delete")
def delete(x, i, axis=None):
    return _wrap(_np.delete(mkarr(x).view(_np.ndarray), i, axis))


@impl("flip")
def flip(x, axis=None):
    if mkarr(x).ndim > 1:
        raise SymError("flip of a table")
    return mkarr(x)[::-1]


@impl("isin", "in1d")
def isin(x, vals, **k):
    vals = list(mkarr(vals).ravel())

    def one(v):
        r = False
        for w in vals:
            r = _lor(r, v == w)
        return r

    return ew(one, x)


@impl("cov")
def cov(x, rowvar=True, ddof=1, **k):
    a = mkarr(x)
    if rowvar is False or rowvar == 0:
        a = transpose(a)
    d = a.shape[0]
    n = a.shape[1]
    ms = [mean(a[i]) for i in range(d)]
    return mkarr([[sum_((a[i] - ms[i]) * (a[j] - ms[j])) / (n - ddof) for j in range(d)] for i in range(d)])


@impl("diag")
def diag(x, k=0):
    return _wrap(_np.diag(mkarr(x).view(_np.ndarray), k))


@impl("result_type")
def result_type(*a):
    return _np.dtype(float)


def function_dispatch(func, args, kwargs):
    f = NPF.get(func.__name__)
    if f is None:
        f = EXTERN.get(func.__name__)
    if f is None:
        uf = UFN.get(func.__name__)
        if uf is None:
            raise SymError(f"numpy.{func.__name__}")
        return ew(uf, *args)
    return f(*args, **kwargs)


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return is_sym(x) and type(x) is R or isinstance(x, _np.float64)

    def __subclasscheck__(cls, c):
        return issubclass(c, _np.float64)


class F64(_np.float64, metaclass=_F64Meta):
    __symname__ = "float64"

    def __new__(cls, x=0.0, *a):
        if has_sym(x):
            return ew(lambda v: S.lift(v), x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return x.astype(float)
        return _np.float64(x)


class _I64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.int64)

    def __subclasscheck__(cls, c):
        return issubclass(c, _np.int64)


class I64(_np.int64, metaclass=_I64Meta):
    __symname__ = "int64"

    def __new__(cls, x=0, *a):
        if has_sym(x):
            return ew(S.trunc, x)
        return _np.int64(x)


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self._cache = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        real = getattr(_np, name)
        out = real
        if name in ("float64", "double"):
            out = F64
        elif name in ("int64", "int_"):
            out = I64
        elif name in NPF:
            out = _fallthrough(real, NPF[name])
        elif name in AFTER:
            out = _fallthrough(real, real)
        elif name in UFN and isinstance(real, _np.ufunc):
            out = _UF(real, UFN[name])
        c[name] = out
        return out


class FArr(_np.ndarray):
    """concrete array that may be indexed by symbolic masks"""

    def __getitem__(self, k):
        out = self.view(_np.ndarray)[_index(k)]
        return out.view(FArr) if isinstance(out, _np.ndarray) else out


def _holder(out):
    """an allocated float array must be able to receive symbolic values"""
    if isinstance(out, _np.ndarray) and out.dtype.kind == "f" and out.size <= 64:
        return out.astype(object).view(SArr)
    return out


def _maskable(out):
    if type(out) is _np.ndarray and out.dtype.kind == "f" and out.size <= 64:
        return out.view(FArr)
    return out


AFTER = {n: _holder for n in ("zeros", "zeros_like", "empty", "empty_like", "full", "full_like", "ones", "ones_like")}
AFTER.update({n: _maskable for n in ("asarray", "array", "atleast_1d")})


def _defix(dt):
    if dt is F64:
        return _np.float64
    if dt is I64:
        return _np.int64
    n = getattr(dt, "__name__", "")
    if n in ("SFloat", "SInt"):
        return _np.float64 if n == "SFloat" else _np.int64
    return dt


def _fallthrough(real, mine):
    after = AFTER.get(real.__name__)

    def f(*a, **k):
        if "dtype" in k:
            k["dtype"] = _defix(k["dtype"])
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return mine(*a, **k)
        if after is not None and S.CTX is not None:
            return after(real(*a, **k))
        return real(*a, **k)

    f.__name__ = real.__name__
    f.__wrapped_real__ = real
    return f


class _UF:
    def __init__(self, real, fn):
        self.real = real
        self.fn = fn
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return ufunc_dispatch(self.real, "__call__", a, k)
        if any(isinstance(x, _np.ndarray) and x.dtype == object for x in a):
            a = tuple(x.astype(float) if isinstance(x, _np.ndarray) and x.dtype == object else x for x in a)
        return self.real(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)


NP = NPProxy()
