"""Symbolic scalars over z3: proxy execution of the real Python code.

A run of ordinary Python code on these proxies builds z3 terms.  Every place
where Python needs a truth value (``if``, ``and``, ``max``...) asks the solver
which outcomes the path condition leaves open and, when both are, forks: the
driver (``explore``) re-executes the code once per feasible path.

Floats are modelled as exact reals plus *concrete* inf/nan.  Transcendental and
third-party functions are applications of uninterpreted functions; each
application becomes a fresh real variable constrained by congruence and by the
facts listed in ``UF_FACTS`` (Ackermann's reduction, so queries stay in QF_NRA).
"""

import math
import time
from fractions import Fraction

import z3

from engine.errs import SymError

CTX = None  # the path being executed

EPSQ = Fraction(2.220446049250313e-16)


class PathInfeasible(BaseException):
    """The path condition became unsatisfiable."""


class Timeout(BaseException):
    """the time of a case is over"""


class Bound(BaseException):
    """A stated exploration bound was reached."""


def is_sym(x):
    return type(x) in (R, B)


def num(v):
    """z3 term of a finite concrete number."""
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    f = float(v)
    fr = Fraction(f)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def _finite(v):
    return math.isfinite(v)


def _isnum(x):
    """concrete number (python or numpy scalar / 0-d array)"""
    if isinstance(x, (bool, int, float, Fraction)) and not is_sym(x):
        return True
    t = type(x).__module__
    if t == "numpy":
        return getattr(x, "ndim", 1) == 0 and getattr(x, "dtype", None) is not None and x.dtype.kind in "biuf"
    return False


def conc(x):
    """concrete numpy scalar -> python number"""
    if hasattr(x, "item") and not is_sym(x):
        return x.item()
    return x


def term(x):
    if type(x) is R:
        return x.e
    if type(x) is B:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    x = conc(x)
    return num(x)


def bterm(x):
    if type(x) is B:
        return x.e
    if type(x) is R:
        return x.e != 0
    return z3.BoolVal(bool(x))


def simp(e):
    return z3.simplify(e)


def mk(e):
    """R from a term, collapsing numerals to python numbers when exact."""
    return R(e)


def const_of(x):
    """python Fraction if x is a numeral, else None"""
    if type(x) is R:
        e = x.e
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        return None
    if _isnum(x):
        x = conc(x)
        if isinstance(x, float) and not _finite(x):
            return None
        return Fraction(x)
    return None


class _NoneArr:
    pass


def _wrap_other(o):
    """returns ('sym'|'fin'|'inf'|'nan'|None, value)"""
    if is_sym(o):
        return "sym", o
    if _isnum(o):
        o = conc(o)
        if isinstance(o, float):
            if o != o:
                return "nan", o
            if o in (math.inf, -math.inf):
                return "inf", o
        return "fin", o
    return None, o


class B:
    """symbolic boolean"""

    __slots__ = ("e",)
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        if _isarr(o):
            return NotImplemented
        return B(z3.And(self.e, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        if _isarr(o):
            return NotImplemented
        return B(z3.Or(self.e, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return B(z3.Xor(self.e, bterm(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return B(z3.Not(self.e))

    def __eq__(self, o):
        if type(o) is B or isinstance(o, bool):
            return B(self.e == bterm(o))
        return R(term(self)) == o

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = object.__hash__

    def _r(self):
        return R(term(self))

    def __mul__(self, o):
        if _isarr(o):
            return NotImplemented
        return self._r() * o

    __rmul__ = __mul__

    def __add__(self, o):
        if _isarr(o):
            return NotImplemented
        return self._r() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._r() - o

    def __rsub__(self, o):
        return o - self._r()

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    def __index__(self):
        return int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"B({z3.simplify(self.e)})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from engine import nps

        return nps.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from engine import nps

        return nps.function_dispatch(func, args, kwargs)


def _isarr(o):
    import numpy as np

    return isinstance(o, np.ndarray) and o.ndim > 0


class R:
    """symbolic real number (a finite float)"""

    __slots__ = ("e",)
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    # isinstance(x, float) holds, as for the numpy scalar it stands for
    __class__ = property(lambda self: float)

    @property
    def dtype(self):
        import numpy as np

        return np.dtype("float64")

    @property
    def real(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def flatten(self):
        from engine import nps

        return nps.mkarr([self])

    ravel = flatten

    def astype(self, t, *a, **k):
        from engine import nps

        return nps.cast(self, t)

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    max = min

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise SymError("pickling a symbolic value")

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        if k is None:
            from engine import nps

            return nps.mkarr([self])
        if isinstance(k, bool) or type(k).__name__ in ("bool", "bool_"):
            from engine import nps

            return nps.mkarr([self] if bool(k) else [])
        raise IndexError("invalid index to scalar variable.")

    def __float__(self):
        c = const_of(self)
        if c is not None:
            return float(c)
        raise SymError("float() of a symbolic value")

    def __int__(self):
        c = const_of(self)
        if c is not None:
            return int(c)
        return CTX.concretize_int(self)

    def __index__(self):
        return self.__int__()

    def __format__(self, spec):
        return CTX.format_token(self, spec)

    def __repr__(self):
        return CTX.format_token(self, "r") if CTX is not None else f"R({self.e})"

    __str__ = __repr__

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self != 0)

    # ---- arithmetic
    def _bin(self, o, op, swap=False):
        kind, o = _wrap_other(o)
        if kind is None:
            return NotImplemented
        if kind == "nan":
            return math.nan
        if kind == "inf":
            return _inf_op(self, o, op, swap)
        return (_OPS[op])(o, self) if swap else (_OPS[op])(self, o)

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        return self._bin(o, "mul")

    def __rmul__(self, o):
        return self._bin(o, "mul", True)

    def __truediv__(self, o):
        return self._bin(o, "div")

    def __rtruediv__(self, o):
        return self._bin(o, "div", True)

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        return self - o * floor(self / o)

    def __rmod__(self, o):
        return o - self * floor(o / self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return self._bin(o, "pow")

    def __rpow__(self, o):
        return self._bin(o, "pow", True)

    def __neg__(self):
        return R(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return fabs(self)

    def __round__(self, n=None):
        return rnd(self, n)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return trunc(self)

    def is_integer(self):
        return B(z3.IsInt(self.e))

    # ---- comparison
    def _cmp(self, o, f, pinf, ninf):
        kind, o = _wrap_other(o)
        if kind is None:
            return NotImplemented
        if kind == "nan":
            return False
        if kind == "inf":
            return pinf if o > 0 else ninf
        return B(f(self.e, term(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, False)
        return False if r is NotImplemented and not _isarr(o) else r

    def __ne__(self, o):
        kind, ov = _wrap_other(o)
        if kind is None:
            return NotImplemented if _isarr(o) else True
        if kind in ("nan", "inf"):
            return True
        return B(self.e != term(ov))

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from engine import nps

        return nps.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from engine import nps

        return nps.function_dispatch(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        import numpy as np

        a = np.empty((), dtype=object)
        a[()] = self
        return a

    # numpy object loops
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def floor(self):
        return floor(self)

    def ceil(self):
        return -floor(-self)

    def conjugate(self):
        return self


def _inf_op(s, c, op, swap):
    """s symbolic finite, c = +-inf"""
    if op == "add":
        return c
    if op == "sub":
        return c if swap else -c
    if op == "mul":
        if s > 0:
            return c
        if s < 0:
            return -c
        return math.nan
    if op == "div":
        if not swap:
            return R(z3.RealVal(0))
        if s > 0:
            return c
        if s < 0:
            return -c
        return math.nan
    if op == "pow":
        if swap:  # c ** s
            if s > 0:
                return math.inf if c > 0 else math.nan
            if s == 0:
                return 1.0
            return 0.0
        a = fabs(s)
        if c > 0:
            if a < 1:
                return 0.0
            if a > 1:
                return math.inf
            return 1.0
        if a < 1:
            return math.inf
        if a > 1:
            return 0.0
        return 1.0
    raise SymError(op)


def _div(a, b):
    cb = const_of(b)
    if cb is not None:
        if cb == 0:
            ca = const_of(a)
            if isinstance(a, R) and ca is None:
                if a > 0:
                    return math.inf
                if a < 0:
                    return -math.inf
                return math.nan
            if ca == 0:
                return math.nan
            return math.inf if ca > 0 else -math.inf
        return R(term(a) / num(cb))
    # symbolic denominator: zero is a separate path (numpy semantics)
    if CTX.branch(b.e == 0, prefer=False):
        ca = const_of(a)
        if ca is not None:
            return math.nan if ca == 0 else (math.inf if ca > 0 else -math.inf)
        if a > 0:
            return math.inf
        if a < 0:
            return -math.inf
        return math.nan
    return R(CTX.quot(term(a), b.e))


def _pow(a, b):
    cb = const_of(b)
    if cb is not None:
        if cb.denominator == 1 and abs(cb.numerator) <= 12:
            n = cb.numerator
            if n == 0:
                return 1.0
            e = term(a)
            out = e
            for _ in range(abs(n) - 1):
                out = out * e
            return R(out) if n > 0 else _div(1, R(out))
        if cb == Fraction(1, 2):
            return sqrt(a)
        if cb == Fraction(-1, 2):
            return 1 / sqrt(a)
        for d in (3, 4, 5):
            for n in (1, 2, -1, -2):
                if abs(cb - Fraction(n, d)) < Fraction(1, 10**14):
                    r = root(a, d)
                    return r**n
        if abs(2 * cb - round(2 * cb)) == 0 and abs(2 * cb) <= 13:
            return sqrt(a) ** int(2 * cb)
    ca = const_of(a)
    if ca is not None and ca == 0:
        if b > 0:
            return 0.0
        if b == 0:
            return 1.0
        return math.inf
    if ca is not None and ca == 1:
        return 1.0
    # general power, base must be positive
    if ca is not None and ca < 0:
        raise SymError("power of a negative base")
    if ca is None:
        if not (a > 0):
            if a == 0:
                if b > 0:
                    return 0.0
                if b == 0:
                    return 1.0
                return math.inf
            raise SymError("power of a negative base")
    return exp(R(term(b) * term(log(R(term(a))))))


_OPS = {
    "add": lambda a, b: R(term(a) + term(b)),
    "sub": lambda a, b: R(term(a) - term(b)),
    "mul": lambda a, b: R(term(a) * term(b)),
    "div": _div,
    "pow": _pow,
}


# ------------------------------------------------------------- math functions
def lift(x):
    """to R / concrete float; bools too"""
    if type(x) is R:
        return x
    if type(x) is B:
        return R(term(x))
    return x


def fabs(x):
    x = lift(x)
    if type(x) is not R:
        return abs(x)
    return R(z3.If(x.e >= 0, x.e, -x.e))


def floor(x):
    x = lift(x)
    if type(x) is not R:
        return float(math.floor(x)) if math.isfinite(x) else x
    c = const_of(x)
    if c is not None:
        return R(z3.RealVal(math.floor(c)))
    if z3.is_app_of(x.e, z3.Z3_OP_TO_REAL):
        return x
    return R(z3.ToReal(z3.ToInt(x.e)))


def ceil(x):
    return -floor(-lift(x))


def trunc(x):
    x = lift(x)
    if type(x) is not R:
        return math.trunc(x)
    if z3.is_app_of(x.e, z3.Z3_OP_TO_REAL):
        return x
    f = z3.ToReal(z3.ToInt(x.e))
    g = -z3.ToReal(z3.ToInt(-x.e))
    return R(z3.If(x.e >= 0, f, g))


def rnd(x, n=None):
    x = lift(x)
    if type(x) is not R:
        return round(x, n) if n is not None else round(x)
    n = n or 0
    s = 10**n
    k = CTX.fresh("round")
    CTX.define(z3.And(z3.IsInt(k * s) if n else z3.IsInt(k), 2 * s * (k - x.e) <= 1, 2 * s * (x.e - k) <= 1))
    return R(k)


def sqrt(x):
    x = lift(x)
    if type(x) is not R:
        if x != x or x < 0:
            return math.nan
        return math.sqrt(x)
    c = const_of(x)
    if c is not None:
        if c < 0:
            return math.nan
        return math.sqrt(c)
    if nonneg(x.e):
        CTX.define(x.e >= 0)
    elif not (x >= 0):
        return math.nan
    return root(x, 2)


def nonneg(e):
    """e >= 0 by its structure: sums and products of squares and of terms
    that the solver shows not to be negative"""
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    key = ("nonneg", e.get_id())
    r = CTX.memo.get(key)
    if r is None:
        r = CTX.memo[key] = _nonneg(e)
        CTX.keep.append(e)
    return r


def _factors(e, out):
    if z3.is_mul(e):
        for c in e.children():
            _factors(c, out)
    else:
        out.append(e)
    return out


def _nonneg(e):
    if z3.is_to_real(e):
        return nonneg(e.arg(0)) if z3.is_rational_value(e.arg(0)) else _leaf(e)
    if z3.is_add(e):
        return all(nonneg(c) for c in e.children()) or _linear(e)
    if z3.is_mul(e):
        odd = {}
        for f in _factors(e, []):
            odd[f.get_id()] = None if f.get_id() in odd and odd[f.get_id()] is not None else f
        return all(nonneg(f) for f in odd.values() if f is not None)
    if z3.is_div(e):
        return all(nonneg(c) for c in e.children())
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        b, n = e.children()
        if z3.is_rational_value(n) and n.denominator_as_long() == 1:
            return n.numerator_as_long() % 2 == 0 or nonneg(b)
        return False
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return nonneg(e.arg(1)) and nonneg(e.arg(2))
    q = CTX.quots.get(e.get_id())
    if q is not None:
        return nonneg(q[0]) and nonneg(q[1])
    return _leaf(e)


def _leaf(e):
    return z3.is_const(e) and CTX.feasible(e < 0) == z3.unsat


def _linear(e):
    """a linear combination of variables"""
    for c in e.children():
        for f in _factors(c, []):
            if not (z3.is_const(f) or z3.is_rational_value(f)):
                return False
    return CTX.feasible(e < 0) == z3.unsat


def root(x, d):
    x = lift(x)
    if type(x) is not R:
        return x ** (1 / d)
    if d != 2 and not (x >= 0):
        return math.nan
    t = simp(x.e)
    key = ("root", d, t.get_id())
    v = CTX.memo.get(key)
    if v is None:
        v = CTX.fresh(f"root{d}")
        p = v
        for _ in range(d - 1):
            p = p * v
        CTX.define(z3.And(v >= 0, p == x.e))
        CTX.memo[key] = v
        CTX.keep += [t, v]
    return R(v)


def smin(a, b):
    ka, a = _wrap_other(a)
    kb, b = _wrap_other(b)
    if ka == "nan" or kb == "nan":
        return math.nan
    if ka == "inf":
        return b if a > 0 else a
    if kb == "inf":
        return a if b > 0 else b
    if ka == "fin" and kb == "fin":
        return min(a, b)
    x, y = term(a), term(b)
    return R(z3.If(x <= y, x, y))


def smax(a, b):
    ka, a = _wrap_other(a)
    kb, b = _wrap_other(b)
    if ka == "nan" or kb == "nan":
        return math.nan
    if ka == "inf":
        return b if a < 0 else a
    if kb == "inf":
        return a if b < 0 else b
    if ka == "fin" and kb == "fin":
        return max(a, b)
    x, y = term(a), term(b)
    return R(z3.If(x >= y, x, y))


def ite(c, a, b):
    """value-level if; forks when a branch is not a finite number"""
    if type(c) is not B:
        return a if c else b
    s = simp(c.e)
    if z3.is_true(s):
        return a
    if z3.is_false(s):
        return b
    if type(a) is B or type(b) is B or isinstance(a, bool) or isinstance(b, bool):
        if (type(a) is B or isinstance(a, bool)) and (type(b) is B or isinstance(b, bool)):
            return B(z3.If(c.e, bterm(a), bterm(b)))
    ka, a2 = _wrap_other(a)
    kb, b2 = _wrap_other(b)
    if ka in ("sym", "fin") and kb in ("sym", "fin"):
        return R(z3.If(c.e, term(a2), term(b2)))
    return a if bool(c) else b


def isnan(x):
    return (not is_sym(x)) and x != x


def isinf(x):
    return (not is_sym(x)) and x in (math.inf, -math.inf)


def isfinite(x):
    return is_sym(x) or math.isfinite(x)


# -- uninterpreted applications -------------------------------------------------
def uf(name, *args, facts=None):
    """apply the uninterpreted real function ``name``"""
    return CTX.apply(name, args, facts)


def _split_sum(e):
    """list of additive terms"""
    e = z3.simplify(e, som=True, hoist_ite=False)
    if z3.is_app_of(e, z3.Z3_OP_ADD):
        return list(e.children())
    return [e]


def _coeff(e):
    """(Fraction c, rest) of c*rest"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long()), None
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        c, r = _coeff(e.children()[0])
        return -c, r
    if z3.is_app_of(e, z3.Z3_OP_MUL):
        ch = e.children()
        if z3.is_rational_value(ch[0]):
            c = Fraction(ch[0].numerator_as_long(), ch[0].denominator_as_long())
            rest = ch[1] if len(ch) == 2 else z3.Product(*ch[1:])
            return c, rest
    return Fraction(1), e


def exp(x):
    x = lift(x)
    if type(x) is not R:
        return math.exp(x) if x < 700 else math.inf
    c = const_of(x)
    if c is not None:
        return math.exp(c)
    xe = simp(x.e)
    if z3.is_app_of(xe, z3.Z3_OP_ITE):
        c, a, b = xe.children()
        return R(z3.If(c, term(exp(R(a))), term(exp(R(b)))))
    out = z3.RealVal(1)
    rest = []
    for t in _split_sum(x.e):
        co, r = _coeff(t)
        arg = CTX.logarg(r) if r is not None else None
        if arg is not None and co.denominator == 1 and abs(co.numerator) <= 6:
            for _ in range(abs(co.numerator)):
                out = out * arg if co > 0 else CTX.quot(out, arg)
        else:
            rest.append(t)
    if rest:
        s = simp(rest[0] if len(rest) == 1 else z3.Sum(*rest))
        c0, _ = _coeff(_split_sum(s)[0])
        if c0 < 0:
            # exp(-t) = 1 / exp(t)
            out = CTX.quot(out, CTX.apply("exp", [R(simp(-s))], None).e)
        else:
            out = out * CTX.apply("exp", [R(s)], None).e
    return R(simp(out))


def log(x):
    x = lift(x)
    if type(x) is not R:
        if x != x or x < 0:
            return math.nan
        return -math.inf if x == 0 else math.log(x)
    c = const_of(x)
    if c is not None:
        if c < 0:
            return math.nan
        return -math.inf if c == 0 else R(CTX.apply("log", [R(num(c))], None).e)
    if CTX.opts.get("plain_log"):
        return CTX.apply("log", [x], None)
    if not CTX.branch(x.e > 0):
        if CTX.branch(x.e == 0):
            return -math.inf
        return math.nan
    return R(CTX.log_term(x.e))


# ------------------------------------------------------------------ the solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0

    def add(self, o):
        for k, v in vars(o).items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()
QUICK_MS = 3000


def _one(constraints, ms, tactic=None):
    s = z3.SolverFor(tactic) if tactic else z3.Solver()
    s.set("timeout", int(ms))
    s.add(*constraints)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


def solve(constraints, ms=QUICK_MS, need_model=False):
    """portfolio: default z3, then nlsat, then default again with more time"""
    t0 = time.time()
    STATS.queries += 1
    try:
        r, m = _one(constraints, min(ms, 700))
        if r == z3.unknown:
            r, m = _one(constraints, ms, "QF_NRA")
        if r == z3.unknown and ms > 700:
            r, m = _one(constraints, ms)
        if r == z3.unknown and ms >= 2000:
            r2 = cvc5_check(constraints, ms)
            if r2 == "unsat":
                r = z3.unsat
    except z3.Z3Exception:
        r, m = z3.unknown, None
    STATS.solver_s += time.time() - t0
    if r == z3.sat:
        STATS.sat += 1
    elif r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r, m


_VARS = {}


def variables(e):
    """names of the constants of a term"""
    key = e.get_id()
    r = _VARS.get(key)
    if r is None:
        out, todo, seen = set(), [e], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo += t.children()
        # the term is kept so that its id stays its own
        r = _VARS[key] = (frozenset(out), e)
    return r[0]


def narrow_unsat(pc, goal_neg):
    """unsat already from the part of the path that talks about the same variables"""
    vs = variables(goal_neg)
    part = [p for p in pc if variables(p) <= vs]
    if len(part) == len(pc):
        return False
    t0 = time.time()
    STATS.queries += 1
    r, _ = _one([*part, goal_neg], 300)
    STATS.solver_s += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
    return r == z3.unsat


def cvc5_check(constraints, ms):
    """ask cvc5 (command line) about the same assertions"""
    import subprocess

    s = z3.Solver()
    s.add(*constraints)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(
            ["cvc5", "--lang=smt2", f"--tlimit={int(ms)}", "--nl-cov", "-q"],
            input=txt,
            capture_output=True,
            text=True,
            timeout=ms / 1000 + 5,
        )
    except Exception:
        return "unknown"
    out = p.stdout.strip().splitlines()
    if any("error" in line for line in out):
        return "unknown"
    return out[-1].strip() if out else "unknown"


def val_of(m, e):
    """python float/Fraction of term e in model m"""
    v = m.eval(e, model_completion=True)
    return _val(v)


def _val(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise SymError(f"no value: {v}")


class Path:
    """state of the path being executed"""

    def __init__(self, prefix, opts):
        self.prefix = prefix  # list of bools: decisions to follow
        self.taken = []
        self.pc = []  # constraints: assumptions, definitions, branch conditions
        self.pending = []  # alternative prefixes
        self.memo = {}
        self.keep = []  # z3 terms kept alive (ids used as keys)
        self.apps = {}  # uf name -> list of (args, var)
        self.inputs = {}  # name -> z3 var
        self.n = 0
        self.opts = opts
        self.tokens = {}
        self.forks = 0
        self.unknown_branches = 0
        self.notes = set()
        self.logs = {}  # id of log var -> arg
        self.quots = {}

    # -- variables
    def fresh(self, base):
        self.n += 1
        return z3.Real(f"{base}!{self.n}")

    def define(self, c):
        self.pc.append(c)

    def assume(self, c):
        if type(c) is B:
            c = c.e
        elif isinstance(c, bool) or c is True or c is False:
            c = z3.BoolVal(bool(c))
        self.pc.append(c)

    # -- branching
    def feasible(self, c):
        r, _ = solve(self.pc + [c], self.opts.get("branch_ms", 1500))
        return r

    def branch(self, c, prefer=True):
        if type(c) is B:
            c = c.e
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = ("br", c.get_id())
        if key in self.memo:
            return self.memo[key]
        self.keep.append(c)
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            rt = self.feasible(c)
            if rt == z3.unsat:
                d = False
                # the path itself may be infeasible; found out at the end
                self.memo[key] = d
                self.taken.append(d)
                self.pc.append(z3.Not(c))
                return d
            rf = self.feasible(z3.Not(c))
            if rf == z3.unsat:
                self.memo[key] = True
                self.taken.append(True)
                self.pc.append(c)
                return True
            if rt == z3.unknown or rf == z3.unknown:
                self.unknown_branches += 1
            d = prefer
            self.pending.append(self.taken + [not d])
            self.forks += 1
            if self.forks > self.opts.get("max_depth", 60):
                raise Bound("depth")
        self.taken.append(d)
        self.memo[key] = d
        self.pc.append(c if d else z3.Not(c))
        return d

    def concretize_int(self, x):
        """int(x) for a value whose integer range is small: fork over it"""
        t = trunc(x)
        for _ in range(self.opts.get("max_concretize", 40)):
            r, m = solve(self.pc, 3000)
            if r == z3.unsat:
                raise PathInfeasible()
            if r != z3.sat:
                raise SymError("cannot concretise")
            v = val_of(m, t.e)
            k = int(v)
            if self.branch(t.e == k):
                return k
        raise Bound("concretisation")

    def quot(self, a, b):
        """a / b for b known to be nonzero, as a fresh q with q*b == a"""
        a, b = simp(a), simp(b)
        key = ("quot", a.get_id(), b.get_id())
        v = self.memo.get(key)
        if v is None:
            v = self.fresh("q")
            self.memo[key] = v
            self.keep += [a, b]
            self.pc.append(v * b == a)
            self.quots[v.get_id()] = (a, b)
            self.keep.append(v)
        return v

    # -- uninterpreted functions
    def logarg(self, r):
        if r is None:
            return None
        return self.logs.get(r.get_id())

    def log_term(self, e):
        """log of a positive term, products split when the factors are positive"""
        e = simp(e)
        q = self.quots.get(e.get_id())
        if q is not None or z3.is_app_of(e, z3.Z3_OP_MUL):
            ch = list(q) if q is not None else e.children()
            ok = True
            for t in ch:
                if z3.is_rational_value(t):
                    if t.numerator_as_long() <= 0:
                        ok = False
                        break
                    continue
                if self.feasible(t <= 0) != z3.unsat:
                    ok = False
                    break
            if ok:
                parts = [self.log_term(t) for t in ch]
                tot = z3.Sum(*parts) if q is None else parts[0] - parts[1]
                key = ("logsplit", e.get_id())
                if key not in self.memo:
                    self.memo[key] = True
                    self.keep.append(e)
                    if self.apps.get("exp"):
                        self.pc.append(self.apply("log", [R(e)], None).e == tot)
                return tot
        v = self.expargs().get(e.get_id())
        if v is not None:
            return v
        return self.apply("log", [R(e)], None).e

    def expargs(self):
        return self.memo.setdefault("exps", {})

    def apply(self, name, args, facts):
        ts = [simp(term(lift(a))) for a in args]
        key = ("uf", name, tuple(t.get_id() for t in ts))
        v = self.memo.get(key)
        if v is not None:
            return R(v)
        v = self.fresh("uf_" + name)
        self.memo[key] = v
        self.keep.extend(ts)
        prev = self.apps.setdefault(name, [])
        for pts, pv in prev:
            self.pc.append(z3.Implies(z3.And(*[a == b for a, b in zip(ts, pts)]), v == pv))
        if name == "log":
            self.logs[v.get_id()] = ts[0]
            self.keep.append(v)
        if name == "exp":
            self.expargs()[v.get_id()] = ts[0]
            self.keep.append(v)
        plain = name == "log" and self.opts.get("plain_log")
        f = facts or UF_FACTS.get(name)
        if f is not None and not plain:
            for c in f(ts, v, prev):
                self.pc.append(c)
        prev.append((ts, v))
        if name in ("log", "exp") and not plain:
            # log and exp are inverse, order preserving maps
            for pts, pv in self.apps.get("exp" if name == "log" else "log", []):
                (lt, lv), (et, ev) = ((ts[0], v), (pts[0], pv)) if name == "log" else ((pts[0], pv), (ts[0], v))
                self.pc.append((lt < ev) == (lv < et))
                self.pc.append((lt > ev) == (lv > et))
        return R(v)

    # -- formatting
    def format_token(self, x, spec):
        k = len(self.tokens)
        tok = f"\u27e8{k}\u27e9"
        self.tokens[k] = (x, spec)
        return tok


def _mono(ts, v, prev, strict=True):
    out = []
    for (p,), pv in [(q[0], q[1]) for q in prev]:
        out.append((ts[0] < p) == (v < pv))
        out.append((ts[0] > p) == (v > pv))
    return out


def _f_exp(ts, v, prev):
    t = ts[0]
    return [v > 0, v >= 1 + t, (t < 0) == (v < 1), (t == 0) == (v == 1)] + _mono(ts, v, prev)


def _f_log(ts, v, prev):
    t = ts[0]
    out = [v <= t - 1, (t < 1) == (v < 0), (t == 1) == (v == 0)]
    if z3.is_rational_value(t):
        q = Fraction(t.numerator_as_long(), t.denominator_as_long())
        f = math.log(q)
        out += [v >= num(f - 1e-12 * max(1, abs(f))), v <= num(f + 1e-12 * max(1, abs(f)))]
    return out + _mono(ts, v, prev)


def _f_pos(ts, v, prev):
    return [v > 0]


def _f_gamma(ts, v, prev):
    out = [z3.Implies(ts[0] > 0, v > 0)]
    for pts, pv in prev:
        d = z3.simplify(ts[0] - pts[0])
        if z3.is_rational_value(d) and d.denominator_as_long() == 1:
            k = d.numerator_as_long()
            if k == 1:
                out.append(v == pts[0] * pv)
            elif k == -1:
                out.append(pv == ts[0] * v)
    return out


def _f_erf(ts, v, prev):
    t = ts[0]
    out = [v > -1, v < 1, (t > 0) == (v > 0), (t == 0) == (v == 0)] + _mono(ts, v, prev)
    for pts, pv in prev:
        out.append(z3.Implies(pts[0] == -t, pv == -v))
    return out


def _f_unit(ts, v, prev):
    return [v >= 0, v <= 1]


UF_FACTS = {
    "exp": _f_exp,
    "log": _f_log,
    "gamma": _f_gamma,
    "erf": _f_erf,
    "betainc": _f_unit,
    "gammainc": _f_unit,
    "gammaincc": _f_unit,
    "bessel_i0": _f_pos,
    "cosh": lambda ts, v, prev: [v >= 1],
    "sin": lambda ts, v, prev: [v >= -1, v <= 1],
    "cos": lambda ts, v, prev: [v >= -1, v <= 1],
}


# ------------------------------------------------------------------ exploration
class PathResult:
    def __init__(self):
        self.checks = []


def explore(run, opts):
    """run() once per feasible path.  yields Path objects after execution."""
    global CTX
    work = [[]]
    n = 0
    t0 = time.time()
    while work:
        if n >= opts.get("max_paths", 200) or time.time() - t0 > opts.get("max_s", 120):
            yield None, "bound: paths" if n >= opts.get("max_paths", 200) else "bound: time"
            return
        prefix = work.pop()
        CTX = Path(prefix, opts)
        n += 1
        status = "ok"
        try:
            run(CTX)
        except PathInfeasible:
            status = "infeasible"
        except Bound as e:
            status = f"bound: {e}"
        except Timeout:
            yield CTX, "bound: time"
            break
        work.extend(CTX.pending)
        yield CTX, status
    CTX = None
