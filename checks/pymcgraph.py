"""Reads PyMC's own random variables with symbolic parameters.

The variable is built by the installed PyMC from named symbolic scalars; the
graph PyMC makes of them (its conversion between parametrizations) is evaluated
over symbolic values, so ``eval`` of an input gives what PyMC would compute.
"""

import math
import operator

import numpy as np

import pymc as pm  # noqa: F401
import pytensor.tensor as pt
from pytensor.graph.basic import Constant

NAN = float("nan")


class LogOf:
    """logarithm of a positive value, kept symbolic so that sigmoid(log a - log b) is a / (a + b)"""

    def __init__(self, v):
        self.v = v


def leaf(name, integer=False):
    return pt.lscalar(name) if integer else pt.dscalar(name)


def isnan(v):
    return type(v) is float and math.isnan(v)


class Graph:
    def __init__(self, sx, env):
        self.sx = sx
        self.env = env
        self.memo = {}

    def value(self, v):
        if v in self.memo:
            return self.memo[v]
        r = self._value(v)
        self.memo[v] = r
        return r

    def _value(self, v):
        if isinstance(v, Constant):
            d = np.asarray(v.data)
            return d.item() if d.ndim == 0 else [x.item() for x in d.ravel()] if d.ndim == 1 else d
        if v.owner is None:
            return self.env[v.name]
        op, ins = v.owner.op, v.owner.inputs
        kind = type(op).__name__
        if kind in ("CheckParameterValue", "Assert", "DimShuffle", "SpecifyShape", "TensorFromScalar", "ScalarFromTensor"):
            return self.value(ins[0])
        if kind == "MakeVector":
            return [self.value(i) for i in ins]
        if kind == "Elemwise":
            args = [self.value(i) for i in ins]
            if any(isinstance(a, list) for a in args):
                n = max(len(a) for a in args if isinstance(a, list))
                cols = [[(a[k if len(a) > 1 else 0] if isinstance(a, list) else a) for a in args] for k in range(n)]
                return [self.scalar(type(op.scalar_op).__name__, c) for c in cols]
            return self.scalar(type(op.scalar_op).__name__, args)
        raise NotImplementedError(f"PyMC graph operation {kind}")

    def scalar(self, op, a):
        sx = self.sx
        if any(isnan(x) for x in a):
            return NAN
        if op == "Log":
            return LogOf(a[0])
        if op == "Sub" and all(isinstance(x, LogOf) for x in a):
            return LogOf(a[0].v / a[1].v)
        if op == "Sigmoid":
            if isinstance(a[0], LogOf):
                return a[0].v / (1 + a[0].v)
            from engine import sym

            return 1 / (1 + sym.exp(-a[0]))
        if op in ("Add", "Mul"):
            r = a[0]
            for x in a[1:]:
                r = r + x if op == "Add" else r * x
            return r
        if op == "Sub":
            return a[0] - a[1]
        if op == "TrueDiv":
            return a[0] / a[1]
        if op == "Reciprocal":
            return 1 / a[0]
        if op == "Sqr":
            return a[0] * a[0]
        if op == "Pow":
            if a[1] == -0.5:
                return 1 / a[0] ** 0.5
            return a[0] ** (int(a[1]) if a[1] == int(a[1]) else a[1])
        if op == "Abs":
            return a[0] if sx.is_true(a[0] >= 0) else -a[0]
        if op == "Sign":
            if sx.is_true(a[0] > 0):
                return 1
            return 0 if sx.is_true(a[0] == 0) else -1
        if op == "Exp":
            from engine import sym

            return sym.exp(a[0])
        if op in CMP:
            return CMP[op](a[0], a[1])
        if op == "AND":
            return all(self.truth(x) for x in a)
        if op == "OR":
            return any(self.truth(x) for x in a)
        if op == "Invert":
            return not self.truth(a[0])
        if op == "Switch":
            return a[1] if self.truth(a[0]) else a[2]
        if op in ("Floor", "Cast", "Identity"):
            # only applied to integers here
            return a[0]
        raise NotImplementedError(f"PyMC scalar operation {op}")


    def truth(self, c):
        return c if isinstance(c, bool) else self.sx.is_true(c)


CMP = {"NEQ": operator.ne, "EQ": operator.eq, "GT": operator.gt, "LT": operator.lt, "GE": operator.ge, "LE": operator.le}


class TensorVariable:
    """a variable of the graph, seen the way preliz looks at one"""

    def __init__(self, g, var):
        self._g = g
        self._var = var

    @property
    def owner(self):
        return None if self._var.owner is None else Node(self._g, self._var.owner)

    def eval(self):
        v = self._var
        if isinstance(v, Constant):
            return v.data
        if v.owner is not None and not hasattr(v.type, "ndim"):
            return object()
        if v.owner is None and v.name not in self._g.env:
            return object()  # the random generator
        r = self._g.value(v)
        if isinstance(r, list):
            return _arr(r)
        return _arr0(r)


class Node:
    def __init__(self, g, node):
        self.op = node.op
        self.inputs = [TensorVariable(g, i) for i in node.inputs]


def _arr(vals):
    from engine.nps import mkarr

    return mkarr(vals)


def _arr0(v):
    if type(v) in (int, float):
        return np.asarray(v)
    from engine.nps import mkarr

    return mkarr([v]).reshape(())


def build(sx, make, args, ints=()):
    """make(**args) with symbolic values for the numbers in args

    symbolic: PyMC builds the graph from named scalars, evaluated over the
    values; concrete: PyMC gets the numbers.
    """
    if not sx.symbolic:
        return make(**args)
    env, kw = {}, {}

    def put(name, v):
        env[name] = v
        return leaf(name, name.split(".")[-1] in ints)

    for k, v in args.items():
        if isinstance(v, (list, tuple)):
            kw[k] = pt.stack([put(f"{k}.{i}", x) for i, x in enumerate(v)])
        else:
            kw[k] = put(k, v)
    return TensorVariable(Graph(sx, env), make(**kw))
