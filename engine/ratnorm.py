"""Rational-function normal form of solver terms.

Quotients introduced by ``Path.quot`` (q with q*b == a, b != 0 on the path) and
roots (v with v**d == a) are unfolded, so that an equation a == b can be
recognised as an identity of rational functions.  Used to simplify equations
before they are given to the solver.
"""

from fractions import Fraction

import z3

CAP = 6000


class TooBig(Exception):
    pass


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def mmul(m, n):
    d = dict(m)
    for g, e in n:
        d[g] = d.get(g, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 60 * CAP:
        raise TooBig
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = out.get(k, 0) + c * d
            if v:
                out[k] = v
            else:
                del out[k]
    if len(out) > CAP:
        raise TooBig
    return out


ONE = {(): Fraction(1)}


def ppow(a, n):
    out = ONE
    for _ in range(n):
        out = pmul(out, a)
    return out


class Norm:
    def __init__(self, ctx):
        self.ctx = ctx
        self.roots = {}
        for k, v in ctx.memo.items():
            if isinstance(k, tuple) and k and k[0] == "root":
                self.roots[v.get_id()] = (k[1], k[2])
        self.by_id = {t.get_id(): t for t in ctx.keep}
        self.memo = {}
        self.canon = []
        self.factors = {}  # key -> poly

    # a rational function: (poly, {factor key: exp})
    def fac(self, p):
        lead = max(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        k = frozenset(q.items())
        self.factors[k] = q
        return k, c

    def scale(self, p, den, target):
        for k, e in target.items():
            d = e - den.get(k, 0)
            if d:
                p = pmul(p, ppow(self.factors[k], d))
        return p

    def add(self, x, y, k=1):
        (a, da), (b, db) = x, y
        if da == db:
            return padd(a, b, k), da
        t = dict(da)
        for f, e in db.items():
            t[f] = max(t.get(f, 0), e)
        return padd(self.scale(a, da, t), self.scale(b, db, t), k), t

    def mul(self, x, y):
        (a, da), (b, db) = x, y
        t = dict(da)
        for f, e in db.items():
            t[f] = t.get(f, 0) + e
        num = pmul(a, b)
        # cancel factors that are single generators
        for f in list(t):
            p = self.factors[f]
            if len(p) == 1:
                ((m, _),) = p.items()
                if len(m) == 1 and m[0][1] == 1:
                    g = m[0][0]
                    if num:
                        low = min(dict(mm).get(g, 0) for mm in num)
                        c = min(low, t[f])
                        if c:
                            num = {tuple((h, e - c if h == g else e) for h, e in mm if h != g or e > c): v for mm, v in num.items()}
                            t[f] -= c
                            if not t[f]:
                                del t[f]
        return num, t

    def div(self, x, y):
        (a, da), (b, db) = x, y
        if not b:
            raise TooBig
        k, c = self.fac(b)
        num = {m: v / c for m, v in a.items()}
        # times db
        out = (num, dict(da))
        for f, e in db.items():
            e2 = min(e, out[1].get(f, 0))
            d = dict(out[1])
            if e2:
                d[f] -= e2
                if not d[f]:
                    del d[f]
            n2 = out[0]
            if e - e2:
                n2 = pmul(n2, ppow(self.factors[f], e - e2))
            out = (n2, d)
        if k == frozenset(ONE.items()):
            return out
        if frozenset(out[0].items()) and len(self.factors[k]) == len(out[0]):
            # exact cancellation
            kk, cc = self.fac(out[0])
            if kk == k:
                return {(): cc}, out[1]
        return self.mul(out, (ONE, {k: 1}))

    def of(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._of(e)
            self.memo[i] = r
        return r

    def _of(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): v} if v else {}), {}
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return ({(): v} if v else {}), {}
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_ADD:
            out = self.of(ch[0])
            for c in ch[1:]:
                out = self.add(out, self.of(c))
            return out
        if d == z3.Z3_OP_SUB:
            out = self.of(ch[0])
            for c in ch[1:]:
                out = self.add(out, self.of(c), -1)
            return out
        if d == z3.Z3_OP_UMINUS:
            p, q = self.of(ch[0])
            return {m: -v for m, v in p.items()}, q
        if d == z3.Z3_OP_MUL:
            out = self.of(ch[0])
            for c in ch[1:]:
                out = self.mul(out, self.of(c))
            return out
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            n = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            if n.denominator == 1 and 0 <= n <= 12:
                b = self.of(ch[0])
                out = (ONE, {})
                for _ in range(int(n)):
                    out = self.mul(out, b)
                return out
        if d == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
            return self.of(ch[0])
        if d == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
            return self.div(self.of(ch[0]), self.of(ch[1]))
        q = self.ctx.quots.get(e.get_id())
        if q is not None:
            return self.div(self.of(q[0]), self.of(q[1]))
        return {((self.canonical(e.get_id()), 1),): Fraction(1)}, {}

    def canonical(self, g):
        """the first root of the same quantity"""
        if g not in self.roots:
            return g
        d, rid = self.roots[g]
        t = self.by_id.get(rid)
        if t is None:
            return g
        n = self.of(t)
        for h, d2, n2 in self.canon:
            if h == g:
                return g
            if d2 == d:
                diff, _ = self.add(n, n2, -1)
                if not diff:
                    return h
        self.canon.append((g, d, n))
        return g

    def reduce_roots(self, p):
        for _ in range(12):
            gens = {g for m in p for g, x in m if g in self.roots and x >= self.roots[g][0]}
            if not gens:
                return p
            g = max(gens)
            d, rid = self.roots[g]
            t = self.by_id.get(rid)
            if t is None:
                return p
            num, den = self.of(t)
            top = max(dict(m).get(g, 0) // d for m in p)
            dp = ONE
            for f, e in den.items():
                dp = pmul(dp, ppow(self.factors[f], e))
            npow, dpow = [ONE], [ONE]
            for _i in range(top):
                npow.append(pmul(npow[-1], num))
                dpow.append(pmul(dpow[-1], dp))
            out = {}
            for m, c in p.items():
                x = dict(m).get(g, 0)
                k = x // d
                rest = tuple((h, e if h != g else x - k * d) for h, e in m if h != g or x - k * d)
                term = pmul({rest: c}, pmul(npow[k], dpow[top - k]))
                out = padd(out, term)
                if len(out) > CAP:
                    raise TooBig
            p = out
        return p

    def is_zero(self, e):
        num, _ = self.of(e)
        if not num:
            return True
        return not self.reduce_roots(num)


def simplify_equations(ex, ctx):
    """replace arithmetic equations that are identities by true"""
    if z3.is_and(ex):
        ch = [simplify_equations(c, ctx) for c in ex.children()]
        if all(z3.is_true(c) for c in ch):
            return z3.BoolVal(True)
        return z3.And(*ch)
    if z3.is_eq(ex):
        a, b = ex.children()
        if a.sort() == z3.RealSort():
            try:
                if Norm(ctx).is_zero(a - b):
                    return z3.BoolVal(True)
            except (TooBig, ZeroDivisionError):
                pass
    return ex
