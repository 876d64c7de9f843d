"""Elementary transcendental functions as constrained atoms.

exp is multiplicative over the monomials of its argument, log is an
uninterpreted function with exact algebraic facts attached on request,
cos(arccos(u)/3) is the algebraic root of the triple angle equation and the
principal lambert W is defined by w*exp(w) == u, w >= -1.
"""

import math
from fractions import Fraction

from . import core
from . import poly as P
from .core import (S_EQ, S_GE, S_GT, S_LE, S_LT, SymReal, Unsupported, f_leaf, lift,
                   sadd, sdiv, smul, sneg, ssub)
from .poly import Poly


class SymAcos:
    """k * arccos(u)"""

    __slots__ = ("u", "k")
    __array_priority__ = 2000

    def __init__(self, u, k=Fraction(1)):
        self.u = u
        self.k = k

    def __truediv__(self, o):
        return SymAcos(self.u, self.k / lift(o).const_value())

    def __mul__(self, o):
        return SymAcos(self.u, self.k * lift(o).const_value())

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self


def _enclose(name, value, cx):
    key = ("tconst", name)
    a = cx.table.get(key)
    if a is None:
        a = cx.table.new(key, name, "alg", "+" if value > 0 else "-")
        eps = Fraction(1, 10**13)
        lo = Fraction(value) * (1 - eps) if value > 0 else Fraction(value) * (1 + eps)
        hi = Fraction(value) * (1 + eps) if value > 0 else Fraction(value) * (1 - eps)
        lo = lo.limit_denominator(10**15)
        hi = hi.limit_denominator(10**15)
        lo, hi = min(lo, hi), max(lo, hi)
        ap = Poly.atom(a)
        a.defs = [f_leaf(ap - Poly.const(lo), S_GE), f_leaf(ap - Poly.const(hi), S_LE)]
        a.data = ("const", value)
    return SymReal.of_atom(a)


def _exp_atom(mono, cx):
    """exp of a monomial with coefficient one"""
    mp = Poly({mono: Fraction(1)})
    key = ("exp", mp)
    a = cx.table.get(key)
    if a is None:
        a = cx.table.new(key, f"exp({mp!r})", "alg", "+")
        a.deps = mp.atoms()
        a.data = ("exp", mp)
        ap = Poly.atom(a)
        one = Poly.const(1)
        a.defs = [
            f_leaf(ap - one - mp, S_GE),
            f_leaf(ap * (one - mp) - one, S_LE),
        ]
        # exp(w) for a lambert atom w: w * exp(w) == u
        if len(mono) == 1 and mono[0][1] == 1:
            w = P.TABLE.atoms[mono[0][0]]
            if isinstance(w.data, tuple) and w.data and w.data[0] == "lambertw":
                u = w.data[1]
                den = Poly.const(1)
                for f, e in u.d:
                    den = den * f.pow(e)
                a.defs.append(f_leaf(mp * ap * den - u.n, S_EQ))
                a.deps = a.deps | u.n.atoms() | den.atoms()
    return SymReal.of_atom(a)


def exp(v):
    cx = core.ctx()
    if core._nonfinite(v):
        return math.exp(v) if v < 0 or math.isnan(v) else math.inf
    v = lift(v)
    if v.d:
        # move into an alias atom
        raise Unsupported("exp of a quotient")
    r = SymReal.const(1)
    for m, c in v.n.d.items():
        if not m:
            r = smul(r, _enclose(f"exp({c})", math.exp(c), cx))
            continue
        if c.denominator != 1:
            raise Unsupported("exp with fractional coefficient")
        a = _exp_atom(m, cx)
        k = int(c)
        r = smul(r, a._pow(k)) if k > 0 else sdiv(r, a._pow(-k))
    return r


def log(v):
    cx = core.ctx()
    if core._nonfinite(v):
        return math.log(v) if v > 0 else math.nan
    v = lift(v)
    if v.is_const():
        c = v.const_value()
        if c == 1:
            return SymReal.const(0)
        if c > 0:
            return _enclose(f"log({c})", math.log(c), cx)
    if v <= 0:
        return -math.inf if v == 0 else math.nan
    key = ("log", v.n, v.d)
    a = cx.table.get(key)
    if a is None:
        a = cx.table.new(key, f"log({len(cx.table.atoms)})", "alg", None)
        den = Poly.const(1)
        for f, e in v.d:
            den = den * f.pow(e)
        a.deps = v.n.atoms() | den.atoms()
        a.data = ("log", v)
        ap = Poly.atom(a)
        # 1 - 1/v <= log v <= v - 1   (v = n/den, v > 0)
        # multiplied by n*den (> 0) and den**2 (> 0)
        a.defs = [
            f_leaf((ap * den + den - v.n) * den, S_LE),
            f_leaf((ap * v.n - v.n + den) * den, S_GE) if True else True,
        ]
    return SymReal.of_atom(a)


def lambertw(u):
    cx = core.ctx()
    u = lift(u)
    if u == 0:
        return SymReal.const(0)
    key = ("lambertw", u.n, u.d)
    a = cx.table.get(key)
    if a is None:
        a = cx.table.new(key, f"W({len(cx.table.atoms)})", "alg", "!0")
        den = Poly.const(1)
        for f, e in u.d:
            den = den * f.pow(e)
        a.deps = u.n.atoms() | den.atoms()
        a.data = ("lambertw", u)
        ap = Poly.atom(a)
        a.defs = [f_leaf(ap + Poly.const(1), S_GE), f_leaf(ap * den * u.n, S_GT)]
    return SymReal.of_atom(a)


def arccos(v):
    if core._nonfinite(v):
        return math.nan
    v = lift(v)
    if v > 1 or v < -1:
        return math.nan
    return SymAcos(v)


def cos(v):
    if isinstance(v, SymAcos):
        cx = core.ctx()
        if v.k == 1:
            return v.u
        if v.k == Fraction(1, 3):
            u = v.u
            key = ("cos3", u.n, u.d)
            a = cx.table.get(key)
            if a is None:
                a = cx.table.new(key, f"cos3({len(cx.table.atoms)})", "alg", "+")
                den = Poly.const(1)
                for f, e in u.d:
                    den = den * f.pow(e)
                a.deps = u.n.atoms() | den.atoms()
                a.data = ("cos3", u)
                ap = Poly.atom(a)
                a.defs = [
                    f_leaf((ap.pow(3).scale(Fraction(4)) - ap.scale(Fraction(3))) * den - u.n, S_EQ),
                    f_leaf(ap - Poly.const(Fraction(1, 2)), S_GE),
                    f_leaf(ap - Poly.const(1), S_LE),
                ]
            return SymReal.of_atom(a)
    if isinstance(v, float) and math.isnan(v):
        return v
    if isinstance(v, (int, float)) or (isinstance(v, SymReal) and v.is_const()):
        c = lift(v).const_value()
        if c == 0:
            return SymReal.const(1)
    raise Unsupported("cos")


def sin(v):
    raise Unsupported("sin")


def apply(name, v):
    f = {"exp": exp, "log": log, "cos": cos, "arccos": arccos, "sin": sin,
         "lambertw": lambertw}.get(name)
    return f(v)
