"""Helpers for contract files."""
import math
import random

import numpy as np

from vc.contract import C, Contract, Dim, P, PR, RA, S, T
from vc.dsl import (F, And, Iff, If, Implies, Not, Or, RecFn, SumFn, count, eqf, exists, forall, forall2, is_z3, isnan, ite, kind, le, lt, nanflag, real,
                    rfloor, same, toint)
import z3
from vc import dsl

nan = float("nan")


def memo(s, key, mk):
    o = s.old if hasattr(s, "old") else s
    d = o.__dict__
    if key not in d:
        d[key] = mk()
    return d[key]


def rmod(a, m):
    """real modulo with a floor, for m > 0"""
    if is_z3(a) or isinstance(a, F) or is_z3(m):
        x, y = real(a), real(m)
        r = dsl.rdivmod(x, y)[1]
        return F(r, a.nan) if isinstance(a, F) else r
    return a % m


def imod(a, m):
    if is_z3(m):
        return dsl.imodf(a, m)
    return a % m


def rround(x):
    """round half to even, as an integer"""
    if is_z3(x) or isinstance(x, F):
        v = real(x)
        fl = z3.ToInt(v)
        d = v - z3.ToReal(fl)
        h = z3.RealVal("1/2")
        return z3.If(d < h, fl, z3.If(d > h, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return round(x)


def fabs(x):
    if is_z3(x):
        return z3.If(x < 0, -x, x)
    return abs(x)


def val(x):
    """real value of a possibly nan-able spec value"""
    return x.v if isinstance(x, F) else x


def fl(x):
    return val(x)


def rng_floats(rng, n, lo, hi, step=None):
    if step:
        k = int((hi - lo) / step)
        return np.array([lo + step * rng.randint(0, k) for _ in range(n)], dtype="f8")
    return np.array([rng.uniform(lo, hi) for _ in range(n)], dtype="f8")


def rng_ints(rng, n, lo, hi, dtype="i8"):
    return np.array([rng.randint(lo, hi) for _ in range(n)], dtype=dtype)


# ------------------------------------------------------------------ real functions (uninterpreted for the solver, math.* in the replay)
def _u1(name, f):
    def g(x):
        if is_z3(x) or isinstance(x, F):
            u = z3.Function(name, z3.RealSort(), z3.RealSort())
            return F(u(real(x)), x.nan) if isinstance(x, F) else u(real(x))
        return f(x) if x == x else nan
    return g


usin, ucos, uarcsin = _u1("sin", math.sin), _u1("cos", math.cos), _u1("arcsin", math.asin)
usqrt = _u1("sqrt", lambda x: math.sqrt(x) if x >= 0 else nan)


def uarctan2(y, x):
    if is_z3(y) or is_z3(x):
        return z3.Function("arctan2", z3.RealSort(), z3.RealSort(), z3.RealSort())(real(y), real(x))
    return math.atan2(y, x)


def num(v, like):
    """a python float as an exact real when the context is symbolic"""
    return real(v) if is_z3(like) or isinstance(like, F) else v


def haversine(lon0, lat0, lon1, lat1, radius):
    sym = any(is_z3(v) for v in (lon0, lat0, lon1, lat1))
    c = (lambda v: real(v)) if sym else (lambda v: v)
    a = hav_a(lon0, lat0, lon1, lat1)
    return c(radius) * c(2.0) * uarctan2(usqrt(a), usqrt(1 - a))


def hav_a(lon0, lat0, lon1, lat1):
    sym = any(is_z3(v) for v in (lon0, lat0, lon1, lat1))
    c = (lambda v: real(v)) if sym else (lambda v: v)
    d2r = c(math.pi) / c(180.0)
    sy = usin((lat1 - lat0) * c(0.5) * d2r)
    sx = usin((lon1 - lon0) * c(0.5) * d2r)
    a = sx * sx * ucos(lat0 * d2r) * ucos(lat1 * d2r) + sy * sy
    if not sym:
        a = min(max(a, 0.0), 1.0)
    return a
