"""Models of Python builtins and numpy used by the functions under contract.

Every model that is not a definition unfolded by the engine itself is a trusted contract on a dependency:
it calls eng.trust(...), which puts it in the evidence file.
"""
import math
from fractions import Fraction

import z3

from . import dsl
from .dsl import F, And, If, Iff, Implies, Not, Or, boolify, conc, is_z3, ite, kind, nanflag, real, simp_bool, simp_int, toint
from .engine import (Arr, Bound, Dt, EnumV, Ext, Obj, Opaque, OpaqueStr, PathEnd, Ragged, Rec, RecRow, Rng, SArr, Unsupported, View, ZipV, Fn, Cls)

BUILTINS = {"len", "range", "enumerate", "zip", "abs", "min", "max", "int", "float", "bool", "round", "list", "tuple", "sum", "isinstance",
            "print", "str", "sorted", "set", "dict", "any", "all", "slice", "reversed", "ValueError", "Exception", "hasattr", "getattr",
            "KeyError", "IndexError", "TypeError", "NotImplementedError", "type", "super", "map", "property"}

DT = {"int_": "int", "int32": "int", "int64": "int", "int8": "int", "int16": "int", "uint8": "int", "uint16": "int", "uint32": "int", "uint64": "int",
      "i4": "int", "i8": "int", "i2": "int", "i1": "int", "u1": "int", "u2": "int", "u4": "int", "u8": "int", "<i4": "int",
      "bool_": "bool", "bool": "bool", "?": "bool", "boolean": "bool", "bool8": "bool",
      "f4": "float", "f8": "float", "float_": "float", "float32": "float", "float64": "float", "float": "float", "int": "int"}

CONSTS = {"numpy.pi": z3.RealVal(Fraction(math.pi)), "numpy.nan": float("nan"), "numpy.newaxis": None,
          "math.pi": z3.RealVal(Fraction(math.pi))}
for _p in ("numpy.", "numba.types."):
    for _k, _v in DT.items():
        CONSTS[_p + _k] = Dt(_v)


def todt(eng, v):
    if v is None:
        return "float"
    if isinstance(v, Dt):
        return v.k
    if isinstance(v, str):
        if v in DT:
            return DT[v]
        raise Unsupported(f"dtype {v}")
    if isinstance(v, Ext):
        nm = v.name.split(".")[-1]
        if nm in DT:
            return DT[nm]
    raise Unsupported(f"dtype {v}")


def is_num(x):
    return isinstance(x, (bool, int, float, Fraction, F)) or is_z3(x)


def is_nanconst(x):
    return isinstance(x, float) and x != x


# ---------------------------------------------------------------- scalars
def num_bin(eng, op, a, b, node, safe=True):
    """a op b for scalars"""
    if isinstance(a, float) and not is_nanconst(a):
        a = real(a)
    if isinstance(b, float) and not is_nanconst(b):
        b = real(b)
    na, nb = nanflag(a), nanflag(b)
    fl = isinstance(a, F) or isinstance(b, F) or is_nanconst(a) or is_nanconst(b)
    ka, kb = kind(a), kind(b)
    if ka == "bool" and kb == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
        if op == "BitAnd":
            return And(a, b)
        if op == "BitOr":
            return Or(a, b)
        return Not(Iff(a, b))
    if ka == "bool":
        a = toint(a) if is_z3(a) else int(a)
        ka = "int"
    if kb == "bool":
        b = toint(b) if is_z3(b) else int(b)
        kb = "int"
    isint = ka == "int" and kb == "int"
    if isint and conc(a) and conc(b):
        try:
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "FloorDiv":
                return a // b
            if op == "Mod":
                return a % b
            if op == "Pow" and b >= 0:
                return a ** b
            if op == "Div":
                return real(Fraction(a, b))
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
        except ZeroDivisionError:
            eng.oblige(False, "division by zero", "safety", node=node)
    if op in ("Add", "Sub", "Mult"):
        if isint:
            x, y = toint(a), toint(b)
        else:
            x, y = real(a), real(b)
        r = x + y if op == "Add" else x - y if op == "Sub" else x * y if isint else dsl.nl("mul", x, y)
        r = z3.simplify(r) if z3.is_int_value(x) and z3.is_int_value(y) else r
        return F(r, Or(na, nb)) if fl else r
    if op == "Div":
        y = real(b)
        if getattr(eng, "errstate", 0):
            # inside `with errstate(...)`: a division by zero gives nan (or an infinity, modelled as nan)
            r = dsl.nl("div", real(a), y)
            return F(r, Or(na, nb, y == 0))
        if safe and not eng.opts.get("allow_div0"):
            eng.oblige(Or(nb, y != 0), "division by zero", "safety", node=node)
        r = dsl.nl("div", real(a), y)
        return F(r, Or(na, nb)) if fl else r
    if op in ("FloorDiv", "Mod"):
        if isint:
            x, y = toint(a), toint(b)
            if not (conc(b) and b > 0):
                if safe:
                    eng.oblige(y != 0, "division by zero", "safety", node=node)
                if eng.feasible(y < 0):
                    # python floor semantics for a negative divisor
                    q = If(y > 0, x / y, -(x / (-y)))  # placeholder replaced below
                    q = z3.If(y > 0, x / y, (-x) / (-y))
                    return q if op == "FloorDiv" else x - y * q
            if op == "Mod" and not conc(b):
                return dsl.imodf(x, y)
            return x / y if op == "FloorDiv" else x % y
        x, y = real(a), real(b)
        if safe:
            eng.oblige(Or(nb, y != 0), "division by zero", "safety", node=node)
        qi, rem = dsl.rdivmod(x, y)
        r = z3.ToReal(qi) if op == "FloorDiv" else rem
        return F(r, Or(na, nb)) if fl else r
    if op == "Pow":
        if is_z3(b):
            b2 = z3.simplify(b)
            if z3.is_rational_value(b2):
                b = Fraction(b2.numerator_as_long(), b2.denominator_as_long())
            elif z3.is_int_value(b2):
                b = b2.as_long()
        if isinstance(b, (int, Fraction)):
            b = Fraction(b)
            if b.denominator == 1 and 0 <= b <= 4:
                r = None
                x = toint(a) if ka == "int" else real(a)
                if b == 3 and ka != "int":
                    r = dsl.nl("cube", x)
                    return F(r, na) if fl else r
                r = z3.IntVal(1) if ka == "int" else z3.RealVal(1)
                first = True
                for _ in range(int(b)):
                    r = x if first else r * x
                    first = False
                return F(r, na) if fl else r
            if b == Fraction(1, 2):
                return sqrt(eng, a, node)
        raise Unsupported("power")
    raise Unsupported(f"operator {op} on {ka},{kb}")


def sqrt(eng, a, node):
    eng.trust("sqrt/**0.5 modelled as the exact non-negative real square root")
    x = real(a)
    s = getattr(eng, "_sqrtfn", None)
    if s is None:
        s = eng._sqrtfn = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
    r = s(x)
    # axiom instance (definition of the square root)
    if getattr(eng, "in_closure", 0):
        k = z3.Real("sq_x")
        eng.assume(z3.ForAll([k], z3.Implies(k >= 0, z3.And(s(k) >= 0, s(k) * s(k) == k)), patterns=[s(k)]))
    else:
        eng.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    if isinstance(a, F):
        return F(r, Or(a.nan, x < 0))
    return r


def unary_fn(eng, name, a, node):
    """trigonometric functions: uninterpreted, with the algebraic facts listed"""
    eng.trust(f"{name}: uninterpreted real function")
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    r = f(real(a))
    return F(r, a.nan) if isinstance(a, F) else r


def cmp(eng, op, a, b):
    if a is None or b is None:
        if op in ("Eq", "Is"):
            return a is None and b is None
        if op in ("NotEq", "IsNot"):
            return not (a is None and b is None)
        raise Unsupported("ordering of None")
    if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
        if isinstance(a, str) and isinstance(b, str):
            return {"Eq": a == b, "NotEq": a != b}[op]
        raise Unsupported("string comparison")
    if isinstance(a, Dt) or isinstance(b, Dt):
        raise Unsupported("dtype comparison")
    INF = float("inf")
    if isinstance(a, float) and abs(a) == INF or isinstance(b, float) and abs(b) == INF:
        eng.trust("infinities appear only as comparison bounds")
        if isinstance(a, float) and isinstance(b, float):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[op]
        if isinstance(b, float):
            r = {"Lt": b > 0, "LtE": b > 0, "Gt": b < 0, "GtE": b < 0, "Eq": False, "NotEq": True}[op]
            nn = nanflag(a)
        else:
            r = {"Gt": a > 0, "GtE": a > 0, "Lt": a < 0, "LtE": a < 0, "Eq": False, "NotEq": True}[op]
            nn = nanflag(b)
        return And(r, Not(nn)) if op != "NotEq" else True
    na, nb = nanflag(a), nanflag(b)
    ka, kb = kind(a), kind(b)
    if ka == "bool" and kb == "bool" and op in ("Eq", "NotEq", "Is", "IsNot"):
        r = Iff(a, b)
        return r if op in ("Eq", "Is") else Not(r)
    if op in ("Is", "IsNot"):
        op = {"Is": "Eq", "IsNot": "NotEq"}[op]
    if ka == "bool":
        a = toint(a)
    if kb == "bool":
        b = toint(b)
    if kind(a) == "int" and kind(b) == "int":
        if conc(a) and conc(b):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[op]
        x, y = toint(a), toint(b)
    else:
        x, y = real(a), real(b)
    t = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y, "Eq": lambda: x == y, "NotEq": lambda: x == y}[op]()
    t = And(Not(na), Not(nb), t)
    return Not(t) if op == "NotEq" else t


# ---------------------------------------------------------------- elementwise
def broadcast(eng, a, b, node):
    """-> shape, fa, fb (index closures)"""
    if not isinstance(a, Arr):
        return b.shape, (lambda *k: a), b.fn
    if not isinstance(b, Arr):
        return a.shape, a.fn, (lambda *k: b)
    if a.ndim == b.ndim:
        shape, ma, mb = [], [], []
        for x, y in zip(a.shape, b.shape):
            if conc(x) and conc(y):
                if x == y:
                    shape.append(x); ma.append(True); mb.append(True)
                elif x == 1:
                    shape.append(y); ma.append(False); mb.append(True)
                elif y == 1:
                    shape.append(x); ma.append(True); mb.append(False)
                else:
                    eng.oblige(False, "operand shapes match", "safety", node=node)
            elif conc(x) and x == 1:
                shape.append(y); ma.append(False); mb.append(True)
            elif conc(y) and y == 1:
                shape.append(x); ma.append(True); mb.append(False)
            else:
                if not (is_z3(x) and is_z3(y) and x.eq(y)):
                    eng.oblige(x == y, "operand shapes match", "safety", node=node)
                shape.append(x if is_z3(y) else y); ma.append(True); mb.append(True)
        fa0, fb0 = a.fn, b.fn
        fa = fa0 if all(ma) else (lambda *k: fa0(*[i if m else 0 for i, m in zip(k, ma)]))
        fb = fb0 if all(mb) else (lambda *k: fb0(*[i if m else 0 for i, m in zip(k, mb)]))
        return tuple(shape), fa, fb
    if a.ndim == 2 and b.ndim == 1:
        fb0 = b.fn
        if not (conc(a.shape[1]) and conc(b.shape[0]) and a.shape[1] == b.shape[0]):
            eng.oblige(a.shape[1] == b.shape[0], "operand shapes match", "safety", node=node)
        return a.shape, a.fn, (lambda i, j: fb0(j))
    if a.ndim == 1 and b.ndim == 2:
        s, fb, fa = broadcast(eng, b, a, node)
        return s, fa, fb
    if a.ndim == 0:
        return b.shape, (lambda *k: a.fn()), b.fn
    if b.ndim == 0:
        return a.shape, a.fn, (lambda *k: b.fn())
    raise Unsupported("broadcast")


def res_dtype(v):
    k = kind(v)
    if isinstance(v, float) and v != v:
        return "float"
    return {"int": "int", "bool": "bool", "real": "real", "F": "float"}[k]


def probe(shape):
    return [z3.Int(f"probe{i}") for i in range(len(shape))]


def lift(eng, f, arrs_shape, node, dtype=None):
    """new array with closure f over shape"""
    if dtype is None:
        eng.in_closure = getattr(eng, "in_closure", 0) + 1
        try:
            dtype = res_dtype(f(*probe(arrs_shape)))
        finally:
            eng.in_closure -= 1
    return Arr(eng, dtype, arrs_shape, f, site=node_site(node))


def node_site(node):
    return f"{getattr(node, 'lineno', 0)}_{getattr(node, 'col_offset', 0)}"


def as_arr(eng, v, node):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (list, tuple)):
        return array_from(eng, v, node)
    return v


def binop(eng, op, a, b, node):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == "Add" and type(a) == type(b):
        return a + b
    if isinstance(a, (list, tuple)) and op == "Mult" and isinstance(b, int):
        return a * b
    if isinstance(a, Arr) and a.is_list and op == "Add":
        if isinstance(b, list):
            b = array_from(eng, b, node)
        return concat(eng, [a, b], node, is_list=True)
    if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        return OpaqueStr()
    if isinstance(a, set) and isinstance(b, set):
        return {"Sub": a - b, "BitOr": a | b, "BitAnd": a & b}[op]
    if isinstance(a, Arr) and isinstance(b, (list, tuple)):
        b = array_from(eng, b, node)
    if isinstance(b, Arr) and isinstance(a, (list, tuple)):
        a = array_from(eng, a, node)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) or is_num(a)) or not (isinstance(b, Arr) or is_num(b)):
            raise Unsupported(f"{op} on {type(a).__name__},{type(b).__name__}")
        shape, fa, fb = broadcast(eng, a, b, node)
        if op in ("Mult", "Add") and all(isinstance(q, Arr) and q.dtype == "bool" for q in (a, b)):
            op = {"Mult": "BitAnd", "Add": "BitOr"}[op]  # numpy: product and sum of booleans are booleans
        return lift(eng, lambda *k: num_bin(eng, op, fa(*k), fb(*k), node, safe=False), shape, node)
    if is_num(a) and is_num(b):
        return num_bin(eng, op, a, b, node)
    if isinstance(a, Obj):
        h = a.hooks.get({"BitAnd": "__and__", "Add": "__add__", "BitOr": "__or__", "Sub": "__sub__"}.get(op))
        if h is not None:
            return h(eng, a, b)
    raise Unsupported(f"{op} on {type(a).__name__},{type(b).__name__}")


def compare(eng, op, a, b, node):
    if op in ("In", "NotIn"):
        r = contains(eng, a, b, node)
        return Not(r) if op == "NotIn" else r
    if op in ("Is", "IsNot"):
        if a is None or b is None:
            r = a is None and b is None
            return r if op == "Is" else not r
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None:
            raise Unsupported("array compared with None")
        if isinstance(a, (list, tuple)):
            a = array_from(eng, a, node)
        if isinstance(b, (list, tuple)):
            b = array_from(eng, b, node)
        shape, fa, fb = broadcast(eng, a, b, node)
        return lift(eng, lambda *k: cmp(eng, op, fa(*k), fb(*k)), shape, node, "bool")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if op not in ("Eq", "NotEq"):
            raise Unsupported("ordering of sequences")
        if len(a) != len(b):
            r = False
        else:
            r = And(*[compare(eng, "Eq", x, y, node) for x, y in zip(a, b)])
        return r if op == "Eq" else Not(r)
    if isinstance(a, (Obj, Opaque, Ext, Cls, Fn)) or isinstance(b, (Obj, Opaque, Ext, Cls, Fn)):
        if op in ("Eq", "Is"):
            return a is b
        if op in ("NotEq", "IsNot"):
            return a is not b
    return cmp(eng, op, a, b)


def contains(eng, a, b, node):
    if isinstance(b, (list, tuple, set, frozenset)):
        if isinstance(a, str) or a is None:
            return a in b
        return Or(*[compare(eng, "Eq", a, x, node) for x in b])
    if isinstance(b, dict):
        return a in b
    if isinstance(b, Arr):
        return dsl.exists(0, b.n, lambda k: cmp(eng, "Eq", a, b.fn(k)))
    if isinstance(b, str) and isinstance(a, str):
        return a in b
    if isinstance(b, Rng):
        return And(b.lo <= a, a < b.hi)
    raise Unsupported("membership")


def logical(eng, op, a, b):
    return And(eng.truth(a), eng.truth(b)) if op == "and" else Or(eng.truth(a), eng.truth(b))


def unop(eng, op, v, node):
    if isinstance(v, Arr):
        f = v.fn
        if op == "USub":
            return lift(eng, lambda *k: num_bin(eng, "Sub", 0, f(*k), node), v.shape, node)
        if op == "Invert":
            if v.dtype == "bool":
                return lift(eng, lambda *k: Not(f(*k)), v.shape, node, "bool")
            raise Unsupported("~ on non bool array")
        if op == "UAdd":
            return v
        if op == "Not":
            return Not(eng.truth(v))
    if op == "Not":
        return Not(eng.truth(v))
    if op == "USub":
        if isinstance(v, float) and abs(v) == float("inf"):
            return -v
        if conc(v) and isinstance(v, int) and not isinstance(v, bool):
            return -v
        return num_bin(eng, "Sub", 0, v, node)
    if op == "UAdd":
        return v
    if op == "Invert":
        if kind(v) == "bool":
            return Not(v)
    raise Unsupported(f"unary {op}")


# ---------------------------------------------------------------- arrays: construction
def new_list(eng, site):
    a = Arr(eng, None, (0,), None, is_list=True, site=f"list{site}")
    a._fn = lambda *k: z3.IntVal(0)
    return a


def array_from(eng, seq, node, dtype=None):
    seq = list(seq)
    if not seq:
        return Arr(eng, dtype or "float", (0,), lambda k: z3.RealVal(0), site=node_site(node))
    if all(isinstance(x, (list, tuple)) or (isinstance(x, Arr)) for x in seq):
        rows = [as_arr(eng, x, node) for x in seq]
        n = rows[0].n
        for r in rows[1:]:
            if not (conc(r.n) and conc(n) and r.n == n):
                eng.oblige(r.n == n, "rows of equal length", "safety", node=node)
        fs = [r.fn for r in rows]

        def f(i, j):
            r = fs[-1](j)
            for q in range(len(fs) - 2, -1, -1):
                r = If(i == q, fs[q](j), r)
            return r

        return Arr(eng, dtype or rows[0].dtype, (len(rows), n), f, site=node_site(node))
    ks = [res_dtype(x) for x in seq]
    order = ["bool", "int", "real", "float"]
    dt = dtype or order[max(order.index(k) for k in ks)]

    def f(k):
        if conc(k):
            return conv(eng, seq[k], dt)
        r = conv(eng, seq[-1], dt)
        for q in range(len(seq) - 2, -1, -1):
            r = ite(k == q, conv(eng, seq[q], dt), r)
        return r

    return Arr(eng, dt, (len(seq),), f, site=node_site(node))


def conv(eng, v, dt):
    """value stored in an array of kind dt"""
    k = kind(v)
    if dt == "int":
        if k == "int":
            return v
        if k == "bool":
            return toint(v)
        if k in ("real", "F", "float"):
            eng.trust("float to int conversion truncates toward zero (nan unconstrained)")
            return trunc(eng, v)
    if dt == "bool":
        return boolify(v)
    if dt == "real":
        if k == "F":
            raise Unsupported("nan-able value in a nan-free array")
        return real(v)
    if dt == "float":
        return F(real(v), nanflag(v))
    if dt is None or isinstance(dt, tuple):
        return v
    raise Unsupported(f"store of {k} into {dt}")


def trunc(eng, v):
    x = real(v)
    fl = z3.ToInt(x)
    return z3.If(x >= 0, fl, -z3.ToInt(-x))


def cast_fn(eng, src, dt):
    if isinstance(src, Arr):
        f = src.fn
        if src.dtype == dt:
            return f
        return lambda *k: conv(eng, f(*k), dt)
    return lambda *k: conv(eng, src, dt)


def empty(eng, shape, dt, node):
    shape = shape if isinstance(shape, tuple) else tuple(shape) if isinstance(shape, list) else (shape,)
    for s in shape:
        if not (conc(s) and s >= 0):
            eng.oblige(s >= 0, "array size is non negative", "safety", node=node)
    return shape


# ---------------------------------------------------------------- slicing
def norm_slice(eng, sl, n, node):
    lo, hi, step = sl.start, sl.stop, sl.step
    if step is None:
        step = 1
    if not conc(step) or step == 0:
        raise Unsupported("symbolic slice step")
    if step == 1:
        def nrm(v, default):
            if v is None:
                return default
            if conc(v) and conc(n):
                v2 = v + n if v < 0 else v
                return min(max(v2, 0), n)
            if conc(v):
                if v == 0:
                    return 0
                if v < 0:
                    if not eng.feasible(toint(n) + v < 0):
                        return n + v
                    return If(n + v < 0, 0, n + v)
                if not eng.feasible(toint(n) < v):
                    return v
                return If(v < n, v, n)
            v = toint(v)
            if eng.feasible(v < 0):
                v = If(v < 0, If(v + n < 0, 0, v + n), v)
            if eng.feasible(v > n):
                v = If(v > n, n, v)
            return v

        l, h = nrm(lo, 0), nrm(hi, n)
        if conc(l) and conc(h):
            ln = max(h - l, 0)
        elif conc(l) and l == 0:
            ln = h
        elif not eng.feasible(toint(h) < toint(l)):
            ln = simp_int(h - l)
        else:
            ln = If(h > l, h - l, 0)
        return l, 1, ln
    if step == -1 and lo is None and hi is None:
        return (n - 1), -1, n
    if step == -1 and lo is None and conc(hi) and hi == 0:
        return (n - 1), -1, (max(n - 1, 0) if conc(n) else n - 1 if not eng.feasible(toint(n) < 1) else If(n >= 1, n - 1, 0))
    if conc(n) and all(v is None or conc(v) for v in (lo, hi)):
        r = range(*slice(lo, hi, step).indices(n))
        return (r.start if len(r) else 0), step, len(r)
    if step > 1 and lo in (None, 0) and hi is None:
        return 0, step, If(n > 0, (n + (step - 1)) / step, 0) if not conc(n) else (n + step - 1) // step
    raise Unsupported("slice")


def idx_scalar(eng, i, n, node, nocheck=False):
    if kind(i) == "bool":
        raise Unsupported("bool index")
    if kind(i) != "int":
        raise Unsupported("non integer index")
    if nocheck:
        return i
    if conc(i) and conc(n):
        eng.oblige(-n <= i < n, "index in bounds", "safety", node=node)
        return i + n if i < 0 else i
    if conc(i):
        if i < 0:
            eng.oblige(n + i >= 0, "index in bounds", "safety", node=node)
            return n + i
        eng.oblige(i < n, "index in bounds", "safety", node=node)
        return i
    t = toint(i)
    if eng.feasible(t < 0) and not eng.opts.get("nonneg_index"):
        if eng.branch(t < 0):
            eng.oblige(t + n >= 0, "index in bounds", "safety", node=node)
            return t + n
    eng.oblige(And(t >= 0, t < n), "index in bounds", "safety", node=node)
    return t


def getitem(eng, base, key, node, nocheck=False):
    if isinstance(base, (list, tuple)):
        if isinstance(key, slice):
            if all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
                return base[key]
            raise Unsupported("symbolic slice of a static list")
        key = simp_int(key)
        if conc(key):
            if not (-len(base) <= key < len(base)):
                eng.oblige(False, "index in bounds", "safety", node=node)
            return base[key]
        n = len(base)
        key = idx_scalar(eng, key, n, node)
        for q in range(n - 1):
            if eng.branch(key == q):
                return base[q]
        return base[n - 1]
    if isinstance(base, dict):
        if is_z3(key):
            raise Unsupported("symbolic dict key")
        if key not in base:
            eng.oblige(False, f"key {key} present", "safety", node=node)
        return base[key]
    if isinstance(base, Rec):
        if isinstance(key, str):
            if key not in base.fields:
                raise Unsupported(f"field {key}")
            return base.fields[key]
        if is_num(key) and kind(key) == "int":
            return RecRow(base, idx_scalar(eng, key, base.n, node))
        if isinstance(key, slice) or isinstance(key, Arr):
            fields = {k: getitem(eng, a, key, node) for k, a in base.fields.items()} if not isinstance(key, Arr) else gather_rec(eng, base, key, node)
            n = next(iter(fields.values())).n
            return Rec(eng, (n,), fields)
        if isinstance(key, (list, tuple)) and all(isinstance(k, str) for k in key):
            return Rec(eng, base.shape, {k: base.fields[k] for k in key})
        raise Unsupported("record index")
    if isinstance(base, RecRow):
        if isinstance(key, str):
            return getitem(eng, base.rec.fields[key], base.i, node, nocheck=True)
        raise Unsupported("row index")
    if isinstance(base, Obj):
        h = base.hooks.get("__getitem__")
        if h is not None:
            return h(eng, base, key)
        m = eng.find_method(base.cls, "__getitem__")
        if m is None:
            raise Unsupported("subscript of object")
        return eng.call_repo(Fn(*m), [base, key], {}, node)
    if isinstance(base, Ragged) and is_num(key):
        return base.row(idx_scalar(eng, key, base.n, node, nocheck))
    if not isinstance(base, Arr):
        if isinstance(base, Opaque):
            return Opaque(base.what)
        raise Unsupported(f"subscript of {type(base).__name__}")
    if base.is_list and base.dtype is None and not isinstance(key, slice):
        eng.oblige(False, "index in bounds (empty list)", "safety", node=node)
    if isinstance(key, Arr) and key.ndim == 0:
        key = key.fn()
    if is_num(key):
        i = idx_scalar(eng, key, base.shape[0], node, nocheck)
        if base.ndim == 1:
            return base.fn(i)
        return View(eng, base, base.shape[1:], lambda *k: (i,) + k, lambda *k: (k[0] == i, k[1:]))
    if isinstance(key, slice):
        l, st, ln = norm_slice(eng, key, base.n, node)
        if conc(l) and l == 0 and st == 1 and (ln is base.n or (is_z3(ln) and is_z3(base.n) and ln.eq(base.n)) or (conc(ln) and conc(base.n) and ln == base.n)) and not base.is_list:
            off = lambda *k: k
            return View(eng, base, base.shape, lambda *k: k, lambda *k: (True, k))
        if base.is_list:
            f = base.fn
            return Arr(eng, base.dtype, (ln,), (lambda k: f(l + st * k)) if not (conc(l) and l == 0 and st == 1) else f, is_list=True, site=node_site(node))

        def fwd(*k):
            k0 = l + st * k[0] if st != 1 else (k[0] if conc(l) and l == 0 else l + k[0])
            return (k0,) + k[1:]

        def inv(*k):
            if st == 1:
                r = k[0] if conc(l) and l == 0 else k[0] - l
                return And(k[0] >= l, r < ln), (r,) + k[1:]
            if st == -1:
                return And(k[0] <= l, k[0] > l - ln), (l - k[0],) + k[1:]
            return And(k[0] >= l, (k[0] - l) % st == 0, toint(k[0] - l) / st < ln), ((toint(k[0] - l) / st),) + k[1:]

        v = View(eng, base, (ln,) + base.shape[1:], fwd, inv)
        v.slice_of = (base, l, ln) if st == 1 else None
        return v
    if key is None:
        f = base.fn
        return Arr(eng, base.dtype, (1,) + base.shape, lambda *k: f(*k[1:]), site=node_site(node))
    if isinstance(key, tuple):
        return getitem_tuple(eng, base, key, node)
    if isinstance(key, (list,)):
        key = array_from(eng, key, node)
    if isinstance(key, Arr):
        if key.dtype == "bool":
            return compress(eng, key, base, node)
        return gather(eng, base, key, node)
    raise Unsupported(f"index of type {type(key).__name__}")


def getitem_tuple(eng, base, key, node):
    if any(k is None for k in key):
        # newaxis
        if len([k for k in key if k is not None]) == 1 and base.ndim == 1 and len(key) == 2:
            inner = [k for k in key if k is not None][0]
            if isinstance(inner, slice) and inner == slice(None, None, None):
                f = base.fn
                if key[0] is None:
                    return Arr(eng, base.dtype, (1, base.n), lambda i, j: f(j), site=node_site(node))
                return Arr(eng, base.dtype, (base.n, 1), lambda i, j: f(i), site=node_site(node))
        raise Unsupported("newaxis")
    if len(key) == 1:
        return getitem(eng, base, key[0], node)
    if len(key) != base.ndim:
        raise Unsupported(f"index arity {len(key)} on {base.ndim}-d array")
    if all(is_num(k) for k in key):
        idx = [idx_scalar(eng, k, n, node) for k, n in zip(key, base.shape)]
        return base.fn(*idx)
    if all(is_num(k) or isinstance(k, slice) for k in key):
        plan, shape = [], []
        for k, n in zip(key, base.shape):
            if is_num(k):
                plan.append(("i", idx_scalar(eng, k, n, node)))
            else:
                l, st, ln = norm_slice(eng, k, n, node)
                if st != 1:
                    raise Unsupported("strided nd slice")
                plan.append(("s", l, ln))
                shape.append(ln)

        def fwd(*k):
            out, q = [], 0
            for p in plan:
                if p[0] == "i":
                    out.append(p[1])
                else:
                    out.append(k[q] if conc(p[1]) and p[1] == 0 else p[1] + k[q])
                    q += 1
            return tuple(out)

        def inv(*k):
            conds, out = [], []
            for p, x in zip(plan, k):
                if p[0] == "i":
                    conds.append(x == p[1])
                else:
                    r = x if conc(p[1]) and p[1] == 0 else x - p[1]
                    conds += [x >= p[1], r < p[2]]
                    out.append(r)
            return And(*conds), tuple(out)

        return View(eng, base, tuple(shape), fwd, inv)
    if base.ndim == 2 and isinstance(key[0], Arr) and isinstance(key[1], slice) and key[1] == slice(None, None, None):
        idx = key[0]
        if idx.dtype == "bool":
            idx = where1(eng, idx, node)
        check_gather(eng, idx, base.shape[0], node)
        f, g = base.fn, idx.fn
        return Arr(eng, base.dtype, (idx.n, base.shape[1]), lambda i, j: f(g(i), j), site=node_site(node))
    if base.ndim == 2 and isinstance(key[0], Arr) and isinstance(key[1], Arr) and key[0].ndim == 1 and key[1].ndim == 1:
        check_gather(eng, key[0], base.shape[0], node)
        check_gather(eng, key[1], base.shape[1], node)
        f, g, h = base.fn, key[0].fn, key[1].fn
        return Arr(eng, base.dtype, (key[0].n,), lambda k: f(g(k), h(k)), site=node_site(node))
    if base.ndim == 2 and isinstance(key[0], Arr) and is_num(key[1]):
        check_gather(eng, key[0], base.shape[0], node)
        j = idx_scalar(eng, key[1], base.shape[1], node)
        f, g = base.fn, key[0].fn
        return Arr(eng, base.dtype, (key[0].n,), lambda k: f(g(k), j), site=node_site(node))
    raise Unsupported("mixed nd index")


def check_gather(eng, idx, n, node):
    g = idx.fn
    if eng.opts.get("no_gather_check"):
        return
    if idx.ndim == 1:
        eng.oblige(dsl.forall(0, idx.n, lambda k: And(g(k) >= 0, g(k) < n), pat=lambda k: g(k)) if not eng.opts.get("wrap_gather") else
                   dsl.forall(0, idx.n, lambda k: And(g(k) >= -n, g(k) < n)), "gather index in bounds", "safety", node=node)


def gather(eng, base, idx, node):
    check_gather(eng, idx, base.shape[0], node)
    f, g = base.fn, idx.fn
    nb = base.shape[0]
    wrap = eng.opts.get("wrap_gather")

    def h(*k):
        i = g(*k)
        if wrap:
            i = If(i < 0, i + nb, i)
        return f(i)

    if base.ndim == 1:
        return Arr(eng, base.dtype, idx.shape, h, site=node_site(node))
    if base.ndim == 2 and idx.ndim == 1:
        w = (lambda i: If(g(i) < 0, g(i) + nb, g(i))) if wrap else g
        return Arr(eng, base.dtype, (idx.n,) + base.shape[1:], lambda i, j: f(w(i), j), site=node_site(node))
    raise Unsupported("gather of nd array")


def gather_rec(eng, rec, key, node):
    if key.dtype == "bool":
        key = where1(eng, key, node)
    return {k: gather(eng, a, key, node) for k, a in rec.fields.items()}


def where1(eng, mask, node):
    """positions of True, increasing (numpy.where / nonzero)"""
    if conc(mask.n):
        sel = [k for k in range(mask.n) if eng.branch(mask.fn(k))]
        return array_from(eng, sel, node, "int") if sel else Arr(eng, "int", (0,), lambda k: 0, site=node_site(node))
    cache = eng.where_cache
    key = (mask.uid, mask.version)
    p = z3.Int("probe0")
    try:
        t = mask.fn(p)
        key = (dsl.tid(t), str(mask.n))
        eng.keep.append(t) if is_z3(t) else None
    except Unsupported:
        pass
    if key in cache:
        w = cache[key]
        return Arr(eng, "int", (w[0],), w[1], site=node_site(node))
    eng.trust("numpy.where(mask)/boolean indexing: strictly increasing positions of exactly the True elements")
    eng.fresh_n += 1
    nm = f"where#{eng.fresh_n}"
    m = z3.Int(nm + "_n")
    w = z3.Function(nm, z3.IntSort(), z3.IntSort())
    r = z3.Function(nm + "_rank", z3.IntSort(), z3.IntSort())
    f = mask.fn
    n = toint(mask.n)
    k, j = z3.Ints("wk wj")
    eng._add(z3.And(m >= 0, m <= n) if True else None)
    eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(w(k) >= 0, w(k) < n, boolify(f(w(k))), r(w(k)) == k, w(k) >= k)), patterns=[w(k)]))
    fj = boolify(f(j))
    body = z3.Implies(And(j >= 0, j < n, fj) if is_z3(And(j >= 0, j < n, fj)) else z3.And(j >= 0, j < n), z3.And(r(j) >= 0, r(j) < m, w(r(j)) == j))
    pats = find_patterns(fj, j) if is_z3(fj) else []
    eng._add(z3.ForAll([j], body, patterns=[r(j)] + pats) if True else None)
    eng._add(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < j, j < m), w(k) < w(j)), patterns=[z3.MultiPattern(w(k), w(j))]))
    # rank = number of True before
    cnt = dsl.count(lambda q: f(q))
    cn = cnt(mask.n)
    eng._flush_axioms()
    eng._add(m == cn)
    kk = z3.Int("wq")
    eng._add(z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < n, boolify(f(kk)) if is_z3(boolify(f(kk))) else z3.BoolVal(bool(f(kk)))), r(kk) == cnt(kk)), patterns=[r(kk)]))
    eng.where_cache[key] = (m, lambda q: w(toint(q)))
    a = Arr(eng, "int", (m,), lambda q: w(toint(q)), site=node_site(node))
    a.where_of = (mask, r, cnt)
    return a


def where2(eng, mask, node):
    """row-major positions of True in a 2-d mask"""
    n0, n1 = mask.shape
    f = mask.fn
    if conc(n0) and conc(n1):
        sel = [(i, j) for i in range(n0) for j in range(n1) if eng.branch(f(i, j))]
        mk = lambda q: array_from(eng, [s[q] for s in sel], node, "int") if sel else Arr(eng, "int", (0,), lambda k: 0, site=node_site(node))
        return mk(0), mk(1)
    eng.trust("numpy.where(2-d mask): positions of exactly the True elements, in row-major order, each once")
    eng.fresh_n += 1
    nm = f"where2#{eng.fresh_n}"
    m = z3.Int(nm + "_n")
    I, J = z3.Function(nm + "_i", z3.IntSort(), z3.IntSort()), z3.Function(nm + "_j", z3.IntSort(), z3.IntSort())
    R = z3.Function(nm + "_rank", z3.IntSort(), z3.IntSort(), z3.IntSort())
    a0, a1 = toint(n0), toint(n1)
    k, l, i, j = z3.Ints("wk wl wi wj")
    eng._add(m >= 0)
    eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(I(k) >= 0, I(k) < a0, J(k) >= 0, J(k) < a1, boolify(f(I(k), J(k))), R(I(k), J(k)) == k)), patterns=[I(k), J(k)][:1]))
    fij = boolify(f(i, j))
    body = z3.Implies(z3.And(i >= 0, i < a0, j >= 0, j < a1, fij), z3.And(R(i, j) >= 0, R(i, j) < m, I(R(i, j)) == i, J(R(i, j)) == j))
    pats = [R(i, j)] + ([fij] if dsl.is_app_pat(fij, [i, j]) else [])
    eng._add(z3.ForAll([i, j], body, patterns=pats))
    eng._add(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < m), z3.Or(I(k) < I(l), z3.And(I(k) == I(l), J(k) < J(l)))), patterns=[z3.MultiPattern(I(k), I(l))]))
    mk = lambda u: Arr(eng, "int", (m,), lambda q: u(toint(q)), site=node_site(node))
    return mk(I), mk(J)


def find_patterns(t, v):
    """uninterpreted applications containing exactly v directly as argument"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            if any(c.eq(v) for c in x.children()) and all(c.eq(v) or not contains_var(c, v) for c in x.children()):
                out.append(x)
                continue
        todo.extend(x.children())
    return out


def contains_var(t, v):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


def compress(eng, mask, base, node):
    if mask.ndim == 1:
        if not (conc(mask.n) and conc(base.n) and mask.n == base.n) and not (is_z3(mask.n) and is_z3(base.n) and mask.n.eq(base.n)):
            eng.oblige(mask.n == base.n, "mask has the array's length", "safety", node=node)
        w = where1(eng, mask, node)
        f, g = base.fn, w.fn
        if base.ndim == 1:
            a = Arr(eng, base.dtype, (w.n,), lambda k: f(g(k)), site=node_site(node))
            a.sel = g
            return a
        if base.ndim == 2:
            return Arr(eng, base.dtype, (w.n, base.shape[1]), lambda i, j: f(g(i), j), site=node_site(node))
    raise Unsupported("nd boolean indexing")


def setitem(eng, base, key, val, node):
    if isinstance(base, list):
        if conc(key) and isinstance(key, int):
            base[key] = val
            return
        raise Unsupported("store in a static list")
    if isinstance(base, dict):
        if is_z3(key):
            raise Unsupported("symbolic dict key")
        base[key] = val
        return
    if isinstance(base, Rec):
        if isinstance(key, str):
            if key not in base.fields:
                raise Unsupported(f"field {key}")
            setitem(eng, base.fields[key], slice(None, None, None), val, node)
            return
        if isinstance(val, Rec):
            for k, a in base.fields.items():
                setitem(eng, a, key, val.fields[k], node)
            return
        if isinstance(val, RecRow):
            for k, a in base.fields.items():
                setitem(eng, a, key, getitem(eng, val.rec.fields[k], val.i, node, nocheck=True), node)
            return
        raise Unsupported("record store")
    if isinstance(base, RecRow):
        setitem(eng, base.rec.fields[key], base.i, val, node)
        return
    if isinstance(base, Obj):
        h = base.hooks.get("__setitem__")
        if h is not None:
            return h(eng, base, key, val)
        raise Unsupported("item store on object")
    if not isinstance(base, Arr):
        raise Unsupported(f"item store on {type(base).__name__}")
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if isinstance(key, Arr) and key.ndim == 0:
        key = key.fn()
    dt = base.dtype
    if is_num(key) and base.ndim == 1:
        i = idx_scalar(eng, key, base.n, node)
        if isinstance(val, Arr):
            if val.ndim == 0:
                val = val.fn()
            else:
                raise Unsupported("array stored in a scalar cell")
        if dt == "real" and kind(val) in ("F",) or (dt == "real" and is_nanconst(val)):
            base.root().dtype = "float"
            if isinstance(base, View):
                base.dtype = "float"
            dt = "float"
            old = base.root()._fn
            base.root()._fn = lambda *k, old=old: F(real(old(*k)), nanflag(old(*k)))
        base.store((i,), conv(eng, val, dt))
        return
    if isinstance(key, tuple) and all(is_num(k) for k in key) and len(key) == base.ndim:
        idx = tuple(idx_scalar(eng, k, n, node) for k, n in zip(key, base.shape))
        base.store(idx, conv(eng, val, dt))
        return
    if isinstance(key, slice) or (is_num(key) and base.ndim == 2) or (isinstance(key, tuple) and all(is_num(k) or isinstance(k, slice) for k in key)):
        v = getitem(eng, base, key, node)
        val = as_arr(eng, val, node)
        if isinstance(val, Arr) and val.ndim > 0:
            # shapes must agree (or broadcast from length 1)
            vs, ts = val.shape, v.shape
            vf0 = val.fn
            if len(vs) == len(ts):
                ones_ = []
                for x, y in zip(vs, ts):
                    one = conc(x) and x == 1 and not (conc(y) and y == 1)
                    ones_.append(one)
                    if not one and not (conc(x) and conc(y) and x == y) and not (is_z3(x) and is_z3(y) and x.eq(y)):
                        eng.oblige(x == y, "assigned shapes match", "safety", node=node)
                vf = (lambda *k: vf0(*[0 if o else q for o, q in zip(ones_, k)])) if any(ones_) else vf0
            elif len(vs) == 1 and len(ts) == 2:
                eng.oblige(vs[0] == ts[1], "assigned shapes match", "safety", node=node)
                vf = lambda i, j: vf0(j)
            else:
                raise Unsupported("broadcast store")
            v.set_fn((lambda *k: conv(eng, vf(*k), dt)))
        else:
            if isinstance(val, Arr):
                val = val.fn()
            c = conv(eng, val, dt)
            v.set_fn(lambda *k: c)
        return
    if isinstance(key, (list,)):
        key = array_from(eng, key, node)
    if isinstance(key, Arr) and key.dtype == "bool":
        if key.ndim != base.ndim:
            raise Unsupported("mask of another rank")
        for x, y in zip(key.shape, base.shape):
            if not (conc(x) and conc(y) and x == y) and not (is_z3(x) and is_z3(y) and x.eq(y)):
                eng.oblige(x == y, "mask has the array's shape", "safety", node=node)
        m = key.fn
        if isinstance(val, Arr) and val.ndim > 0:
            w = where1(eng, key, node)
            if conc(key.n):
                vals = {k: val.fn(q) for q, k in enumerate([w.fn(q) for q in range(w.n)])}
                eng.oblige(val.n == w.n, "masked store length", "safety", node=node)
                for k, v in vals.items():
                    base.store((k,), conv(eng, v, dt))
                return
            cnt = dsl.count(lambda q: m(q))
            ww = eng_rank(eng, key, node)
            eng.oblige(val.n == ww[0], "masked store length", "safety", node=node)
            vf = val.fn
            base.store_region(lambda k: m(k), lambda k: conv(eng, vf(ww[1](k)), dt))
            return
        c = conv(eng, val.fn() if isinstance(val, Arr) else val, dt)
        base.store_region(lambda *k: m(*k), lambda *k: c)
        return
    if isinstance(key, Arr) and base.ndim == 1 and key.ndim == 1:
        return scatter(eng, base, key, val, node)
    if isinstance(key, tuple) and base.ndim == 2 and isinstance(key[0], Arr) and isinstance(key[1], slice) and key[1] == slice(None, None, None):
        raise Unsupported("row scatter")
    raise Unsupported("store index")


def eng_rank(eng, mask, node):
    """(count, rank function) of a mask"""
    w = where1(eng, mask, node)
    p = z3.Int("probe0")
    t = mask.fn(p)
    key = (dsl.tid(t), str(mask.n))
    nm = None
    # rank function name is derived from the where function
    wf = w.fn(z3.IntVal(0)).decl().name()
    r = z3.Function(wf + "_rank", z3.IntSort(), z3.IntSort())
    return w.n, (lambda k: r(toint(k)))


def scatter(eng, base, idx, val, node):
    dt = base.dtype
    check_gather(eng, idx, base.n, node)
    g = idx.fn
    if conc(idx.n):
        for k in range(idx.n):
            v = val.fn(k) if isinstance(val, Arr) and val.ndim == 1 else val
            base.store((g(k),), conv(eng, v, dt))
        return
    if not isinstance(val, Arr) or val.ndim == 0:
        c = conv(eng, val.fn() if isinstance(val, Arr) else val, dt)
        w = getattr(idx, "where_of", None)
        # last-writer wins is irrelevant for a constant
        hit = z3.Function(eng_name(eng, "hit"), z3.IntSort(), z3.BoolSort())
        wit = z3.Function(eng_name(eng, "hitw"), z3.IntSort(), z3.IntSort())
        k = z3.Int("sk")
        n = toint(idx.n)
        eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), hit(g(k))), patterns=[g(k)] if is_pat(g(k)) else []))
        eng._add(z3.ForAll([k], z3.Implies(hit(k), z3.And(wit(k) >= 0, wit(k) < n, g(wit(k)) == k)), patterns=[hit(k)]))
        base.store_region(lambda k_: hit(toint(k_)), lambda k_: c)
        return
    # value array: require distinct targets
    eng.oblige(idx.n == val.n, "scatter lengths match", "safety", node=node)
    vf = val.fn
    hit = z3.Function(eng_name(eng, "hit"), z3.IntSort(), z3.BoolSort())
    wit = z3.Function(eng_name(eng, "hitw"), z3.IntSort(), z3.IntSort())
    k = z3.Int("sk")
    j = z3.Int("sj")
    n = toint(idx.n)
    # numpy: the last occurrence wins
    eng.trust("fancy assignment a[idx]=v: the last occurrence of a repeated index wins")
    eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(hit(g(k)), wit(g(k)) >= k)), patterns=[g(k)] if is_pat(g(k)) else []))
    eng._add(z3.ForAll([k], z3.Implies(hit(k), z3.And(wit(k) >= 0, wit(k) < n, g(wit(k)) == k)), patterns=[hit(k)]))
    base.store_region(lambda k_: hit(toint(k_)), lambda k_: conv(eng, vf(wit(toint(k_))), dt))


def is_pat(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def eng_name(eng, p):
    eng.fresh_n += 1
    return f"{p}#{eng.fresh_n}"


# ---------------------------------------------------------------- reductions
def minmax(eng, a, which, node):
    if a.ndim == 2:
        if not (conc(a.shape[0]) and conc(a.shape[1]) and a.shape[0] * a.shape[1] > 0):
            raise Unsupported("2-d min/max")
        f2 = a.fn
        return scalar_minmax(eng, [f2(i, j) for i in range(a.shape[0]) for j in range(a.shape[1])], which, node)
    eng.oblige(a.n > 0, f"{which} of a non empty array", "safety", node=node)
    f = a.fn
    if conc(a.n):
        r = f(0)
        for k in range(1, a.n):
            v = f(k)
            r = scalar_minmax(eng, [r, v], which, node)
        return r
    eng.trust(f"array.{which}(): bound of every element, attained")
    k0 = kind(f(z3.Int("probe0")))
    if k0 == "F":
        raise Unsupported("min/max of nan-able array")
    if isinstance(a, View) and a.base.ndim == 2:
        pk = z3.Int("ext_probe_k")
        ix = a.fwd(pk)
        if is_z3(ix[1]) and ix[1].eq(pk) and not (is_z3(ix[0]) and not z3.simplify(z3.substitute(ix[0], (pk, pk + 1))).eq(z3.simplify(ix[0]))):
            return dsl.extremum(which, a.base.fn, a.n, ix[0])
    return dsl.extremum(which, f, a.n)


def scalar_minmax(eng, vals, which, node):
    r = vals[0]
    for v in vals[1:]:
        if conc(r) and conc(v) and isinstance(r, int) and isinstance(v, int):
            r = min(r, v) if which == "min" else max(r, v)
            continue
        c = cmp(eng, "Lt" if which == "min" else "Gt", v, r)
        r = ite(c, v, r) if is_z3(c) else (v if c else r)
    return r


def array_sum(eng, a, node):
    f = a.fn
    if a.ndim != 1:
        raise Unsupported("sum of nd array")
    if conc(a.n):
        s = 0
        for k in range(a.n):
            s = num_bin(eng, "Add", s, f(k), node)
        return s
    if a.dtype == "bool":
        s = dsl.count(lambda k: f(k))
        return s(a.n)
    k0 = kind(f(z3.Int("probe0")))
    if k0 == "F":
        raise Unsupported("sum of nan-able array")
    s = dsl.SumFn(lambda k: f(k), 0, "int" if k0 == "int" else "real", mono=k0 == "int")
    return s(a.n)


def array_any(eng, a, node, all_=False):
    f = a.fn
    if a.ndim == 0:
        return boolify(f())
    if a.ndim == 1:
        g = lambda k: boolify(f(k))
        return dsl.forall(0, a.n, g) if all_ else dsl.exists(0, a.n, g)
    if a.ndim == 2:
        if all_:
            return dsl.forall2(0, a.shape[0], 0, a.shape[1], lambda i, j: boolify(f(i, j)))
        return Not(dsl.forall2(0, a.shape[0], 0, a.shape[1], lambda i, j: Not(boolify(f(i, j)))))
    raise Unsupported("any/all")


def cumsum(eng, a, node):
    f = a.fn
    if conc(a.n):
        out, s = [], 0
        for k in range(a.n):
            s = num_bin(eng, "Add", s, f(k), node)
            out.append(s)
        return array_from(eng, out, node) if out else Arr(eng, "int" if a.dtype in ("int", "bool") else a.dtype, (0,), lambda k: 0)
    k0 = kind(f(z3.Int("probe0")))
    if k0 == "F":
        raise Unsupported("cumsum of nan-able array")
    s = dsl.count(lambda k: f(k)) if a.dtype == "bool" else dsl.SumFn(lambda k: f(k), 0, "int" if k0 == "int" else "real")
    s(z3.Int("probe0"))
    return Arr(eng, "int" if k0 in ("int", "bool") else "real", (a.n,), lambda k: s(k + 1), site=node_site(node))


def argsort(eng, a, node):
    """permutation sorting a (kind not modelled: only stable if asked)"""
    n = a.n
    f = a.fn
    if conc(n):
        idx = list(range(n))
        # insertion sort by branching (stable)
        out = []
        for k in idx:
            p = len(out)
            while p > 0 and eng.branch(cmp(eng, "Lt", f(k), f(out[p - 1]))):
                p -= 1
            out.insert(p, k)
        return array_from(eng, out, node, "int") if out else Arr(eng, "int", (0,), lambda k: 0)
    eng.trust("argsort: a permutation of the indices that orders the keys")
    p = z3.Function(eng_name(eng, "argsort"), z3.IntSort(), z3.IntSort())
    q = z3.Function(eng_name(eng, "argsortinv"), z3.IntSort(), z3.IntSort())
    nn = toint(n)
    k, j = z3.Ints("pk pj")
    eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nn), z3.And(p(k) >= 0, p(k) < nn, q(p(k)) == k)), patterns=[p(k)]))
    eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nn), z3.And(q(k) >= 0, q(k) < nn, p(q(k)) == k)), patterns=[q(k)]))
    le = Not(cmp(eng, "Lt", f(p(j)), f(p(k))))
    eng._add(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j < nn), le), patterns=[z3.MultiPattern(p(k), p(j))]))
    a2 = Arr(eng, "int", (n,), lambda k_: p(toint(k_)), site=node_site(node))
    a2.perm_inv = q
    return a2


def rec_argsort(eng, rec, args, kw, node):
    """permutation that orders the fields given, the first field first; numpy separates observations equal on all of them with the other fields: any order here"""
    order = kw.get("order")
    order = [order] if isinstance(order, str) else list(order or ())
    if not order or not all(isinstance(k, str) and k in rec.fields for k in order) or set(kw) - {"order", "kind"} or args:
        raise Unsupported("argsort of records without static fields")
    if any(rec.fields[k].dtype not in ("int", "real") for k in order):
        raise Unsupported("argsort of records on this type of fields")
    n = rec.shape[0]
    eng.trust("argsort of records: a permutation of the indices that orders the fields asked (ties in any order)")
    p = z3.Function(eng_name(eng, "rargsort"), z3.IntSort(), z3.IntSort())
    q = z3.Function(eng_name(eng, "rargsortinv"), z3.IntSort(), z3.IntSort())
    nn = toint(n)
    k, j = z3.Ints("pk pj")
    eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nn), z3.And(p(k) >= 0, p(k) < nn, q(p(k)) == k)), patterns=[p(k)]))
    eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nn), z3.And(q(k) >= 0, q(k) < nn, p(q(k)) == k)), patterns=[q(k)]))
    le = z3.BoolVal(True)
    for f in reversed(order):
        a, b = rec.fields[f].fn(p(k)), rec.fields[f].fn(p(j))
        le = Or(a < b, And(a == b, le))
    eng._add(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < j, j < nn), le), patterns=[z3.MultiPattern(p(k), p(j))]))
    a2 = Arr(eng, "int", (n,), lambda k_: p(toint(k_)), site=node_site(node))
    a2.perm_inv = q
    return a2


def np_digitize(eng, args, kw, node):
    """bin number of each value: bins[r-1] <= v < bins[r], for increasing bins"""
    v, bins = as_arr(eng, args[0], node), as_arr(eng, args[1], node)
    if kw or len(args) != 2:
        raise Unsupported("digitize with options")
    f, g, nb = v.fn, bins.fn, bins.n
    if conc(v.n) and conc(nb):
        def one(x):
            r = 0
            for q in range(nb):
                r = If(Not(cmp(eng, "Lt", x, g(q))), q + 1, r)
            return r
        return array_from(eng, [one(f(k)) for k in range(v.n)], node, "int") if v.n else Arr(eng, "int", (0,), lambda k: 0)
    eng.trust("digitize: the bin of each value, for increasing bins")
    r = z3.Function(eng_name(eng, "digitize"), z3.IntSort(), z3.IntSort())
    k, a, b = z3.Ints("dk da db")
    n, nb_ = toint(v.n), toint(nb)
    srt = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < nb_), tobool_(Not(cmp(eng, "Lt", g(b), g(a))))))
    eng._add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= r(k), r(k) <= nb_)), patterns=[r(k)]))
    eng._add(z3.Implies(srt, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Or(r(k) == 0, tobool_(Not(cmp(eng, "Lt", f(k), g(r(k) - 1))))), z3.Or(r(k) == nb_, tobool_(cmp(eng, "Lt", f(k), g(r(k))))))), patterns=[r(k)])))
    return Arr(eng, "int", (v.n,), lambda q: r(toint(q)), site=node_site(node))


def tobool_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def list_append(eng, lst, v, node):
    if isinstance(v, (Obj, Fn, Opaque, Ext)) or (isinstance(v, Arr)):
        raise Unsupported("append of a non scalar to a symbolic list")
    dt = tuple(eng.value_kind(x) for x in v) if isinstance(v, tuple) else eng.value_kind(v)
    if isinstance(dt, str):
        dt = {"F": "float"}.get(dt, dt)
    if isinstance(dt, tuple):
        dt = tuple({"F": "float"}.get(x, x) for x in dt)
    if lst.dtype is None:
        lst.dtype = dt
    elif lst.dtype != dt:
        order = ["bool", "int", "real", "float"]
        if isinstance(dt, tuple):
            lst.dtype = tuple(order[max(order.index(x), order.index(y))] for x, y in zip(dt, lst.dtype))
        else:
            lst.dtype = order[max(order.index(dt), order.index(lst.dtype))]
    n = lst.shape[0]
    old = lst._fn
    if isinstance(v, tuple):
        v = tuple(conv(eng, x, d) for x, d in zip(v, lst.dtype))
    else:
        v = conv(eng, v, lst.dtype)

    def new(k):
        c = simp_bool(k == n)
        if c is True:
            return v
        if c is False:
            return old(k)
        if conc(n) and n == 0:
            return v
        return ite(c, v, old(k))

    if is_z3(n) and eng.mode == "proof" and not getattr(eng, "in_closure", 0):
        # mention the old contents at the new position, so that quantifiers over the list are instantiated there (an uninterpreted, always asserted, mark)
        o = old(n)
        for x in (o if isinstance(o, tuple) else (o,)):
            x = x.v if isinstance(x, F) else x
            if is_z3(x):
                eng._add(z3.Function("touch_" + x.sort().name(), x.sort(), z3.BoolSort())(x))
    lst._fn = new
    lst.shape = (simp_int(n + 1),)
    lst.version += 1


def list_clear(eng, lst):
    lst._fn = lambda *k: z3.IntVal(0) if lst.dtype in (None, "int") else eng_default(lst.dtype)
    lst.shape = (0,)
    lst.version += 1


def eng_default(dt):
    if isinstance(dt, tuple):
        return tuple(eng_default(x) for x in dt)
    return {"int": z3.IntVal(0), "bool": z3.BoolVal(False), "real": z3.RealVal(0)}.get(dt, F(z3.RealVal(0), False))


def list_extend(eng, lst, v, node):
    if isinstance(v, (list, tuple)):
        for x in v:
            list_append(eng, lst, x, node)
        return
    if not isinstance(v, Arr):
        raise Unsupported("extend")
    if lst.dtype is None:
        lst.dtype = v.dtype
    n, f, g = lst.shape[0], lst._fn, v.fn
    if conc(n) and n == 0:
        lst._fn = g
    else:
        lst._fn = lambda k: If(k < n, lambda: f(k), lambda: g(k - n))
    lst.shape = (simp_int(n + v.n),)
    lst.version += 1


def concat(eng, parts, node, is_list=False):
    parts = [as_arr(eng, p, node) for p in parts]
    parts = [p for p in parts if not (conc(p.n) and p.n == 0)] or parts[:1]
    order = ["bool", "int", "real", "float"]
    dt = order[max(order.index(p.dtype) if p.dtype in order else 0 for p in parts)]
    total = 0
    offs = []
    for p in parts:
        offs.append(total)
        total = simp_int(total + p.n)
    fs = [cast_fn(eng, p, dt) for p in parts]

    def f(k, *r):
        v = fs[-1](k - offs[-1] if not (conc(offs[-1]) and offs[-1] == 0) else k, *r)
        for q in range(len(parts) - 2, -1, -1):
            c = k < offs[q + 1]
            c = simp_bool(c)
            if c is True:
                v = fs[q](k - offs[q], *r)
            elif c is False:
                continue
            else:
                v = ite(c, fs[q](k - offs[q], *r), v)
        return v

    return Arr(eng, dt, (total,) + parts[0].shape[1:], f, site=node_site(node), is_list=is_list)


# ---------------------------------------------------------------- attributes, methods
def getattr_(eng, base, attr, node):
    if isinstance(base, Arr):
        if attr == "shape":
            return tuple(base.shape)
        if attr == "size":
            r = 1
            for s in base.shape:
                r = num_bin(eng, "Mult", r, s, node)
            return r
        if attr == "ndim":
            return base.ndim
        if attr == "dtype":
            return Dt("float" if base.dtype == "real" else base.dtype)
        if attr == "T":
            if base.ndim == 1:
                return base
            f = base.fn
            return Arr(eng, base.dtype, base.shape[::-1], lambda i, j: f(j, i), site=node_site(node))
        return Bound(base, attr)
    if isinstance(base, (Rec, RecRow)):
        if attr == "shape":
            return tuple(base.shape)
        if attr == "size":
            return base.shape[0]
        if attr == "dtype":
            return Dt("rec", fields=list(base.fields))
        return Bound(base, attr)
    if isinstance(base, Dt):
        if attr == "names":
            return tuple(base.fields)
        if attr == "type":
            return base
        return Opaque("dtype." + attr)
    if isinstance(base, slice):
        return Bound(base, attr) if attr == "indices" else getattr(base, attr)
    if isinstance(base, Opaque):
        return Opaque(base.what + "." + attr)
    if isinstance(base, SlotObj):
        return base[attr]
    if attr in ("append", "keys", "items", "values", "copy", "get", "extend", "add", "index", "update", "pop", "format", "startswith", "endswith", "lower", "split", "strip",
                "union", "intersection", "difference", "count", "join", "replace", "sort", "astype", "remove"):
        return Bound(base, attr)
    if is_num(base):
        if attr == "dtype":
            return Dt(res_dtype(base))
        return Bound(base, attr)
    raise Unsupported(f"attribute {attr} on {type(base).__name__}")


class SlotObj(dict):
    pass


def call_method(eng, obj, name, args, kw, node):
    if isinstance(obj, slice) and name == "indices" and len(args) == 1 and obj.step is None:
        lo, _, ln = norm_slice(eng, obj, args[0], node)
        return lo, lo + ln, 1
    if isinstance(obj, Arr):
        if obj.is_list:
            if name == "append":
                return list_append(eng, obj, args[0], node)
            if name == "clear":
                return list_clear(eng, obj)
            if name == "extend":
                return list_extend(eng, obj, args[0], node)
            if name == "copy":
                return Arr(eng, obj.dtype, obj.shape, obj.fn, is_list=True, site=node_site(node))
        if name in ("min", "max"):
            if args or kw:
                raise Unsupported("axis reduction")
            return minmax(eng, obj, name, node)
        if name == "sum":
            if kw or args:
                return axis_sum(eng, obj, kw, args, node)
            return array_sum(eng, obj, node)
        if name in ("any", "all"):
            if kw or args:
                return axis_any(eng, obj, kw, args, name == "all", node)
            return array_any(eng, obj, node, name == "all")
        if name == "cumsum":
            return cumsum(eng, obj, node)
        if name == "round" and not args and not kw:
            return elementwise(eng, lambda v: py_round(eng, v, node), obj, node)
        if name == "argsort":
            return argsort(eng, obj, node)
        if name in ("copy",):
            return Arr(eng, obj.dtype, obj.shape, obj.fn, site=node_site(node))
        if name == "astype":
            dt = todt(eng, args[0] if args else kw.get("dtype"))
            if dt == "float" and obj.dtype == "int":
                dt = "real"
            if dt == "float" and obj.dtype == "real":
                dt = "real"
            return Arr(eng, dt, obj.shape, cast_fn(eng, obj, dt), site=node_site(node))
        if name == "mean":
            s = array_sum(eng, obj, node)
            eng.oblige(obj.n > 0, "mean of a non empty array", "safety", node=node)
            return num_bin(eng, "Div", s, obj.n, node, safe=False)
        if name in ("argmin", "argmax"):
            return argminmax(eng, obj, name, node)
        if name in ("ravel", "flatten", "squeeze") and obj.ndim == 1:
            return Arr(eng, obj.dtype, obj.shape, obj.fn, site=node_site(node)) if name == "flatten" else obj
        if name == "tolist" and obj.ndim == 1:
            return Arr(eng, obj.dtype, obj.shape, obj.fn, site=node_site(node), is_list=True)
        if name == "repeat":
            return np_repeat(eng, obj, args[0], node)
        if name == "nonzero" and obj.ndim == 1:
            return (where1(eng, obj, node),)
        if name == "sort" and not args:
            p = argsort(eng, obj, node)
            f, g = obj.fn, p.fn
            obj.set_fn(lambda k: f(g(k)))
            return None
        if name == "fill":
            c = conv(eng, args[0], obj.dtype)
            obj.set_fn(lambda *k: c)
            return None
        raise Unsupported(f"array method {name}")
    if is_num(obj) and name == "astype":
        return cast_scalar(eng, obj, todt(eng, args[0]), node)
    if isinstance(obj, list):
        if name == "append":
            obj.append(args[0])
            return None
        if name == "extend":
            obj.extend(args[0])
            return None
        if name == "copy":
            return list(obj)
        if name == "index":
            return obj.index(args[0])
        if name == "pop":
            r = obj.pop(*args)
            if not obj:
                # typed empty list of numba (`[0]` then `pop`): same value as `[]`
                new = new_list(eng, node_site(node))
                for fr in [eng.frame, *eng.frames_below]:
                    for k_, v_ in fr.items():
                        if v_ is obj:
                            fr[k_] = new
            return r
        if name == "remove":
            obj.remove(args[0])
            return None
    if isinstance(obj, dict):
        if name == "keys":
            return list(obj.keys())
        if name == "items":
            return list(obj.items())
        if name == "values":
            return list(obj.values())
        if name == "get":
            return obj.get(*args)
        if name == "copy":
            return dict(obj)
        if name == "update":
            obj.update(*args, **kw)
            return None
        if name == "pop":
            return obj.pop(*args)
    if isinstance(obj, set):
        if name == "add":
            obj.add(args[0])
            return None
        if name in ("union", "intersection", "difference"):
            return getattr(obj, name)(*args)
    if isinstance(obj, (str, OpaqueStr)):
        if isinstance(obj, str) and all(isinstance(a, (str, int)) for a in args):
            return getattr(obj, name)(*args)
        return OpaqueStr()
    if isinstance(obj, Opaque):
        raise Unsupported(f"call on opaque {obj.what}.{name}")
    if isinstance(obj, Rec) and name == "argsort":
        return rec_argsort(eng, obj, args, kw, node)
    if isinstance(obj, Rec) and name == "copy":
        return Rec(eng, obj.shape, {k: Arr(eng, a.dtype, a.shape, a.fn, site=k) for k, a in obj.fields.items()})
    if is_num(obj) and name in ("astype",):
        return cast_scalar(eng, obj, todt(eng, args[0]), node)
    raise Unsupported(f"method {name} on {type(obj).__name__}")


def axis_of(kw, args):
    ax = kw.get("axis", args[0] if args else None)
    return ax


def axis_sum(eng, a, kw, args, node):
    ax = axis_of(kw, args)
    if a.ndim == 2 and conc(a.shape[ax]):
        f = a.fn
        m = a.shape[ax]

        def g(k):
            s = 0
            for q in range(m):
                s = num_bin(eng, "Add", s, f(q, k) if ax == 0 else f(k, q), node)
            return s

        return lift(eng, g, (a.shape[1 - ax],), node)
    if a.ndim == 2:
        f = a.fn
        eng.trust("2-d sum over an axis: definitional recursive sum")
        # one recursive function with a parameter
        k0 = kind(f(z3.Int("probe0"), z3.Int("probe1")))
        if k0 == "F":
            raise Unsupported("axis sum of nan-able")
        srt = z3.IntSort() if k0 in ("int", "bool") else z3.RealSort()
        S = z3.Function(eng_name(eng, "axsum"), z3.IntSort(), z3.IntSort(), srt)
        i, j = z3.Ints("xi xj")
        v = f(j, i) if ax == 0 else f(i, j)
        v = toint(v) if srt == z3.IntSort() else real(v)
        eng._add(z3.ForAll([i], S(i, 0) == 0, patterns=[S(i, 0)]))
        eng._add(z3.ForAll([i, j], z3.Implies(j >= 0, S(i, j + 1) == S(i, j) + v), patterns=[S(i, j + 1)]))
        if k0 == "bool":
            n = toint(a.shape[ax])
            eng._add(z3.ForAll([i, j], z3.Implies(z3.And(j >= 0), z3.And(S(i, j) >= 0, S(i, j) <= j)), patterns=[S(i, j)]))
            jj = z3.Int("xq")
            vb = boolify(f(jj, i) if ax == 0 else f(i, jj))
            eng._add(z3.ForAll([i, jj], z3.Implies(z3.And(jj >= 0, jj < n, vb), S(i, n) >= 1), patterns=find_patterns2(vb, i, jj)))
            j2 = z3.Int("xr")
            vb2 = boolify(f(j2, i) if ax == 0 else f(i, j2))
            eng.axsum_facts = getattr(eng, "axsum_facts", [])
            eng._add(z3.ForAll([i, jj, j2], z3.Implies(z3.And(jj >= 0, jj < j2, j2 < n, vb, vb2), S(i, n) >= 2)))
        n = a.shape[ax]
        return Arr(eng, "int" if srt == z3.IntSort() else "real", (a.shape[1 - ax],), lambda k: S(toint(k), toint(n)), site=node_site(node))
    raise Unsupported("axis sum")


def find_patterns2(t, i, j):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and contains_var(x, i) and contains_var(x, j):
            if all(c.eq(i) or c.eq(j) or not (contains_var(c, i) or contains_var(c, j)) for c in x.children()):
                out.append(x)
                continue
        todo.extend(x.children())
    return out


def axis_any(eng, a, kw, args, all_, node):
    ax = axis_of(kw, args)
    f = a.fn
    if a.ndim == 2:
        n = a.shape[ax]
        g = lambda k: (dsl.forall if all_ else dsl.exists)(0, n, lambda q: boolify(f(q, k) if ax == 0 else f(k, q)))
        return Arr(eng, "bool", (a.shape[1 - ax],), g, site=node_site(node))
    raise Unsupported("axis any")


def argminmax(eng, a, name, node):
    f = a.fn
    eng.oblige(a.n > 0, f"{name} of a non empty array", "safety", node=node)
    op = "Lt" if name == "argmin" else "Gt"
    if conc(a.n):
        b = 0
        for k in range(1, a.n):
            if eng.branch(cmp(eng, op, f(k), f(b))):
                b = k
        return b
    eng.trust(f"{name}: first index of an extreme element")
    w = eng.fresh("int", name)
    eng._add(z3.And(w >= 0, w < toint(a.n)))
    eng.assume(dsl.forall(0, a.n, lambda k: Not(cmp(eng, op, f(k), f(w)))))
    eng.assume(dsl.forall(0, w, lambda k: cmp(eng, op, f(w), f(k))))
    return w


def np_repeat(eng, a, r, node):
    if not isinstance(a, Arr):
        if isinstance(r, Arr):
            raise Unsupported("repeat")
        return Arr(eng, res_dtype(a), (r,), lambda k: a, site=node_site(node))
    if not isinstance(r, Arr) and a.ndim == 1:
        f = a.fn
        return Arr(eng, a.dtype, (num_bin(eng, "Mult", a.n, r, node),), lambda k: f(toint(k) / r if not conc(k) else k // r), site=node_site(node))
    if isinstance(r, Arr) and a.ndim == 1:
        if conc(r.n):
            out = []
            for k in range(r.n):
                c = 0
                while eng.branch(c < r.fn(k)):
                    out.append(a.fn(k))
                    c += 1
                    if c > 16:
                        raise PathEnd()
            return array_from(eng, out, node, a.dtype)
        eng.trust("repeat(counts): block k holds element k, blocks in order")
        S = dsl.SumFn(lambda k: r.fn(k), 0, "int", "rep")
        tot = S(r.n)
        eng._flush_axioms()
        b = z3.Function(eng_name(eng, "repblk"), z3.IntSort(), z3.IntSort())
        k = z3.Int("rk")
        eng._add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < tot), z3.And(b(k) >= 0, b(k) < toint(r.n), S(b(k)) <= k, k < S(b(k) + 1))), patterns=[b(k)]))
        inv = eng.opts.get("repeat")
        if inv is not None and eng.mode == "proof":
            # invariant of the starts of the blocks, given by the contract: established, kept by each block, then used
            ns = eng.spec_env(eng.frame, None, None, None)
            sel, R = getattr(r, "sel", None) or (lambda q: q), toint(r.n)
            inv, of_block = inv
            q = lambda v: boolify(inv(ns, S(v), v, sel, R))
            eng.oblige(q(z3.IntVal(0)), "invariant of the starts of the blocks, at first", "invariant", node=node)
            i = z3.Int(eng_name(eng, "repk"))
            eng.oblige(Implies(And(0 <= i, i < R, q(i)), q(i + 1)), "invariant of the starts of the blocks, kept", "invariant", node=node)
            eng._flush_axioms()
            eng._add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= R), q(i)), patterns=[S(i)]))
            eng._add(q(R))
            eng._add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < R), S(i + 1) == S(i) + toint(r.fn(i))), patterns=[S(i)]))
            blk = lambda q: toint(sel(b(q)))
            eng.oblige(Implies(And(0 <= i, i < tot), blk(i) == toint(of_block(ns, i))), "block of each element", "invariant", node=node)
            eng._flush_axioms()
            eng._add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tot), blk(i) == toint(of_block(ns, i))), patterns=[b(i)]))

            def elem(q):
                # element of the block, its rank replaced by what it has been proved to be (inside of the array)
                q, v = toint(q), f(b(toint(q)))
                sub = lambda t: z3.substitute(t, (blk(q), toint(of_block(ns, q)))) if is_z3(t) else t
                return F(sub(v.v), sub(v.nan)) if isinstance(v, F) else sub(v)
            f = a.fn
            x = Arr(eng, a.dtype, (tot,), elem, site=node_site(node))
            x.rep = (S, b)
            return x
        f = a.fn
        x = Arr(eng, a.dtype, (tot,), lambda q: f(b(toint(q))), site=node_site(node))
        x.rep = (S, b)
        return x
    raise Unsupported("repeat")


def cast_scalar(eng, v, dt, node):
    if isinstance(v, Arr):
        return Arr(eng, dt, v.shape, cast_fn(eng, v, dt), site=node_site(node))
    if dt == "float":
        return v if kind(v) in ("real", "F") else real(v)
    return conv(eng, v, dt)


def py_int(eng, v, node):
    if kind(v) == "int":
        return v
    if kind(v) == "bool":
        return toint(v)
    # int(floor(x)) is handled by floor returning an integral real; generic truncation otherwise
    if is_z3(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    if isinstance(v, F):
        eng.trust("int(nan) is unconstrained")
        t = real(v)
        if t.decl().kind() == z3.Z3_OP_TO_REAL:
            base = t.arg(0)
        else:
            base = trunc(eng, v)
        u = eng.fresh("int", "int_nan")
        return ite(v.nan, u, base) if is_z3(v.nan) else (u if v.nan else base)
    return trunc(eng, v)


def py_round(eng, v, node):
    if kind(v) in ("int",):
        return v
    x = real(v)
    fl = z3.ToInt(x)
    d = x - z3.ToReal(fl)
    h = z3.RealVal(Fraction(1, 2))
    r = z3.If(d < h, fl, z3.If(d > h, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    rr = z3.ToReal(r)
    return F(rr, v.nan) if isinstance(v, F) else rr


def np_floor(eng, v):
    r = z3.ToReal(z3.ToInt(real(v)))
    return F(r, v.nan) if isinstance(v, F) else r


def np_ceil(eng, v):
    r = -z3.ToReal(z3.ToInt(-real(v)))
    return F(r, v.nan) if isinstance(v, F) else r


def elementwise(eng, f, v, node):
    if isinstance(v, Arr):
        g = v.fn
        return lift(eng, lambda *k: f(g(*k)), v.shape, node)
    if isinstance(v, (list, tuple)):
        return elementwise(eng, f, array_from(eng, v, node), node)
    return f(v)


def py_abs(eng, v):
    if conc(v) and isinstance(v, int):
        return abs(v)
    x = real(v) if kind(v) in ("real", "F", "float") else toint(v)
    r = z3.If(x < 0, -x, x)
    return F(r, nanflag(v)) if isinstance(v, F) else r


def shape_arg(v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, list):
        return tuple(v)
    return (v,)


def np_unique(eng, a, kw, node):
    if isinstance(a, (list, tuple)):
        a = array_from(eng, a, node)
    f = a.fn
    if conc(a.n):
        p = argsort(eng, a, node)
        vals = [f(p.fn(k)) for k in range(a.n)]
        out, counts, first, inv = [], [], [], {}
        for k, v in enumerate(vals):
            if k and eng.branch(cmp(eng, "Eq", v, vals[k - 1])):
                counts[-1] += 1
            else:
                out.append(v)
                counts.append(1)
                first.append(p.fn(k))
            inv[p.fn(k)] = len(out) - 1
        res = [array_from(eng, out, node, a.dtype) if out else Arr(eng, a.dtype, (0,), lambda k: 0)]
        if kw.get("return_index"):
            res.append(array_from(eng, first, node, "int") if out else Arr(eng, "int", (0,), lambda k: 0))
        if kw.get("return_inverse"):
            res.append(array_from(eng, [inv[k] for k in range(a.n)], node, "int") if out else Arr(eng, "int", (0,), lambda k: 0))
        if kw.get("return_counts"):
            res.append(array_from(eng, counts, node, "int") if out else Arr(eng, "int", (0,), lambda k: 0))
        return res[0] if len(res) == 1 else tuple(res)
    eng.trust("numpy.unique: strictly increasing array of exactly the distinct values (with first index / inverse / counts)")
    isint = a.dtype == "int"
    if not isint:
        raise Unsupported("unique of non integers")
    u = z3.Function(eng_name(eng, "uniq"), z3.IntSort(), z3.IntSort())
    inv = z3.Function(eng_name(eng, "uniqinv"), z3.IntSort(), z3.IntSort())
    fi = z3.Function(eng_name(eng, "uniqidx"), z3.IntSort(), z3.IntSort())
    m = z3.Int(eng_name(eng, "uniq_n"))
    n = toint(a.n)
    k, j = z3.Ints("uk uj")
    eng._add(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
    eng._add(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < m), u(k) < u(j)), patterns=[z3.MultiPattern(u(k), u(j))]))
    eng._add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(fi(k) >= 0, fi(k) < n, f(fi(k)) == u(k), inv(fi(k)) == k)), patterns=[u(k)]))
    fk = toint(f(k))
    eng._add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(inv(k) >= 0, inv(k) < m, u(inv(k)) == fk, fi(inv(k)) <= k)), patterns=[inv(k)] + find_patterns(fk, k)))
    A = lambda g, nn, dt="int": Arr(eng, dt, (nn,), lambda q: g(toint(q)), site=node_site(node))
    res = [A(u, m)]
    if kw.get("return_index"):
        res.append(A(fi, m))
    if kw.get("return_inverse"):
        res.append(A(inv, a.n))
    if kw.get("return_counts"):
        c = z3.Function(eng_name(eng, "uniqcnt"), z3.IntSort(), z3.IntSort())
        eng._add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(c(k) >= 1, c(k) <= n)), patterns=[c(k)]))
        # counts of a group: two distinct members imply >= 2, a count >= 2 has two members
        eng._add(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n, f(k) == f(j)), c(inv(k)) >= 2)))
        w1 = z3.Function(eng_name(eng, "uniqw"), z3.IntSort(), z3.IntSort())
        eng._add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m, c(k) >= 2), z3.And(w1(k) > fi(k), w1(k) < n, f(w1(k)) == u(k))), patterns=[c(k)]))
        res.append(A(c, m))
    return res[0] if len(res) == 1 else tuple(res)


def np_isin(eng, a, b, node, invert=False):
    b = as_arr(eng, b, node)
    if not isinstance(a, Arr):
        r = dsl.exists(0, b.n, lambda k: cmp(eng, "Eq", a, b.fn(k)))
        return Not(r) if invert else r
    f, g = a.fn, b.fn
    eng.trust("isin/in1d: membership")
    r = lambda *k: dsl.exists(0, b.n, lambda q: cmp(eng, "Eq", f(*k), g(q)))
    return Arr(eng, "bool", a.shape, (lambda *k: Not(r(*k))) if invert else r, site=node_site(node))


def call_ext(eng, name, args, kw, node):
    short = name.split(".", 1)[1] if "." in name else name
    root = name.split(".")[0]
    h = eng.opts.get("ext", {}).get(name) or eng.opts.get("ext", {}).get(name.split(".")[-1])
    if h is not None:
        return h(eng, args, kw, node)
    base = name.split(".")[-1]
    if root == "builtins":
        f = BUILTIN_FN.get(base)
        if f is None:
            raise Unsupported(f"builtin {base}")
        return f(eng, args, kw, node)
    if root in ("numpy", "numba", "math"):
        f = NP_FN.get(base)
        if f is None:
            raise Unsupported(f"numpy function {name}")
        return f(eng, args, kw, node)
    raise Unsupported(f"external function {name}")


# ---------------------------------------------------------------- builtins
def b_len(eng, args, kw, node):
    v = args[0]
    if isinstance(v, (list, tuple, dict, str, set)):
        return len(v)
    if isinstance(v, (Arr, Rec, Ragged)):
        return v.shape[0]
    if isinstance(v, Obj):
        m = eng.getattr(v, "__len__", node)
        return eng.call(m, [], {}, node)
    if isinstance(v, Rng):
        return eng.seq_len_get(v, node)[0]
    raise Unsupported("len")


def b_range(eng, args, kw, node):
    if len(args) == 1:
        return Rng(0, args[0])
    if len(args) == 2:
        return Rng(args[0], args[1])
    return Rng(*args)


def b_minmax(which):
    def f(eng, args, kw, node):
        if kw:
            raise Unsupported("min/max with keywords")
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Arr):
                return minmax(eng, v, which, node)
            return scalar_minmax(eng, list(v), which, node)
        return scalar_minmax(eng, args, which, node)

    return f


def b_hasattr(eng, args, kw, node):
    v, name = args
    if name == "__iter__":
        if isinstance(v, (Arr, list, tuple, dict)):
            return True
        if isinstance(v, slice) or v is None or is_num(v):
            return False
    if name == "mask" and isinstance(v, Arr):
        return False
    raise Unsupported("hasattr")


def b_isinstance(eng, args, kw, node):
    v, t = args
    ts = t if isinstance(t, tuple) else (t,)
    r = []
    for x in ts:
        nm = x.name.split(".")[-1] if isinstance(x, Ext) else x.node.name if isinstance(x, Cls) else "int" if isinstance(x, Dt) and x.k == "int" else str(x)
        if nm == "slice":
            r.append(isinstance(v, slice))
        elif nm == "str":
            r.append(isinstance(v, (str, OpaqueStr)))
        elif nm in ("int", "int_", "integer"):
            r.append(is_num(v) and kind(v) == "int")
        elif nm in ("float", "floating"):
            r.append(is_num(v) and kind(v) in ("real", "F"))
        elif nm == "list":
            r.append(isinstance(v, list) or (isinstance(v, Arr) and v.is_list))
        elif nm == "tuple":
            r.append(isinstance(v, tuple))
        elif nm == "dict":
            r.append(isinstance(v, dict))
        elif nm == "ndarray":
            r.append(isinstance(v, Arr) and not v.is_list)
        elif isinstance(v, Obj) and isinstance(x, Cls):
            r.append(is_subclass(eng, v.cls, nm))
        elif isinstance(x, Cls):
            r.append(False)
        elif nm == "datetime64" or nm == "datetime":
            r.append(False)
        else:
            raise Unsupported(f"isinstance {nm}")
    return any(r)


def is_subclass(eng, cls, nm):
    mod, node = cls
    if node.name == nm:
        return True
    import ast
    for b in node.bases:
        if isinstance(b, ast.Name):
            e = eng.src.lookup(mod, b.id)
            if e and e[0] == "class" and is_subclass(eng, (e[1], e[2]), nm):
                return True
    return False


def b_list(eng, args, kw, node):
    if not args:
        return new_list(eng, (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
    v = args[0]
    if isinstance(v, (list, tuple, set)):
        return list(v)
    if isinstance(v, dict):
        return list(v)
    if isinstance(v, Arr):
        return Arr(eng, v.dtype, v.shape, v.fn, is_list=True, site=node_site(node))
    if isinstance(v, (ZipV, EnumV, Rng)):
        n, g = eng.seq_len_get(v, node)
        n = simp_int(n)
        if conc(n):
            return [g(k) for k in range(n)]
    raise Unsupported("list()")


def b_sum(eng, args, kw, node):
    v = args[0]
    if isinstance(v, (list, tuple)):
        s = args[1] if len(args) > 1 else 0
        for x in v:
            s = binop(eng, "Add", s, x, node)
        return s
    if isinstance(v, Arr):
        return array_sum(eng, v, node)
    raise Unsupported("sum")


def b_tuple(eng, args, kw, node):
    if not args:
        return ()
    v = args[0]
    if isinstance(v, (list, tuple)):
        return tuple(v)
    if isinstance(v, Arr) and conc(v.n):
        return tuple(v.fn(k) for k in range(v.n))
    raise Unsupported("tuple()")


def b_anyall(all_):
    def f(eng, args, kw, node):
        v = args[0]
        if isinstance(v, (list, tuple)):
            t = [eng.truth(x) for x in v]
            return And(*t) if all_ else Or(*t)
        if isinstance(v, Arr):
            return array_any(eng, v, node, all_)
        raise Unsupported("any/all")

    return f


BUILTIN_FN = {
    "len": b_len,
    "range": b_range,
    "enumerate": lambda e, a, k, n: EnumV(a[0], a[1] if len(a) > 1 else k.get("start", 0)),
    "zip": lambda e, a, k, n: [tuple(x) for x in zip(*a)] if all(isinstance(x, (list, tuple)) for x in a) else ZipV(a),
    "abs": lambda e, a, k, n: elementwise(e, lambda v: py_abs(e, v), a[0], n),
    "min": b_minmax("min"),
    "max": b_minmax("max"),
    "int": lambda e, a, k, n: py_int(e, a[0], n),
    "float": lambda e, a, k, n: real(a[0]) if kind(a[0]) not in ("F",) else a[0],
    "bool": lambda e, a, k, n: e.truth(a[0]),
    "round": lambda e, a, k, n: py_round(e, a[0], n),
    "list": b_list,
    "tuple": b_tuple,
    "sum": b_sum,
    "isinstance": b_isinstance,
    "any": b_anyall(False),
    "all": b_anyall(True),
    "slice": lambda e, a, k, n: slice(*a),
    "str": lambda e, a, k, n: OpaqueStr(),
    "print": lambda e, a, k, n: None,
    "set": lambda e, a, k, n: set(a[0]) if a else set(),
    "dict": lambda e, a, k, n: dict(*a, **k),
    "reversed": lambda e, a, k, n: list(reversed(a[0])),
    "hasattr": b_hasattr,
}


# ---------------------------------------------------------------- numpy
def n_zeros(val):
    def f(eng, args, kw, node):
        shape = shape_arg(args[0] if args else kw["shape"])
        dt = todt(eng, kw.get("dtype", args[1] if len(args) > 1 else None))
        empty(eng, shape, dt, node)
        if dt == "float":
            # nan-free until a nan is stored
            dt = "real" if not eng.opts.get("nan_arrays") else "float"
        c = conv(eng, val, dt)
        return Arr(eng, dt, shape, lambda *k: c, site=node_site(node))

    return f


def n_empty(eng, args, kw, node):
    shape = shape_arg(args[0] if args else kw["shape"])
    dt = todt(eng, kw.get("dtype", args[1] if len(args) > 1 else None))
    empty(eng, shape, dt, node)
    return eng.fresh_arr(dt, shape, "empty", site=node_site(node))


def n_like(fn):
    def f(eng, args, kw, node):
        a = args[0]
        dt = kw.get("dtype")
        return fn(eng, [tuple(a.shape)], {"dtype": Dt("float" if a.dtype == "real" else a.dtype) if dt is None else dt}, node)

    return f


def n_full(eng, args, kw, node):
    shape = shape_arg(args[0])
    v = args[1] if len(args) > 1 else kw["fill_value"]
    dt = kw.get("dtype", args[2] if len(args) > 2 else None)
    dt = todt(eng, dt) if dt is not None else res_dtype(v)
    empty(eng, shape, dt, node)
    c = conv(eng, v, dt)
    return Arr(eng, dt, shape, lambda *k: c, site=node_site(node))


def n_where(eng, args, kw, node):
    if len(args) == 1:
        m = args[0]
        if m.dtype != "bool":
            g = m.fn
            m = lift(eng, lambda *k: boolify(g(*k)), m.shape, node, "bool")
        if m.ndim == 1:
            return (where1(eng, m, node),)
        if m.ndim == 2:
            return where2(eng, m, node)
        raise Unsupported("nd where")
    c, a, b = args
    if isinstance(c, Arr):
        shape, fa, fb = c.shape, None, None
        _, _, fa = broadcast(eng, c, a, node)
        _, _, fb = broadcast(eng, c, b, node)
        fc = c.fn
        return lift(eng, lambda *k: ite(boolify(fc(*k)), fa(*k), fb(*k)), shape, node)
    return ite(c, a, b)


def n_isnan(eng, args, kw, node):
    return elementwise(eng, lambda v: nanflag(v), args[0], node) if not isinstance(args[0], Arr) else \
        lift(eng, (lambda f: lambda *k: nanflag(f(*k)))(args[0].fn), args[0].shape, node, "bool")


def n_arange(eng, args, kw, node):
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        lo, hi, st = args
    if kind(lo) == "int" and kind(hi) == "int" and conc(st) and st == 1:
        d = hi - lo
        ln = max(d, 0) if conc(d) else (d if not eng.feasible(d < 0) else If(d > 0, d, 0))
        return Arr(eng, "int", (ln,), (lambda k: lo + k) if not (conc(lo) and lo == 0) else (lambda k: k if not conc(k) else k), site=node_site(node))
    if all(is_num(v) for v in (lo, hi, st)) and "F" not in (kind(lo), kind(hi), kind(st)):
        # numpy: ceil((stop - start) / step) values, start + k * step
        lo, hi, st = real(lo), real(hi), real(st)
        eng.trust("arange of floats: real arithmetic")
        eng.oblige(st > 0, "positive step", "safety", node=node)
        ln = eng.fresh("int", "arange_n")
        eng._add(ln >= 0)
        # ln = max(ceil(d / st), 0)
        d = hi - lo
        eng.assume(If(d <= 0, ln == 0, And(z3.ToReal(ln) * st >= d, z3.ToReal(ln - 1) * st < d)))
        return Arr(eng, "real", (ln,), lambda k: lo + real(k) * st, site=node_site(node))
    raise Unsupported("arange")


def n_meshgrid(eng, args, kw, node):
    a, b = args
    if kw or not (isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim == 1):
        raise Unsupported("meshgrid")
    fa, fb = a.fn, b.fn
    return (Arr(eng, a.dtype, (b.n, a.n), lambda i, j: fa(j), site=node_site(node) + "a"), Arr(eng, b.dtype, (b.n, a.n), lambda i, j: fb(i), site=node_site(node) + "b"))


def n_array(eng, args, kw, node):
    v = args[0]
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    dt = todt(eng, dt) if dt is not None else None
    if isinstance(v, Arr):
        if v.dtype is None:
            return Arr(eng, dt or "float", (0,), lambda k: z3.RealVal(0), site=node_site(node))
        if isinstance(v.dtype, tuple):
            f = v.fn
            m = len(v.dtype)

            def g(i, j):
                t = f(i)
                r = t[m - 1]
                for q in range(m - 2, -1, -1):
                    r = If(j == q, t[q], r)
                return r

            return Arr(eng, v.dtype[0], (v.n, m), g, site=node_site(node))
        d = dt or v.dtype
        if d == "float" and v.dtype in ("int", "real"):
            d = "real"
        return Arr(eng, d, v.shape, cast_fn(eng, v, d), site=node_site(node))
    if isinstance(v, (list, tuple)):
        return array_from(eng, v, node, dt)
    if is_num(v):
        return Arr(eng, dt or res_dtype(v), (), lambda: v, site=node_site(node))
    raise Unsupported("array()")


def n_concat(eng, args, kw, node):
    parts = args[0]
    if isinstance(parts, Arr):
        raise Unsupported("concatenate of symbolic list")
    return concat(eng, parts, node)


def n_minmax(which):
    def f(eng, args, kw, node):
        a, b = args[0], args[1]
        if isinstance(a, Arr) or isinstance(b, Arr):
            shape, fa, fb = broadcast(eng, a, b, node)
            return lift(eng, lambda *k: scalar_minmax(eng, [fa(*k), fb(*k)], which, node), shape, node)
        return scalar_minmax(eng, [a, b], which, node)

    return f


def n_bool(op):
    def f(eng, args, kw, node):
        return binop(eng, op, args[0], args[1], node)

    return f


def n_ew(fn):
    def f(eng, args, kw, node):
        return elementwise(eng, lambda v: fn(eng, v, node), args[0], node)

    return f


def n_method(name):
    def f(eng, args, kw, node):
        a = as_arr(eng, args[0], node)
        return call_method(eng, a, name, list(args[1:]), kw, node)

    return f


def n_unique(eng, args, kw, node):
    return np_unique(eng, args[0], kw, node)


def n_diff_stack(eng, args, kw, node):
    raise Unsupported("stack")


def n_setdiff(eng, args, kw, node):
    a, b = as_arr(eng, args[0], node), as_arr(eng, args[1], node)
    u = np_unique(eng, a, {}, node)
    m = np_isin(eng, u, b, node, invert=True)
    return compress(eng, m, u, node)


def n_stat(which):
    def nanable(eng, f, lo, hi, par):
        """nan when one of the values is nan"""
        return F(dsl.stat(which, lambda k: val_of(f(k)), lo, hi, *par), dsl.exists(lo, hi, lambda k: nanflag(f(k))))

    val_of = lambda v: v.v if isinstance(v, F) else real(v)

    def g(eng, args, kw, node):
        a = as_arr(eng, args[0], node)
        if a.ndim != 1 or kw:
            raise Unsupported(which)
        eng.trust(f"{which}: a function of the list of values")
        eng.oblige(a.n > 0, f"{which} of a non empty array", "safety", node=node)
        par = [real(q) for q in args[1:]]
        sl = getattr(a, "slice_of", None)
        if sl is not None:
            base, l, ln = sl
            f = base.fn
            if kind(f(z3.Int("probe0"))) == "F":
                return nanable(eng, f, l, simp_int(l + ln), par)
            return dsl.stat(which, lambda k: f(k), l, simp_int(l + ln), *par)
        f = a.fn
        if kind(f(z3.Int("probe0"))) == "F":
            return nanable(eng, f, 0, a.n, par)
        return dsl.stat(which, lambda k: f(k), 0, a.n, *par)
    return g


def n_bincount(eng, args, kw, node):
    a = as_arr(eng, args[0], node)
    if kw or len(args) > 1:
        raise Unsupported("bincount options")
    f = a.fn
    eng.trust("bincount: number of occurrences of each value, up to the largest one")
    eng.oblige(dsl.forall(0, a.n, lambda k: f(k) >= 0), "bincount of non negative values", "safety", node=node)
    n = eng.fresh("int", "bins")
    eng._add(n >= 0)
    eng.assume(dsl.forall(0, a.n, lambda k: f(k) < n))
    eng.assume(Or(n == 0, dsl.exists(0, a.n, lambda k: f(k) == n - 1)))
    cnt = dsl.RecP(("bincount", dsl.tid(f(z3.Int("probe_k")))), lambda k, v, t: If(f(k) == t, v + 1, v), 0, ["int"])
    an = a.n
    return Arr(eng, "int", (n,), lambda t: cnt(an, t), site=node_site(node))


NP_FN = {
    "meshgrid": n_meshgrid, "ceil": n_ew(lambda e, v, n: np_ceil(e, v)), "errstate": lambda e, a, k, n: Opaque("errstate"),
    "median": n_stat("median"), "percentile": n_stat("percentile"), "bincount": n_bincount,
    "zeros": n_zeros(0), "ones": n_zeros(1), "empty": n_empty, "full": n_full,
    "zeros_like": n_like(n_zeros(0)), "ones_like": n_like(n_zeros(1)), "empty_like": n_like(n_empty),
    "where": n_where, "isnan": n_isnan, "arange": n_arange, "array": n_array, "asarray": n_array,
    "concatenate": n_concat, "hstack": n_concat,
    "absolute": n_ew(lambda e, v, n: py_abs(e, v)), "abs": n_ew(lambda e, v, n: py_abs(e, v)),
    "floor": n_ew(lambda e, v, n: np_floor(e, v)), "round": n_ew(lambda e, v, n: py_round(e, v, n)), "round_": n_ew(lambda e, v, n: py_round(e, v, n)),
    "sin": n_ew(lambda e, v, n: unary_fn(e, "sin", v, n)), "cos": n_ew(lambda e, v, n: unary_fn(e, "cos", v, n)),
    "arcsin": n_ew(lambda e, v, n: unary_fn(e, "arcsin", v, n)), "sqrt": n_ew(lambda e, v, n: sqrt(e, v, n)),
    "arctan2": lambda e, a, k, n: arctan2(e, a, n),
    "deg2rad": n_ew(lambda e, v, n: binop(e, "Div", binop(e, "Mult", v, math.pi, n), 180, n)), "radians": n_ew(lambda e, v, n: binop(e, "Div", binop(e, "Mult", v, math.pi, n), 180, n)),
    "rad2deg": n_ew(lambda e, v, n: binop(e, "Div", binop(e, "Mult", v, 180, n), math.pi, n)),
    "minimum": n_minmax("min"), "maximum": n_minmax("max"),
    "logical_and": n_bool("BitAnd"), "logical_or": n_bool("BitOr"), "logical_not": lambda e, a, k, n: unop(e, "Invert", a[0], n),
    "prange": b_range,
    "unique": n_unique, "isin": lambda e, a, k, n: np_isin(e, a[0], a[1], n, bool(k.get("invert"))), "in1d": lambda e, a, k, n: np_isin(e, a[0], a[1], n, bool(k.get("invert"))),
    "setdiff1d": n_setdiff, "digitize": np_digitize,
    "sum": n_method("sum"), "any": n_method("any"), "all": n_method("all"), "argsort": n_method("argsort"), "cumsum": n_method("cumsum"),
    "argmin": n_method("argmin"), "argmax": n_method("argmax"), "repeat": lambda e, a, k, n: np_repeat(e, a[0], a[1], n),
    "count_nonzero": n_method("sum"), "List": b_list, "bool_": lambda e, a, k, n: e.truth(a[0]),
    "int_": lambda e, a, k, n: py_int(e, a[0], n),
}


def arctan2(eng, a, node):
    eng.trust("arctan2: uninterpreted real function")
    f = z3.Function("arctan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
    y, x = a
    if isinstance(y, Arr) or isinstance(x, Arr):
        shape, fy, fx = broadcast(eng, y, x, node)
        return lift(eng, lambda *k: f(real(fy(*k)), real(fx(*k))), shape, node)
    r = f(real(y), real(x))
    n = Or(nanflag(y), nanflag(x))
    return F(r, n) if n is not False else r
