"""Specification language shared by the proof engine (z3 terms) and the replay (plain Python numbers).

Every operator works on z3 terms and on concrete Python values, so the *same* contract text is
 - discharged by the solver over the real source (proof mode),
 - expanded over concrete sizes (bounded counterexample search),
 - evaluated on the inputs/outputs of the real, compiled function (replay).
"""
import math
from fractions import Fraction

import z3

TOL = 1e-6          # relative/absolute tolerance of eqf on machine floats (replay only)
_SUMS = []
_AXIOMS = []        # definitional axioms of spec functions, collected by the engine
_fresh = [0]


def is_z3(x):
    return isinstance(x, z3.ExprRef)


class F:
    """IEEE-like float: a real value plus a nan flag (infinities are outside the model)."""

    __slots__ = ("v", "nan")

    def __init__(self, v, nan):
        self.v, self.nan = v, nan

    def __repr__(self):
        return f"F({self.v},{self.nan})"


def real(x):
    """Real term / exact value of a numeric scalar (nan flag dropped)."""
    if isinstance(x, F):
        return x.v
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x:
            return z3.RealVal(0)
        return z3.RealVal(Fraction(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


def nanflag(x):
    if isinstance(x, F):
        return x.nan
    if isinstance(x, float):
        return x != x
    return False


def boolify(x):
    if is_z3(x):
        if z3.is_bool(x):
            return x
        return x != 0
    if isinstance(x, F):
        return Or(x.nan, x.v != 0)
    return bool(x)


def And(*a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    out = []
    for x in a:
        x = boolify(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    out = []
    for x in a:
        x = boolify(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    x = boolify(x)
    return z3.Not(x) if is_z3(x) else (not x)


def Implies(a, b):
    """b may be a thunk, evaluated only when a is not literally false."""
    a = boolify(a)
    if a is False:
        return True
    if callable(b) and not is_z3(b):
        b = b()
    b = boolify(b)
    if a is True:
        return b
    if b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def Iff(a, b):
    a, b = boolify(a), boolify(b)
    if not is_z3(a) and not is_z3(b):
        return a == b
    if not is_z3(a):
        return b if a else Not(b)
    if not is_z3(b):
        return a if b else Not(a)
    return a == b


def If(c, a, b):
    c = boolify(c)
    if c is True:
        return a() if callable(a) and not is_z3(a) else a
    if c is False:
        return b() if callable(b) and not is_z3(b) else b
    a = a() if callable(a) and not is_z3(a) else a
    b = b() if callable(b) and not is_z3(b) else b
    return ite(c, a, b)


def ite(c, a, b):
    if a is b:
        return a
    if isinstance(a, F) or isinstance(b, F) or (isinstance(a, float) and a != a) or (
        isinstance(b, float) and b != b
    ):
        na, nb = nanflag(a), nanflag(b)
        return F(_zite(c, real(a), real(b)), bite(c, na, nb))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    ta, tb = _kind(a), _kind(b)
    if ta == tb == "bool":
        return bite(c, a, b)
    if "real" in (ta, tb):
        return _zite(c, real(a), real(b))
    return _zite(c, toint(a), toint(b))


def bite(c, a, b):
    if not is_z3(a) and not is_z3(b):
        if a == b:
            return a
        return c if a else z3.Not(c)
    if not is_z3(a):
        return Or(c, b) if a else And(z3.Not(c), b)
    if not is_z3(b):
        return Or(z3.Not(c), a) if b else And(c, a)
    return a if a.eq(b) else z3.If(c, a, b)


def _zite(c, a, b):
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def toint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_z3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def _kind(x):
    if isinstance(x, bool) or (is_z3(x) and z3.is_bool(x)):
        return "bool"
    if isinstance(x, int) or (is_z3(x) and z3.is_int(x)):
        return "int"
    if isinstance(x, F):
        return "F"
    if isinstance(x, (float, Fraction)) or (is_z3(x) and z3.is_real(x)):
        return "real"
    if x is None:
        return "none"
    return type(x).__name__


kind = _kind


def conc(x):
    """True if a concrete python int/bool."""
    return not is_z3(x)


def simp_int(x):
    """Fold constant z3 ints to python ints."""
    if is_z3(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
    return x


def simp_bool(x):
    if is_z3(x):
        y = z3.simplify(x)
        if z3.is_true(y):
            return True
        if z3.is_false(y):
            return False
        return x
    return bool(x)


def fresh_name(p):
    _fresh[0] += 1
    return f"{p}!{_fresh[0]}"


def forall(lo, hi, body, pat=None, name="q"):
    """for all integers lo <= k < hi : body(k)"""
    lo, hi = simp_int(lo), simp_int(hi)
    if conc(lo) and conc(hi):
        out = []
        for k in range(lo, hi):
            r = boolify(body(k))
            if r is False:
                return False
            out.append(r)
        return And(*out)
    k = z3.Int(fresh_name(name))
    b = boolify(body(k))
    if b is True:
        return True
    g = Implies(And(lo <= k, k < hi), b)
    if not is_z3(g):
        return g
    if pat is not None:
        p = pat(k)
        p = p if isinstance(p, list) else [p]
        ok = [q for q in p if is_z3(q) and pattern_ok(q)]
        if ok:
            try:
                return z3.ForAll([k], g, patterns=[z3.MultiPattern(*ok)] if len(ok) > 1 else ok)
            except z3.Z3Exception:
                pass
    return z3.ForAll([k], g)


def pattern_ok(t):
    """no interpreted boolean structure in a trigger"""
    todo = [t]
    while todo:
        x = todo.pop()
        if not z3.is_app(x):
            continue
        if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
            return False
        todo.extend(x.children())
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def mark(name, *ix):
    """always true; symbolically an application usable as a trigger: forall2(..., pat=lambda i, j: mark("m", i, j)) is instantiated wherever mark("m", a, b) occurs"""
    if not any(is_z3(i) for i in ix):
        return True
    T = z3.Function("mark_" + name, *[z3.IntSort()] * len(ix), z3.BoolSort())
    if ("mark", name) not in _EXT:
        _EXT["mark", name] = True
        v = [z3.Int(fresh_name("m")) for _ in ix]
        _AXIOMS.append(z3.ForAll(v, T(*v), patterns=[T(*v)]))
    return T(*[toint(i) for i in ix])


def forall2(lo, hi, lo2, hi2, body, name="q", pat=None):
    lo, hi, lo2, hi2 = map(simp_int, (lo, hi, lo2, hi2))
    if all(map(conc, (lo, hi, lo2, hi2))):
        out = []
        for k in range(lo, hi):
            for j in range(lo2, hi2):
                r = boolify(body(k, j))
                if r is False:
                    return False
                out.append(r)
        return And(*out)
    k, j = z3.Int(fresh_name(name)), z3.Int(fresh_name(name))
    b = boolify(body(k, j))
    g = Implies(And(lo <= k, k < hi, lo2 <= j, j < hi2), b)
    if pat is not None and is_z3(g):
        p = pat(k, j)
        p = p if isinstance(p, list) else [p]
        if all(is_z3(q) and pattern_ok(q) for q in p):
            return z3.ForAll([k, j], g, patterns=[z3.MultiPattern(*p)] if len(p) > 1 else p)
    return z3.ForAll([k, j], g) if is_z3(g) else g


def exists(lo, hi, body, name="e"):
    lo, hi = simp_int(lo), simp_int(hi)
    if conc(lo) and conc(hi):
        out = []
        for k in range(lo, hi):
            r = boolify(body(k))
            if r is True:
                return True
            out.append(r)
        return Or(*out)
    k = z3.Int(fresh_name(name))
    b = boolify(body(k))
    g = And(lo <= k, k < hi, b)
    return z3.Exists([k], g) if is_z3(g) else g


def isnan(x):
    return nanflag(x)


def eqf(a, b, tol=None):
    """Same float value (nan == nan); tolerance only on machine floats."""
    na, nb = nanflag(a), nanflag(b)
    if not any(is_z3(q) for q in (a, b)) and not isinstance(a, F) and not isinstance(b, F):
        if na or nb:
            return bool(na and nb)
        t = TOL if tol is None else tol
        if a == b:
            return True
        return abs(a - b) <= t * max(1.0, abs(a), abs(b))
    return And(Iff(na, nb), Or(na, real(a) == real(b)))


def same(a, b):
    """Bitwise-like equality (copied value): nan same as nan."""
    na, nb = nanflag(a), nanflag(b)
    if not any(is_z3(q) for q in (a, b)) and not isinstance(a, F) and not isinstance(b, F):
        if na or nb:
            return bool(na and nb)
        return bool(a == b)
    if na is False and nb is False:
        ka, kb = kind(a), kind(b)
        if ka == "bool" and kb == "bool":
            return Iff(a, b)
        if isinstance(a, F) or isinstance(b, F):
            return real(a) == real(b)
        return a == b
    return And(Iff(na, nb), Or(na, real(a) == real(b)))


def le(a, b, tol=None):
    """a <= b, false on nan; tolerance only on machine floats."""
    if not any(is_z3(q) for q in (a, b)) and not isinstance(a, F) and not isinstance(b, F):
        t = TOL if tol is None else tol
        return bool(a <= b + t * max(1.0, abs(a), abs(b)))
    return And(Not(nanflag(a)), Not(nanflag(b)), real(a) <= real(b))


def lt(a, b):
    if not any(is_z3(q) for q in (a, b)) and not isinstance(a, F) and not isinstance(b, F):
        return bool(a < b)
    return And(Not(nanflag(a)), Not(nanflag(b)), real(a) < real(b))


def rfloor(x):
    """floor as an integer."""
    if is_z3(x):
        return x if z3.is_int(x) else z3.ToInt(x)
    if isinstance(x, F):
        return z3.ToInt(x.v)
    return math.floor(x)


_MODS = {}
OPAQUE_MOD = [True]


def rdivmod(x, y):
    """(floor quotient as Int, remainder) of reals.  For a positive literal divisor the remainder is an uninterpreted function with
    its defining axiom (x = y*q + r, 0 <= r < y, q integer), which keeps integer reasoning out of the way unless needed."""
    ys = z3.simplify(y)
    if not OPAQUE_MOD[0] or not z3.is_rational_value(ys) or ys.numerator_as_long() <= 0:
        q = z3.ToInt(x / y)
        return q, x - y * z3.ToReal(q)
    key = str(ys)
    if key not in _MODS:
        R, Q = z3.Function("mod_" + key, z3.RealSort(), z3.RealSort()), z3.Function("quot_" + key, z3.RealSort(), z3.IntSort())
        v = z3.Real(fresh_name("x"))
        ax = z3.And(v == ys * z3.ToReal(Q(v)) + R(v), R(v) >= 0, R(v) < ys)
        _AXIOMS.append(z3.ForAll([v], ax, patterns=[R(v)]))
        _AXIOMS.append(z3.ForAll([v], ax, patterns=[Q(v)]))
        _MODS[key] = (R, Q, set())
    R, Q, seen = _MODS[key]
    x = z3.simplify(x)
    if x.get_id() not in seen and ground(x):
        seen.add(x.get_id())
        _AXIOMS.append(z3.And(x == ys * z3.ToReal(Q(x)) + R(x), R(x) >= 0, R(x) < ys))
    return Q(x), R(x)


_IMOD = []


def imodf(x, n):
    """integer modulo by a symbolic positive divisor: uninterpreted with the lemmas of vc/lemmas.py (imod_*)"""
    if not OPAQUE_MOD[0]:
        return x % n
    if not _IMOD:
        M = z3.Function("imod", z3.IntSort(), z3.IntSort(), z3.IntSort())
        a, b = z3.Int(fresh_name("x")), z3.Int(fresh_name("n"))
        _AXIOMS.append(z3.ForAll([a, b], z3.Implies(b > 0, z3.And(M(a, b) >= 0, M(a, b) < b, z3.Implies(z3.And(a >= 0, a < b), M(a, b) == a),
                                                                  z3.Implies(z3.And(a >= b, a < 2 * b), M(a, b) == a - b),
                                                                  z3.Implies(z3.And(a < 0, a >= -b), M(a, b) == a + b))), patterns=[M(a, b)]))
        c = z3.Int(fresh_name("c"))
        _AXIOMS.append(z3.ForAll([a, b, c], z3.Implies(z3.And(b > 0, c == a + 1), M(c, b) == z3.If(M(a, b) + 1 == b, 0, M(a, b) + 1)), patterns=[z3.MultiPattern(M(a, b), M(c, b))]))
        _IMOD.append(M)
    M = _IMOD[0]
    x, n = toint(x), toint(n)
    if ground(x) and ground(n):
        _AXIOMS.append(z3.Implies(n > 0, z3.And(M(x, n) >= 0, M(x, n) < n)))
    return M(x, n)


def ground(x):
    todo, seen = [x], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_var(t) or (z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in t.decl().name()):
            return False
        todo.extend(t.children())
    return True


class SumFn:
    """P(k) = sum_{lo <= j < k} f(j); definitional axioms when symbolic."""

    def __init__(self, f, lo=0, sort="int", name="sum", mono=False):
        self.f, self.lo, self.sort, self.mono = f, lo, sort, mono
        self.u = None
        self.name = name

    def __call__(self, k):
        k, lo = simp_int(k), simp_int(self.lo)
        if conc(k) and conc(lo):
            s = 0
            for j in range(lo, k):
                s = s + _num(self.f(j))
            return s
        if self.u is None:
            rng = z3.IntSort() if self.sort == "int" else z3.RealSort()
            self.u = z3.Function(fresh_name(self.name), z3.IntSort(), rng)
            j = z3.Int(fresh_name("s"))
            v = self.f(j)
            v = toint(_num(v)) if self.sort == "int" else real(_num(v))
            _AXIOMS.append(self.u(toint(lo)) == 0)
            _AXIOMS.append(z3.ForAll([j], Implies(j >= lo, self.u(j + 1) == self.u(j) + v), patterns=[self.u(j + 1)]))
            if self.name == "cnt":
                # monotonicity lemmas of counting functions (see vc/lemmas.py, discharged there by induction)
                a, b = z3.Int(fresh_name("a")), z3.Int(fresh_name("b"))
                u = self.u
                _AXIOMS.append(z3.ForAll([a, b], z3.Implies(z3.And(toint(lo) <= a, a <= b), z3.And(u(a) <= u(b), u(b) <= u(a) + (b - a))),
                                         patterns=[z3.MultiPattern(u(a), u(b))]))
                fa = toint(_num(self.f(a)))
                _AXIOMS.append(z3.ForAll([a, b], z3.Implies(z3.And(toint(lo) <= a, a < b, fa == 1), u(a) + 1 <= u(b)),
                                         patterns=[z3.MultiPattern(u(a), u(b))]))
                _AXIOMS.append(z3.ForAll([a], z3.Implies(toint(lo) <= a, z3.And(u(a) >= 0, u(a) <= a - toint(lo))), patterns=[u(a)]))
            if self.mono:
                # sums of non negative terms grow (k_lemmas.monotone)
                a, b, k_ = z3.Int(fresh_name("a")), z3.Int(fresh_name("b")), z3.Int(fresh_name("k"))
                cv = (lambda t: toint(_num(t))) if self.sort == "int" else (lambda t: real(_num(t)))
                neg = z3.Exists([k_], z3.And(k_ >= a, k_ < b, cv(self.f(k_)) < 0))
                _AXIOMS.append(z3.ForAll([a, b], z3.Implies(z3.And(toint(lo) <= a, a <= b), z3.Or(neg, self.u(a) <= self.u(b))), patterns=[z3.MultiPattern(self.u(a), self.u(b))]))
            # extensionality lemma of sums (vc/lemmas.py): equal summands on [lo, n) give equal sums at n
            for g in _SUMS:
                if g.sort != self.sort or simp_int(g.lo) is not simp_int(lo) and not (conc(simp_int(g.lo)) and conc(lo) and simp_int(g.lo) == lo):
                    continue
                n_, k_ = z3.Int(fresh_name("n")), z3.Int(fresh_name("k"))
                cv = (lambda t: toint(_num(t))) if self.sort == "int" else (lambda t: real(_num(t)))
                diff = z3.Exists([k_], z3.And(k_ >= toint(lo), k_ < n_, cv(self.f(k_)) != cv(g.f(k_))))
                _AXIOMS.append(z3.ForAll([n_], z3.Or(n_ < toint(lo), diff, self.u(n_) == g.u(n_)), patterns=[z3.MultiPattern(self.u(n_), g.u(n_))]))
            _SUMS.append(self)
        return self.u(toint(k))


def _num(x):
    if isinstance(x, bool):
        return int(x)
    if is_z3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def count(f, lo=0):
    """number of j in [lo,k) with f(j)"""
    return SumFn(lambda j: _num(boolify(f(j))), lo, "int", "cnt")


def take_axioms():
    out = list(_AXIOMS)
    _AXIOMS.clear()
    return out


class RecFn:
    """Recursive integer->value function: P(lo)=base, P(k+1)=step(k, P(k))."""

    def __init__(self, step, base, lo=0, sort="int", name="rec"):
        self.step, self.base, self.lo, self.sort, self.name = step, base, lo, sort, name
        self.u = None
        self.cache = {}

    def __call__(self, k):
        k = simp_int(k)
        if conc(k) and conc(self.lo):
            if k in self.cache:
                return self.cache[k]
            v = self.base
            for j in range(self.lo, k):
                v = self.step(j, v)
                self.cache[j + 1] = v
            return v
        if self.u is None:
            rng = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[self.sort]
            self.u = z3.Function(fresh_name(self.name), z3.IntSort(), rng)
            j = z3.Int(fresh_name("r"))
            conv = {"int": toint, "real": real, "bool": boolify}[self.sort]
            _AXIOMS.append(self.u(toint(self.lo)) == conv(self.base))
            _AXIOMS.append(
                z3.ForAll([j], Implies(j >= self.lo, self.u(j + 1) == conv(self.step(j, self.u(j)))), patterns=[self.u(j + 1)])
            )
        return self.u(toint(k))


_EXT = {}


def extremum(which, g, n, row=None):
    """min/max of {g(k), 0 <= k < n} or of row `row` {g(row, k)}: one function symbol per (contents, size), shared by code and specifications"""
    pk = z3.Int("ext_probe_k")
    pi = z3.Int("ext_probe_i")
    t = g(pk) if row is None else g(pi, pk)
    t = real(t) if not z3.is_int(t) else t
    nz = toint(n)
    key = (which, tid(t), tid(nz), row is None)
    sort = z3.IntSort() if z3.is_int(t) else z3.RealSort()
    if key not in _EXT:
        nm = fresh_name("ext_" + which).replace("!", "@")
        k = z3.Int(fresh_name("k"))
        if row is None:
            M, W = z3.Const(nm, sort), z3.Const(nm + "_at", z3.IntSort())
            gk = z3.substitute(t, (pk, k))
            _AXIOMS.append(z3.Implies(nz > 0, z3.And(W >= 0, W < nz, z3.substitute(t, (pk, W)) == M)))
            pats = [gk] if is_app_pat(gk, [k]) else []
            body = z3.Implies(z3.And(k >= 0, k < nz), M <= gk if which == "min" else M >= gk)
            _AXIOMS.append(z3.ForAll([k], body, patterns=pats) if pats else z3.ForAll([k], body))
            _EXT[key] = (lambda i: M, t)
        else:
            M, W = z3.Function(nm, z3.IntSort(), sort), z3.Function(nm + "_at", z3.IntSort(), z3.IntSort())
            i = z3.Int(fresh_name("i"))
            gk = z3.substitute(t, (pk, k), (pi, i))
            _AXIOMS.append(z3.ForAll([i], z3.Implies(nz > 0, z3.And(W(i) >= 0, W(i) < nz, z3.substitute(t, (pk, W(i)), (pi, i)) == M(i))), patterns=[M(i)]))
            body = z3.Implies(z3.And(k >= 0, k < nz), M(i) <= gk if which == "min" else M(i) >= gk)
            pats = [z3.MultiPattern(M(i), gk)] if is_app_pat(gk, [k, i]) else []
            _AXIOMS.append(z3.ForAll([i, k], body, patterns=pats) if pats else z3.ForAll([i, k], body))
            _EXT[key] = (lambda i, M=M: M(i), t)
    return _EXT[key][0](toint(row) if row is not None else None)


def is_app_pat(t, vs):
    """t is an uninterpreted application mentioning every variable of vs directly"""
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and all(any(a.eq(v) for a in t.children()) for v in vs)


class RecP:
    """recursive function with parameters: P(lo, *p) = base, P(k+1, *p) = step(k, P(k, *p), *p).  One symbol per key (contents it reads).
    on_new(self, u, members) may add lemma instances relating the new symbol to the previous ones of its family (lemmas discharged by induction in props/k_lemmas.py)"""

    def __init__(self, key, step, base, psorts, lo=0, sort="int", name="recp", family=None, on_new=None, data=None, base_fn=None):
        self.key, self.step, self.base, self.psorts, self.lo, self.sort, self.name = key, step, base, psorts, lo, sort, name
        self.family, self.on_new, self.data, self.base_fn = family, on_new, data, base_fn

    def __call__(self, k, *p):
        k = simp_int(k)
        if conc(k) and conc(self.lo) and (not any(is_z3(q) or isinstance(q, F) for q in p) or k - self.lo <= 8 and not OPAQUE_MOD[0]):
            v = self.base if self.base_fn is None else self.base_fn(*p)
            for j in range(self.lo, k):
                v = self.step(j, v, *p)
            return v
        sorts = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
        if self.key not in _EXT:
            u = z3.Function(fresh_name("rp_" + self.name).replace("!", "@"), z3.IntSort(), *[sorts[q] for q in self.psorts], sorts[self.sort])
            conv = {"int": toint, "real": real, "bool": boolify}[self.sort]
            _EXT[self.key] = u
            j = z3.Int(fresh_name("r"))
            ps = [z3.Const(fresh_name("p"), sorts[q]) for q in self.psorts]
            lo = toint(self.lo)
            base = u(lo, *ps) == conv(self.base if self.base_fn is None else self.base_fn(*ps))
            _AXIOMS.append(z3.ForAll(ps, base, patterns=[u(lo, *ps)]) if ps else base)
            _AXIOMS.append(z3.ForAll([j] + ps, Implies(j >= lo, u(j + 1, *ps) == conv(self.step(j, u(j, *ps), *ps))), patterns=[u(j + 1, *ps)]))
            if self.family is not None:
                members = _EXT.setdefault(("family", self.family), [])
                if self.on_new is not None:
                    self.on_new(self, u, list(members))
                members.append((self, u))
        u = _EXT[self.key]
        cv = {"int": toint, "real": real, "bool": boolify}
        return u(toint(k), *[cv[s](q) for s, q in zip(self.psorts, p)])


def qvar(sort, name="v"):
    return z3.Const(fresh_name(name), {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[sort])


def lemma_instance(ax):
    _AXIOMS.append(ax)


def tid(x):
    """identity of a term or constant"""
    if is_z3(x):
        _EXT.setdefault("keep", []).append(x)
        return ("t", x.get_id())
    return ("c", x)


def define(key, body, asorts, sort="bool"):
    """named specification function: a symbol with its defining equation, instantiated where the symbol occurs (keeps large bodies out of the way)"""
    cv = {"int": toint, "real": real, "bool": boolify}

    def f(*a):
        if not any(is_z3(q) or isinstance(q, F) for q in a) and not OPAQUE_MOD[0]:
            return body(*a)
        if not any(is_z3(q) for q in a):
            try:
                r = body(*a)
            except (TypeError, IndexError, z3.Z3Exception):
                r = None
            if r is not None and not is_z3(r) and not isinstance(r, F):
                return r
        if ("def", key) not in _EXT:
            so = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
            u = z3.Function(fresh_name("def_" + str(key[0] if isinstance(key, tuple) else key)).replace("!", "@"), *[so[q] for q in asorts], so[sort])
            _EXT["def", key] = u
            vs = [z3.Const(fresh_name("d"), so[q]) for q in asorts]
            _AXIOMS.append(z3.ForAll(vs, u(*vs) == cv[sort](body(*vs)), patterns=[u(*vs)]))
        u = _EXT["def", key]
        return u(*[cv[s](q) for s, q in zip(asorts, a)])
    return f


def opaque(key, asorts, sort="bool"):
    """named specification function without automatic unfolding: the contract states the instances of its definition that are used"""
    cv = {"int": toint, "real": real, "bool": boolify}

    def f(*a):
        if ("opq", key) not in _EXT:
            so = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
            _EXT["opq", key] = z3.Function(fresh_name("opq_" + str(key[0] if isinstance(key, tuple) else key)).replace("!", "@"), *[so[q] for q in asorts], so[sort])
        return _EXT["opq", key](*[cv[s](q) for s, q in zip(asorts, a)])
    return f


OPAQUE_NL = [False]
_NLF = {}


def _fold(v):
    """constant arithmetic, folded"""
    if z3.is_app(v) and v.num_args() and v.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
        kids = [_fold(c) if z3.is_real(c) else c for c in v.children()]
        if all(z3.is_rational_value(c) or z3.is_int_value(c) for c in kids):
            return z3.simplify(v)
    return v


def nl(which, *a):
    """product, quotient and cube of reals; uninterpreted (with a few sign facts) while a contract asks for it, so that proofs stay linear"""
    sym = any(is_z3(v) or isinstance(v, F) for v in a)
    if not sym:
        return a[0] * a[1] if which == "mul" else a[0] / a[1] if which == "div" else a[0] ** 3
    a = [_fold(real(v)) for v in a]
    if not OPAQUE_NL[0] or which == "mul" and any(z3.is_rational_value(v) for v in a) or which == "div" and z3.is_rational_value(a[1]):
        return a[0] * a[1] if which == "mul" else a[0] / a[1] if which == "div" else a[0] * a[0] * a[0]
    f = z3.Function("nl_" + which, *[z3.RealSort()] * (len(a) + 1))
    if ("nl", which) not in _EXT:
        _EXT["nl", which] = True
        x, y = z3.Reals("nl_x nl_y")
        if which == "cube":
            _AXIOMS.append(z3.ForAll([x], z3.And(z3.Implies(x >= 0, f(x) >= 0), z3.Implies(x < 1, f(x) < 1), z3.Implies(x > 0, f(x) > 0)), patterns=[f(x)]))
        elif which == "div":
            _AXIOMS.append(z3.ForAll([x, y], z3.And(z3.Implies(z3.And(y > 0, x >= 0), f(x, y) >= 0), z3.Implies(z3.And(y > 0, x < y), f(x, y) < 1), z3.Implies(z3.And(y > 0, x >= y), f(x, y) >= 1), z3.Implies(z3.And(y > 0, x > 0), f(x, y) > 0)), patterns=[f(x, y)]))
        else:
            _AXIOMS.append(z3.ForAll([x, y], z3.And(z3.Implies(z3.And(x >= 0, y >= 0), f(x, y) >= 0), (f(x, y) == 0) == z3.Or(x == 0, y == 0)), patterns=[f(x, y)]))
    return f(*a)


_STAT_PY = {}


def stat(which, f, lo, hi, *par):
    """order-free statistic (median, percentile...) of f(lo) .. f(hi-1): one symbol per contents; equal contents give equal values"""
    if conc(lo) and conc(hi) and not any(is_z3(q) for q in par):
        v = [f(k) for k in range(lo, hi)]
        if not any(is_z3(x) or isinstance(x, F) for x in v):
            import numpy as np
            return float(np.median(v) if which == "median" else np.percentile(v, *par)) if v else float("nan")
    pk = z3.Int("stat_probe_k")
    t = real(f(pk))
    key = ("stat", which, t.get_id(), len(par))
    if key not in _EXT:
        _EXT.setdefault("keep", []).append(t)
        u = z3.Function(fresh_name("stat_" + which).replace("!", "@"), z3.IntSort(), z3.IntSort(), *[z3.RealSort()] * len(par), z3.RealSort())
        for t2, u2 in _EXT.setdefault(("stats", which, len(par)), []):
            a, b, c, d, k = [z3.Int(fresh_name("st")) for _ in range(5)]
            ps = [z3.Real(fresh_name("sp")) for _ in par]
            diff = z3.Exists([k], z3.And(k >= 0, k < b - a, z3.substitute(t, (pk, a + k)) != z3.substitute(t2, (pk, c + k))))
            _AXIOMS.append(z3.ForAll([a, b, c, d] + ps, z3.Or(b - a != d - c, u(a, b, *ps) == u2(c, d, *ps), diff), patterns=[z3.MultiPattern(u(a, b, *ps), u2(c, d, *ps))]))
        _EXT["stats", which, len(par)].append((t, u))
        _EXT[key] = u
    return _EXT[key](toint(lo), toint(hi), *[real(q) for q in par])
