"""Lemmas instantiated by the specification functions (vc/dsl.py, props/k_*.py), proved by induction: base and step are separate goals."""
import z3

from vc import dsl
from vc.lemma import Lemma

from .k_poly import wn_step

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def _u(name, *s):
    return z3.Function("lm_" + name, *s)


def _wn_axioms(f, n, U, x, y):
    k = z3.Int("k_ax")
    nx, ny = z3.If(k + 1 == n, f(0, 0), f(k + 1, 0)), z3.If(k + 1 == n, f(0, 1), f(k + 1, 1))
    return [U(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, U(k + 1) == wn_step(x, y, f(k, 0), f(k, 1), nx, ny, U(k))), patterns=[U(k + 1)])]


def _pt(name):
    X, Y = _u(name + "x", I, R), _u(name + "y", I, R)
    return lambda k, c: (X, Y)[c](k)


def _wn_prefix():
    f, g = _pt("f"), _pt("g")
    n, m, k, x, y = z3.Int("n"), z3.Int("m"), z3.Int("k"), z3.Real("x"), z3.Real("y")
    U, V = _u("U", I, I), _u("V", I, I)
    j = z3.Int("j")
    hyp = [m >= 1, m <= n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(f(j, 0) == g(j, 0), f(j, 1) == g(j, 1))), patterns=[f(j, 0)]),
           z3.ForAll([j], z3.Implies(z3.And(j >= m, j < n), z3.And(f(j, 0) == f(0, 0), f(j, 1) == f(0, 1))), patterns=[f(j, 0)])] + _wn_axioms(f, n, U, x, y) + _wn_axioms(g, m, V, x, y)
    return [("base", hyp, U(0) == V(0)),
            ("step on the common part", hyp + [k >= 0, k < m, U(k) == V(k)], U(k + 1) == V(k + 1)),
            ("step on the repetitions", hyp + [k >= m, k < n, U(k) == V(m)], U(k + 1) == V(m))]


def _wn_box():
    f = _pt("f")
    n, k, x, y = z3.Int("n"), z3.Int("k"), z3.Real("x"), z3.Real("y")
    U = _u("U", I, I)
    j = z3.Int("j")
    out = []
    for nm, c, v, strict in (("all vertices at the west", 0, x, -1), ("all vertices at the east", 0, x, 1), ("all vertices at the south", 1, y, -1), ("all vertices at the north", 1, y, 1)):
        rel = lambda t: (t < v if strict < 0 else t > v)
        hyp = [n >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), rel(f(j, c))), patterns=[f(j, c)])] + _wn_axioms(f, n, U, x, y) + [rel(f(0, c))]

        def inv(k):
            if nm != "all vertices at the east":
                return U(k) == 0
            yk = z3.If(k == n, f(0, 1), f(k, 1))
            return U(k) == z3.If(yk > y, 1, 0) - z3.If(f(0, 1) > y, 1, 0)
        nk = [rel(f(k, c)), z3.Or(k + 1 == n, rel(f(k + 1, c)))]
        out += [(nm + ": base", hyp, inv(z3.IntVal(0))), (nm + ": hypothesis on the edge", hyp + [k >= 0, k < n], z3.And(*nk)), (nm + ": step", hyp + [k >= 0, k < n, inv(k)] + nk, inv(k + 1)), (nm + ": conclusion", hyp + [inv(n)], U(n) == 0)]
    return out


def _shoe_ext():
    f, g = _pt("f"), _pt("g")
    U, V = _u("U", I, R), _u("V", I, R)
    k, j = z3.Int("k"), z3.Int("j")

    def ax(f, U):
        return [U(0) == 0, z3.ForAll([j], z3.Implies(j >= 0, U(j + 1) == U(j) + (f(j, 0) * f(j + 1, 1) - f(j + 1, 0) * f(j, 1))), patterns=[U(j + 1)])]
    hyp = ax(f, U) + ax(g, V)
    same = [f(k, 0) == g(k, 0), f(k, 1) == g(k, 1), f(k + 1, 0) == g(k + 1, 0), f(k + 1, 1) == g(k + 1, 1)]
    return [("base", hyp, U(0) == V(0)), ("step", hyp + same + [k >= 0, U(k) == V(k)], U(k + 1) == V(k + 1))]


def _sums():
    out = []
    for s, nm in ((I, "int"), (R, "real")):
        f, g, U, V = _u("f", I, s), _u("g", I, s), _u("U", I, s), _u("V", I, s)
        k, j, lo = z3.Int("k"), z3.Int("j"), z3.Int("lo")
        ax = lambda f, U: [U(lo) == 0, z3.ForAll([j], z3.Implies(j >= lo, U(j + 1) == U(j) + f(j)), patterns=[U(j + 1)])]
        hyp = ax(f, U) + ax(g, V)
        out += [(f"extensionality ({nm}): base", hyp, U(lo) == V(lo)), (f"extensionality ({nm}): step", hyp + [k >= lo, f(k) == g(k), U(k) == V(k)], U(k + 1) == V(k + 1))]
    f, U = _u("f", I, I), _u("U", I, I)
    a, b = z3.Int("a"), z3.Int("b")
    hyp = [U(lo) == 0, z3.ForAll([j], z3.Implies(j >= lo, z3.And(U(j + 1) == U(j) + f(j), z3.Or(f(j) == 0, f(j) == 1))), patterns=[U(j + 1)])]
    out += [("count bounds: base", hyp, z3.And(U(lo) >= 0, U(lo) <= 0)), ("count bounds: step", hyp + [k >= lo, U(k) >= 0, U(k) <= k - lo], z3.And(U(k + 1) >= 0, U(k + 1) <= k + 1 - lo)),
            ("count monotony: base", hyp + [a >= lo], z3.And(U(a) <= U(a))), ("count monotony: step", hyp + [lo <= a, a <= b, U(a) <= U(b), U(b) <= U(a) + (b - a)], z3.And(U(a) <= U(b + 1), U(b + 1) <= U(a) + (b + 1 - a))),
            ("count strict: base", hyp + [lo <= a, f(a) == 1], U(a) + 1 <= U(a + 1)), ("count strict: step", hyp + [lo <= a, a < b, f(a) == 1, U(a) + 1 <= U(b)], U(a) + 1 <= U(b + 1))]
    return out


def _imod():
    a, n, q, r, q2, r2 = z3.Ints("a n q r q2 r2")
    h = [n > 0, a == n * q + r, r >= 0, r < n]
    t = [("multiple", [n > 0], z3.Implies(q >= 1, n * q >= n)), ("multiple below", [n > 0], z3.Implies(q <= -1, n * q <= -n)), ("multiple 2", [n > 0], z3.Implies(q >= 2, n * q >= 2 * n)), ("multiple below 2", [n > 0], z3.Implies(q <= -2, n * q <= -2 * n))]
    mul = [z3.Implies(q >= 1, n * q >= n), z3.Implies(q <= -1, n * q <= -n), z3.Implies(q >= 2, n * q >= 2 * n), z3.Implies(q <= -2, n * q <= -2 * n), z3.Implies(q == 0, n * q == 0), z3.Implies(q == 1, n * q == n), z3.Implies(q == -1, n * q == -n)]
    d = q2 - q
    muld = [n * q2 - n * q == n * d, z3.Implies(d >= 1, n * d >= n), z3.Implies(d <= -1, n * d <= -n), z3.Implies(d >= 2, n * d >= 2 * n), z3.Implies(d == 0, n * d == 0), z3.Implies(d == 1, n * d == n)]
    return t + [("small", h + mul, z3.Implies(z3.And(a >= 0, a < n), r == a)), ("one turn", h + mul, z3.Implies(z3.And(a >= n, a < 2 * n), r == a - n)), ("negative", h + mul, z3.Implies(z3.And(a < 0, a >= -n), r == a + n)),
                ("difference of quotients", [n > 0], z3.And(*muld)), ("successor", h + [a + 1 == n * q2 + r2, r2 >= 0, r2 < n] + muld, r2 == z3.If(r + 1 == n, 0, r + 1))]


wn_prefix = Lemma("repetitions of the first vertex do not change the winding number", _wn_prefix)
wn_box = Lemma("no winding outside of the bounding box", _wn_box)
shoe_ext = Lemma("same points, same shoelace sum", _shoe_ext)
sums = Lemma("sums and counts", _sums)
imod = Lemma("integer modulo", _imod)


def _tail():
    """a sum whose terms are dropped from k on does not change from k on"""
    U, T, M = _u("tU", I, R), _u("tT", I, R), _u("tM", I, B)
    j, k, m = z3.Int("j"), z3.Int("k"), z3.Int("m")
    hyp = [z3.ForAll([j], z3.Implies(j >= 0, U(j + 1) == U(j) + z3.If(M(j), T(j), z3.RealVal(0))), patterns=[U(j + 1)]), k >= 0, m >= k]
    none = lambda e: z3.ForAll([j], z3.Implies(z3.And(j >= k, j < e), z3.Not(M(j))), patterns=[M(j)])
    return [("base", hyp, U(k) == U(k)), ("step", hyp + [none(m + 1), z3.Implies(none(m), U(m) == U(k)), none(m)], U(m + 1) == U(k)),
            ("hypothesis on the prefix", hyp + [none(m + 1)], none(m))]


tail = Lemma("sum unchanged when no further term is kept", _tail)


def _ranks():
    """counts of equal and smaller values of a list"""
    A, E, L, R = _u("rA", I, I), _u("rE", I, I, I), _u("rL", I, I, I), _u("rR", I, I)
    j, k, t, n = z3.Int("j"), z3.Int("k"), z3.Int("t"), z3.Int("n")
    hyp = [z3.ForAll([t], z3.And(E(0, t) == 0, L(0, t) == 0), patterns=[E(0, t)]), z3.ForAll([t], z3.And(E(0, t) == 0, L(0, t) == 0), patterns=[L(0, t)]),
           z3.ForAll([j, t], z3.Implies(j >= 0, E(j + 1, t) == E(j, t) + z3.If(A(j) == t, 1, 0)), patterns=[E(j + 1, t)]),
           z3.ForAll([j, t], z3.Implies(j >= 0, L(j + 1, t) == L(j, t) + z3.If(A(j) < t, 1, 0)), patterns=[L(j + 1, t)])]
    nonneg = lambda e: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < e), A(j) >= 0), patterns=[A(j)])
    split = lambda k: L(k, t + 1) == L(k, t) + E(k, t)
    rec = [R(0) == 0, z3.ForAll([j], z3.Implies(j >= 0, R(j + 1) == R(j) + E(n, j)), patterns=[R(j + 1)])]
    return [("split: base", hyp, split(0)), ("split: step", hyp + [k >= 0, split(k)], split(k + 1)),
            ("none below 0: base", hyp, L(0, 0) == 0), ("none below 0: step", hyp + [k >= 0, nonneg(k + 1), L(k, 0) == 0], L(k + 1, 0) == 0),
            ("sum: base", hyp + rec + [n >= 0, L(n, 0) == 0], R(0) == L(n, 0)), ("sum: step", rec + [n >= 0, t >= 0, split(n), R(t) == L(n, t)], R(t + 1) == L(n, t + 1)),
            ("smaller values: bounds base", hyp, z3.And(L(0, t) >= 0, L(0, t) <= 0, E(0, t) >= 0)), ("smaller values: bounds step", hyp + [k >= 0, L(k, t) >= 0, L(k, t) <= k, E(k, t) >= 0], z3.And(L(k + 1, t) >= 0, L(k + 1, t) <= k + 1, E(k + 1, t) >= 0))]


ranks = Lemma("ranks by counting", _ranks)


def _prefix():
    U, S = _u("pU", I, B), _u("pS", I, B)
    j, a, b = z3.Int("j"), z3.Int("a"), z3.Int("b")
    hyp = [z3.ForAll([j], z3.Implies(j >= 0, U(j + 1) == z3.And(U(j), S(j))), patterns=[U(j + 1)]), a >= 0, b >= a]
    return [("base", hyp, z3.Implies(U(a), U(a))), ("step", hyp + [z3.Implies(U(b), U(a))], z3.Implies(U(b + 1), U(a)))]


prefix = Lemma("a conjunction holds on its prefixes", _prefix)


def _monotone():
    out = []
    for so, nm in ((I, "int"), (R, "real")):
        U, f = _u("mU", I, so), _u("mf", I, so)
        j, a, b = z3.Int("j"), z3.Int("a"), z3.Int("b")
        hyp = [z3.ForAll([j], z3.Implies(j >= 0, U(j + 1) == U(j) + f(j)), patterns=[U(j + 1)]), a >= 0, b >= a]
        out += [(nm + ": base", hyp, U(a) <= U(a)), (nm + ": step", hyp + [f(b) >= 0, U(a) <= U(b)], U(a) <= U(b + 1))]
    return out


monotone = Lemma("sums of non negative terms grow", _monotone)
