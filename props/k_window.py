"""Sliding windows (generic.window_index)"""
from .common import *


def _xs(s, q):
    return s.old.x[s.i_ordered[q]]


def _tab(s, tbl, upto, sign):
    """tbl[p] = number of values not above x0[p] -/+ half_window, for p < upto"""
    o = s.old
    return And(forall(0, upto, lambda p: And(0 <= tbl[p], tbl[p] <= s.dim_n)),
               forall2(0, upto, 0, s.dim_n, lambda p, q: Iff(q < tbl[p], _xs(s, q) <= o.x0[p] + sign * o.half_window)))


def _seen(s, j, upto, sign):
    """every value seen so far is below the next bound"""
    o = s.old
    return Implies(j < s.dim_m, lambda: forall(0, upto, lambda q: _xs(s, q) <= o.x0[j] + sign * o.half_window))


def _ptr(s):
    o = s.old
    return And(0 <= s.j_max, s.j_max <= s.j_min, s.j_min <= s.dim_m,
               Implies(s.j_min < s.dim_m, lambda: s.x_min == o.x0[s.j_min] - o.half_window), Implies(s.j_max < s.dim_m, lambda: s.x_max == o.x0[s.j_max] + o.half_window))


def _post(s):
    o, (order, first, last) = s.old, s.result
    return [And(order.n == s.dim_n, first.n == s.dim_m, last.n == s.dim_m),
            forall(0, s.dim_n, lambda q: And(0 <= order[q], order[q] < s.dim_n)),
            forall2(0, s.dim_n, 0, s.dim_n, lambda p, q: Implies(p != q, order[p] != order[q])),
            forall(0, s.dim_m, lambda p: And(0 <= first[p], last[p] <= s.dim_n)),
            forall2(0, s.dim_m, 0, s.dim_n, lambda p, q: Iff(And(first[p] <= q, q < last[p]), And(o.x0[p] - o.half_window < o.x[order[q]], o.x[order[q]] <= o.x0[p] + o.half_window)))]


window_index = Contract(
    "generic:window_index", dict(x=P("real", "n"), x0=P("real", "m"), half_window=S("real")), dims_min=dict(m=1),
    requires=[("window centers sorted", lambda s: forall2(0, s.x0.n, 0, s.x0.n, lambda i, j: Implies(i <= j, s.x0[i] <= s.x0[j]))), ("half window not negative", lambda s: s.half_window >= 0)],
    ensures=[("every value of ]x0-h, x0+h] and no other is in the window of x0", _post)],
    loops={0: [_ptr, lambda s: _tab(s, s.first_index, s.j_min, -1), lambda s: _tab(s, s.last_index, s.j_max, 1), lambda s: _seen(s, s.j_min, s.it, -1), lambda s: _seen(s, s.j_max, s.it, 1)],
           1: [_ptr, lambda s: _tab(s, s.first_index, s.j_min, -1), lambda s: _tab(s, s.last_index, s.j_max, 1), lambda s: _seen(s, s.j_min, s.i, -1), lambda s: _seen(s, s.j_max, s.i, 1)],
           2: [_ptr, lambda s: _tab(s, s.first_index, s.j_min, -1), lambda s: _tab(s, s.last_index, s.j_max, 1), lambda s: _seen(s, s.j_min, s.i + 1, -1), lambda s: _seen(s, s.j_max, s.i, 1),
               lambda s: Or(s.j_min == s.dim_m, s.x_ <= s.x_min)],
           3: [lambda s: _tab(s, s.first_index, s.it, -1)],
           4: [lambda s: _tab(s, s.last_index, s.it, 1)]},
    sizes=[dict(n=a, m=b) for a, b in ((0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2))],
    gen=lambda rng, k: dict(x=rng_floats(rng, rng.randint(0, 8), -5, 5, 0.5), x0=np.sort(rng_floats(rng, rng.randint(1, 6), -5, 5, 0.5)), half_window=rng.choice([0.0, 0.5, 1.0, 1.25, 3.0])))
