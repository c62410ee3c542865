"""Contracts on the kernels of observations/observation.py that put observations in bins or on grids"""
from .common import *
from .k_track import _probe

OB = "observations.observation:"


def _gen_bins(rng, reg=None):
    n = rng.randint(2, 7)
    if reg if reg is not None else rng.random() < 0.6:
        return rng.choice([-2.0, 0.0, 1.5]) + rng.choice([0.5, 1.0, 2.0]) * np.arange(n)
    return np.unique(np.append(rng_floats(rng, n, -4, 8, 0.5), 9.0))


def _in_bin(s, r, i):
    b, v, n = s.old.bins, s.old.values, s.old.bins.n
    return And(0 <= r, r <= n, If(r > 0, lambda: b[r - 1] <= v[i], True), If(r < n, lambda: v[i] < b[r], True))


numba_digitize = Contract(
    OB + "numba_digitize", dict(values=P("real", "n"), bins=P("real", "m")), dims_min=dict(m=2),
    requires=[("bins increase", lambda s: forall2(0, s.bins.n, 0, s.bins.n, lambda a, b: Implies(a < b, s.bins[a] < s.bins[b])))],
    ensures=[("one bin by value", lambda s: s.result.n == s.old.values.n), ("bin of each value: lower bound included, upper bound excluded", lambda s: forall(0, s.result.n, lambda i: _in_bin(s, s.result[i], i)))],
    loops={0: [lambda s: s.bin_previous == s.old.bins[s.it - 1], lambda s: s.step == s.old.bins[1] - s.old.bins[0],
               lambda s: forall(1, s.it, lambda q: s.old.bins[q] == s.old.bins[q - 1] + s.step),
               lambda s: forall(0, s.it, lambda q: s.old.bins[q] == s.old.bins[0] + q * s.step)],
           1: [lambda s: forall(0, s.it, lambda i: _in_bin(s, s.out[i], i))]},
    gen=lambda rng, k: (lambda b: dict(values=rng_floats(rng, rng.randint(0, 6), -4, 9, 0.25), bins=b))(_gen_bins(rng)))


_inb = lambda o, k: And(o.bins[0] <= o.x[k], o.x[k] <= o.bins[o.bins.n - 1])


def _nin(s):
    o = s.old
    return memo(s, "nin", lambda: dsl.count(lambda k: _inb(o, k)))


iter_mode_reduce = Contract(
    OB + "iter_mode_reduce", dict(x=P("real", "n"), bins=P("real", "m")), dims_min=dict(m=1),
    ensures=[("all the values when the bins hold more than half of them", lambda s: Implies(Not(s.result[0]), lambda: And(s.result[2].n == s.old.x.n, forall(0, s.old.x.n, lambda k: eqf(s.result[2][k], s.old.x[k]))))),
             ("else exactly the values between the first and the last bound, in order, with their positions", lambda s: Implies(s.result[0], lambda: And(
                 s.result[1].n == s.result[2].n,
                 forall(0, s.result[1].n, lambda q: And(0 <= s.result[1][q], s.result[1][q] < s.old.x.n, _inb(s.old, s.result[1][q]), eqf(s.result[2][q], s.old.x[s.result[1][q]]))),
                 forall2(0, s.result[1].n, 0, s.result[1].n, lambda p, q: Implies(p < q, s.result[1][p] < s.result[1][q])),
                 forall(0, s.old.x.n, lambda k: Implies(_inb(s.old, k), lambda: exists(0, s.result[1].n, lambda q: s.result[1][q] == k))))))],
    loops={0: [lambda s: s.c == _nin(s)(s.it), lambda s: forall(0, s.it, lambda k: Iff(s.m[k], _inb(s.old, k)))],
           1: [lambda s: s.j == _nin(s)(s.it), lambda s: s.c == _nin(s)(s.old.x.n),
               lambda s: forall(0, s.j, lambda q: And(0 <= s.indices[q], s.indices[q] < s.it, _inb(s.old, s.indices[q]), eqf(s.x_[q], s.old.x[s.indices[q]]))),
               lambda s: forall2(0, s.j, 0, s.j, lambda p, q: Implies(p < q, s.indices[p] < s.indices[q])),
               lambda s: forall(0, s.it, lambda k: Implies(_inb(s.old, k), lambda: And(_nin(s)(k) < s.j, s.indices[_nin(s)(k)] == k)))]},
    gen=lambda rng, k: dict(x=rng_floats(rng, rng.randint(0, 9), -4, 9, 0.5), bins=_gen_bins(rng)))


# ----------------------------------------------------------------- pixels
def _hits(o, key):
    return dsl.RecP((key, dsl.tid(_probe(o.i)), dsl.tid(_probe(o.j))), lambda k, v, a, b: If(And(o.i[k] == a, o.j[k] == b), v + 1, v), 0, ["int", "int"])


def _cells(s, n, m):
    return forall(0, s.i.n, lambda k: And(0 <= s.i[k], s.i[k] < n, 0 <= s.j[k], s.j[k] < m))


def _gen_ij(rng, n, m):
    p = rng.randint(0, 6)
    return dict(i=rng_ints(rng, p, 0, n - 1), j=rng_ints(rng, p, 0, m - 1))


grid_count_ = Contract(
    OB + "grid_count_", dict(grid=P("int", "n", "m"), i=P("int", "p"), j=P("int", "p")),
    requires=[("cells of the grid", lambda s: _cells(s, s.dim_n, s.dim_m))],
    ensures=[("each cell grows by the number of times it is listed", lambda s: forall2(0, s.dim_n, 0, s.dim_m, lambda a, b: s.grid[a, b] == s.old.grid[a, b] + memo(s, "hits", lambda: _hits(s.old, "hits"))(s.old.i.n, a, b)))],
    loops={0: [lambda s: forall2(0, s.dim_n, 0, s.dim_m, lambda a, b: s.grid[a, b] == s.old.grid[a, b] + memo(s, "hits", lambda: _hits(s.old, "hits"))(s.it, a, b))]},
    gen=lambda rng, k: (lambda n, m: dict(grid=rng_ints(rng, n * m, 0, 3).reshape(n, m), **_gen_ij(rng, n, m)))(rng.randint(1, 4), rng.randint(1, 4)))

has_masked_value = Contract(
    "dataset.grid:has_masked_value", dict(grid=P("bool", "n", "m"), i_x=P("int", "p"), i_y=P("int", "p")),
    requires=[("cells of the grid", lambda s: forall(0, s.i_x.n, lambda k: And(0 <= s.i_x[k], s.i_x[k] < s.dim_n, 0 <= s.i_y[k], s.i_y[k] < s.dim_m)))],
    ensures=[("true exactly when one of the cells is masked", lambda s: Iff(s.result, exists(0, s.old.i_x.n, lambda k: s.old.grid[s.old.i_x[k], s.old.i_y[k]])))],
    loops={0: [lambda s: forall(0, s.it, lambda k: Not(s.old.grid[s.old.i_x[k], s.old.i_y[k]]))]},
    gen=lambda rng, k: (lambda n, m, d: dict(grid=np.array([rng.random() < 0.2 for _ in range(n * m)], dtype=bool).reshape(n, m), i_x=d["i"], i_y=d["j"]))(3, 3, _gen_ij(rng, 3, 3)))


def _beyond(s, k):
    v = s.old.grid[s.old.i_x[k], s.old.i_y[k]]
    return If(s.old.below, lambda: v < s.old.value, lambda: v > s.old.value)


has_value = Contract(
    "dataset.grid:has_value", dict(grid=P("real", "n", "m"), i_x=P("int", "p"), i_y=P("int", "p"), value=S("real"), below=S("bool")),
    requires=[("cells of the grid", lambda s: forall(0, s.i_x.n, lambda k: And(0 <= s.i_x[k], s.i_x[k] < s.dim_n, 0 <= s.i_y[k], s.i_y[k] < s.dim_m)))],
    ensures=[("true exactly when one of the cells is beyond the value", lambda s: Iff(s.result, exists(0, s.old.i_x.n, lambda k: _beyond(s, k))))],
    loops={0: [lambda s: forall(0, s.it, lambda k: Not(_beyond(s, k)))]},
    gen=lambda rng, k: (lambda d: dict(grid=rng_floats(rng, 9, -2, 2, 0.5).reshape(3, 3), i_x=d["i"], i_y=d["j"], value=rng.choice([-1.5, 0.0, 1.5]), below=rng.random() < 0.5))(_gen_ij(rng, 3, 3)))
