"""Contracts on the detection of eddies (eddy_feature.py, dataset/grid.py)"""
from .common import *

EF = "eddy_feature:"


# ----------------------------------------------------------------- nearest outline of a level
def _tables(s):
    lev = s.level_index
    i0, nb = s.l_i[lev], s.nb_c_per_l[lev]
    return And(0 <= lev, lev < s.l_i.n, 0 <= nb, Implies(nb > 0, lambda: And(0 <= i0, i0 + nb <= s.dim_c)),
               forall(0, s.dim_c, lambda c: And(0 <= s.indices_of_first_pts[c], 0 <= s.nb_pt_per_c[c], s.indices_of_first_pts[c] + s.nb_pt_per_c[c] <= s.dim_p)))


def _xin(s, c):
    """x of the position, moved by whole turns in [x_min, x_min + 360["""
    o = s.old
    return rmod(o.xpt - o.x_min_per_c[c], 360) + o.x_min_per_c[c]


def _has(s, c):
    o = s.old
    return And(o.y_min_per_c[c] <= o.ypt, o.ypt <= o.y_max_per_c[c], _xin(s, c) <= o.x_max_per_c[c])


def _d2(s, c, k):
    o = s.old
    d = o.x_value[k] - _xin(s, c)
    far = If(d < 0, -d, d) > 180 if is_z3(d) else abs(d) > 180
    d = If(far, lambda: rmod(d + 180, 360) - 180, d)
    dy = o.y_value[k] - o.ypt
    return d * d + dy * dy


def _first(s):
    return s.old.l_i[s.old.level_index]


def _pts(s, c, f):
    o = s.old
    return forall(o.indices_of_first_pts[c], o.indices_of_first_pts[c] + o.nb_pt_per_c[c], f)


def _held(s, last, last_ref=None):
    """dist_ref is the distance of one point of i_ref, and no point of an eligible outline before last is nearer"""
    o = s.old
    return And(_first(s) <= s.i_ref, s.i_ref < (last if last_ref is None else last_ref), _has(s, s.i_ref),
               exists(o.indices_of_first_pts[s.i_ref], o.indices_of_first_pts[s.i_ref] + o.nb_pt_per_c[s.i_ref], lambda q: s.dist_ref == _d2(s, s.i_ref, q)),
               forall(_first(s), last, lambda c: Implies(_has(s, c), lambda: _pts(s, c, lambda k: s.dist_ref <= _d2(s, c, k)))))


def _gen_near(rng, k):
    nc = rng.randint(1, 4)
    x0, y0 = rng.choice([0.0, 360.0, 180.0, -180.0]) + rng.uniform(-3, 3), rng.uniform(-2, 2)
    xs, ys, npt = [], [], []
    for _ in range(nc):
        m = rng.randint(1, 5)
        t, u, r = rng.choice([-360.0, 0.0, 0.0, 360.0]), rng.choice([0.0, 0.0, 1.0]), rng.choice([0.5, 2.0])
        dx, dy = [rng.choice([-1, 1]) * r * rng.uniform(0.5, 1) for _ in range(m)], [rng.choice([-1, 1]) * r * rng.uniform(0.5, 1) for _ in range(m)]
        xs.append([x0 + t + u + v for v in dx])
        ys.append([y0 + u + v for v in dy])
        npt.append(m)
    npt = np.array(npt, dtype="i8")
    a = rng.choice([0, 0, rng.randint(0, nc)])
    nb = np.array([a, nc - a], dtype="i8")
    return dict(level_index=rng.choice([0, 1, 1]), l_i=np.array([0, a], dtype="i8"), nb_c_per_l=nb, nb_pt_per_c=npt, indices_of_first_pts=np.cumsum(npt) - npt,
                x_value=np.array(sum(xs, [])), y_value=np.array(sum(ys, [])), x_min_per_c=np.array([min(x) for x in xs]), y_min_per_c=np.array([min(y) for y in ys]),
                x_max_per_c=np.array([max(x) for x in xs]), y_max_per_c=np.array([max(y) for y in ys]), xpt=x0, ypt=y0)


_n1 = lambda s: s.old.nb_c_per_l[s.old.level_index]
nearest_path = Contract(
    EF + "index_from_nearest_path_with_pt_in_bbox_",
    dict(level_index=S("int"), l_i=P("int", "l"), nb_c_per_l=P("int", "l"), nb_pt_per_c=P("int", "c"), indices_of_first_pts=P("int", "c"), x_value=P("real", "p"), y_value=P("real", "p"),
         x_min_per_c=P("real", "c"), y_min_per_c=P("real", "c"), x_max_per_c=P("real", "c"), y_max_per_c=P("real", "c"), xpt=S("real"), ypt=S("real")),
    requires=[("tables of outlines", _tables), ("at least one point by outline", lambda s: forall(0, s.dim_c, lambda c: s.nb_pt_per_c[c] > 0))],
    ensures=[("no outline when none has the position in its box", lambda s: Iff(s.result == -1, forall(_first(s), _first(s) + _n1(s), lambda c: Not(_has(s, c))))),
             ("an outline of the level, with the position in its box", lambda s: Implies(s.result != -1, lambda: And(0 <= s.result, s.result < _n1(s), _has(s, _first(s) + s.result)))),
             ("no other eligible outline has a nearer point", lambda s: Implies(s.result != -1, lambda: exists(
                 s.old.indices_of_first_pts[_first(s) + s.result], s.old.indices_of_first_pts[_first(s) + s.result] + s.old.nb_pt_per_c[_first(s) + s.result],
                 lambda q: forall(_first(s), _first(s) + _n1(s), lambda c: Implies(_has(s, c), lambda: _pts(s, c, lambda k: _d2(s, _first(s) + s.result, q) <= _d2(s, c, k)))))))],
    loops={0: [lambda s: Or(s.find_contour == 0, s.find_contour == 1), lambda s: If(s.find_contour == 0, lambda: And(s.i_ref == _first(s), forall(_first(s), s.it, lambda c: Not(_has(s, c)))), lambda: _held(s, s.it))],
           1: [lambda s: Or(s.find_contour == 0, s.find_contour == 1), lambda s: s.xpt_ == _xin(s, s.i_elt_c), lambda s: _has(s, s.i_elt_c),
               lambda s: If(s.find_contour == 0, lambda: And(s.it == s.i_start_pt, forall(_first(s), s.i_elt_c, lambda c: Not(_has(s, c)))),
                            lambda: And(_held(s, s.i_elt_c, s.i_elt_c + 1), forall(s.i_start_pt, s.it, lambda k: s.dist_ref <= _d2(s, s.i_elt_c, k))))]},
    gen=_gen_near)


# ----------------------------------------------------------------- local extrema
def _gv(s, a, b):
    o = s.old
    return If(o.general_mask[a, b], real(2e10) if is_z3(a) or is_z3(b) else 2e10, lambda: dsl.nl("mul", o.grid[a, b], o.sign))


def _ext(s, i, j):
    tid = (dsl.tid(_ext0(s, z3.Int("ext_i"), z3.Int("ext_j"))) if is_z3(s.dim_n) else id(s.old))
    return dsl.define(("extremum", tid), lambda a, b: _ext0(s, a, b), ["int", "int"])(i, j)


def _ext0(s, i, j):
    """the node is in the outline, and none of its eight known neighbours is beyond it"""
    o = s.old
    return And(o.pixel_mask[i, j], *[_gv(s, i, j) <= _gv(s, i + a, j + b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b])


def _row(s):
    """number of extrema of the row i before the column j"""
    o, i, j = s.old, z3.Int("ext_i"), z3.Int("ext_j")
    tid = dsl.tid(_ext0(s, i, j)) if is_z3(s.dim_n) else id(o)
    return memo(s, "row", lambda: dsl.RecP(("ext_row", tid), lambda j, v, i: If(And(j >= 1, _ext(s, i, j)), v + 1, v), 0, ["int"]))


def _tot(s):
    """number of extrema on the rows before i"""
    return memo(s, "tot", lambda: dsl.RecFn(lambda i, v: If(i >= 1, v + _row(s)(s.dim_m - 1, i), v), 0, name="ext_tot"))


def _rank(s, i, j):
    return _tot(s)(i) + _row(s)(j, i)


def _adj(s, a, b):
    dx, dy = s.xs[a] - s.xs[b], s.ys[a] - s.ys[b]
    return Or(And(dx == 0, Or(dy == 1, dy == -1)), And(dy == 0, Or(dx == 1, dx == -1)))


def _listed(s, xs, ys):
    return And(xs.n == ys.n, forall(0, xs.n, lambda k: And(1 <= xs[k], xs[k] < s.dim_n - 1, 1 <= ys[k], ys[k] < s.dim_m - 1, _ext(s, xs[k], ys[k]))))


def _at_rank(s, i, j, n):
    r = _rank(s, i, j)
    return Implies(_ext(s, i, j), lambda: And(0 <= r, r < n, s.xs[r] == i, s.ys[r] == j))


def _isolated(s, i, j):
    """an extremum without extremum on its four sides"""
    side = lambda a, b: And(a >= 1, a < s.dim_n - 1, b >= 1, b < s.dim_m - 1, _ext(s, a, b))
    return And(_ext(s, i, j), Not(side(i - 1, j)), Not(side(i + 1, j)), Not(side(i, j - 1)), Not(side(i, j + 1)))


def _groups(done):
    """positive numbers are given exactly to the extrema which touch another one"""
    return [lambda s: s.nb_group >= 1, lambda s: forall(0, s.xs.n, lambda a: s.gr[a] >= 0),
            lambda s: forall(0, s.xs.n, lambda a: Implies(s.gr[a] != 0, lambda: exists(0, s.xs.n, lambda b: _adj(s, a, b)))),
            lambda s: forall2(0, s.xs.n, 0, s.xs.n, lambda a, b: Implies(And(a < b, done(s)(a, b), _adj(s, a, b)), And(s.gr[a] != 0, s.gr[b] != 0)))]


def _alone(s):
    return dsl.count(lambda k: s.gr[k] == 0)


def _kept(s, n):
    c = _alone(s)
    return And(s.xs_new.n == s.ys_new.n, forall(0, n, lambda k: Implies(s.gr[k] == 0, lambda: And(0 <= c(k), c(k) < s.xs_new.n, s.xs_new[c(k)] == s.xs[k], s.ys_new[c(k)] == s.ys[k]))))


detect_extrema = Contract(
    EF + "detect_local_minima_", dict(grid=P("real", "n", "m"), general_mask=P("bool", "n", "m"), pixel_mask=P("bool", "n", "m"), maximum_local_extremum=S("int"), sign=S("int")), dims_min=dict(n=1, m=1),
    requires=[("troughs or peaks", lambda s: Or(s.sign == 1, s.sign == -1)),
              ("the nodes of the outline are known", lambda s: forall2(0, s.dim_n, 0, s.dim_m, lambda i, j: Implies(s.pixel_mask[i, j], Not(s.general_mask[i, j])))),
              ("heights below 2e10", lambda s: forall2(0, s.dim_n, 0, s.dim_m, lambda i, j: dsl.nl("mul", s.grid[i, j], s.sign) < 20000000000))],
    ensures=[("as many rows as columns", lambda s: s.result[0].n == s.result[1].n),
             ("exactly the extrema when there are not too many", lambda s: Implies(_tot(s)(s.dim_n - 1) <= s.old.maximum_local_extremum, lambda: And(
                 _listed(s, s.result[0], s.result[1]),
                 forall2(1, s.dim_n - 1, 1, s.dim_m - 1, lambda i, j: Implies(_ext(s, i, j), lambda: exists(0, s.result[0].n, lambda k: And(s.result[0][k] == i, s.result[1][k] == j))))))),
             ("an extremum which touches no other one is always kept", lambda s: forall2(1, s.dim_n - 1, 1, s.dim_m - 1, lambda i, j: Implies(_isolated(s, i, j), lambda: exists(0, s.result[0].n, lambda k: And(s.result[0][k] == i, s.result[1][k] == j))))),
             ("never more positions than extrema", lambda s: s.result[0].n <= _tot(s)(s.dim_n - 1))],
    loops={0: [lambda s: s.xs.n == _tot(s)(s.it), lambda s: _listed(s, s.xs, s.ys), lambda s: forall2(1, s.it, 1, s.dim_m - 1, lambda i, j: _at_rank(s, i, j, s.xs.n)), lambda s: forall(0, s.xs.n, lambda k: s.xs[k] < s.it)],
           1: [lambda s: s.xs.n == _rank(s, s.i, s.it), lambda s: _listed(s, s.xs, s.ys), lambda s: forall2(1, s.i, 1, s.dim_m - 1, lambda i, j: _at_rank(s, i, j, s.xs.n)), lambda s: forall(1, s.it, lambda j: _at_rank(s, s.i, j, s.xs.n)), lambda s: forall(0, s.xs.n, lambda k: s.xs[k] <= s.i)],
           2: [lambda s: And(*[Implies(a < s.it, eqf(s.g[a + 1, b + 1], _gv(s, s.i + a, s.j + b))) for a in (-1, 0, 1) for b in (-1, 0, 1)])],
           3: [lambda s: And(*[Implies(Or(a < s.i_, And(a == s.i_, b < s.it)), eqf(s.g[a + 1, b + 1], _gv(s, s.i + a, s.j + b))) for a in (-1, 0, 1) for b in (-1, 0, 1)])],
           4: _groups(lambda s: lambda a, b: a < s.it), 5: _groups(lambda s: lambda a, b: Or(a < s.i0, And(a == s.i0, b < s.it))),
           6: [lambda s: s.xs_new.n == _alone(s)(s.it), lambda s: s.xs_new.n + dsl.count(lambda k: s.gr[k] != 0)(s.it) == s.it, lambda s: _kept(s, s.it)],
           7: [lambda s: s.xs_new.n == _alone(s)(s.xs.n) + s.it, lambda s: _kept(s, s.xs.n)],
           8: [lambda s: s.nb >= 0, lambda s: forall(0, s.it, lambda k: Implies(s.gr[k] == s.gr_, s.nb >= 1))]},
    opts=dict(opaque_nl=True, cut_all=True), bmc=False, gen=lambda rng, k: _gen_ext(rng))


def _gen_ext(rng):
    n, m = rng.randint(1, 6), rng.randint(1, 6)
    g = np.array([rng.choice([0.0, 1.0, 2.0, rng.random()]) for _ in range(n * m)]).reshape(n, m)
    mask = np.array([rng.random() < 0.15 for _ in range(n * m)]).reshape(n, m)
    pix = np.array([rng.random() < 0.7 for _ in range(n * m)]).reshape(n, m) & ~mask
    return dict(grid=g, general_mask=mask, pixel_mask=pix, maximum_local_extremum=rng.randint(0, 3), sign=rng.choice([-1, 1]))
