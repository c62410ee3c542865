"""Contracts on py_eddy_tracker/generic.py"""
from .common import *

# ----------------------------------------------------------------- counters
def _cc(s):
    return memo(s, "cc", lambda: RecFn(lambda k, v: If(s.old.mask[k], v + 1, 0), 0))


count_consecutive = Contract(
    "generic:count_consecutive", dict(mask=P("bool", "n")),
    ensures=[("one value per element", lambda s: s.result.n == s.old.mask.n),
             ("counts since the last False", lambda s: forall(0, s.old.mask.n, lambda k: s.result[k] == _cc(s)(k + 1)))],
    loops={0: [lambda s: s.count == _cc(s)(s.it), lambda s: forall(0, s.it, lambda k: s.output[k] == _cc(s)(k + 1)),
               lambda s: forall(s.it, s.old.mask.n, lambda k: s.output[k] == 0)]},
    result=lambda eng, s, b: RA(eng, "int", s.mask.n),
    gen=lambda rng, k: dict(mask=np.array([rng.random() < 0.6 for _ in range(rng.randint(0, 9))], dtype=bool)))


def _cs(s):
    return memo(s, "cs", lambda: RecFn(lambda k, v: If(And(k > 0, s.old.track[k] == s.old.track[k - 1]), v, 0) + s.old.field[k], 0, 0, "real"))


cumsum_by_track = Contract(
    "generic:cumsum_by_track", dict(field=P("real", "n"), track=P("int", "n")),
    ensures=[("one value per observation", lambda s: s.result.n == s.old.track.n),
             ("running sum restarts at each track change", lambda s: forall(0, s.old.track.n, lambda k: eqf(s.result[k], _cs(s)(k + 1))))],
    loops={0: [lambda s: Implies(Or(s.it > 0, False), lambda: s.tr_previous == s.old.track[s.it - 1]),
               lambda s: real(s.d_cum) == _cs(s)(s.it),
               lambda s: Implies(s.it == 0, real(s.d_cum) == 0),
               lambda s: forall(0, s.it, lambda k: eqf(s.cumsum_array[k], _cs(s)(k + 1)))]},
    result=lambda eng, s, b: RA(eng, "real", s.track.n),
    gen=lambda rng, k: (lambda n: dict(field=rng_floats(rng, n, -4, 4, 0.25), track=rng_ints(rng, n, 0, 2, rng.choice(["u4", "i8"]))))(rng.randint(0, 9)))

# ----------------------------------------------------------------- group tables
reverse_index = Contract(
    "generic:reverse_index", dict(index=P("int", "m"), nb=Dim("n")),
    requires=[lambda s: forall(0, s.index.n, lambda k: And(s.index[k] >= 0, s.index[k] < s.nb))],
    ensures=[("result is increasing", lambda s: forall2(0, s.result.n, 0, s.result.n, lambda i, j: Implies(i < j, s.result[i] < s.result[j]))),
             ("result avoids the given indexes", lambda s: forall2(0, s.result.n, 0, s.old.index.n, lambda i, j: s.result[i] != s.old.index[j])),
             ("result in range", lambda s: forall(0, s.result.n, lambda i: And(s.result[i] >= 0, s.result[i] < s.old.nb))),
             ("every other index is present", lambda s: forall(0, s.old.nb, lambda k: Or(
                 exists(0, s.old.index.n, lambda j: s.old.index[j] == k), exists(0, s.result.n, lambda i: s.result[i] == k))))],
    loops={0: [lambda s: forall2(0, s.old.nb, 0, s.it, lambda k, j: Implies(s.m[k], s.old.index[j] != k)),
               lambda s: forall(0, s.old.nb, lambda k: Or(s.m[k], exists(0, s.it, lambda j: s.old.index[j] == k)))]},
    sizes=[dict(m=a, n=b) for a in (0, 1, 2, 3) for b in (1, 2, 3, 4)],
    gen=lambda rng, k: (lambda n: dict(index=rng_ints(rng, rng.randint(0, 8), 0, n - 1), nb=n))(rng.randint(1, 9)))


def _bi_tbl(s, first, upto, g0):
    """first[g] = number of elements below group g+g0"""
    g = s.old.groups
    return forall2(0, upto, 0, g.n, lambda q, k: Iff(k < first[q], g[k] - g0 < q))


build_index = Contract(
    "generic:build_index", dict(groups=P("int", "n")), dims_min={"n": 1},
    requires=[("sorted", lambda s: forall2(0, s.groups.n, 0, s.groups.n, lambda i, j: Implies(i <= j, s.groups[i] <= s.groups[j])))],
    ensures=[("shift value is the first group", lambda s: s.result[2] == s.old.groups[0]),
             ("one slot per group value", lambda s: And(s.result[0].n == s.old.groups[s.old.groups.n - 1] - s.old.groups[0] + 1, s.result[1].n == s.result[0].n)),
             ("slot bounds delimit exactly the members", lambda s: forall2(0, s.result[0].n, 0, s.old.groups.n, lambda q, k: Iff(
                 And(s.result[0][q] <= k, k < s.result[1][q]), s.old.groups[k] == q + s.result[2]))),
             ("slots are contiguous", lambda s: And(s.result[0][0] == 0, s.result[1][s.result[1].n - 1] == s.old.groups.n,
                                                    forall(0, s.result[0].n - 1, lambda q: s.result[1][q] == s.result[0][q + 1]))),
             ("slots ordered", lambda s: forall(0, s.result[0].n, lambda q: And(0 <= s.result[0][q], s.result[0][q] <= s.result[1][q], s.result[1][q] <= s.old.groups.n)))],
    loops={0: [lambda s: _bi_tbl(s, s.first_index, s.old.groups[s.it] - s.i0 + 1, s.i0),
               lambda s: forall(0, s.first_index.n, lambda q: And(0 <= s.first_index[q], s.first_index[q] <= s.it)),
               lambda s: s.first_index[0] == 0]},
    result=lambda eng, s, b: (lambda m: (RA(eng, "int", m), RA(eng, "int", m), eng.fresh("int", "i0")))(eng.fresh("int", "amp")),
    gen=lambda rng, k: dict(groups=np.sort(rng_ints(rng, rng.randint(1, 9), rng.choice([0, 0, 3, -2]), 6, "i8"))))

# ----------------------------------------------------------------- longitudes
wrap_plain = Contract(
    "generic:wrap_longitude", dict(x=P("float", "n"), y=P("float", "n"), ref=S("real"), cut=C(False)), key="wrap_longitude(cut=False)",
    ensures=[("same number of points", lambda s: And(s.result[0].n == s.old.x.n, s.result[1].n == s.old.y.n)),
             ("latitudes untouched", lambda s: forall(0, s.old.y.n, lambda k: same(s.result[1][k], s.old.y[k]))),
             ("inside [ref, ref+360)", lambda s: forall(0, s.old.x.n, lambda k: Or(isnan(s.old.x[k]), And(le(s.old.ref, s.result[0][k]), _lt360(s.result[0][k], s.old.ref))))),
             ("congruent to the input", lambda s: forall(0, s.old.x.n, lambda k: And(Iff(isnan(s.result[0][k]), isnan(s.old.x[k])), Or(isnan(s.old.x[k]), _cong(s.result[0][k], s.old.x[k], s.old.ref))))),
             ],
    loops={2: [lambda s: forall(0, s.it, lambda k: eqf(s.out[k], _wrap(s.old.x[k], s.old.ref)))]},
    result=lambda eng, s, b: (RA(eng, "float", s.x.n), b["y"]),
    gen=lambda rng, k: (lambda n: dict(x=_lons(rng, n), y=rng_floats(rng, n, -80, 80), ref=rng.choice([-180.0, 0.0, 20.0, 170.5, -360.0, 500.25, rng.uniform(-400, 400)]), cut=False))(rng.randint(0, 7)))


def _lons(rng, n):
    a = rng_floats(rng, n, -720, 720, rng.choice([0.25, 7.5, None]))
    if n and rng.random() < 0.3:
        a[rng.randrange(n)] = nan
    return a


def _wrap(x, ref):
    if is_z3(ref) or isinstance(x, F):
        return F(rmod(val(x) - ref, real(360)) + ref, nanflag(x))
    return (x - ref) % 360 + ref


def _lt360(r, ref):
    if isinstance(r, F) or is_z3(r):
        return val(r) < ref + 360
    return r <= ref + 360  # machine rounding may land on the bound


def _cong(a, b, ref):
    """a is b shifted by a whole number of turns (the integer witness is exhibited to the solver)"""
    if isinstance(a, F) or is_z3(a):
        w = z3.ToReal(dsl.rdivmod(val(b) - ref, real(360))[0])
        return Or(*[val(a) == val(b) - 360 * (w + q) for q in (0, -1, 1)])
    d = (a - b) / 360.0
    if d != d:
        return False
    return abs(d - round(d)) < 1e-7


def _is_jump(s):
    """the wrapped line jumps between k-1 and k"""
    def f(k):
        x, ref = s.old.x, s.old.ref
        a, b = x[k - 1], x[k]
        if is_z3(ref):
            d = val(b) - val(a)
            dn = _wrap(b, ref).v - _wrap(a, ref).v
            return And(Not(isnan(a)), Not(isnan(b)), Or(d - dn > real(1e-5), dn - d > real(1e-5)))
        if a != a or b != b:
            return False
        return abs((b - a) - (_wrap(b, ref) - _wrap(a, ref))) > 1e-5
    return f


def _jumps(s):
    # jumps counted over 1..k-1
    return memo(s, "jmp", lambda: count(lambda k: And(k >= 1, _is_jump(s)(k)), 0))


def _cut_post(s):
    x, y, ref = s.old.x, s.old.y, s.old.ref
    ox, oy = s.result
    J, c = _is_jump(s), _jumps(s)
    n = x.n

    def at(k):
        p = k + 3 * c(k + 1)
        return And(eqf(ox[p], _wrap(x[k], ref)), same(oy[p], y[k]),
                   Implies(And(k >= 1, J(k)), lambda: And(isnan(ox[p - 2]), isnan(oy[p - 2]), same(oy[p - 3], y[k]), same(oy[p - 1], y[k - 1]),
                                                           _cong(ox[p - 3], x[k], ref), _cong(ox[p - 1], x[k - 1], ref))))
    return [And(ox.n == n + 3 * c(n), oy.n == ox.n), forall(0, n, at)]


wrap_cut = Contract(
    "generic:wrap_longitude", dict(x=P("float", "n"), y=P("float", "n"), ref=S("real"), cut=C(True)), key="wrap_longitude(cut=True)", dims_min={"n": 1},
    ensures=[("every point kept, separators only at jumps", _cut_post)],
    loops={0: [lambda s: s.indexs.n == _jumps(s)(s.it),
               lambda s: forall(1, s.it, lambda k: Implies(_is_jump(s)(k), lambda: s.indexs[_jumps(s)(k)] == k)),
               lambda s: forall(0, s.indexs.n, lambda q: And(s.indexs[q] >= 1, s.indexs[q] < s.it, _is_jump(s)(s.indexs[q]), _jumps(s)(s.indexs[q]) == q)),
               lambda s: same(s.x_previous, s.old.x[s.it - 1]),
               lambda s: eqf(s.new_x_previous, _wrap(s.old.x[s.it - 1], s.old.ref))],
           1: [lambda s: And(s.j == _jumps(s)(s.it), s.i_ == 3 * s.j),
               lambda s: s.nb_indexs == _jumps(s)(s.old.x.n),
               lambda s: forall(1, s.old.x.n, lambda k: Implies(_is_jump(s)(k), lambda: s.indexs[_jumps(s)(k)] == k)),
               lambda s: forall(0, s.nb_indexs, lambda q: And(s.indexs[q] >= 1, s.indexs[q] < s.old.x.n, _is_jump(s)(s.indexs[q]), _jumps(s)(s.indexs[q]) == q)),
               lambda s: _cut_inv(s)]},
    gen=lambda rng, k: (lambda n: dict(x=_lons(rng, n) if rng.random() < 0.4 else np.cumsum(rng_floats(rng, n, -20, 40, 2.5)) + 340.0, y=rng_floats(rng, n, -80, 80),
                                       ref=rng.choice([-180.0, 0.0, 20.0, 170.5]), cut=True))(rng.randint(1, 7)))


def _cut_inv(s):
    x, y, ref = s.old.x, s.old.y, s.old.ref
    ox, oy = s.out_x, s.out_y
    J, c = _is_jump(s), _jumps(s)

    def at(k):
        p = k + 3 * c(k + 1)
        return And(eqf(ox[p], _wrap(x[k], ref)), same(oy[p], y[k]),
                   Implies(And(k >= 1, J(k)), lambda: And(isnan(ox[p - 2]), isnan(oy[p - 2]), same(oy[p - 3], y[k]), same(oy[p - 1], y[k - 1]),
                                                           _cong(ox[p - 3], x[k], ref), _cong(ox[p - 1], x[k - 1], ref))))
    return forall(0, s.it, at)


# ----------------------------------------------------------------- nan separated lines
def _fl(s):
    """flat walk over the rows: position k of the output holds column col(k) of row row(k); column `sampling` is the separator"""
    w = s.old.l_matrix.shape[1] + 1
    col = memo(s, "col", lambda: RecFn(lambda k, v: If(v == w - 1, 0, v + 1), 0, name="col"))
    row = memo(s, "row", lambda: RecFn(lambda k, v: If(col(k) == w - 1, v + 1, v), 0, name="row"))
    return row, col, w


def _fl_at(s, out, k):
    row, col, w = _fl(s)
    m = s.old.l_matrix
    if is_z3(k):
        return If(col(k) == w - 1, isnan(out[k]), same(out[k], m[row(k), col(k)]))
    return isnan(out[k]) if col(k) == w - 1 else same(out[k], m[row(k), col(k)])


flatten_line_matrix = Contract(
    "generic:flatten_line_matrix", dict(l_matrix=P("float", "n", "m")), dims_min={"n": 0, "m": 1},
    ensures=[("size", lambda s: s.result.n == If(s.dim_n == 0, 1, s.dim_n * s.dim_m + s.dim_n - 1)),
             ("rows in order, separated by one nan", lambda s: Implies(s.dim_n > 0, lambda: forall(0, s.result.n, lambda k: _fl_at(s, s.result, k)))),
             ("empty input gives a single nan", lambda s: Implies(s.dim_n == 0, lambda: isnan(s.result[0])))],
    loops={0: [lambda s: s.inc == s.it * (s.sampling + 1) - If(And(s.it == s.nb_line, s.it > 0), 1, 0),
               lambda s: Implies(s.it < s.nb_line, lambda: And(_fl(s)[0](s.inc) == s.it, _fl(s)[1](s.inc) == 0)),
               lambda s: (s.nb_line - s.it) * (s.sampling + 1) >= 0,
               lambda s: forall(0, s.inc, lambda k: _fl_at(s, s.out, k))],
           1: [lambda s: s.inc == s.i * (s.sampling + 1) + s.it,
               lambda s: And(_fl(s)[0](s.inc) == s.i, _fl(s)[1](s.inc) == s.it),
               lambda s: (s.nb_line - 1 - s.i) * (s.sampling + 1) >= 0,
               lambda s: forall(0, s.inc, lambda k: _fl_at(s, s.out, k))]},
    gen=lambda rng, k: dict(l_matrix=rng_floats(rng, 12, -9, 9, 0.5)[: (a := rng.randint(0, 3)) * (b := rng.randint(1, 4))].reshape(a, b)))


def _split_cnt(s):
    return memo(s, "chg", lambda: count(lambda k: s.old.i[k + 1] != s.old.i[k], 0))


def _split_at(s, nx, ny, k):
    c = _split_cnt(s)
    p = k + c(k)
    o = s.old
    return And(same(nx[p], o.x[k]), same(ny[p], o.y[k]), Implies(And(k >= 1, o.i[k] != o.i[k - 1]), lambda: And(isnan(nx[p - 1]), isnan(ny[p - 1]))))


split_line = Contract(
    "generic:split_line", dict(x=P("float", "n"), y=P("float", "n"), i=P("int", "n")), dims_min={"n": 1},
    ensures=[("size", lambda s: And(s.result[0].n == s.dim_n + _split_cnt(s)(s.dim_n - 1), s.result[1].n == s.result[0].n)),
             ("points kept in order, nan exactly at group changes", lambda s: forall(0, s.dim_n, lambda k: _split_at(s, s.result[0], s.result[1], k)))],
    loops={0: [lambda s: s.nb_jump == _split_cnt(s)(s.nb_value - 1),
               lambda s: Implies(s.it < s.nb_value, lambda: s.new_j == s.it + _split_cnt(s)(s.it)),
               lambda s: Implies(s.it == s.nb_value, lambda: s.new_j == s.it + _split_cnt(s)(s.it - 1)),
               lambda s: forall(0, s.it, lambda k: _split_at(s, s.new_x, s.new_y, k)),
               lambda s: Implies(And(s.it >= 1, s.it < s.nb_value), lambda: Implies(s.old.i[s.it] != s.old.i[s.it - 1], lambda: And(isnan(s.new_x[s.new_j - 1]), isnan(s.new_y[s.new_j - 1]))))]},
    gen=lambda rng, k: (lambda n: dict(x=rng_floats(rng, n, -9, 9, 0.5), y=rng_floats(rng, n, -9, 9, 0.5), i=rng_ints(rng, n, 0, rng.choice([1, 3]))))(rng.randint(1, 8)))


# simplify: state = index of the last kept valid point (-1 before the first)
def _valid(s, k):
    return Not(Or(isnan(s.old.x[k]), isnan(s.old.y[k])))


def _far(s, k, p):
    o = s.old
    dx, dy = val(o.x[k]) - val(o.x[p]), val(o.y[k]) - val(o.y[p])
    if is_z3(dx):
        return dx * dx + dy * dy > o.precision * o.precision
    return dx ** 2 + dy ** 2 > o.precision ** 2 or dx > o.precision or dy > o.precision


def _prev(s):
    def step(k, v):
        c = And(_valid(s, k), Or(v < 0, _far(s, k, v)))
        return If(c, k, v)
    return memo(s, "prev", lambda: RecFn(step, -1, name="prev"))


def _keep(s):
    pv = _prev(s)
    return memo(s, "keepf", lambda: (lambda k: Or(And(_valid(s, k), pv(k + 1) == k), And(Not(_valid(s, k)), pv(k) >= 0, k >= 1, _valid(s, k - 1)))))


def _keepc(s):
    return memo(s, "keepc", lambda: count(lambda k: _keep(s)(k), 0))


simplify = Contract(
    "generic:simplify", dict(x=P("float", "n"), y=P("float", "n"), precision=S("real")), requires=[lambda s: s.precision >= 0],
    ensures=[("size", lambda s: And(s.result[0].n == _keepc(s)(s.dim_n), s.result[1].n == s.result[0].n)),
             ("kept points are copied in order", lambda s: forall(0, s.dim_n, lambda k: Implies(_keep(s)(k), lambda: And(
                 same(s.result[0][_keepc(s)(k)], s.old.x[k]), same(s.result[1][_keepc(s)(k)], s.old.y[k])))))],
    loops={0: [lambda s: And(_prev(s)(s.it) == -1, _keepc(s)(s.it) == 0), lambda s: forall(0, s.it, lambda k: And(Not(_valid(s, k)), Not(s.mask[k]))), lambda s: _prev(s)(0) == -1,
               lambda s: forall(0, s.it + 1, lambda k: _prev(s)(k) == -1),
               lambda s: forall(s.it, s.nb, lambda k: s.mask[k])],
           1: [lambda s: And(_prev(s)(s.it) >= 0, _prev(s)(s.it) < s.it),
               lambda s: _valid(s, _prev(s)(s.it)),
               lambda s: And(same(s.x_previous, s.old.x[_prev(s)(s.it)]), same(s.y_previous, s.old.y[_prev(s)(s.it)])),
               lambda s: Iff(s.last_nan, Not(_valid(s, s.it - 1))),
               lambda s: forall(0, s.it, lambda k: Iff(s.mask[k], _keep(s)(k))),
               lambda s: forall(s.it, s.nb, lambda k: s.mask[k])],
           2: [lambda s: s.j == _keepc(s)(s.it), lambda s: s.new_nb == _keepc(s)(s.nb), lambda s: forall(0, s.nb, lambda k: Iff(s.mask[k], _keep(s)(k))),
               lambda s: forall(0, s.it, lambda k: Implies(_keep(s)(k), lambda: And(same(s.new_x[_keepc(s)(k)], s.old.x[k]), same(s.new_y[_keepc(s)(k)], s.old.y[k]))))]},
    gen=lambda rng, k: (lambda n: dict(x=_gaps(rng, rng_floats(rng, n, -1, 1, 0.25)), y=_gaps(rng, rng_floats(rng, n, -1, 1, 0.25)), precision=rng.choice([0.0, 0.25, 0.5, 1.0])))(rng.randint(0, 9)))


def _gaps(rng, a):
    for i in range(len(a)):
        if rng.random() < 0.2:
            a[i] = nan
    return a
