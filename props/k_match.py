"""Contracts on the kernels that pair observations (observations/observation.py, featured_tracking, tracking.py)"""
from .common import *
from .k_track import _probe

OB = "observations.observation:"


def _gen_pairs(rng, k):
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    ij = rng.sample([(a, b) for a in range(n) for b in range(m)], rng.randint(0, n * m))
    mask = np.array([rng.random() < 0.8 for _ in range(n * m)], dtype=bool).reshape(n, m)
    return dict(i=np.array([a for a, _ in ij], dtype="i8"), j=np.array([b for _, b in ij], dtype="i8"), c=rng_floats(rng, len(ij), 0, 1, 0.125), cmin=rng.choice([0.0, 0.25, 0.5, 0.9]),
                cost_mat=rng_floats(rng, n * m, 0, 1, 0.25).reshape(n, m), mask=mask)


_hit = lambda o, upto, a, b: exists(0, upto, lambda k: And(o.i[k] == a, o.j[k] == b, o.c[k] > o.cmin))


def _mc(s, upto):
    o = s.old
    return [("a couple with a sufficient score is open, at cost 1 - score", lambda: forall(0, upto, lambda k: Implies(o.c[k] > o.cmin, lambda: And(
                Not(s.mask[o.i[k], o.j[k]]), eqf(s.cost_mat[o.i[k], o.j[k]], 1 - o.c[k]))))),
            ("no other couple changes", lambda: forall2(0, s.mask.shape[0], 0, s.mask.shape[1], lambda a, b: Or(
                And(Iff(s.mask[a, b], o.mask[a, b]), eqf(s.cost_mat[a, b], o.cost_mat[a, b])), _hit(o, upto, a, b))))]


mask_cmin = Contract(
    "featured_tracking.area_tracker:mask_cmin",
    dict(i=P("int", "p"), j=P("int", "p"), c=P("real", "p"), cmin=S("real"), cost_mat=P("real", "n", "m"), mask=P("bool", "n", "m")),
    requires=[("couples of the matrix", lambda s: forall(0, s.i.n, lambda k: And(0 <= s.i[k], s.i[k] < s.dim_n, 0 <= s.j[k], s.j[k] < s.dim_m))),
              ("each couple once", lambda s: forall2(0, s.i.n, 0, s.i.n, lambda p, q: Implies(And(p != q, s.i[p] == s.i[q]), s.j[p] != s.j[q])))],
    ensures=[(n, lambda s, q=q: _mc(s, s.old.i.n)[q][1]()) for q, n in enumerate(("a couple with a sufficient score is open, at cost 1 - score", "no other couple changes"))],
    loops={0: [lambda s, q=q: _mc(s, s.it)[q][1]() for q in range(2)]},
    sizes=[dict(p=a, n=2, m=2) for a in (0, 1, 2)], gen=_gen_pairs)


# ----------------------------------------------------------------- counts by row and column
def _rows(s):
    m = s.old.mask
    return memo(s, "rows", lambda: dsl.RecP(("rows", dsl.tid(m[z3.Int("probe_k"), z3.Int("probe_l")]) if is_z3(m.shape[0]) else id(m)), lambda k, v, i: If(m[i, k], v + 1, v), 0, ["int"]))


def _cols(s):
    m = s.old.mask
    return memo(s, "cols", lambda: dsl.RecP(("cols", dsl.tid(m[z3.Int("probe_k"), z3.Int("probe_l")]) if is_z3(m.shape[0]) else id(m)), lambda k, v, j: If(m[k, j], v + 1, v), 0, ["int"]))


sum_row_column = Contract(
    OB + "sum_row_column", dict(mask=P("bool", "n", "m")),
    ensures=[("one count by row, one by column", lambda s: And(s.result[0].n == s.dim_n, s.result[1].n == s.dim_m)),
             ("links of each row", lambda s: forall(0, s.dim_n, lambda i: s.result[0][i] == _rows(s)(s.dim_m, i))),
             ("links of each column", lambda s: forall(0, s.dim_m, lambda j: s.result[1][j] == _cols(s)(s.dim_n, j)))],
    loops={0: [lambda s: forall(0, s.it, lambda i: s.row_sum[i] == _rows(s)(s.dim_m, i)), lambda s: forall(s.it, s.dim_n, lambda i: s.row_sum[i] == 0),
               lambda s: forall(0, s.dim_m, lambda j: s.column_sum[j] == _cols(s)(s.it, j))],
           1: [lambda s: forall(0, s.i, lambda i: s.row_sum[i] == _rows(s)(s.dim_m, i)), lambda s: forall(s.i + 1, s.dim_n, lambda i: s.row_sum[i] == 0), lambda s: s.row_sum[s.i] == _rows(s)(s.it, s.i),
               lambda s: forall(0, s.it, lambda j: s.column_sum[j] == _cols(s)(s.i + 1, j)), lambda s: forall(s.it, s.dim_m, lambda j: s.column_sum[j] == _cols(s)(s.i, j))]},
    gen=lambda rng, k: (lambda n, m: dict(mask=np.array([rng.random() < 0.4 for _ in range(n * m)], dtype=bool).reshape(n, m)))(rng.randint(0, 5), rng.randint(0, 5)))

# ----------------------------------------------------------------- position of ids in a list
index = Contract(
    "tracking:index", dict(ar=P("int", "n", np_="u4"), items=P("int", "m", np_="u4")),
    requires=[("items are in the list", lambda s: forall(0, s.items.n, lambda q: exists(0, s.ar.n, lambda k: s.ar[k] == s.items[q])))],
    ensures=[("one position by item", lambda s: s.result.n == s.old.items.n),
             ("first position of each item", lambda s: forall(0, s.result.n, lambda q: And(0 <= s.result[q], s.result[q] < s.old.ar.n, s.old.ar[s.result[q]] == s.old.items[q],
                                                                                        forall(0, s.result[q], lambda k: s.old.ar[k] != s.old.items[q]))))],
    loops={0: [lambda s: forall(0, s.it, lambda q: And(0 <= s.indexs[q], s.indexs[q] < s.old.ar.n, s.old.ar[s.indexs[q]] == s.old.items[q], forall(0, s.indexs[q], lambda k: s.old.ar[k] != s.old.items[q])))],
           1: [lambda s: forall(0, s.i, lambda q: And(0 <= s.indexs[q], s.indexs[q] < s.old.ar.n, s.old.ar[s.indexs[q]] == s.old.items[q], forall(0, s.indexs[q], lambda k: s.old.ar[k] != s.old.items[q]))),
               lambda s: forall(0, s.it, lambda k: s.old.ar[k] != s.old.items[s.i])]},
    gen=lambda rng, k: (lambda a: dict(ar=a, items=np.array([a[rng.randrange(len(a))] for _ in range(rng.randint(0, 4))], dtype="u4")))(rng_ints(rng, rng.randint(1, 7), 0, 9, "u4")))


# ----------------------------------------------------------------- shifted ellipse
def _ell(s, j, i):
    o = s.old
    h = (lambda v: real(v)) if is_z3(o.lon0[j]) else (lambda v: v)
    half = o.minor + h(0.5) * (o.major[j] - o.minor)
    xc = o.lon0[j] - (o.major[j] - o.minor) * h(0.5)
    dy = fabs(o.lat1[i] - o.lat0[j])
    raw = fabs(o.lon1[i] - xc)
    if is_z3(raw):
        dx = If(raw > 180, fabs(rmod(raw + 180, real(360)) - 180), raw)
    else:
        dx = abs((raw + 180) % 360 - 180) if raw > 180 else raw
    return dx, dy, half


def _in_ell(s, j, i):
    dx, dy, half = _ell(s, j, i)
    m = s.old.minor
    return And(dy <= m, dx <= half, dx * dx / (half * half) + dy * dy / (m * m) < 1)


def _ell_at(s, got, j, i):
    if not is_z3(got):
        dx, dy, half = _ell(s, j, i)
        m = s.old.minor
        if abs(dx - half) < 1e-9 or abs(dy - m) < 1e-9 or abs(dx ** 2 / half ** 2 + dy ** 2 / m ** 2 - 1) < 1e-9:
            return True
    return Iff(got, _in_ell(s, j, i))


shifted_ellipsoid = Contract(
    OB + "shifted_ellipsoid_degrees_mask2", dict(lon0=P("real", "n"), lat0=P("real", "n"), lon1=P("real", "m"), lat1=P("real", "m"), minor=S("real"), major=P("real", "n")),
    requires=[lambda s: s.minor > 0, ("the great axis is not the small one", lambda s: forall(0, s.major.n, lambda j: s.major[j] >= s.minor))],
    ensures=[("one flag by couple", lambda s: And(s.result.shape[0] == s.dim_n, s.result.shape[1] == s.dim_m)),
             ("exactly the positions in the ellipse, longitudes modulo 360", lambda s: forall2(0, s.dim_n, 0, s.dim_m, lambda j, i: _ell_at(s, s.result[j, i], j, i)))],
    loops={0: [lambda s: forall2(0, s.it, 0, s.dim_m, lambda j, i: _ell_at(s, s.m[j, i], j, i))],
           1: [lambda s: forall2(0, s.j, 0, s.dim_m, lambda j, i: _ell_at(s, s.m[j, i], j, i)), lambda s: forall(0, s.it, lambda i: _ell_at(s, s.m[s.j, i], s.j, i))]},
    bmc=False,
    gen=lambda rng, k: (lambda n, m, c: dict(lon0=c + rng_floats(rng, n, -6, 6) + 360 * rng_ints(rng, n, -1, 1), lat0=rng_floats(rng, n, -2, 2), lon1=c + rng_floats(rng, m, -6, 6) + 360 * rng_ints(rng, m, -1, 1),
                                             lat1=rng_floats(rng, m, -2, 2), minor=rng.choice([1.5, 1.0, 0.5]), major=rng_floats(rng, n, 1.5, 10)))(rng.randint(0, 4), rng.randint(0, 4), rng.choice([0.0, 180.0, 359.0])))
