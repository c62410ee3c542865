"""Polygon primitives (poly.py)"""
from vc.dsl import RecP, tid
from .common import *


# ----------------------------------------------------------------- spec functions
def cross(x0, y0, x1, y1, xt, yt):
    return (x1 - x0) * (yt - y0) - (xt - x0) * (y1 - y0)


def wn_step(x, y, ax, ay, bx, by, v):
    """contribution of the edge a->b to the winding number of (x, y)"""
    left = cross(ax, ay, bx, by, x, y) > 0
    return If(And(ay <= y, by > y, left), v + 1, If(And(ay > y, by <= y, Not(left)), v - 1, v))


def _wn_new(me, u, members):
    """lemma wn_prefix (k_lemmas.py): repetitions of the first vertex at the end of an outline do not change its winding number; same vertices, same winding number"""
    if me.data["extra"]:
        _wn_box(me, u)
    for (o, g) in members:
        for (a, ua), (b, ub) in (((me, u), (o, g)), ((o, g), (me, u))):
            ea, eb = [dsl.qvar("int", "ea") for _ in range(a.data["extra"])], [dsl.qvar("int", "eb") for _ in range(b.data["extra"])]
            x, y = dsl.qvar("real"), dsl.qvar("real")
            n, m = toint(a.data["n"]), toint(b.data["n"])
            fa, fb = (lambda k, c: real(a.data["f"](ea, k, c))), (lambda k, c: real(b.data["f"](eb, k, c)))
            j, l = dsl.qvar("int", "j"), dsl.qvar("int", "l")
            ta, tb = ua(n, *ea, x, y), ub(m, *eb, x, y)
            dsl.lemma_instance(z3.ForAll(ea + eb + [x, y], z3.Or(m < 1, m > n, z3.Exists([j], z3.And(j >= 0, j < m, z3.Or(fa(j, 0) != fb(j, 0), fa(j, 1) != fb(j, 1)))),
                                                                 z3.Exists([l], z3.And(l >= m, l < n, z3.Or(fa(l, 0) != fa(0, 0), fa(l, 1) != fa(0, 1)))), ta == tb),
                                         patterns=[z3.MultiPattern(ta, tb)]))


def _wn_box(me, u):
    """lemma wn_box (k_lemmas.py): a point with a winding number other than 0 has vertices on both sides, in both coordinates"""
    e = [dsl.qvar("int", "e") for _ in range(me.data["extra"])]
    x, y = dsl.qvar("real"), dsl.qvar("real")
    n = toint(me.data["n"])
    t = u(n, *e, x, y)

    def some(p):
        j = dsl.qvar("int", "j")
        return z3.Exists([j], z3.And(j >= 0, j < n, p(j)))
    f = lambda k, c: real(me.data["f"](e, k, c))
    dsl.lemma_instance(z3.ForAll(e + [x, y], z3.Implies(z3.And(n >= 1, t != 0), z3.And(some(lambda j: f(j, 0) >= x), some(lambda j: f(j, 0) <= x), some(lambda j: f(j, 1) >= y), some(lambda j: f(j, 1) <= y))),
                                 patterns=[t]))


def wn_gen(f, n, extra=0):
    """U(k, *row, x, y): winding number of a closed polygon around (x, y) (signed crossings of the half-line to the right), first k edges; f(row, k, coordinate)"""
    def step(k, v, *p):
        e, (x, y) = list(p[:extra]), p[extra:]
        last = k + 1 == n
        nx, ny = If(last, lambda: f(e, 0, 0), lambda: f(e, k + 1, 0)), If(last, lambda: f(e, 0, 1), lambda: f(e, k + 1, 1))
        return wn_step(x, y, f(e, k, 0), f(e, k, 1), nx, ny, v)
    pr, pe = z3.Int("ext_probe_k"), [z3.Int(f"ext_probe_e{i}") for i in range(extra)]
    try:
        key = ("wn", extra, tid(f(pe, pr, 0)), tid(f(pe, pr, 1)), tid(n))
    except (TypeError, z3.Z3Exception):       # concrete arrays
        key = None
    return RecP(key, step, 0, ("int",) * extra + ("real", "real"), name="wn", family="wn", on_new=_wn_new, data=dict(f=f, n=n, extra=extra))


def wn_of(poly):
    return wn_gen(lambda e, k, c: poly[k, c], poly.shape[0])


def wn(poly, x, y):
    return wn_of(poly)(poly.shape[0], x, y)


def wn_rows(x, y):
    """winding number around a point of the outline number c of two matrices"""
    n = x.shape[1]
    g = wn_gen(lambda e, k, c: (x, y)[c][e[0], k], n, 1)
    return lambda c, px, py: g(n, c, px, py)


is_left = Contract(
    "poly:is_left", dict(x_line_0=S("real"), y_line_0=S("real"), x_line_1=S("real"), y_line_1=S("real"), x_test=S("real"), y_test=S("real")),
    ensures=[("strictly on the left of the directed line", lambda s: Iff(s.result, cross(s.old.x_line_0, s.old.y_line_0, s.old.x_line_1, s.old.y_line_1, s.old.x_test, s.old.y_test) > 0))],
    gen=lambda rng, k: dict(zip(("x_line_0", "y_line_0", "x_line_1", "y_line_1", "x_test", "y_test"), [float(rng.randint(-3, 3)) for _ in range(6)])))


def rnd_poly(rng, n=None, closed=None, lo=-4, hi=4, step=0.5):
    n = n or rng.randint(3, 8)
    c = rng.choice(["star", "random"])
    if c == "star":
        a = np.sort(np.array([rng.uniform(0, 2 * math.pi) for _ in range(n)]))
        if rng.random() < 0.5:
            a = a[::-1]
        r = rng_floats(rng, n, 0.5, hi)
        v = np.stack([np.round(r * np.cos(a) / step) * step, np.round(r * np.sin(a) / step) * step], axis=1)
    else:
        v = np.stack([rng_floats(rng, n, lo, hi, step), rng_floats(rng, n, lo, hi, step)], axis=1)
    if closed or (closed is None and rng.random() < 0.5):
        v = np.concatenate([v, v[:1]])
    return v


winding_number_poly = Contract(
    "poly:winding_number_poly", dict(x=S("real"), y=S("real"), xy_poly=P("real", "n", 2)), dims_min=dict(n=1),
    ensures=[("signed number of turns of the polygon around the point", lambda s: s.result == wn(s.old.xy_poly, s.old.x, s.old.y))],
    loops={0: [lambda s: s.wn == wn_of(s.old.xy_poly)(s.it, s.old.x, s.old.y)]},
    result=lambda eng, s, b: eng.fresh("int", "wn"),
    gen=lambda rng, k: dict(x=rng.choice([float(rng.randint(-4, 4)), rng.uniform(-4, 4)]), y=rng.choice([float(rng.randint(-4, 4)), rng.uniform(-4, 4)]), xy_poly=rnd_poly(rng)),
    sizes=[dict(n=3), dict(n=4)])


# ----------------------------------------------------------------- inclusion
def _shift(s):
    """longitudes of the inner polygon in the turn of the outer one"""
    o = s.old
    i, ref = o.xy_poly_in, o.xy_poly_out[0, 0]
    far = fabs(i[0, 0] - ref) > 180
    return lambda k: If(far, rmod(i[k, 0] - ref + 180, num(360.0, ref)) + ref - 180, i[k, 0])


def _pip(s, upto):
    sh = _shift(s)
    return forall(0, upto, lambda k: wn(s.old.xy_poly_out, sh(k), s.old.xy_poly_in[k, 1]) != 0)


def _gen_contain(rng, k):
    out = rnd_poly(rng, closed=True, step=0.25)
    inn = rnd_poly(rng, closed=True, step=0.25) * rng.choice([0.15, 0.25, 0.5, 1.0])
    out[:, 0] += (c := rng.choice([0, 180, 359, -179]))
    inn[:, 0] += c + rng.choice([0, 0, 360, -360, 720])
    return dict(xy_poly_out=out, xy_poly_in=inn)


poly_contain_poly = Contract(
    "poly:poly_contain_poly", dict(xy_poly_out=P("real", "n", 2), xy_poly_in=P("real", "m", 2)), dims_min=dict(n=1, m=1),
    ensures=[("true iff every vertex of the inner polygon is in the outer one, longitudes modulo 360", lambda s: Iff(s.result, _pip(s, s.dim_m)))],
    loops={0: [lambda s: _pip(s, s.it)]}, gen=_gen_contain, sizes=[dict(n=3, m=1), dict(n=3, m=2)], fuzz_n=300)


# ----------------------------------------------------------------- area, convexity
def _shoe_new(me, u, members):
    """lemma shoe_ext (k_lemmas.py): same points, same area"""
    for (o, g) in members:
        k, j = dsl.qvar("int", "k"), dsl.qvar("int", "j")
        (fx, fy), (gx, gy) = me.data, o.data
        dsl.lemma_instance(z3.ForAll([k], z3.Or(k < 0, z3.Exists([j], z3.And(j >= 0, j <= k, z3.Or(real(fx(j)) != real(gx(j)), real(fy(j)) != real(gy(j))))), u(k) == g(k)), patterns=[z3.MultiPattern(u(k), g(k))]))


def shoe_of(x, y):
    """sum over the first k edges of x[k] y[k+1] - x[k+1] y[k]"""
    pr = z3.Int("ext_probe_k")
    try:
        key = ("shoe", tid(x(pr)), tid(y(pr)))
        zero = real(0.0)
    except (TypeError, z3.Z3Exception):
        key, zero = None, 0.0
    return RecP(key, lambda k, v: v + (x(k) * y(k + 1) - x(k + 1) * y(k)), zero, (), sort="real", name="shoe", family="shoe", on_new=_shoe_new, data=(x, y))


def _shoe(s):
    return shoe_of(lambda k: s.old.x[k], lambda k: s.old.y[k])


def _gen_ring(rng, k):
    v = rnd_poly(rng, closed=True)
    return dict(x=v[:, 0].copy(), y=v[:, 1].copy())


poly_area = Contract(
    "poly:poly_area", dict(x=P("real", "n"), y=P("real", "n")), dims_min=dict(n=3),
    requires=[("closed outline", lambda s: And(s.x[0] == s.x[s.dim_n - 1], s.y[0] == s.y[s.dim_n - 1]))],
    ensures=[("half of the absolute shoelace sum", lambda s: eqf(s.result, fabs(_shoe(s)(s.dim_n - 1)) / 2))],
    loops={0: [lambda s: s.p_area == _shoe(s)(s.it) + s.x[s.it] * s.y[s.it - 1] - s.x[0] * s.y[s.dim_n - 2]]},
    result=lambda eng, s, b: eng.fresh("real", "area"), gen=_gen_ring)


def _turn(s, k):
    """orientation of the corner at vertex k (k from 0 to n-2: the ring repeats its first vertex)"""
    x, y, n = s.old.x, s.old.y, s.dim_n
    if is_z3(n) or is_z3(k):
        p = If(k == 0, n - 2, k - 1)
    else:
        p = n - 2 if k == 0 else k - 1
    return cross(x[p], y[p], x[k], y[k], x[k + 1], y[k + 1]) > 0


convex = Contract(
    "poly:convex", dict(x=P("real", "n"), y=P("real", "n")), dims_min=dict(n=4),
    requires=[("closed outline", lambda s: And(s.x[0] == s.x[s.dim_n - 1], s.y[0] == s.y[s.dim_n - 1]))],
    ensures=[("every corner turns to the same side", lambda s: Iff(s.result, forall(0, s.dim_n - 1, lambda k: Iff(_turn(s, k), _turn(s, 0)))))],
    loops={0: [lambda s: And(s.x1 == s.x[s.it - 2], s.y1 == s.y[s.it - 2], s.x2 == s.x[s.it - 1], s.y2 == s.y[s.it - 1]) if not dsl.conc(s.it) else
               And(Implies(s.it > 2, lambda: And(s.x1 == s.x[s.it - 2], s.y1 == s.y[s.it - 2])), s.x2 == s.x[s.it - 1], s.y2 == s.y[s.it - 1],
                   Implies(s.it == 2, lambda: And(s.x1 == s.x[s.dim_n - 1], s.y1 == s.y[s.dim_n - 1]))),
               lambda s: Iff(s.ref, _turn(s, 0)), lambda s: forall(0, s.it - 1, lambda k: Iff(_turn(s, k), s.ref))]},
    gen=_gen_ring, result=lambda eng, s, b: eng.fresh("bool", "convex"), fuzz_n=300)


tri_area2 = Contract(
    "poly:tri_area2", dict(x=P("real", "n"), y=P("real", "n"), i0=S("int"), i1=S("int"), i2=S("int")), dims_min=dict(n=1),
    requires=[lambda s: And(0 <= s.i0, s.i0 < s.dim_n, 0 <= s.i1, s.i1 < s.dim_n, 0 <= s.i2, s.i2 < s.dim_n)],
    ensures=[("twice the area of the triangle", lambda s: (lambda o: eqf(s.result, fabs(cross(o.x[o.i0], o.y[o.i0], o.x[o.i1], o.y[o.i1], o.x[o.i2], o.y[o.i2]))))(s.old))],
    result=lambda eng, s, b: eng.fresh("real", "area2"),
    gen=lambda rng, k: (lambda n: dict(x=rng_floats(rng, n, -3, 3, 0.5), y=rng_floats(rng, n, -3, 3, 0.5), i0=rng.randrange(n), i1=rng.randrange(n), i2=rng.randrange(n)))(rng.randint(1, 6)))

# ----------------------------------------------------------------- vertices
create_vertice = Contract(
    "poly:create_vertice", dict(x=P("real", "n"), y=P("real", "n")),
    ensures=[("one row per point", lambda s: And(s.result.shape[0] == s.dim_n, s.result.shape[1] == 2)),
             ("row k is (x[k], y[k])", lambda s: forall(0, s.dim_n, lambda k: And(eqf(s.result[k, 0], s.old.x[k]), eqf(s.result[k, 1], s.old.y[k]))))],
    loops={0: [lambda s: forall(0, s.it, lambda k: And(eqf(s.v[k, 0], s.old.x[k]), eqf(s.v[k, 1], s.old.y[k])))]},
    result=lambda eng, s, b: RA(eng, "real", s.x.n, 2),
    gen=lambda rng, k: (lambda n: dict(x=rng_floats(rng, n, -3, 3), y=rng_floats(rng, n, -3, 3)))(rng.randint(0, 6)))

create_vertice_2d = Contract(
    "poly:create_vertice_from_2darray", dict(x=P("real", "m", "n"), y=P("real", "m", "n"), index=S("int")),
    requires=[lambda s: And(0 <= s.index, s.index < s.dim_m)],
    ensures=[("one row per point", lambda s: And(s.result.shape[0] == s.dim_n, s.result.shape[1] == 2)),
             ("row k is the point k of the chosen outline", lambda s: forall(0, s.dim_n, lambda k: And(eqf(s.result[k, 0], s.old.x[s.old.index, k]), eqf(s.result[k, 1], s.old.y[s.old.index, k]))))],
    loops={0: [lambda s: forall(0, s.it, lambda k: And(eqf(s.v[k, 0], s.old.x[s.old.index, k]), eqf(s.v[k, 1], s.old.y[s.old.index, k])))]},
    result=lambda eng, s, b: RA(eng, "real", b["x"].shape[1], 2),
    gen=lambda rng, k: (lambda m, n: dict(x=rng_floats(rng, m * n, -3, 3).reshape(m, n), y=rng_floats(rng, m * n, -3, 3).reshape(m, n), index=rng.randrange(m)))(rng.randint(1, 3), rng.randint(1, 5)))


# ----------------------------------------------------------------- pixels of a regular grid inside an outline
def _col(s, i):
    o = s.old
    return If(o.i_x1 < o.i_x0, lambda: imod(i + o.i_x0, o.x_size), lambda: i + o.i_x0)


winding_grid = Contract(
    "poly:winding_number_grid_in_poly", dict(x_1d=P("real", "n"), y_1d=P("real", "m"), i_x0=S("int"), i_x1=S("int"), x_size=S("int"), i_y0=S("int"), xy_poly=P("real", "p", 2)),
    dims_min=dict(p=1), requires=[lambda s: And(s.x_size >= 1, s.i_x0 >= 0, s.i_x1 >= 0)],
    ensures=[("two index lists of one size", lambda s: s.result[0].n == s.result[1].n),
             ("every pixel returned is inside", lambda s: forall(0, s.result[0].n, lambda k: exists(0, s.dim_n, lambda i: And(
                 s.result[0][k] == _col(s, i), 0 <= s.result[1][k] - s.old.i_y0, s.result[1][k] - s.old.i_y0 < s.dim_m,
                 wn(s.old.xy_poly, s.old.x_1d[i], s.old.y_1d[s.result[1][k] - s.old.i_y0]) != 0)))),
             ("every pixel inside is returned", lambda s: forall2(0, s.dim_n, 0, s.dim_m, lambda i, j: Implies(
                 wn(s.old.xy_poly, s.old.x_1d[i], s.old.y_1d[j]) != 0, lambda: exists(0, s.result[0].n, lambda k: And(s.result[0][k] == _col(s, i), s.result[1][k] == j + s.old.i_y0))), pat=lambda i, j: dsl.mark("node", i, j))),
             ("pixels are distinct", lambda s: forall2(0, s.result[0].n, 0, s.result[0].n, lambda k, l: Implies(
                 And(k < l, s.old.i_x1 >= s.old.i_x0), Or(s.result[0][k] != s.result[0][l], s.result[1][k] != s.result[1][l]))))],
    loops={0: [lambda s: forall2(0, s.it, 0, s.dim_m, lambda i, j: Iff(s.wn[i, j], wn(s.old.xy_poly, s.old.x_1d[i], s.old.y_1d[j]) != 0))],
           1: [lambda s: forall2(0, s.i, 0, s.dim_m, lambda i, j: Iff(s.wn[i, j], wn(s.old.xy_poly, s.old.x_1d[i], s.old.y_1d[j]) != 0)),
               lambda s: forall(0, s.it, lambda j: Iff(s.wn[s.i, j], wn(s.old.xy_poly, s.old.x_1d[s.i], s.old.y_1d[j]) != 0)), lambda s: s.x_pt == s.old.x_1d[s.i]]},
    sizes=[dict(n=a, m=b, p=3) for a in (1, 2) for b in (1, 2)], bmc=False,
    result=lambda eng, s, b: (lambda n: (RA(eng, "int", n), RA(eng, "int", n)))(_nn(eng)),
    gen=lambda rng, k: (lambda n, m, c: dict(x_1d=np.sort(rng_floats(rng, n, -4, 4)) + 0.01, y_1d=np.sort(rng_floats(rng, m, -4, 4)) + 0.013, i_x0=c[0], i_x1=c[1], x_size=c[2], i_y0=rng.randint(0, 5),
                                             xy_poly=rnd_poly(rng, closed=True)))(rng.randint(0, 6), rng.randint(0, 6), rng.choice([(0, 6, 9), (2, 8, 20), (7, 3, 10), (8, 4, 9), (0, 0, 1)])))


def _nn(eng):
    n = eng.fresh("int", "nn")
    eng._add(n >= 0)
    return n


# ----------------------------------------------------------------- couples of outlines
def rext(which, a, i):
    """min/max of row i"""
    if hasattr(a, "a"):
        return float(getattr(a.a[i], which)())
    return dsl.extremum(which, a._f, a.shape[1], i)


def dwrap(d):
    """difference of longitudes in [-180, 180["""
    return rmod(d + 180, num(360.0, d)) - 180


def boxes_meet(s, a, b):
    o = s.old
    m0, M0, m1, M1 = rext("min", o.x0, a), rext("max", o.x0, a), rext("min", o.x1, b), rext("max", o.x1, b)
    d = dwrap(m1 - m0)
    return And(rext("max", o.y0, a) >= rext("min", o.y1, b), rext("min", o.y0, a) <= rext("max", o.y1, b), d <= M0 - m0, d + (M1 - m1) >= 0)


def _pairs_inv(i, j, ok, done, nb0, nb1):
    """(i, j) lists exactly the couples of `done` satisfying ok, in lexicographic order"""
    return [i.n == j.n, forall(0, i.n, lambda k: And(0 <= i[k], i[k] < nb0, 0 <= j[k], j[k] < nb1, done(i[k], j[k]), ok(i[k], j[k]))),
            forall2(0, i.n, 0, i.n, lambda k, l: Implies(k < l, Or(i[k] < i[l], And(i[k] == i[l], j[k] < j[l])))),
            forall2(0, nb0, 0, nb1, lambda a, b: Implies(And(done(a, b), ok(a, b)), lambda: exists(0, i.n, lambda k: And(i[k] == a, j[k] == b))))]


def _gen_boxes(rng, k):
    n0, n1, m = rng.randint(1, 4), rng.randint(1, 4), rng.randint(3, 5)
    c = rng.choice([0.0, 180.0, 359.0, -179.0])
    def lst(n):
        xc = c + rng_floats(rng, n, -6, 6, 0.5) + np.array([rng.choice([0, 0, 360, -360]) for _ in range(n)], dtype="f8")
        return xc[:, None] + rng_floats(rng, n * m, -2, 2, 0.5).reshape(n, m), rng_floats(rng, n, -6, 6, 0.5)[:, None] + rng_floats(rng, n * m, -2, 2, 0.5).reshape(n, m)
    (x0, y0), (x1, y1) = lst(n0), lst(n1)
    return dict(x0=x0, y0=y0, x1=x1, y1=y1)


def _bb_tables(s, upto):
    o = s.old
    return forall(0, upto, lambda b: And(eqf(s.x1_min[b], rext("min", o.x1, b)), eqf(s.x1_max[b], rext("max", o.x1, b)), eqf(s.y1_min[b], rext("min", o.y1, b)), eqf(s.y1_max[b], rext("max", o.y1, b))))


def _far_wrap(s):
    """ghost fact: wrapping both bounds of a narrow box shifts them by the same turn, or puts the upper one a turn below"""
    o = s.old

    def f(a, b):
        m0, m1, M1 = rext("min", o.x0, a), rext("min", o.x1, b), rext("max", o.x1, b)
        ref = m0 - 180
        (q, r), (Q, R) = dsl.rdivmod(m1 - ref, real(360)), dsl.rdivmod(M1 - ref, real(360))
        return And(M1 >= m1, 0 <= Q - q, Q - q <= 1, Or(Q == q, Q == q + 1), R == r + (M1 - m1) - 360 * z3.ToReal(Q - q), dwrap(m1 - m0) == r - 180)
    return forall2(0, s.dim_n0, 0, s.dim_n1, f)


bbox_intersection = Contract(
    "poly:bbox_intersection", dict(x0=P("real", "n0", "m0"), y0=P("real", "n0", "m0"), x1=P("real", "n1", "m1"), y1=P("real", "n1", "m1")), dims_min=dict(m0=1, m1=1),
    requires=[("outlines narrower than 90 degrees", lambda s: And(forall(0, s.dim_n0, lambda a: rext("max", s.x0, a) - rext("min", s.x0, a) < 90),
                                                                  forall(0, s.dim_n1, lambda a: rext("max", s.x1, a) - rext("min", s.x1, a) < 90)))],
    ensures=[("exactly the couples whose boxes overlap, each once, in order", lambda s: _pairs_inv(s.result[0], s.result[1], lambda a, b: boxes_meet(s, a, b), lambda a, b: True, s.dim_n0, s.dim_n1))],
    loops={0: [lambda s: _bb_tables(s, s.it), _far_wrap],
           1: [lambda s: _pairs_inv(s.i, s.j, lambda a, b: boxes_meet(s, a, b), lambda a, b: a < s.it, s.dim_n0, s.dim_n1)],
           2: [lambda s: _pairs_inv(s.i, s.j, lambda a, b: boxes_meet(s, a, b), lambda a, b: Or(a < s.i0, And(a == s.i0, b < s.it)), s.dim_n0, s.dim_n1)]},
    gen=_gen_boxes, bmc=False, fuzz_n=400, result=lambda eng, s, b: (lambda n: (RA(eng, "int", n), RA(eng, "int", n)))(_nn(eng)))


def centers_meet(s, a, b):
    o = s.old
    return And(fabs(dwrap(o.x1[b] - o.x0[a])) <= o.delta, fabs(o.y1[b] - o.y0[a]) <= o.delta)


close_center = Contract(
    "poly:close_center", dict(x0=P("real", "n0"), y0=P("real", "n0"), x1=P("real", "n1"), y1=P("real", "n1"), delta=S("real")),
    requires=[lambda s: And(s.delta >= 0, s.delta < 180)],
    ensures=[("exactly the couples of close centers, each once, in order, with a cost of 1", lambda s: _pairs_inv(s.result[0], s.result[1], lambda a, b: centers_meet(s, a, b), lambda a, b: True, s.dim_n0, s.dim_n1)
              + [s.result[2].n == s.result[0].n, forall(0, s.result[2].n, lambda k: s.result[2][k] == 1)])],
    loops={0: [lambda s: _pairs_inv(s.i, s.j, lambda a, b: centers_meet(s, a, b), lambda a, b: a < s.it, s.dim_n0, s.dim_n1), lambda s: [s.c.n == s.i.n, forall(0, s.c.n, lambda k: s.c[k] == 1)]],
           1: [lambda s: _pairs_inv(s.i, s.j, lambda a, b: centers_meet(s, a, b), lambda a, b: Or(a < s.i0, And(a == s.i0, b < s.it)), s.dim_n0, s.dim_n1), lambda s: [s.c.n == s.i.n, forall(0, s.c.n, lambda k: s.c[k] == 1)]]},
    bmc=False, fuzz_n=400,
    gen=lambda rng, k: (lambda n, m: dict(x0=rng_floats(rng, n, -2, 2, 0.25) + 180 + rng.choice([0, 360, -360]), y0=rng_floats(rng, n, -2, 2, 0.25), x1=rng_floats(rng, m, -2, 2, 0.25) - 180, y1=rng_floats(rng, m, -2, 2, 0.25),
                                          delta=rng.choice([0.0, 0.25, 0.5, 1.0, 2.0])))(rng.randint(1, 5), rng.randint(1, 5)))


get_wrap_vertice = Contract(
    "poly:get_wrap_vertice", dict(x0=P("real", "n0", "m0"), y0=P("real", "n0", "m0"), x1=P("real", "n1", "m1"), y1=P("real", "n1", "m1"), i=S("int")), dims_min=dict(m0=1, m1=1),
    requires=[lambda s: And(0 <= s.i, s.i < s.dim_n0, s.i < s.dim_n1)],
    ensures=[("sizes", lambda s: And(s.result[0].shape[0] == s.dim_m0, s.result[1].shape[0] == s.dim_m1)),
             ("first outline unchanged", lambda s: forall(0, s.dim_m0, lambda k: And(eqf(s.result[0][k, 0], s.old.x0[s.old.i, k]), eqf(s.result[0][k, 1], s.old.y0[s.old.i, k])))),
             ("second outline in the turn of the first one", lambda s: forall(0, s.dim_m1, lambda k: And(eqf(s.result[1][k, 1], s.old.y1[s.old.i, k]), eqf(s.result[1][k, 0], _turn1(s, k)))))],
    bmc=False, gen=lambda rng, k: (lambda d: dict(d, i=rng.randrange(min(len(d["x0"]), len(d["x1"])))))(_gen_boxes(rng, k)),
    result=lambda eng, s, b: (RA(eng, "real", b["x0"].shape[1], 2), RA(eng, "real", b["x1"].shape[1], 2)))


def _turn1(s, k):
    o = s.old
    a, b = o.x0[o.i, 0], o.x1[o.i, 0]
    v = o.x1[o.i, k]
    return If(fabs(a - b) > 180, rmod(v - a + 180, num(360.0, a)) + a - 180, v)


# ----------------------------------------------------------------- outline without its repeated end
def _first_pt(s, k):
    return And(s.old.x[k] == s.old.x[0], s.old.y[k] == s.old.y[0])


reduce_size = Contract(
    "poly:reduce_size", dict(x=P("real", "n"), y=P("real", "n")), dims_min=dict(n=3),
    ensures=[("a prefix of the outline", lambda s: And(s.result[0].n == s.result[1].n, s.result[0].n <= s.dim_n, s.result[0].n >= 3,
                                                       forall(0, s.result[0].n, lambda k: And(s.result[0][k] == s.old.x[k], s.result[1][k] == s.old.y[k])))),
             ("only repetitions of the first point are dropped", lambda s: forall(s.result[0].n, s.dim_n, lambda k: _first_pt(s, k))),
             ("no repetition of the first point is left (beyond three points)", lambda s: Or(s.result[0].n == 3, Not(_first_pt(s, s.result[0].n - 1))))],
    loops={0: [lambda s: And(0 <= s.i, s.i <= s.dim_n), lambda s: forall(s.i, s.dim_n, lambda k: _first_pt(s, k))]},
    result=lambda eng, s, b: _prefix(eng, s, b),
    gen=lambda rng, k: (lambda v: dict(x=v[:, 0].copy(), y=v[:, 1].copy()))(np.concatenate([q := rnd_poly(rng, closed=False), np.repeat(q[:1], rng.randint(0, 3), axis=0)]) if rng.random() < 0.8 else np.ones((rng.randint(3, 6), 2))))


def _prefix(eng, s, b):
    """views on the first r points"""
    from vc.nplib import getitem
    r = _nn(eng)
    eng._add(z3.And(r >= 3, r <= toint(b["x"].shape[0])))
    return getitem(eng, b["x"], slice(None, r, None), None), getitem(eng, b["y"], slice(None, r, None), None)


def _gp_x(s, i):
    """longitude of grid column i in the turn of the outline"""
    o = s.old
    ref = o.vertices[0, 0]
    v = o.x_c[i]
    return If(o.x_stop < o.x_start, lambda: rmod(v - ref + 180, num(360.0, v)) + ref - 180, lambda: v)


def _gp_at(s, i):
    """position of grid column i in the window"""
    o = s.old
    return If(o.x_stop < o.x_start, lambda: If(i >= o.x_start, i - o.x_start, i + s.dim_n - o.x_start), lambda: i - o.x_start)


def _gp_in(s, i):
    o = s.old
    return If(o.x_stop < o.x_start, lambda: Or(i >= o.x_start, i < o.x_stop), lambda: And(o.x_start <= i, i < o.x_stop))


get_pixel_in_regular = Contract(
    "poly:get_pixel_in_regular", dict(vertices=P("real", "p", 2), x_c=P("real", "n"), y_c=P("real", "m"), x_start=S("int"), x_stop=S("int"), y_start=S("int"), y_stop=S("int")), dims_min=dict(p=1, n=1),
    requires=[lambda s: And(0 <= s.x_start, s.x_start <= s.dim_n, 0 <= s.x_stop, s.x_stop <= s.dim_n, 0 <= s.y_start, s.y_start <= s.y_stop, s.y_stop <= s.dim_m)],
    ensures=[("two index lists of one size", lambda s: s.result[0].n == s.result[1].n),
             ("every pixel returned is a node of the window inside the outline", lambda s: forall(0, s.result[0].n, lambda k: And(
                 0 <= s.result[0][k], s.result[0][k] < s.dim_n, _gp_in(s, s.result[0][k]), s.old.y_start <= s.result[1][k], s.result[1][k] < s.old.y_stop,
                 wn(s.old.vertices, _gp_x(s, s.result[0][k]), s.old.y_c[s.result[1][k]]) != 0))),
             ("every node of the window inside the outline is returned", lambda s: forall2(0, s.dim_n, 0, s.dim_m, lambda i, j: Implies(
                 And(_gp_in(s, i), s.old.y_start <= j, j < s.old.y_stop, dsl.mark("node", _gp_at(s, i), j - s.old.y_start), wn(s.old.vertices, _gp_x(s, i), s.old.y_c[j]) != 0),
                 lambda: exists(0, s.result[0].n, lambda k: And(s.result[0][k] == i, s.result[1][k] == j)))))],
    bmc=False, fuzz_n=120,
    gen=lambda rng, k: _gen_gp(rng))


def _gen_gp(rng):
    v = rnd_poly(rng, closed=True) + 0.0
    if rng.random() < 0.5:
        xc = np.arange(0.0, 360.0, 4.0) + 0.1
        c = rng.choice([0.0, 358.0, 180.0, 360.0, -180.0])
        v[:, 0] += c
        x0, x1 = int((v[:, 0].min() // 4) % 90), int((v[:, 0].max() // 4 + 1) % 90)
        yc = np.arange(-6, 6, 1.0) + 0.013
        return dict(vertices=v, x_c=xc, y_c=yc, x_start=x0, x_stop=x1, y_start=rng.randint(0, 3), y_stop=rng.randint(8, 12))
    n, m = rng.randint(1, 6), rng.randint(0, 6)
    a, b = sorted((rng.randint(0, m), rng.randint(0, m)))
    return dict(vertices=v, x_c=np.sort(rng_floats(rng, n, -4, 4)) + 0.01, y_c=np.sort(rng_floats(rng, m, -4, 4)) + 0.013, x_start=rng.randint(0, n), x_stop=rng.randint(0, n), y_start=a, y_stop=b)


# ----------------------------------------------------------------- lists of outlines
def _rowturn(s, i, k):
    o = s.old
    x, y = o.x, o.y
    n = s.dim_n
    p = If(k == 0, n - 2, k - 1) if is_z3(k) or is_z3(n) else (n - 2 if k == 0 else k - 1)
    return cross(x[i, p], y[i, p], x[i, k], y[i, k], x[i, k + 1], y[i, k + 1]) > 0


def _gen_rings(rng, k):
    n, p = rng.randint(0, 3), rng.randint(3, 6)
    v = [rnd_poly(rng, n=p, closed=True) for _ in range(n)]
    v = np.array(v).reshape(n, p + 1, 2)
    return dict(x=v[:, :, 0].copy(), y=v[:, :, 1].copy())


convexs = Contract(
    "poly:convexs", dict(x=P("real", "m", "n"), y=P("real", "m", "n")), dims_min=dict(n=4),
    requires=[("closed outlines", lambda s: forall(0, s.dim_m, lambda i: And(s.x[i, 0] == s.x[i, s.dim_n - 1], s.y[i, 0] == s.y[i, s.dim_n - 1])))],
    ensures=[("one flag per outline: every corner turns to the same side", lambda s: And(s.result.n == s.dim_m, forall(0, s.dim_m, lambda i: Iff(
        s.result[i], forall(0, s.dim_n - 1, lambda k: Iff(_rowturn(s, i, k), _rowturn(s, i, 0)))))))],
    loops={0: [lambda s: forall(0, s.it, lambda i: Iff(s.flag[i], forall(0, s.dim_n - 1, lambda k: Iff(_rowturn(s, i, k), _rowturn(s, i, 0)))))]},
    gen=_gen_rings, bmc=False)

poly_area_vertice = Contract(
    "poly:poly_area_vertice", dict(v=P("real", "n", 2)), dims_min=dict(n=3),
    requires=[("closed outline", lambda s: And(s.v[0, 0] == s.v[s.dim_n - 1, 0], s.v[0, 1] == s.v[s.dim_n - 1, 1]))],
    ensures=[("half of the absolute shoelace sum", lambda s: eqf(s.result, fabs(shoe_of(lambda k: s.old.v[k, 0], lambda k: s.old.v[k, 1])(s.dim_n - 1)) / 2))],
    gen=lambda rng, k: dict(v=rnd_poly(rng, closed=True)), bmc=False)


# ----------------------------------------------------------------- shape error
def _clip(s, k):
    o = s.old
    dx, dy = o.x[k] - o.x0, o.y[k] - o.y0
    d = usqrt(dx * dx + dy * dy)
    rd = o.r / d
    return If(rd < 1, o.x0 + dx * rd, o.x[k]), If(rd < 1, o.y0 + dy * rd, o.y[k])


def _shape_error(s):
    o, n = s.old, s.dim_n
    a = fabs(_shoe(s)(n - 1)) / 2
    b = fabs(memo(s, "clip", lambda: shoe_of(lambda k: _clip(s, k)[0], lambda k: _clip(s, k)[1]))(n - 1)) / 2
    return 100 + (a - 2 * b) / (o.r * o.r * num(math.pi, o.r)) * 100


shape_error = Contract(
    "poly:shape_error", dict(x=P("real", "n"), y=P("real", "n"), x0=S("real"), y0=S("real"), r=S("real")), dims_min=dict(n=3),
    requires=[("closed outline", lambda s: And(s.x[0] == s.x[s.dim_n - 1], s.y[0] == s.y[s.dim_n - 1])), lambda s: s.r > 0,
              ("no vertex at the center", lambda s: forall(0, s.dim_n, lambda k: Or(s.x[k] != s.x0, s.y[k] != s.y0)))],
    ensures=[("area of the outline and the circle minus twice the area of the clipped outline, in percent of the circle", lambda s: eqf(s.result, _shape_error(s)))],
    loops={0: [lambda s: And(s.c_area == s.old.r * s.old.r * num(math.pi, s.old.r), s.p_area == fabs(_shoe(s)(s.dim_n - 1)) / 2),
               lambda s: forall(0, s.it, lambda k: And(s.x[k] == _clip(s, k)[0], s.y[k] == _clip(s, k)[1])),
               lambda s: forall(s.it, s.dim_n, lambda k: And(s.x[k] == s.old.x[k], s.y[k] == s.old.y[k]))]},
    bmc=False, gen=lambda rng, k: (lambda v: dict(x=v[:, 0].copy(), y=v[:, 1].copy(), x0=rng.uniform(-2, 2), y0=rng.uniform(-2, 2), r=rng.uniform(0.3, 5)))(rnd_poly(rng, closed=True)))


# ----------------------------------------------------------------- positions attributed to outlines
def box_x(x):
    """column of one degree boxes"""
    return rfloor(rmod(x, num(360.0, x)))


def box_y(y):
    return rfloor(y + 90)


box_index = Contract(
    "poly:box_index", dict(x=S("real"), y=S("real"), step=C(1.0), nb_x=C(360)), requires=[lambda s: And(s.y >= -90, s.y <= 90)],
    ensures=[("index of the one degree box", lambda s: s.result == box_x(s.old.x) + 360 * box_y(s.old.y))],
    bmc=False, gen=lambda rng, k: dict(x=rng.choice([rng.uniform(-400, 400), float(rng.randint(-400, 400))]), y=rng.choice([rng.uniform(-90, 90), float(rng.randint(-90, 90))]), step=1.0, nb_x=360),
    result=lambda eng, s, b: eng.fresh("int", "box"))
box_indexes = Contract(
    "poly:box_indexes", dict(x=S("real"), y=S("real"), step=C(1.0)), requires=[lambda s: And(s.y >= -90, s.y <= 90)],
    ensures=[("indexes of the one degree box", lambda s: And(s.result[0] == box_x(s.old.x), s.result[1] == box_y(s.old.y)))],
    bmc=False, gen=lambda rng, k: dict(x=rng.choice([rng.uniform(-400, 400), float(rng.randint(-400, 400))]), y=rng.choice([rng.uniform(-90, 90), float(rng.randint(-90, 90))]), step=1.0),
    result=lambda eng, s, b: (eng.fresh("int", "bi"), eng.fresh("int", "bj")))


def _pi_turn(s, c, p):
    """longitude of position p within 180 degrees of the western end of outline c"""
    o = s.old
    m = rext("min", o.x_c, c)
    return rmod(o.x_p[p] - m + 180, num(360.0, m)) + m - 180


def _pi_wn(s):
    o = s.old
    return memo(s, "wnrows", lambda: wn_rows(o.x_c, o.y_c))


def _pi_def(s, nm, body, sorts, sort="bool"):
    """named function of the positions and outlines of one call"""
    return memo(s, "def_" + nm, lambda: dsl.define(("pi_" + nm, id(s.old)), body, sorts, sort))


def inside(s, c, p):
    return _pi_def(s, "inside", lambda c, p: _pi_wn(s)(c, _pi_turn(s, c, p), s.old.y_p[p]) != 0, ("int", "int"))(c, p)


def _bx(s, p):
    return _pi_def(s, "bx", lambda p: box_x(s.old.x_p[p]), ("int",), "int")(p)


def _by(s, p):
    return _pi_def(s, "by", lambda p: box_y(s.old.y_p[p]), ("int",), "int")(p)


def attributed(s, c, p):
    """outline given to position p when the first c outlines are looked at"""
    return memo(s, "attributed", lambda: RecP(("attr", id(s.old)), lambda k, v, p: If(v != -1, v, lambda: If(inside(s, k, p), k, -1)), -1, ("int",), name="attributed"))(c, p)


def _pi_first(s, p, upto, res):
    """res is the first outline, among the first `upto`, that contains position p (-1 when there is none)"""
    return And(forall(0, If(res == -1, upto, res), lambda c: Not(inside(s, c, p))), res >= -1, res < upto, If(And(0 <= res, res < upto), lambda: inside(s, res, p), lambda: res == -1))


def _pi_pos(s, p):
    """position of p in the sorted order"""
    if s.i_order.perm_inv is None:
        raise TypeError("i_order is not an argsort")
    return s.i_order.perm_inv(toint(p))


def _pi_boxes(s):
    """ghost: box of every position, and the members of every slot"""
    def box(p):
        return And(s.i[p] == _bx(s, p) + 360 * _by(s, p), 0 <= _bx(s, p), _bx(s, p) < 360, 0 <= _by(s, p), _by(s, p) <= 180, 0 <= _pi_pos(s, p), _pi_pos(s, p) < s.dim_n, s.i_order[_pi_pos(s, p)] == p)
    return And(forall(0, s.dim_n, box),
               forall2(0, s.start_index.n, 0, s.dim_n, lambda q, p: Iff(And(s.start_index[q] <= _pi_pos(s, p), _pi_pos(s, p) < s.end_index[q]), _bx(s, p) + 360 * _by(s, p) == q + s.i_first)),
               forall(0, s.dim_n, lambda p: And(0 <= _bx(s, p) + 360 * _by(s, p) - s.i_first, _bx(s, p) + 360 * _by(s, p) - s.i_first < s.start_index.n)))


def _pi_cover(s):
    """ghost: the positions inside the outline are in the boxes of its extent (by steps: bounding box, turns of the bounds, turn of the position, boxes)"""
    c, o = s.i_contour, s.old
    c360 = real(360)
    m, M = s.x_c_min, s.x_c_max
    (qm, rm), (qM, rM) = dsl.rdivmod(m, c360), dsl.rdivmod(M, c360)

    def quot(p):
        (qx, rx), (k, r) = dsl.rdivmod(o.x_p[p], c360), dsl.rdivmod(o.x_p[p] - m + 180, c360)
        return qx, rx, k

    def turns(p):
        qx, rx, k = quot(p)
        t = _pi_turn(s, c, p)
        return And(t == rx + 360 * z3.ToReal(qx - k), 0 <= qx - k - qm, qx - k <= qM)
    return [forall(0, s.dim_n, lambda p: Implies(inside(s, c, p), And(_pi_turn(s, c, p) >= m, _pi_turn(s, c, p) <= M, o.y_p[p] >= s.y_c_min, o.y_p[p] <= s.y_c_max))),
            And(m == rm + 360 * z3.ToReal(qm), M == rM + 360 * z3.ToReal(qM), M - m < 180, M >= m, 0 <= qM - qm, qM - qm <= 1),
            And(Implies(qM == qm, s.i1 == rfloor(rM)), Implies(qM == qm + 1, s.i1 == rfloor(rM) + 360), s.i0 == rfloor(rm)),
            forall(0, s.dim_n, lambda p: Implies(inside(s, c, p), lambda: turns(p))),
            forall(0, s.dim_n, lambda p: Implies(inside(s, c, p), And(_pi_col(s, p, s.i0, s.i1 + 1), _pi_row(s, p, s.j0, s.j1 + 1))))]


def _pi_range(s):
    return And(0 <= s.i0, s.i0 < 360, s.i0 <= s.i1, s.i1 < s.i0 + 360, 0 <= s.j0, s.j0 <= s.j1, s.j1 <= 180)


def _pi_raw(s):
    return If(s.i_x >= s.i0, s.i_x, s.i_x + 360)


def _pi_state(s, done):
    """during contour i_contour: positions already visited are settled for it, the others are as after the previous contours"""
    c = s.i_contour
    return forall(0, s.dim_n, lambda p: s.indexs[p] == If(attributed(s, c, p) != -1, attributed(s, c, p), If(And(inside(s, c, p), done(p)), c, -1)))


def _pi_facts(s):
    """frame of the current contour"""
    c = s.i_contour
    o = s.old
    return And(s.x_c_min == rext("min", o.x_c, c), s.x_c_max == rext("max", o.x_c, c), s.y_c_min == rext("min", o.y_c, c), s.y_c_max == rext("max", o.y_c, c))


def _pi_col(s, p, lo, hi):
    b = _bx(s, p)
    return Or(And(lo <= b, b < hi), And(lo <= b + 360, b + 360 < hi))


def _pi_row(s, p, lo, hi):
    b = _by(s, p)
    return And(lo <= b, b < hi)


def _gen_pi(rng, k):
    nc, m = rng.randint(0, 4), rng.randint(4, 7)
    c = rng.choice([0.0, 180.0, 359.5, -179.75, 10.0])
    vs = []
    for _ in range(nc):
        v = rnd_poly(rng, n=m - 1, closed=True, lo=-2, hi=2)
        if rng.random() < 0.3:
            v[rng.randint(3, m - 1):] = v[0]
        v[:, 0] += c + rng.choice([0, 0, 360, -360]) + rng.choice([0, 0.25, 1.5])
        vs.append(v)
    vs = np.array(vs).reshape(nc, m, 2)
    n = rng.randint(1, 25)
    xp = c + rng_floats(rng, n, -4, 4, rng.choice([None, 0.25])) + np.array([rng.choice([0, 0, 360, -720]) for _ in range(n)], dtype="f8")
    yp = rng_floats(rng, n, -4, 4, rng.choice([None, 0.25]))
    return dict(x_p=xp, y_p=yp, x_c=vs[:, :, 0].copy(), y_c=vs[:, :, 1].copy())


poly_indexs = Contract(
    "poly:poly_indexs", dict(x_p=P("real", "n"), y_p=P("real", "n"), x_c=P("real", "q", "m"), y_c=P("real", "q", "m")), dims_min=dict(n=1, m=3),
    requires=[("latitudes", lambda s: And(forall(0, s.dim_n, lambda p: And(s.y_p[p] >= -90, s.y_p[p] <= 90)),
                                          forall(0, s.dim_q, lambda c: And(rext("min", s.y_c, c) >= -90, rext("max", s.y_c, c) <= 90)))),
              ("outlines narrower than 180 degrees", lambda s: forall(0, s.dim_q, lambda c: rext("max", s.x_c, c) - rext("min", s.x_c, c) < 180))],
    ensures=[("one index per position", lambda s: s.result.n == s.dim_n),
             ("first outline that contains the position, longitudes modulo 360; -1 when there is none", lambda s: forall(0, s.dim_n, lambda p: _pi_first(s, p, s.dim_q, s.result[p])))],
    loops={0: [_pi_boxes, lambda s: forall(0, s.dim_n, lambda p: s.indexs[p] == attributed(s, s.it, p)), lambda s: forall(0, s.dim_n, lambda p: _pi_first(s, p, s.it, attributed(s, s.it, p))), lambda s: s.indexs.n == s.dim_n],
           1: [_pi_boxes, _pi_facts, _pi_range, _pi_cover, lambda s: _pi_state(s, lambda p: And(_pi_col(s, p, s.i0, s.it), _pi_row(s, p, s.j0, s.j1 + 1)))],
           2: [_pi_boxes, _pi_facts, _pi_range, _pi_cover, lambda s: And(0 <= s.i_x, s.i_x < 360, s.i0 <= _pi_raw(s), _pi_raw(s) <= s.i1),
               lambda s: _pi_state(s, lambda p: Or(And(_pi_col(s, p, s.i0, _pi_raw(s)), _pi_row(s, p, s.j0, s.j1 + 1)), And(_pi_col(s, p, _pi_raw(s), _pi_raw(s) + 1), _pi_row(s, p, s.j0, s.it))))],
           3: [_pi_boxes, _pi_facts, _pi_range, _pi_cover, lambda s: _pi_state(s, lambda p: Or(And(_pi_col(s, p, s.i0, _pi_raw(s)), _pi_row(s, p, s.j0, s.j1 + 1)), And(_pi_col(s, p, _pi_raw(s), _pi_raw(s) + 1), _pi_row(s, p, s.j0, s.i_y)),
                                                              And(s.start_index[s.i_box] <= _pi_pos(s, p), _pi_pos(s, p) < s.it)))]},
    helper_loops={"group_obs": {0: [lambda s: forall(0, s.it, lambda p: s.i[p] == box_x(s.x[p]) + 360 * box_y(s.y[p]))]}},
    result=lambda eng, s, b: RA(eng, "int", s.x_p.n), bmc=False, gen=_gen_pi, fuzz_n=400, timeout=40)


insidepoly = Contract(
    "poly:insidepoly", dict(x_p=P("real", "n"), y_p=P("real", "n"), x_c=P("real", "q", "m"), y_c=P("real", "q", "m")), dims_min=dict(n=1, m=3), requires=poly_indexs.requires,
    ensures=[("one flag per position", lambda s: s.result.n == s.dim_n),
             ("true iff one outline contains the position, longitudes modulo 360", lambda s: forall(0, s.dim_n, lambda p: Iff(s.result[p], exists(0, s.dim_q, lambda c: inside(s, c, p)))))],
    bmc=False, gen=_gen_pi)


# ----------------------------------------------------------------- particles on a mesh
def _cm_def(s, nm, body, sorts, sort="bool"):
    return memo(s, "cm_" + nm, lambda: dsl.define(("cm_" + nm, id(s.old)), body, sorts, sort))


def _cm_node(s, nm, arr):
    """coordinate a steps after the last multiple of the step before the outline i"""
    o = s.old

    def f(i, a):
        m = rext("min", arr, i)
        if is_z3(m):
            return o.step * z3.ToReal(z3.ToInt(m / o.step)) + z3.ToReal(toint(a)) * o.step
        return m - m % o.step + a * o.step
    return _cm_def(s, nm, f, ("int", "int"), "real")


def _px(s, i, a):
    return _cm_node(s, "px", s.old.lons)(i, a)


def _py(s, i, b):
    return _cm_node(s, "py", s.old.lats)(i, b)


def _cm_in(s, i, a, b):
    w = memo(s, "cmwn", lambda: wn_rows(s.old.lons, s.old.lats))
    f = _cm_def(s, "in", lambda i, a, b: w(i, _px(s, i, a), _py(s, i, b)) != 0, ("int", "int", "int"))
    return And(_px(s, i, a) <= rext("max", s.old.lons, i), _py(s, i, b) <= rext("max", s.old.lats, i), f(i, a, b))


def _cm_inv(s, xs, ys, ii, done, A=None, B=None):
    """(xs, ys, ii) lists exactly the mesh nodes inside the outlines, among those that satisfy done"""
    conc_ = not is_z3(s.dim_q)
    A = 60 if conc_ else z3.Int("any_a")
    near = (lambda u, v: abs(u - v) < 1e-7) if conc_ else (lambda u, v: u == v)
    if conc_:
        o = s.old
        exp = [(i, _px(s, i, a), _py(s, i, b)) for i in range(s.dim_q) for a in range(A) if _px(s, i, a) <= rext("max", o.lons, i) for b in range(A) if _py(s, i, b) <= rext("max", o.lats, i) and _cm_in(s, i, a, b)]
        got = [(ii[k], xs[k], ys[k]) for k in range(ii.n)]
        return [xs.n == ys.n and xs.n == ii.n, len(exp) == len(got), all(e[0] == g[0] and near(e[1], g[1]) and near(e[2], g[2]) for e, g in zip(exp, got))]
    a, b = z3.Int("q_a"), z3.Int("q_b")
    k = z3.Int("q_k")
    i = z3.Int("q_i")
    kk = z3.Int("q_kk")
    if not is_z3(ii.n) and ii.n == 0:
        return [xs.n == ys.n, xs.n == 0, z3.ForAll([i, a, b], Implies(And(0 <= i, i < s.dim_q, a >= 0, b >= 0, done(i, a, b)), Not(_cm_in(s, i, a, b))), patterns=[z3.MultiPattern(_px(s, i, a), _py(s, i, b))])]
    sound = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ii.n), And(0 <= ii[k], ii[k] < s.dim_q, z3.Exists([a, b], And(a >= 0, b >= 0, _cm_in(s, ii[k], a, b), xs[k] == _px(s, ii[k], a), ys[k] == _py(s, ii[k], b))))))
    comp = z3.ForAll([i, a, b], Implies(And(0 <= i, i < s.dim_q, a >= 0, b >= 0, done(i, a, b), _cm_in(s, i, a, b)),
                                        z3.Exists([kk], z3.And(kk >= 0, kk < ii.n, ii[kk] == i, xs[kk] == _px(s, i, a), ys[kk] == _py(s, i, b)))),
                     patterns=[z3.MultiPattern(_px(s, i, a), _py(s, i, b))])
    k2 = z3.Int("q_k2")
    once = z3.ForAll([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < ii.n), z3.Or(ii[k] < ii[k2], z3.And(ii[k] == ii[k2], z3.Or(xs[k] < xs[k2], z3.And(xs[k] == xs[k2], ys[k] < ys[k2]))))))
    return [And(xs.n == ys.n, xs.n == ii.n), sound, comp, once]


def _cm_mono(s):
    i, a, b = z3.Int("q_i"), z3.Int("q_a"), z3.Int("q_b")
    return [z3.ForAll([i, a, b], z3.Implies(a <= b, f(s, i, a) <= f(s, i, b)), patterns=[z3.MultiPattern(f(s, i, a), f(s, i, b))]) for f in (_px, _py)]


def _cm_upto(s, i, x=None, y=None):
    """nothing of a later outline, column or node is listed"""
    out = [forall(0, s.i_out.n, lambda k: s.i_out[k] <= i)]
    if x is not None:
        out.append(forall(0, s.i_out.n, lambda k: Implies(s.i_out[k] == i, s.x_out[k] < x if y is None else s.x_out[k] <= x)))
    if y is not None:
        out.append(forall(0, s.i_out.n, lambda k: Implies(And(s.i_out[k] == i, s.x_out[k] == x), s.y_out[k] < y)))
    return out


create_meshed_particles = Contract(
    "poly:create_meshed_particles", dict(lons=P("real", "q", "m"), lats=P("real", "q", "m"), step=S("real")), dims_min=dict(m=3), requires=[lambda s: s.step > 0],
    ensures=[("exactly the mesh nodes inside each outline, outline by outline, west to east then south to north", lambda s: _cm_inv(s, s.result[0], s.result[1], s.result[2], lambda i, a, b: True))],
    loops={0: [lambda s: _cm_mono(s), lambda s: forall(0, s.i_out.n, lambda k: s.i_out[k] < s.it), lambda s: _cm_inv(s, s.x_out, s.y_out, s.i_out, lambda i, a, b: i < s.it)],
           1: [_cm_mono, lambda s: And(s.x == _px(s, s.i, s.it), s.y0 == _py(s, s.i, 0)), lambda s: _cm_upto(s, s.i, s.x), lambda s: _cm_inv(s, s.x_out, s.y_out, s.i_out, lambda i, a, b: Or(i < s.i, And(i == s.i, a < s.it)))],
           2: [_cm_mono, lambda s: And(s.x == _px(s, s.i, s.outer[-1]), s.x <= s.lon_max, s.y == _py(s, s.i, s.it), s.y0 == _py(s, s.i, 0)), lambda s: _cm_upto(s, s.i, s.x, s.y),
               lambda s: _cm_inv(s, s.x_out, s.y_out, s.i_out, lambda i, a, b: Or(i < s.i, And(i == s.i, Or(a < s.outer[-1], And(a == s.outer[-1], b < s.it)))))]},
    bmc=False, fuzz_n=120, gen=lambda rng, k: (lambda d: dict(lons=d["x_c"] + 0.013, lats=d["y_c"] + 0.017, step=rng.choice([0.25, 0.5, 1.0])))(_gen_pi1(rng, k)))


def _gen_pi1(rng, k):
    while True:
        d = _gen_pi(rng, k)
        if d["x_c"].shape[0]:
            return d
