"""Contracts on the coordinates of grids (dataset/grid.py): centers and bounds of the cells, steps"""
from vc.contract import D, O

from .common import *

_MOD = "dataset.grid:"
_NEW = ("x_c", "y_c", "x_bounds", "y_bounds")
_SIZE = ("x_size", "_x_step", "_y_step")


def _bounds(a, b, n):
    """bounds halfway between centers, half the last step after the last one"""
    d = lambda k: If(k < n - 1, lambda: a[k + 1] - a[k], lambda: a[n - 1] - a[n - 2])
    return And(b.n == n + 1, forall(0, n, lambda k: eqf(b[k], a[k] - d(k) / 2)), eqf(b[n], a[n - 1] + d(n - 1) / 2))


def _centers(b, c, n):
    """coordinates are the low bounds of the cells: centers halfway to the next one"""
    d = lambda k: If(k < n - 1, lambda: b[k + 1] - b[k], lambda: b[n - 1] - b[n - 2])
    return And(c.n == n, forall(0, n, lambda k: eqf(c[k], b[k] + d(k) / 2)))


c_to_bounds = Contract(
    _MOD + "GridDataset.c_to_bounds", dict(c=P("real", "n")), requires=[("two centers", lambda s: s.dim_n >= 2)],
    ensures=[("bounds halfway between centers", lambda s: _bounds(s.old.c, s.result, s.dim_n))], bmc=False,
    gen=lambda rng, k: dict(c=np.cumsum(rng_floats(rng, rng.randint(2, 6), 0.125, 3, 0.125))))


def _self(cls, centered, **kw):
    return O(_MOD + cls, coordinates=T(C("lon"), C("lat")), vars=D(lon=P("real", "nx"), lat=P("real", "ny")), x_dim=C(("lon",)), centered=C(centered), **{k: C(None) for k in _NEW}, **kw)


def _gen(cls, centered):
    def g(rng, k):
        from vc.worker import RealObj
        ax = lambda: rng.choice([0.0, -30.0, 350.0]) + np.cumsum(rng_floats(rng, rng.randint(2, 6), 0.125, 3, 0.125) if cls == "GridDataset" or rng.random() < 0.3 else np.full(rng.randint(2, 6), rng.choice([0.25, 1.0])))
        return dict(self=RealObj(_MOD + cls, coordinates=("lon", "lat"), vars=dict(lon=ax(), lat=ax()), x_dim=("lon",), centered=centered, **{k: None for k in _NEW}, **({k: None for k in _SIZE} if cls != "GridDataset" else {})))
    return g


def _coords(centered):
    def post(s):
        v, o = s.old.self.vars, s.self
        if centered is False:
            return And(_centers(v["lon"], o.x_c, s.dim_nx), _centers(v["lat"], o.y_c, s.dim_ny), *[And(q.n == a.n, forall(0, a.n, lambda k: eqf(q[k], a[k]))) for q, a in ((o.x_bounds, v["lon"]), (o.y_bounds, v["lat"]))])
        return And(_bounds(v["lon"], o.x_bounds, s.dim_nx), _bounds(v["lat"], o.y_bounds, s.dim_ny), *[And(q.n == a.n, forall(0, a.n, lambda k: eqf(q[k], a[k]))) for q, a in ((o.x_c, v["lon"]), (o.y_c, v["lat"]))])
    return post


def _setup(centered):
    return Contract(_MOD + "GridDataset.setup_coordinates", dict(self=_self("GridDataset", centered)), key=_MOD + "GridDataset.setup_coordinates_" + {True: "centered", None: "unknown", False: "bounds"}[centered],
                    requires=[("two centers", lambda s: And(s.dim_nx >= 2, s.dim_ny >= 2))],
                    ensures=[("cells around the centers, or from the bounds, of the file", _coords(centered)),
                             ("the coordinates read do not change", lambda s: And(*[forall(0, s.self.vars[q].n, lambda k: eqf(s.self.vars[q][k], s.old.self.vars[q][k])) for q in ("lon", "lat")]))],
                    bmc=False, gen=_gen("GridDataset", centered))


setup_centered, setup_unknown, setup_bounds = _setup(True), _setup(None), _setup(False)


def _cells(s):
    """widths of the cells"""
    v = s.old.self.vars
    out = []
    for a, n in ((v["lon"], s.dim_nx), (v["lat"], s.dim_ny)):
        d = lambda k, a=a, n=n: If(k < n - 1, lambda: a[k + 1] - a[k], lambda: a[n - 1] - a[n - 2])
        out.append(exists(0, n, lambda k: If(k < n - 1, lambda: d(k) + d(k) / 2 - d(k + 1) / 2, lambda: d(k)) < 0))
    return Or(*out)


def _cells_in(s):
    s.old = s
    return _cells(s)


def _mean_step(a, n):
    return dsl.SumFn(lambda k: a[k + 1] - a[k], 0, "real", "steps")(n - 1) / (n - 1)


regular_setup = Contract(
    _MOD + "RegularGridDataset.setup_coordinates", dict(self=_self("RegularGridDataset", True, **{k: C(None) for k in _SIZE})), requires=[("two centers", lambda s: And(s.dim_nx >= 2, s.dim_ny >= 2))],
    raises=_cells_in,
    ensures=[("coordinates that do not increase are refused", lambda s: Not(_cells(s))), ("cells around the centers", _coords(True)),
             ("size and mean steps of the grid", lambda s: And(s.self.x_size == s.dim_nx, eqf(s.self._x_step, _mean_step(s.old.self.vars["lon"], s.dim_nx)), eqf(s.self._y_step, _mean_step(s.old.self.vars["lat"], s.dim_ny))))],
    bmc=False, gen=_gen("RegularGridDataset", True))


# ---------------------------------------------------------------- box of nodes around an outline
def _steps(s):
    """ends of the outline, in steps from the low bounds of the first cells (longitudes modulo one turn)"""
    q = lambda v, z, h: dsl.nl("div", v - z, h)
    o = s
    w = dsl.nl("div", rmod(o.lon_min - o.x0[0], 360), o.xstep)
    e = dsl.nl("div", rmod(o.lon_max - o.x0[0], 360), o.xstep)
    return w, e, dsl.nl("div", o.lat_min - o.y0[0], o.ystep), dsl.nl("div", o.lat_max - o.y0[0], o.ystep)


def _in_box(circular):
    def post(s):
        w, e, b, t = _steps(s.old)
        n = s.old.x_size
        (x0, x1), (y0, y1) = s.result
        i, j = s.old.i, s.old.j
        m = i + num(0.5, w)
        if circular:
            within = If(w <= e, lambda: And(w <= m, m <= e), lambda: Or(w <= m, m <= e))
            return And(x0 >= 0, x0 < n, x1 >= 0, x1 < n, Implies(within, lambda: If(x0 <= x1, lambda: And(x0 <= i, i < x1), lambda: Or(x0 <= i, i < x1))))
        within = If(w <= e, lambda: And(w <= m, m <= e), lambda: m <= e)
        return And(x0 >= 0, x0 <= n, Implies(within, lambda: And(x0 <= i, i < x1)))

    def rows(s):
        w, e, b, t = _steps(s.old)
        (x0, x1), (y0, y1) = s.result
        j = s.old.j
        m = j + num(0.5, b)
        return And(y0 >= 0, y1 >= 0, Implies(And(b <= m, m <= t), lambda: And(y0 <= j, j < y1)))

    def extreme(s):
        v, n = s.vertices, s.dim_n
        return And(*[And(forall(0, n, lambda k: And(lo <= v[k, c], v[k, c] <= hi)), exists(0, n, lambda k: v[k, c] == lo), exists(0, n, lambda k: v[k, c] == hi)) for c, lo, hi in ((0, s.lon_min, s.lon_max), (1, s.lat_min, s.lat_max))])

    def size(s):
        w, e, b, t = _steps(s)
        n = s.x_size
        return And(s.xstep > 0, s.ystep > 0, n >= 8, s.dim_n > 0, s.N >= 1, s.N <= 2, s.i >= 0, s.i < n, s.j >= 0, *([w >= 0, w < n, e >= 0, e < n, If(w <= e, e - w < n - 8, w - e > 8)] if circular else [w >= 0, e >= 0, Or(w <= e, w - e > 8)]))

    def gen(rng, k):
        h = rng.choice([10.0, 20.0, 0.5]) if circular else rng.choice([0.25, 1.0, 2.5])
        n = int(360 / h) if circular else rng.randint(8, 14)
        z = rng.choice([0.0, -180.0, 350.0])
        m = rng.randint(1, 4)
        v = np.empty((m, 2))
        c = rng.uniform(-400, 400) if circular else z + rng.uniform(1, n - 1) * h
        v[:, 0] = c + np.array([rng.uniform(-2, 2) * h for _ in range(m)])
        v[:, 1] = rng.uniform(0, 8) + np.array([rng.uniform(-2, 2) for _ in range(m)])
        return dict(vertices=v, x0=z + h * np.arange(n + 1), y0=np.arange(9.0), xstep=h, ystep=1.0, N=rng.choice([1, 1, 2]), circular=circular, x_size=n,
                    lon_min=float(v[:, 0].min()), lon_max=float(v[:, 0].max()), lat_min=float(v[:, 1].min()), lat_max=float(v[:, 1].max()), i=rng.randrange(n), j=rng.randrange(8))
    return Contract(
        "generic:bbox_indice_regular", dict(vertices=P("real", "n", 2), x0=P("real", "nx"), y0=P("real", "ny"), xstep=S("real"), ystep=S("real"), N=S("int"), circular=C(circular), x_size=S("int"),
                                            lon_min=S("real"), lon_max=S("real"), lat_min=S("real"), lat_max=S("real"), i=S("int"), j=S("int")),
        order=["vertices", "x0", "y0", "xstep", "ystep", "N", "circular", "x_size"], key="generic:bbox_indice_regular_" + ("closed" if circular else "regional"),
        requires=[("bounds of the first cells", lambda s: And(s.dim_nx >= 1, s.dim_ny >= 1)), ("extreme coordinates of the outline", extreme), ("the outline is smaller than the grid", size)],
        ensures=[("every column between the ends of the outline is in the box", post), ("every row between the ends of the outline is in the box", rows)],
        opts=dict(opaque_nl=True), bmc=False, gen=gen, real_args=lambda a: {k: v for k, v in a.items() if k not in ("lon_min", "lon_max", "lat_min", "lat_max", "i", "j")})


box_closed, box_regional = _in_box(True), _in_box(False)
