"""Great-circle distance (generic.py)"""
from vc.lemma import Lemma
from .common import *

distance = Contract(
    "generic:distance", dict(lon0=S("real"), lat0=S("real"), lon1=S("real"), lat1=S("real")),
    requires=[lambda s: And(fabs(s.lat0) <= 90, fabs(s.lat1) <= 90, fabs(s.lon0) <= 1000, fabs(s.lon1) <= 1000)],
    ensures=[("great-circle (haversine) distance in metres", lambda s: eqf(s.result, haversine(s.old.lon0, s.old.lat0, s.old.lon1, s.old.lat1, 6370997.0), tol=1e-6))],
    gen=lambda rng, k: dict(lon0=rng.uniform(-400, 400), lat0=rng.uniform(-89, 89), lon1=rng.uniform(-400, 400), lat1=rng.uniform(-89, 89)), bmc=False)


def _grid_at(s, out, i, j):
    o = s.old
    dlat = fabs(o.lat1[j] - o.lat0[i])
    raw = fabs(o.lon1[j] - o.lon0[i])
    if is_z3(dlat):
        w = If(raw > 180, fabs(rmod(raw + 180, real(360)) - 180), raw)
        return If(Or(dlat > 15, w > 20), isnan(out[i, j]), And(Not(isnan(out[i, j])), val(out[i, j]) == haversine_abs(dlat, w, o.lat0[i], o.lat1[j])))
    w = abs((raw + 180) % 360 - 180)
    if abs(dlat - 15) < 1e-9 or abs(w - 20) < 1e-9:
        return True
    if dlat > 15 or w > 20:
        return isnan(out[i, j])
    return eqf(out[i, j], haversine(o.lon0[i], o.lat0[i], o.lon1[j], o.lat1[j], 6370.997), tol=1e-6)


def haversine_abs(dlat, dlon, lat0, lat1):
    d2r = real(math.pi) / 180
    sy, sx = usin(dlat * real(0.5) * d2r), usin(dlon * real(0.5) * d2r)
    a = sx * sx * ucos(lat0 * d2r) * ucos(lat1 * d2r) + sy * sy
    return real(6370.997) * 2 * uarctan2(usqrt(a), usqrt(1 - a))


def _gen_grid(rng, k):
    n, m, c = rng.randint(0, 4), rng.randint(0, 4), rng.choice([0.0, 180.0, 359.0, -179.5])
    def lons(n):
        return c + rng_floats(rng, n, -14, 14) + np.array([rng.choice([0, 0, 360, -360, 720, -720, 180]) for _ in range(n)], dtype="f8")
    return dict(lon0=lons(n), lat0=rng_floats(rng, n, -10, 10) + rng.choice([0, 0, 70]), lon1=lons(m), lat1=rng_floats(rng, m, -10, 10) + rng.choice([0, 0, 70]))


distance_grid = Contract(
    "generic:distance_grid", dict(lon0=P("real", "n"), lat0=P("real", "n"), lon1=P("real", "m"), lat1=P("real", "m")),
    requires=[lambda s: forall(0, s.lat0.n, lambda i: fabs(s.lat0[i]) <= 90), lambda s: forall(0, s.lat1.n, lambda i: fabs(s.lat1[i]) <= 90)],
    ensures=[("one value per couple", lambda s: And(s.result.shape[0] == s.dim_n, s.result.shape[1] == s.dim_m)),
             ("nan beyond 15 degrees of latitude or 20 degrees of (wrapped) longitude, else the great-circle distance in km",
              lambda s: forall2(0, s.dim_n, 0, s.dim_m, lambda i, j: _grid_at(s, s.result, i, j)))],
    loops={0: [lambda s: forall2(0, s.it, 0, s.dim_m, lambda i, j: _grid_at(s, s.dist, i, j))],
           1: [lambda s: forall2(0, s.i, 0, s.dim_m, lambda i, j: _grid_at(s, s.dist, i, j)), lambda s: forall(0, s.it, lambda j: _grid_at(s, s.dist, s.i, j))]},
    opts=dict(nan_arrays=("dist",)), bmc=False,
    result=lambda eng, s, b: RA(eng, "float", s.lon0.n, s.lon1.n),
    gen=_gen_grid)


def _sym():
    a, b, c, d = z3.Reals("lon0 lat0 lon1 lat1")
    d2r = real(math.pi) / 180
    u, v = (d - b) * real(0.5) * d2r, (c - a) * real(0.5) * d2r
    odd = [usin((b - d) * real(0.5) * d2r) == -usin(u), usin((a - c) * real(0.5) * d2r) == -usin(v)]  # sin is odd
    h1, h2 = hav_a(a, b, c, d), hav_a(c, d, a, b)
    zero = [usin(real(0)) == 0]
    A = z3.Real("A")
    return [("haversine argument is symmetric", odd, h1 == h2),
            ("d(p,q) == d(q,p)", [h1 == h2], haversine(a, b, c, d, 6370997.0) == haversine(c, d, a, b, 6370997.0)),
            ("haversine argument of one point is 0", zero, hav_a(a, b, a, b) == 0),
            ("d(p,p) == 0", [A == 0, usqrt(real(0)) == 0, usqrt(real(1)) == 1, uarctan2(real(0), real(1)) == 0], real(6370997.0) * 2 * uarctan2(usqrt(A), usqrt(1 - A)) == 0)]


def _turn():
    """a whole turn on one longitude changes sin(dlon/2) to its opposite: sin(x + pi) = -sin(x)"""
    a, b, c, d = z3.Reals("lon0 lat0 lon1 lat1")
    d2r = real(math.pi) / 180
    v, w = (c - a) * real(0.5) * d2r, (c + 360 - a) * real(0.5) * d2r
    return [("d is unchanged by a whole turn", [usin(w) == -usin(v)], haversine(a, b, c + 360, d, 6370997.0) == haversine(a, b, c, d, 6370997.0))]


distance_symmetric = Lemma("distance is symmetric and null at one point", _sym)
distance_turn = Lemma("distance is invariant under whole turns of longitude", _turn)
