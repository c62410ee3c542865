"""Contracts on the filters and derivatives of regular grids (dataset/grid.py)"""
from vc.contract import O

from .common import *

RG = "dataset.grid:RegularGridDataset."
_R = 6370997.0

_steps = dict(_x_step=S("real"), _y_step=S("real"))


def _grid(**kw):
    return O("dataset.grid:RegularGridDataset", **{**_steps, **kw})


def _km(s, v):
    return num(v, s.lat)


def _sx(s):
    """length of a step eastward at the latitude, in km"""
    o = s.old
    z = _km(o, 0.0)
    return o.self._x_step * haversine(z, o.lat, _km(o, 1.0), o.lat, _R) / 1000


def _sy(s):
    o = s.old
    z = _km(o, 0.0)
    return o.self._y_step * haversine(z, z, z, _km(o, 1.0), _R) / 1000


def _short(s):
    a, b = _sx(s), _sy(s)
    return Or(s.old.wave_length < 2 * a, s.old.wave_length < 2 * b)


def _short_in(s):
    s.old = s
    return _short(s)


def _gen_wave(rng, k=0):
    from vc.worker import RealObj
    xs, ys = rng.choice([0.25, 1.0, 2.0]), rng.choice([0.25, 1.0, 1.5])
    lat = rng.choice([0.0, 12.5, -42.0, 66.0, -80.0])
    return dict(self=RealObj("dataset.grid:RegularGridDataset", _x_step=xs, _y_step=ys), lat=lat, wave_length=rng.uniform(0.5, 6) * 111 * max(xs, ys))


_pos = [lambda s: And(s.self._x_step > 0, s.self._y_step > 0)]

get_step_in_km = Contract(
    RG + "get_step_in_km", dict(self=_grid(), lat=S("real"), wave_length=S("real")),
    requires=_pos, raises=_short_in,
    ensures=[("a wavelength shorter than two steps is refused", lambda s: Not(_short(s))),
             ("length of a step eastward at this latitude, in km", lambda s: eqf(s.result[0], _sx(s))),
             ("length of a step northward, in km", lambda s: eqf(s.result[1], _sy(s)))],
    result=lambda eng, s, b: (eng.fresh("real", "sx"), eng.fresh("real", "sy")), bmc=False, gen=_gen_wave)


def _covers(n, wave, step):
    """the first number of steps that covers the wavelength"""
    if is_z3(wave):
        return n == -z3.ToInt(-dsl.nl("div", wave, step))
    q = wave / step
    return n in (math.ceil(q - 1e-9), math.ceil(q + 1e-9))


def _mul(a, b):
    return dsl.nl("mul", a, b)


estimate_kernel_shape = Contract(
    RG + "estimate_kernel_shape", dict(self=_grid(), lat=S("real"), wave_length=S("real"), order=S("int")),
    requires=_pos + [lambda s: s.order >= 1, lambda s: s.wave_length > 0, ("the steps have a length", lambda s: (setattr(s, "old", s), And(_sx(s) > 0, _sy(s) > 0))[1])], raises=_short_in,
    ensures=[("half sizes: the numbers of steps that cover the wavelength", lambda s: And(_covers(s.result[0], s.old.wave_length, _sx(s)), _covers(s.result[1], s.old.wave_length, _sy(s)))),
             ("size of the half kernel", lambda s: And(s.result[2].shape[0] == s.result[0] * s.old.order + 1, s.result[2].shape[1] == 2 * s.result[1] * s.old.order + 1)),
             ("distance of each node to the center, in wavelengths", lambda s: forall2(0, s.result[2].shape[0], 0, s.result[2].shape[1], lambda i, j: eqf(
                 s.result[2][i, j], haversine(_km(s.old, 0.0), s.old.lat, _km(s.old, 1.0) * i * s.old.self._x_step, s.old.lat - s.old.self._y_step * s.result[1] * s.old.order + j * s.old.self._y_step, _R) / 1000 / s.old.wave_length)))],
    bmc=False, gen=lambda rng, k: dict(_gen_wave(rng), order=rng.randint(1, 2)))


# ----------------------------------------------------------------- derivatives
def _fd(vertical, mode):
    def want(s, i, j):
        """-> known, value"""
        o, k = s.old, s.old.schema
        n, m = s.dim_n, s.dim_m
        d = o.data
        if vertical:
            ok = And(j >= k, j < m - k)
            a, b = d[i, j + k], d[i, j - k]
            dist = num(_R, o.self._x_step) * 2 * num(math.pi, o.self._x_step) / 360 * _mul(o.self._y_step * 2, k)
        else:
            if mode == "wrap":
                ok = True
                a, b = d[imod(i + k, n), j] if not is_z3(n) else If(i + k >= n, d[i + k - n, j], d[i + k, j]), d[imod(i - k, n), j] if not is_z3(n) else If(i - k < 0, d[i - k + n, j], d[i - k, j])
            else:
                ok = And(i >= k, i < n - k)
                a, b = d[i + k, j], d[i - k, j]
            dist = num(_R, o.self._x_step) * 2 * num(math.pi, o.self._x_step) / 360 * _mul(_mul(o.self._x_step, ucos(o.self.y_c[j] * num(math.pi, o.self._x_step) / 180)) * 2, k)
        return ok, a, b, dist

    def post(s):
        def one(i, j):
            ok, a, b, dist = want(s, i, j)
            r = s.result[i, j]
            if ok is False:
                return isnan(r)
            def eq():
                bad = Or(isnan(a), isnan(b))
                return If(bad, isnan(r), lambda: eqf(r, (val(a) - val(b)) / dist) if not is_z3(dist) else And(Not(isnan(r)), val(r) == dsl.nl("div", val(a) - val(b), dist)))
            return If(ok, eq, lambda: isnan(r)) if ok is not True else eq()
        return forall2(0, s.dim_n, 0, s.dim_m, one)

    def gen(rng, k):
        from vc.worker import RealObj
        n, m = rng.randint(2, 6), rng.randint(2, 6)
        sc = rng.randint(1, min(n, m) - 1)
        y0 = rng.choice([0.5, -40.0, 60.0])
        return dict(self=RealObj("dataset.grid:RegularGridDataset", _x_step=rng.choice([0.5, 1.0]), _y_step=rng.choice([0.5, 2.0]), y_c=y0 + np.arange(m) * 1.0),
                    data=np.where(np.array([rng.random() < 0.1 for _ in range(n * m)]), nan, rng_floats(rng, n * m, -3, 3, 0.25)).reshape(n, m), schema=sc, mode=mode, vertical=vertical)
    return Contract(
        RG + "compute_finite_difference", dict(self=_grid(y_c=P("real", "m")), data=P("float", "n", "m"), schema=S("int"), mode=C(mode), vertical=C(vertical)),
        key=RG + "compute_finite_difference" + ("_v" if vertical else "_" + mode),
        requires=_pos + [lambda s: And(s.schema >= 1, s.schema < s.dim_n, s.schema < s.dim_m), ("no row at a pole", lambda s: forall(0, s.dim_m, lambda j: ucos(s.self.y_c[j] * num(math.pi, s.schema) / 180) != 0))],
        ensures=[("centered difference of the nodes on each side over their distance, nan without both nodes", post)],
        opts=dict(opaque_nl=True), bmc=False, gen=gen)


finite_difference_v = _fd(True, "reflect")
finite_difference_wrap = _fd(False, "wrap")
finite_difference_h = _fd(False, "reflect")
