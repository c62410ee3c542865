"""Contracts on the grid interpolation kernels of py_eddy_tracker/generic.py"""
from .common import *


def _circ(s):
    """the grid closes on itself: last column and (first column - step) are the same meridian"""
    o = s.old
    xs = o.x_g[1] - o.x_g[0]
    d = rmod(o.x_g[o.x_g.n - 1] - o.x_g[0] + xs + 180, 360) - 180
    return fabs(d) < (real(1e-5) if is_z3(d) else 1e-5)


def _wrapx(s, i):
    c = _circ(s)
    if is_z3(i) or is_z3(c):
        return If(c, imod(i, s.old.x_g.n), i)
    return i % s.old.x_g.n if c else i


def _xy(s, k):
    o = s.old
    return (o.x[k] - o.x_g[0]) / (o.x_g[1] - o.x_g[0]), (o.y[k] - o.y_g[0]) / (o.y_g[1] - o.y_g[0])


REGULAR = [
    ("grid steps are positive", lambda s: And(s.x_g[1] > s.x_g[0], s.y_g[1] > s.y_g[0])),
    ("the grid is regular", lambda s: And(forall(0, s.x_g.n, lambda k: eqf(s.x_g[k], s.x_g[0] + k * (s.x_g[1] - s.x_g[0]))), forall(0, s.y_g.n, lambda k: eqf(s.y_g[k], s.y_g[0] + k * (s.y_g[1] - s.y_g[0]))))),
]


def _grid(rng, mask=True):
    circ = rng.random() < 0.5
    step = rng.choice([30.0, 45.0, 60.0]) if circ else rng.choice([0.5, 2.0])
    nx = int(360 / step) if circ else rng.randint(2, 5)
    x0 = rng.choice([0.0, -180.0, 15.0, 300.0])
    ny = rng.randint(2, 4)
    y0 = rng.choice([-2.0, 0.0, 30.0])
    ys = rng.choice([0.5, 1.0])
    n = rng.randint(1, 8)
    span = 500 if circ else nx * step + 2 * step
    x = x0 + rng_floats(rng, n, -0.5 * span, 1.2 * span, step / 8)
    y = y0 + rng_floats(rng, n, -1.5 * ys, (ny + 0.5) * ys, ys / 8)
    if rng.random() < 0.6:  # several points in one cell
        for q in range(1, n):
            if rng.random() < 0.5:
                x[q], y[q] = x[q - 1] + rng.choice([0, step / 8, 360.0 if circ else 0]), y[q - 1] + rng.choice([0, ys / 8])
    d = dict(x_g=x0 + step * np.arange(nx), y_g=y0 + ys * np.arange(ny), z_g=rng_floats(rng, nx * ny, -4, 4, 0.25).reshape(nx, ny))
    if mask:
        d["m_g"] = np.array([rng.random() < 0.15 for _ in range(nx * ny)]).reshape(nx, ny)
    d.update(x=x, y=y)
    return d


def _inside(s, i, j):
    return And(i >= 0, i < s.old.x_g.n, j >= 0, j < s.old.y_g.n)


def _nearest_at(s, z, k):
    X, Y = _xy(s, k)
    fx, fy = rfloor(X), rfloor(Y)
    tol = 0 if is_z3(X) else 1e-7
    h = real(0.5) if is_z3(X) else 0.5
    out = []
    for cx in (fx, fx + 1):
        for cy in (fy, fy + 1):
            i, j = _wrapx(s, cx), cy
            near = And(fabs(X - cx) <= h + tol, fabs(Y - cy) <= h + tol)
            ins = _inside(s, i, j)
            if is_z3(X):
                out.append(And(near, If(ins, same(z[k], s.old.z_g[i, j]), isnan(z[k]))))
            elif near:
                out.append(bool(same(z[k], s.old.z_g[i, j])) if ins else bool(isnan(z[k])))
    return Or(*out)


interp2d_nearest = Contract(
    "generic:interp2d_nearest", dict(x_g=P("real", "nx"), y_g=P("real", "ny"), z_g=P("real", "nx", "ny"), x=P("real", "n"), y=P("real", "n")), dims_min=dict(nx=2, ny=2),
    requires=REGULAR,
    ensures=[("one value per position", lambda s: s.result.n == s.dim_n),
             ("value of the nearest cell, across the date line on a closed grid, nan outside", lambda s: forall(0, s.dim_n, lambda k: _nearest_at(s, s.result, k)))],
    loops={0: [lambda s: forall(0, s.it, lambda k: _nearest_at(s, s.z, k))]}, opts=dict(nan_arrays=("z",)),
    result=lambda eng, s, b: RA(eng, "float", s.x.n),
    gen=lambda rng, k: _grid(rng, False), sizes=[dict(nx=2, ny=2, n=1), dict(nx=3, ny=2, n=1), dict(nx=3, ny=3, n=2)])


def _corner(s, X, Y):
    i0, j0 = rfloor(X), rfloor(Y)
    return i0, j0, _wrapx(s, i0), _wrapx(s, i0 + 1)


def _masked(s, i0, i1, j0):
    """outside, or one of the four corners is masked"""
    m = s.old.m_g
    out = Not(And(_inside(s, i0, j0), _inside(s, i1, j0 + 1)))
    if is_z3(i0) or is_z3(i1) or is_z3(j0):
        return Or(out, m[i0, j0], m[i0, j0 + 1], m[i1, j0], m[i1, j0 + 1])
    return out or bool(m[i0, j0] or m[i0, j0 + 1] or m[i1, j0] or m[i1, j0 + 1])


def _bil_at(s, z, k):
    X, Y = _xy(s, k)
    i0, j0, a, b = _corner(s, X, Y)
    g = s.old.z_g
    mk = _masked(s, a, b, j0)
    if not is_z3(X):
        if abs(X - round(X)) < 1e-9 or abs(Y - round(Y)) < 1e-9:  # on a cell border both cells are acceptable in floating point
            if mk or isnan(z[k]):
                return True
        elif mk:
            return isnan(z[k])
    xd, yd = (X - z3.ToReal(i0), Y - z3.ToReal(j0)) if is_z3(X) else (X - i0, Y - j0)
    v = lambda: (g[a, j0] * (1 - xd) + g[b, j0] * xd) * (1 - yd) + (g[a, j0 + 1] * (1 - xd) + g[b, j0 + 1] * xd) * yd
    if is_z3(mk):
        return If(mk, isnan(z[k]), And(Not(isnan(z[k])), val(z[k]) == v()))
    return isnan(z[k]) if mk else eqf(z[k], v())


interp2d_bilinear = Contract(
    "generic:interp2d_bilinear", dict(x_g=P("real", "nx"), y_g=P("real", "ny"), z_g=P("real", "nx", "ny"), m_g=P("bool", "nx", "ny"), x=P("real", "n"), y=P("real", "n")), dims_min=dict(nx=2, ny=2),
    requires=REGULAR + [("positions within 1e7 cells of the grid", lambda s: forall(0, s.dim_n, lambda k: And(fabs(_xy(s, k)[0]) < 10000000, fabs(_xy(s, k)[1]) < 9000000)))],
    ensures=[("one value per position", lambda s: s.result.n == s.dim_n),
             ("bilinear combination of the four corners, nan when a corner is masked or outside", lambda s: forall(0, s.dim_n, lambda k: _bil_at(s, s.result, k)))],
    loops={0: [lambda s: forall(0, s.it, lambda k: _bil_at(s, s.z, k)),
               lambda s: Iff(s.is_circular, _circ(s)),
               lambda s: Implies(s.i0_old != -100000000, lambda: And(
                   Iff(s.masked, _masked(s, _wrapx(s, s.i0_old), _wrapx(s, s.i0_old + 1), s.j0_old)),
                   Implies(_circ(s), And(s.i0_old >= 0, s.i0_old < s.dim_nx)))),
               lambda s: Implies(And(s.i0_old != -100000000, Not(s.masked)), lambda: And(
                   s.z00 == s.old.z_g[_wrapx(s, s.i0_old), s.j0_old], s.z10 == s.old.z_g[_wrapx(s, s.i0_old + 1), s.j0_old],
                   s.z01 == s.old.z_g[_wrapx(s, s.i0_old), s.j0_old + 1], s.z11 == s.old.z_g[_wrapx(s, s.i0_old + 1), s.j0_old + 1]))]}, opts=dict(nan_arrays=("z",)),
    result=lambda eng, s, b: RA(eng, "float", s.x.n),
    gen=lambda rng, k: _grid(rng), sizes=[dict(nx=2, ny=2, n=1), dict(nx=3, ny=2, n=1), dict(nx=3, ny=3, n=2)])
