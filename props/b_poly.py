"""Bounded scenarios: outlines (run in the repository's interpreter)"""
import math

import numpy as np

from props.adapters import Bad, check


def star(rng, n, r0=0.5, r1=4.0, ccw=True):
    a = np.sort([rng.uniform(0, 2 * math.pi) for _ in range(n)])
    if not ccw:
        a = a[::-1]
    r = np.array([rng.uniform(r0, r1) for _ in range(n)])
    return r * np.cos(a), r * np.sin(a)


def close(x, y):
    return np.append(x, x[0]), np.append(y, y[0])


def cross(x0, y0, x1, y1, xt, yt):
    return (x1 - x0) * (yt - y0) - (xt - x0) * (y1 - y0)


def visvalingam(rng):
    """points removed one by one, always the one with the smallest triangle"""
    from py_eddy_tracker.poly import visvalingam as f
    n = rng.randint(4, 30)
    x, y = star(rng, n, ccw=rng.random() < 0.5)
    if rng.random() < 0.5:
        x, y = close(x, y)
    x, y = x + rng.uniform(-5, 5), y + rng.uniform(-5, 5)
    size = rng.randint(4, 22)
    xn, yn = f(x, y, size)
    idx = list(range(len(x)))
    while len(idx) >= size:
        area = [abs(cross(x[idx[k - 1]], y[idx[k - 1]], x[idx[k]], y[idx[k]], x[idx[(k + 1) % len(idx)]], y[idx[(k + 1) % len(idx)]])) for k in range(len(idx))]
        idx.pop(int(np.argmin(area)))
    d = dict(x=x, y=y, size=size, got=(xn, yn), expected=(x[idx], y[idx]))
    check(len(xn) == size and len(yn) == size, "the size of the simplified outline is the one asked for", **d)
    k = len(idx)
    check((xn[k:] == xn[0]).all() and (yn[k:] == yn[0]).all(), "the end of the array repeats the first point", **d)

    def ring(x, y):
        p = list(zip(np.asarray(x).tolist(), np.asarray(y).tolist()))
        i = p.index(min(p))
        return p[i:] + p[:i]
    check(ring(xn[:k], yn[:k]) == ring(x[idx], y[idx]), "the points kept are those left by removing the smallest triangle again and again", **d)


def convex_hull(rng):
    from py_eddy_tracker.poly import convex, get_convex_hull
    n = rng.randint(4, 15)
    x, y = close(*star(rng, n))
    hx, hy = get_convex_hull(x, y)
    d = dict(x=x, y=y, hull=(hx, hy))
    pts = set(zip(x.tolist(), y.tolist()))
    check(hx[0] == hx[-1] and hy[0] == hy[-1], "the hull is closed", **d)
    check(all(p in pts for p in zip(hx.tolist(), hy.tolist())), "the vertices of the hull are vertices of the outline", **d)
    for k in range(len(hx) - 1):
        c = cross(hx[k], hy[k], hx[k + 1], hy[k + 1], x, y)
        check((c >= -1e-9).all(), "every vertex of the outline is on the left of every side of the hull", **d)
    check(convex(hx, hy), "the hull is convex", **d)


def fit_circle(rng):
    from py_eddy_tracker.poly import fit_circle as f, fit_circle_ as g, shape_error
    n = rng.randint(4, 30)
    a = np.sort([rng.uniform(0, 2 * math.pi) for _ in range(n)])
    r, x0, y0 = 10 ** rng.uniform(0, 5), rng.uniform(-1e5, 1e5), rng.uniform(-1e5, 1e5)
    noise = rng.choice([0, 0, 0.05, 0.3])
    if len(a) < 3 or np.diff(a).max() > 5:
        return
    rr = r * (1 + noise * np.array([rng.uniform(-1, 1) for _ in range(n)]))
    x, y = close(x0 + rr * np.cos(a), y0 + rr * np.sin(a))
    d = dict(x=x, y=y)
    cx, cy, cr, err = f(x, y)
    # least squares solution of 2 X xc + 2 Y yc + c = X2 + Y2, each vertex counted once, in centered coordinates
    mx, my = x[1:].mean(), y[1:].mean()
    X, Y = (x[1:] - mx) / r, (y[1:] - my) / r
    sol = np.linalg.lstsq(np.stack([2 * X, 2 * Y, np.ones(len(X))], axis=1), X ** 2 + Y ** 2, rcond=None)[0]
    ex, ey, er = sol[0] * r + mx, sol[1] * r + my, math.sqrt(sol[2] + sol[0] ** 2 + sol[1] ** 2) * r
    tol = 1e-5 * (r + er)
    check(abs(cx - ex) < tol and abs(cy - ey) < tol and abs(cr - er) < tol, "center and radius are the least-squares circle of the vertices", got=(cx, cy, cr), expected=(ex, ey, er), **d)
    if noise == 0:
        check(abs(cx - x0) < 1e-4 * r and abs(cr - r) < 1e-4 * r, "a circle is recovered", got=(cx, cy, cr), expected=(x0, y0, r), **d)
    check(abs(err - shape_error(x, y, cx, cy, cr)) < 1e-6 * max(1, abs(err)), "the error is the shape error of the fitted circle", **d)
    x, y = close((x0 + rr * np.cos(a)) / r, (y0 * 0 + rr * np.sin(a)) / r)
    cx, cy, cr, err = g(x - x.mean(), y - y.mean())
    fx, fy, fr, ferr = f(x - x.mean(), y - y.mean())
    check(abs(cx - fx) < 1e-4 and abs(cy - fy) < 1e-4 and abs(cr - fr) < 1e-4, "both fits agree", got=(cx, cy, cr), expected=(fx, fy, fr))
