"""Bounded scenarios: statistics of observations on grids, indexes on regular grids (run in the repository's interpreter)"""
import numpy as np

from props.adapters import check


def grid(rng, nmask=0.2, fill=True):
    """regular grid, global or regional: object, west edge, steps"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset
    circular = rng.random() < 0.5
    if circular:
        step = rng.choice([5.0, 5.0, 10.0, 10.0, 360 / 49, 360 / 70])  # 360/49: bounds are known up to the rounding
        x0 = rng.choice([0.0, -180.0, 20.0])
        nx = int(round(360 / step))
    else:
        step = rng.choice([1.0, 2.5])
        x0 = rng.choice([0.0, -6.0, 170.0, 350.0])
        nx = rng.randint(4, 12)
    ys = rng.choice([1.0, 2.0, 4.0])
    ny = rng.randint(4, 12)
    y0 = rng.choice([-ny * ys / 2, 10.0, -50.0])
    xc, yc = x0 + step * (np.arange(nx) + 0.5), y0 + ys * (np.arange(ny) + 0.5)
    z = np.array([[round(rng.uniform(-9, 9), 3) for _ in range(ny)] for _ in range(nx)])
    m = np.array([[rng.random() < nmask for _ in range(ny)] for _ in range(nx)])
    g = RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(z=np.ma.array(z, mask=m), lon=xc, lat=yc), centered=True)
    check(g.is_circular() == circular, "a grid is closed on itself when it covers 360 degrees", nx=nx, step=step, got=g.is_circular())
    return g, x0, y0, step, ys, z, m


def outline(rng, x, y, rx, ry, n=9):
    """star-shaped outline around a position"""
    a = np.sort([rng.uniform(0, 1) for _ in range(n - 1)]) * 0.6 + np.arange(n - 1)
    a = a / (n - 1) * 2 * np.pi
    r = np.array([rng.uniform(0.4, 1) for _ in range(n - 1)])
    px, py = x + rx * r * np.cos(a), y + ry * r * np.sin(a)
    return np.append(px, px[0]), np.append(py, py[0])


def eddies(rng, x0, y0, step, ys, nx, ny, circular, n=None):
    """observations centered on the grid (anywhere for a closed grid), with contours around them"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    n = rng.randint(1, 5) if n is None else n
    e = E(size=n, track_array_variables=9, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    e.sign_type = 1
    for k in range(n):
        x, y = x0 + rng.uniform(0, nx * step), y0 + rng.uniform(-0.1, 1.1) * ny * ys
        rx, ry = min(rng.choice([0.3, 1.5, 3]) * step, 60), rng.choice([0.3, 1.5, 3]) * ys
        turn = 360 * rng.choice([-1, 0, 0, 1])
        e.lon[k], e.lat[k], e.time[k], e.amplitude[k] = x + turn, y, 7000 + k, rng.randint(1, 9) / 8
        for s, f in (("s", 0.6), ("e", 1)):
            px, py = outline(rng, x, y, rx * f, ry * f)
            e["contour_lon_" + s][k], e["contour_lat_" + s][k] = px + 360 * rng.choice([-1, 0, 0, 1]), py
    return e


def winding(px, py, x, y):
    """winding numbers of a closed outline around nodes x (nx), y (ny); nodes close to the outline"""
    X, Y = np.meshgrid(x, y, indexing="ij")
    w, near = np.zeros(X.shape, int), np.zeros(X.shape, bool)
    n = len(px)
    for k in range(n):
        ax, ay, bx, by = px[k], py[k], px[(k + 1) % n], py[(k + 1) % n]
        left = (bx - ax) * (Y - ay) - (X - ax) * (by - ay)
        w += ((ay <= Y) & (by > Y) & (left > 0)).astype(int) - ((ay > Y) & (by <= Y) & (left < 0)).astype(int)
        d2 = (bx - ax) ** 2 + (by - ay) ** 2
        t = np.clip(((X - ax) * (bx - ax) + (Y - ay) * (by - ay)) / d2, 0, 1) if d2 > 0 else 0
        near |= np.hypot(ax + t * (bx - ax) - X, ay + t * (by - ay) - Y) < 2e-3
    return w != 0, near


def nodes_in(g, e, k, intern):
    """nodes of the grid in the contour of observation k, and those too close to it"""
    c = "s" if intern else "e"
    px, py = e["contour_lon_" + c][k].astype("f8"), e["contour_lat_" + c][k].astype("f8")
    px = px + 360 * np.round((float(e.lon[k]) - px[0]) / 360)
    ins, near = np.zeros((g.x_c.size, g.y_c.size), bool), np.zeros((g.x_c.size, g.y_c.size), bool)
    for t in range(-3, 4):
        i, q = winding(px + 360 * t, py, g.x_c, g.y_c)
        ins |= i
        near |= q
    return ins, near


def pixels(rng):
    """grid_count, interp_grid: nodes in each contour"""
    g, x0, y0, xs, ys, z, m = grid(rng)
    nx, ny = z.shape
    e = eddies(rng, x0, y0, xs, ys, nx, ny, g.is_circular())
    intern = rng.random() < 0.5
    d = dict(x0=x0, y0=y0, xs=xs, ys=ys, shape=z.shape, lon=e.lon, lat=e.lat, intern=intern)
    sets = [nodes_in(g, e, k, intern) for k in range(len(e))]
    sel = np.array([rng.random() < 0.7 for _ in range(len(e))])
    use = slice(None) if rng.random() < 0.4 else sel
    r = e.grid_count(((x0, x0 + xs * (nx + 0.5), xs), (y0, y0 + ys * (ny + 0.5), ys)), intern=intern, filter=use)
    c = r.grid("count")
    check(c.shape == z.shape and np.allclose(r.x_c, g.x_c) and np.allclose(r.y_c, g.y_c), "count: nodes are the centers of the bins", got=(r.x_c, r.y_c), **d)
    kk = np.arange(len(e))[use]
    cnt = sum((sets[k][0].astype(int) for k in kk), np.zeros(z.shape, int))
    sure = ~np.any([sets[k][1] for k in kk], axis=0) if len(kk) else np.ones(z.shape, bool)
    check(np.array_equal(c.data[sure], cnt[sure]), "count of a node: contours that contain it", use=use, expected=cnt, got=c.data, **d)
    check(np.array_equal(np.ma.getmaskarray(c), c.data == 0), "count: nodes in no contour are masked", **d)
    # values in contours
    i = None if rng.random() < 0.5 else sel
    kk = np.arange(len(e))[slice(None) if i is None else sel]
    before = g.grid("z").copy()
    for method in ("mean", "max", "min", "count"):
        v = e.interp_grid(g, "z", i=i, method=method, intern=intern, dtype=None if rng.random() < 0.5 else "f8")
        check(len(v) == len(kk), method + ": one value by observation", i=i, got=v, **d)
        for a, k in zip(v, kk):
            ins, near = sets[k]
            if near.any():
                continue
            w = z[ins & ~m]
            exp = ins.sum() if method == "count" else getattr(w, method)() if w.size else np.nan
            check(np.isclose(a, exp, equal_nan=True), method + ": from the valid nodes in the contour", k=k, i=i, expected=exp, got=a, **d)
    check(np.array_equal(before.data, g.grid("z").data) and np.array_equal(before.mask, g.grid("z").mask), "the grid is left as it is", **d)


def boxes(rng):
    """grid_count by center, grid_stat, grid_box_stat: observations in each box"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    glob = rng.random() < 0.6
    xs, ys = rng.choice([5.0, 10.0]), rng.choice([2.0, 5.0])
    x0, y0 = rng.choice([0.0, -180.0, 170.0]), rng.choice([-20.0, 10.0])
    nx, ny = (int(360 / xs) if glob else rng.randint(2, 8)), rng.randint(2, 6)
    n = rng.randint(1, 12)
    e = E(size=n)
    ix, iy = [rng.randrange(min(nx, 3)) for _ in range(n)], [rng.randrange(min(ny, 2)) for _ in range(n)]
    if rng.random() < 0.3:
        ix = [nx - 1 - i for i in ix]
    if rng.random() < 0.3:
        iy = [ny - 1 - i for i in iy]
    e.lon[:] = [x0 + xs * (i + rng.choice([0.0, 0.25, 0.75])) + 360 * rng.choice([-1, 0, 0, 1]) for i in ix]
    e.lat[:] = [y0 + ys * (i + rng.choice([0.0, 0.25, 0.75])) for i in iy]
    e.amplitude[:] = [rng.randint(0, 16) / 8 for _ in range(n)]
    bins = ((x0, x0 + xs * (nx + 0.5), xs), (y0, y0 + ys * (ny + 0.5), ys))
    d = dict(bins=bins, lon=e.lon, lat=e.lat, values=e.amplitude)
    data, ok = None, np.ones(n, bool)
    vals = e.amplitude
    if rng.random() < 0.5:
        vals = np.array([rng.randint(-8, 8) / 4 for _ in range(n)])
        data = vals
        if rng.random() < 0.3:
            data = np.ma.array(vals)
        elif rng.random() < 0.5:
            ok = np.array([rng.random() < 0.7 for _ in range(n)])
            data = np.ma.array(vals, mask=~ok)
    groups = {}
    for k in range(n):
        if ok[k]:
            groups.setdefault((ix[k], iy[k]), []).append(vals[k])
    d.update(data=data)

    def same(r, exp, what):
        got = r.grid("amplitude")
        check(got.shape == (nx, ny), what + ": shape", got=got.shape, **d)
        check(np.allclose(r.x_c - xs / 2, x0 + xs * np.arange(nx)) and np.allclose(r.y_c - ys / 2, y0 + ys * np.arange(ny)), what + ": bounds of the boxes", got=(r.x_bounds, r.y_bounds), **d)
        mask = np.ma.getmaskarray(got)
        check({(int(a), int(b)) for a, b in zip(*np.where(~mask))} == set(exp), what + ": boxes with observations are set, others are masked", expected=exp, got=got, **d)
        for (a, b), v in exp.items():
            check(np.isclose(float(got[a, b]), v), what + ": value of a box", box=(a, b), expected=v, got=got[a, b], **d)

    same(e.grid_stat(bins, "amplitude", data=data), {k: np.mean(v) for k, v in groups.items()}, "mean by box")
    method = rng.choice([0, 25, 50, 90, 100])
    sel = np.array([rng.random() < 0.7 for _ in range(n)])
    use = slice(None) if rng.random() < 0.5 else sel
    g2 = {}
    for k in np.arange(n)[use]:
        if ok[k]:
            g2.setdefault((ix[k], iy[k]), []).append(vals[k])
    if g2:
        same(e.grid_box_stat(bins, "amplitude", method=method, data=data, filter=use), {k: np.percentile(v, method) for k, v in g2.items()}, "percentile by box")
    c = e.grid_count(bins, center=True, filter=use).grid("count")
    cnt = np.zeros((nx, ny), int)
    for k in np.arange(n)[use]:
        cnt[ix[k], iy[k]] += 1
    check(np.array_equal(c.data, cnt) and np.array_equal(np.ma.getmaskarray(c), cnt == 0), "count of the centers by box", use=use, expected=cnt, got=c, **d)


def indexes(rng):
    """windows, pixels and paths of positions on a regular grid"""
    g, x0, y0, xs, ys, z, m = grid(rng)
    nx, ny = z.shape
    d = dict(x0=x0, y0=y0, xs=xs, ys=ys, shape=z.shape)
    e = eddies(rng, x0, y0, xs, ys, nx, ny, g.is_circular(), n=1)
    # pixels
    k = 0
    px, py = e.contour_lon_e[k].astype("f8"), e.contour_lat_e[k].astype("f8")
    # contours come with longitudes of the grid
    px = px + 360 * np.round((x0 + (float(e.lon[k]) - x0) % 360 - px[0]) / 360)
    v = np.stack([px, py], 1)
    ins, near = nodes_in(g, e, k, False)
    i, j = g.get_pixels_in(v)
    got = list(zip(i.tolist(), j.tolist()))
    exp = {(int(a), int(b)) for a, b in zip(*np.where(ins & ~near))}
    maybe = {(int(a), int(b)) for a, b in zip(*np.where(ins | near))}
    check(len(set(got)) == len(got) and exp <= set(got) <= maybe, "pixels in a contour", contour=v, expected=sorted(exp), got=sorted(got), **d)
    (a, b), (c, f) = g.bbox_indice(v)
    cols = set(range(a, min(b, nx))) if a <= b else set(range(a, nx)) | set(range(b))
    check(all(p in cols and c <= q < f for p, q in exp), "the window of a contour holds its nodes", contour=v, window=((a, b), (c, f)), nodes=sorted(exp), **d)
    # paths
    n = rng.randint(0, 5)
    xa, ya = np.array([x0 + rng.uniform(0, nx * xs) for _ in range(n)]), np.array([y0 + rng.uniform(0, ny * ys) for _ in range(n)])
    xb = xa + np.array([rng.choice([0, 0.1, 1, 9]) * rng.uniform(-1, 1) * xs for _ in range(n)])
    yb = ya + np.array([rng.choice([0, 0.1, 1, 9]) * rng.uniform(-1, 1) * ys for _ in range(n)])
    if g.is_circular():
        i, j, l = g.compute_pixel_path(xa, ya, xb, yb)
        s = 0
        near_ = lambda v, o, st, turn: np.round(((v - o) % 360 if turn else v - o) / st)
        check(len(l) == n and len(i) == len(j) == int(np.sum(l + 1)), "paths: one list of pixels by couple of positions", got=(i, j, l), **d)
        for q in range(n):
            p = [(int(u), int(w)) for u, w in zip(i[s:s + l[q] + 1], j[s:s + l[q] + 1])]
            s += l[q] + 1
            A = [(int(near_(xa[q], x0, xs, True)) % nx, int(near_(ya[q], y0, ys, False))), (int(near_(xb[q], x0, xs, True)) % nx, int(near_(yb[q], y0, ys, False)))]
            dx = (A[1][0] - A[0][0] + nx // 2) % nx - nx // 2
            check(l[q] == max(abs(dx), abs(A[1][1] - A[0][1])), "length of a path", ends=A, got=l[q], **d)
            check(all(abs((u[0] - w[0] + nx // 2) % nx - nx // 2) <= 1 and abs(u[1] - w[1]) <= 1 and u != w for u, w in zip(p, p[1:])), "a path goes from pixel to pixel", path=p, ends=A, **d)
            check({p[0], p[-1]} == set(A), "a path goes from one position to the other", path=p, ends=A, **d)
            # close to the straight line
            x_s, y_s = A[0]
            for u, w in p:
                du, dw = (u - x_s + nx // 2) % nx - nx // 2, w - y_s
                ex, ey = dx, A[1][1] - y_s
                L = max(abs(ex), abs(ey), 1)
                check(abs(du * ey - dw * ex) <= L, "a path stays within a pixel of the straight line", path=p, ends=A, **d)


def positions(rng):
    """interpolation of a grid, or of a collection of grids in time, at positions"""
    from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset
    g, x0, y0, xs, ys, z, m = grid(rng)
    nx, ny = z.shape
    circ = g.is_circular()
    n = rng.randint(1, 8)
    fx, fy = [rng.uniform(0, nx - (0 if circ else 1)) for _ in range(n)], [rng.uniform(-0.5, ny - 0.5) for _ in range(n)]
    fx = [f - (rng.random() < 0.1) if not circ else f for f in fx]
    x, y = x0 + xs * (np.array(fx) + 0.5) + 360 * np.array([rng.choice([-1, 0, 0, 1]) if circ else 0 for _ in range(n)]), y0 + ys * (np.array(fy) + 0.5)
    d = dict(x0=x0, y0=y0, xs=xs, ys=ys, shape=z.shape, x=x, y=y)

    def bil(z, m):
        out = []
        for u, v in zip(fx, fy):
            i, j = int(np.floor(u)), int(np.floor(v))
            near = min(u - i, i + 1 - u, v - j, j + 1 - v) < 1e-6
            if near:
                out.append(None)
            elif not (0 <= j < ny - 1) or (not circ and not (0 <= i < nx - 1)):
                out.append(np.nan)
            else:
                c = [(i % nx, j), ((i + 1) % nx, j), (i % nx, j + 1), ((i + 1) % nx, j + 1)]
                w = [(1 - u + i) * (1 - v + j), (u - i) * (1 - v + j), (1 - u + i) * (v - j), (u - i) * (v - j)]
                out.append(np.nan if any(m[a] for a in c) else sum(z[a] * b for a, b in zip(c, w)))
        return out

    def same(got, exp, what, **c):
        check(len(got) == len(exp), what + ": one value by position", got=got, **d)
        for a, b in zip(got, exp):
            check(b is None or np.isclose(a, b, rtol=1e-5, atol=1e-5, equal_nan=True), what, expected=exp, got=got, **c, **d)

    exp = bil(z, m)
    same(g.interp("z", x, y), exp, "interpolation on a grid: from the four nodes around, nan when one is masked or out")
    e = eddies(rng, x0, y0, xs, ys, nx, ny, circ, n=n)
    e.lon[:], e.lat[:] = x, y
    i = None if rng.random() < 0.5 else np.array([rng.random() < 0.6 for _ in range(n)])
    same(e.interp_grid(g, "z", i=i), [v for k, v in enumerate(exp) if i is None or i[k]], "interpolation at the center of observations", i=i)
    # in time
    t0 = rng.choice([0, 20000])
    c = GridCollection()
    stack = []
    for k in range(rng.randint(2, 4)):
        z_ = np.round(z + rng.uniform(-3, 3) * np.arange(nx)[:, None], 3)
        m_ = np.array([[rng.random() < 0.15 for _ in range(ny)] for _ in range(nx)])
        if rng.random() < 0.2:
            m_[:] = False
        stack.append((z_, m_))
        c.datasets.append((t0 + k, RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(z=np.ma.array(z_, mask=m_ if m_.any() else False), lon=g.x_c, lat=g.y_c), centered=True)))
    k = rng.randrange(len(stack) - 1)
    w = rng.choice([0.0, 0.25, 0.5, 0.9])
    a, b = bil(*stack[k]), bil(*stack[k + 1])
    same(c.interp("z", t0 + k + w, x, y), [None if p is None or q is None else p * (1 - w) + q * w for p, q in zip(a, b)], "interpolation in a collection: linear between the two dates around", t=k + w)
