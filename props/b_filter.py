"""Bounded scenarios: filters of grids, derivatives and geostrophic currents (run in the repository's interpreter)"""
import numpy as np

from props.adapters import check

R = 6370997.0
DEG = np.pi / 180


def field(rng, circular=None, step=None, dtype=None, polar=False, nmask=None):
    """regular grid, closed or regional, north or south or over the equator, with masked nodes"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset
    circular = rng.random() < 0.5 if circular is None else circular
    xs = rng.choice([5.0, 7.5, 10.0, 360 / 49, 360 / 54]) if circular else rng.choice([1.0, 2.0, 2.5, 0.7, 1.1, 4 / 3])
    nx = int(round(360 / xs)) if circular else rng.randint(8, 26)
    x0 = rng.choice([0.0, -180.0, 20.0, 350.0])
    ys = rng.choice([1.0, 2.0, 2.5, 0.7, 1.1, 4 / 3])
    ny = rng.randint(5, 14)
    y0 = rng.choice([-ny * ys / 2, 10.0, -50.0, 65.0, -86.0] if polar else [-ny * ys / 2, 10.0, -50.0, 30.0])
    xc, yc = x0 + xs * (np.arange(nx) + 0.5), y0 + ys * (np.arange(ny) + 0.5)
    ny = int((np.abs(yc) < 89.9).sum())
    yc = yc[np.abs(yc) < 89.9]
    z = np.array([[round(rng.uniform(-9, 9), 3) for _ in range(ny)] for _ in range(nx)]).astype(dtype or rng.choice(["f8", "f8", "f4"]))
    nmask = rng.choice([0, 0.1, 0.4]) if nmask is None else nmask
    m = np.array([[rng.random() < nmask for _ in range(ny)] for _ in range(nx)]).reshape(nx, ny)
    if rng.random() < 0.3:
        m[:, rng.randrange(ny)] = True
    z[m] = rng.choice([0, 1e9, np.nan])
    g = RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(z=np.ma.array(z, mask=m), lon=xc, lat=yc), centered=True)
    check(g.is_circular() == circular, "a grid is closed on itself when it covers 360 degrees")
    return g, xc, yc, xs, ys, z.astype("f8"), m, circular


def distance(lon0, lat0, lon1, lat1):
    a, b, c, d = (np.asarray(v) * DEG for v in (lon0, lat0, lon1, lat1))
    h = np.sin((d - b) / 2) ** 2 + np.cos(b) * np.cos(d) * np.sin((c - a) / 2) ** 2
    return 2 * R / 1000 * np.arcsin(np.sqrt(np.clip(h, 0, 1)))


def weights(kind, lat, xs, ys, wave, order):
    """weights at the offsets -hx..hx, -hy..hy, hx and hy the numbers of nodes in `order` wavelengths; offsets where the rounding decides"""
    from scipy.special import j1
    sx, sy = xs * distance(0, lat, 1, lat), ys * distance(0, 0, 0, 1)
    hx, hy = int(np.ceil(wave / sx)) * order, int(np.ceil(wave / sy)) * order
    dx, dy = np.meshgrid(np.arange(-hx, hx + 1), np.arange(-hy, hy + 1), indexing="ij")
    d = distance(0, lat, dx * xs, lat + dy * ys) / wave
    with np.errstate(all="ignore"):
        if kind == "bessel":
            w = np.sinc(d / order) * j1(2 * np.pi * d) / d  # pi at a null distance (the center, also met over the pole)
            w[d < 1e-6] = np.pi
        elif kind == "lanczos":
            w = np.sinc(d / order) * np.sinc(d)
        else:
            w = (1 - d ** 3) ** 3
    edge = np.abs(d - order) < 1e-6
    w[d > order] = 0
    return w, edge, hx, hy


def smooth(kind, xs, yc, ys, z, m, circular, wave, order, lat_max, need, kernel=None):
    """-> filtered values, masked nodes, nodes whose value is not settled (rounding, almost null sum of weights)"""
    nx, ny = z.shape
    out, mo, unsure = np.full(z.shape, np.nan), np.ones(z.shape, bool), np.zeros(z.shape, bool)
    zz = np.where(m, 0, z)
    for j, lat in enumerate(yc):
        if abs(lat) > lat_max or m[:, j].all():
            continue
        if kernel is None:
            w, edge, hx, hy = weights(kind, lat, xs, ys, wave, order)
        else:
            w = kernel
            edge, hx, hy = np.zeros(w.shape, bool), w.shape[0] // 2, w.shape[1] // 2
        for i in range(nx):
            num = den = big = doubt = 0.0
            ks = np.arange(-hy, hy + 1)
            rows = (j + ks >= 0) & (j + ks < ny)
            for a in range(-hx, hx + 1):
                if circular:
                    c = (i + a) % nx
                elif 0 <= i + a < nx:
                    c = i + a
                else:
                    continue
                sel = j + ks[rows]
                ok = ~m[c, sel]
                ww = w[a + hx][rows] * ok
                num += (ww * zz[c, sel]).sum()
                den += ww.sum()
                big += np.abs(ww).sum()
                doubt += (np.abs(w[a + hx][rows]) * (ok & edge[a + hx][rows])).sum()
            out[i, j] = num / den if den else np.nan
            unsure[i, j] = abs(den) < 1e-3 * max(big, 1e-9) or doubt > 1e-9
            if need is False:
                mo[i, j] = m[i, j]
            else:
                mo[i, j] = den < need * w.sum()
                if kernel is None:
                    unsure[i, j] |= abs(den - need * w.sum()) < 1e-6 or edge.any()
    return out, mo, unsure


def close(got, want, mwant, unsure, tol, what, **kw):
    mg = np.ma.getmaskarray(got)
    check((mg == mwant)[~unsure].all(), what + ": masked nodes", got=mg, want=mwant, **kw)
    ok = ~mwant & ~unsure
    check(np.allclose(np.ma.getdata(got)[ok], want[ok], rtol=tol, atol=tol * 20), what, got=np.ma.getdata(got)[ok], want=want[ok], **kw)


def filters(rng):
    """weighted means over the valid nodes closer than the wavelength; high, low and band filters"""
    g, xc, yc, xs, ys, z, m, circ = field(rng, polar=True)
    if rng.random() < 0.25:
        # kernel given by the user, with weights whose sums are exact
        k = np.array([[rng.randint(1, 4) for _ in range(5)] for _ in range(9)], dtype="f8")[: rng.choice([3, 5, 9]), : rng.choice([1, 3, 5])]
        need, lat_max = rng.choice([False, True, True, 0.25, 0.5]), rng.choice([85, 40])
        got = g.convolve_filter_with_dynamic_kernel("z", lambda lat, **kw: k, lat_max=lat_max, extend=need)
        want, mo, un = smooth(None, xs, yc, ys, z, m, circ, None, None, lat_max, need, kernel=k)
        close(got, want, mo | m if need is False else mo, un, 2e-4 if g.grid("z").dtype == np.float32 else 1e-7, "mean weighted by a kernel given", kernel=k, need=need, lat_max=lat_max, xc=xc, yc=yc, z=z, m=m, circular=circ)
        return
    order = rng.choice([1, 1, 2])
    kind = rng.choice(["bessel", "bessel", "lanczos", "loess"])
    lat_max = rng.choice([85, 85, 60, 30])
    lats = np.abs(yc[np.abs(yc) <= lat_max])
    low_lat = lats.min() if lats.size else 0
    mini = 2 * max(xs * distance(0, low_lat, 1, low_lat), ys * distance(0, 0, 0, 1))
    wave = rng.choice([mini * rng.uniform(1, 2.5), float(np.ceil(mini * 1.3)), ys * distance(0, 0, 0, 1) * 5])
    kw = dict(wave_length=wave, order=order)
    info = dict(wave=wave, order=order, lat_max=lat_max, xc=xc, yc=yc, kind=kind, z=z, m=m, circular=circ)
    if abs(wave / mini - 1) < 1e-6:
        return
    if wave < mini:
        try:
            g.convolve_filter_with_dynamic_kernel("z", g.kernel_bessel, lat_max=lat_max, **kw)
        except Exception:
            return
        check(not (np.abs(yc) <= lat_max).any() or m.all(), "a wavelength shorter than two steps is refused", **info)
        return
    dtype = g.grid("z").dtype
    tol = 2e-4 if dtype == np.float32 else 1e-7
    before = g.grid("z").copy()
    nb = max((2 * weights("loess", la, xs, ys, wave, order)[2] + 1 for la in yc if abs(la) <= lat_max), default=0)
    if circ and nb // 2 > len(xc):
        return
    what = rng.choice(["mean", "mean", "high", "low", "band", "constant", "mirror"])
    f = getattr(g, "kernel_" + kind)
    if what == "mean":
        need = rng.choice([False, False, True, 0.1, 0.5])
        got = g.convolve_filter_with_dynamic_kernel("z", f, lat_max=lat_max, extend=need, **kw)
        want, mo, un = smooth(kind, xs, yc, ys, z, m, circ, wave, order, lat_max, need)
        if need is False:
            mo |= m
        close(got, want, mo, un, tol, "filtered value: weighted mean of the valid nodes around", need=need, **info)
        check(got.dtype == dtype and (np.ma.getmaskarray(g.grid("z")) == m).all() and np.array_equal(np.ma.getdata(g.grid("z"))[~m], np.ma.getdata(before)[~m]), "filtering returns a new grid of the same type", **info)
    elif what == "constant":
        g.vars["z"] = np.ma.array(np.where(m, z, 3.25).astype(dtype), mask=m)
        got = g.convolve_filter_with_dynamic_kernel("z", f, lat_max=lat_max, **kw)
        _, mo, un = smooth(kind, xs, yc, ys, z, m, circ, wave, order, lat_max, False)
        close(got, np.full(z.shape, 3.25), mo | m, un, tol, "an uniform field is left unchanged", **info)
    elif what == "mirror":
        from py_eddy_tracker.dataset.grid import RegularGridDataset
        a = g.convolve_filter_with_dynamic_kernel("z", f, lat_max=lat_max, **kw)
        o = RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(z=before[:, ::-1], lon=xc, lat=-yc[::-1]), centered=True)
        b = o.convolve_filter_with_dynamic_kernel("z", getattr(o, "kernel_" + kind), lat_max=lat_max, **kw)[:, ::-1]
        _, _, un = smooth(kind, xs, yc, ys, z, m, circ, wave, order, lat_max, False)
        close(b, np.ma.getdata(a), np.ma.getmaskarray(a), un, tol * 10, "the filter acts in the same way in both hemispheres", **info)
    elif what in ("high", "low"):
        kind = rng.choice(["bessel", "lanczos", "short"])
        low, mo, un = smooth("bessel" if kind == "short" else kind, xs, yc, ys, z, m, circ, wave, order, lat_max, False)
        if kind == "short":
            getattr(g, what + "_filter")("z", wave, order=order, lat_max=lat_max)
        else:
            getattr(g, f"{kind}_{what}_filter")("z", wave, order=order, lat_max=lat_max)
        want = low if what == "low" else z - low
        close(g.grid("z"), want, mo | m, un, tol * 10, f"{what}-pass filter", name=kind, **{a: b for a, b in info.items() if a != "kind"})
    else:
        w2 = wave * rng.uniform(1, 1.5)
        a, ma_, un = smooth("bessel", xs, yc, ys, z, m, circ, wave, order, lat_max, False)
        if dtype == np.float32:
            a = a.astype("f4").astype("f8")
        b, mb, ub = smooth("bessel", xs, yc, ys, a, ma_ | m | np.isnan(a), circ, w2, order, lat_max, False)
        g.bessel_band_filter("z", wave, w2, order=order, lat_max=lat_max)
        if un.any():
            return
        close(g.grid("z"), a - b, ma_ | mb | m, ub, tol * 10, "band filter", w2=w2, **info)


def currents(rng):
    """derivatives on the grid, and currents in geostrophic balance with the heights"""
    g, xc, yc, xs, ys, z, m, circ = field(rng, nmask=rng.choice([0, 0.1]))
    nx, ny = z.shape
    info = dict(xc=xc, yc=yc, z=z, m=m, circular=circ)
    dx, dy = xs * DEG * R * np.cos(yc * DEG), ys * DEG * R
    s = rng.randint(1, 3)
    if s < min(nx, ny):
        for vertical in (False, True):
            mode = "wrap" if circ else "reflect"
            got = g.compute_finite_difference(g.grid("z"), schema=s, mode=mode, vertical=vertical)
            want, bad = np.full(z.shape, np.nan), np.ones(z.shape, bool)
            for i in range(nx):
                for j in range(ny):
                    if vertical:
                        if s <= j < ny - s:
                            want[i, j], bad[i, j] = (z[i, j + s] - z[i, j - s]) / (2 * s * dy), m[i, j + s] or m[i, j - s]
                    elif circ or s <= i < nx - s:
                        a, b = (i + s) % nx, (i - s) % nx
                        want[i, j], bad[i, j] = (z[a, j] - z[b, j]) / (2 * s * dx[j]), m[a, j] or m[b, j]
            gd = np.ma.filled(got.astype("f8"), np.nan)
            check((np.isnan(gd) == (bad | np.isnan(want))).all(), "finite difference: only where both nodes are known", vertical=vertical, s=s, got=gd, want=want, **info)
            check(np.allclose(gd[~bad], want[~bad], rtol=1e-3, atol=1e-9), "finite difference", vertical=vertical, s=s, got=gd, want=want, **info)
    # heights: planes and waves, on which every stencil is exact or close
    a, b, c = rng.uniform(-1, 1), rng.uniform(-0.1, 0.1), rng.uniform(-0.1, 0.1)
    X, Y = np.meshgrid(xc, yc, indexing="ij")
    h = a + b * (0 if circ else 1) * (X - xc[0]) + c * Y
    mode = "plane"
    if circ and rng.random() < 0.7:
        h, mode = h + b * np.cos(X * DEG), "wave"
    dtype = g.grid("z").dtype
    g.vars["z"] = np.ma.array(np.where(m, 1e9, h).astype("f8"), mask=m)
    g.variables_description["z"]["attrs"] = dict(units="m", long_name="height")
    half = rng.randint(1, 4)
    g.add_uv("z", stencil_halfwidth=half)
    f = 4 * np.pi / 86164.1 * np.sin(yc * DEG)
    with np.errstate(divide="ignore"):
        gof = g.GRAVITY / f
    check(abs(g.GRAVITY - 9.807) < 1e-6, "gravity")
    mx = np.zeros(z.shape, bool)
    my = np.zeros(z.shape, bool)
    left = np.roll(m, 1, 0)
    right = np.roll(m, -1, 0)
    if not circ:
        left[0], right[-1] = True, True
    down, up = np.ones(z.shape, bool), np.ones(z.shape, bool)
    down[:, 1:], up[:, :-1] = m[:, :-1], m[:, 1:]
    mx, my = m | (left & right), m | (down & up)
    u, v = g.grid("u"), g.grid("v")
    check((np.ma.getmaskarray(v) == mx).all() and (np.ma.getmaskarray(u) == my)[:, np.isfinite(gof)].all(), "a current is given at valid nodes with a valid neighbour", u=u, v=v, **info)
    j = np.abs(yc) > 0.1
    want_u = -gof * c / (DEG * R) * np.ones(z.shape)
    ok = ~my & j
    check(np.allclose(np.ma.getdata(u)[ok], want_u[ok], rtol=1e-6, atol=1e-9), "eastward current in balance with the northward slope", got=u, want=want_u, half=half, mode=mode, **info)
    with np.errstate(all="ignore"):
        if mode == "plane":
            dh = (0 if circ else b) * np.ones(z.shape)
            tol = 1e-6
        else:
            dh = -b * np.sin(X * DEG) * DEG
            tol = 0.2
        want_v = gof * dh / (DEG * R * np.cos(yc * DEG))
        scale = np.abs(gof * b * DEG / (DEG * R * np.cos(yc * DEG))) * np.ones(z.shape)
    ok = ~mx & j
    check((np.abs(np.ma.getdata(v) - want_v)[ok] <= tol * (scale + np.abs(want_v))[ok] + 1e-9).all(), "northward current in balance with the eastward slope", got=v, want=want_v, half=half, mode=mode, **info)
    d = g.variables_description
    check(d["u"]["attrs"]["units"] == "m/s" and d["z"]["attrs"]["units"] == "m" and d["v"]["args"][0] == "v", "description of the currents", d={k: d[k]["attrs"] for k in "zuv"})
    if rng.random() < 0.15:
        lagerloef(rng)
    # interpolation of another grid on this one
    o, oxc, oyc, oxs, oys, oz, om, ocirc = field(rng)
    o.variables_description["z"]["attrs"] = dict(units="cm")
    name = rng.choice([None, "other"])
    g.regrid(o, "z", new_name=name)
    want = o.interp("z", X.reshape(-1), Y.reshape(-1)).reshape(X.shape)
    got = g.grid("z" if name is None else name)
    check(got.shape == X.shape and (np.ma.getmaskarray(got) == np.isnan(want)).all() and np.array_equal(got[~np.isnan(want)], want[~np.isnan(want)]), "a grid brought on another one holds its interpolation at the nodes, masked out of it", got=got, want=want)
    check(g.variables_description["z" if name is None else name]["attrs"]["units"] == "cm", "description of the grid brought")


def lagerloef(rng):
    """currents near the equator: balance on the beta plane, blended with the geostrophic ones"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset
    circ = rng.random() < 0.5
    xs, ys = rng.choice([1.5, 2.0]), rng.choice([1.0, 1.5, 2.0])
    nx = int(360 / xs) if circ else rng.randint(8, 20)
    xc = rng.choice([0.0, -180.0, 20.0]) + xs * (np.arange(nx) + 0.5)
    yc = rng.choice([-12.0, -9.5, -3.5, 1.0]) + ys * (np.arange(rng.randint(8, 16)) + 0.3)
    nx, ny = len(xc), len(yc)
    z = np.array([[rng.uniform(-1, 1) for _ in yc] for _ in xc])
    m = np.array([[rng.random() < 0.05 for _ in yc] for _ in xc])
    g = RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(z=np.ma.array(z, mask=m), lon=xc, lat=yc), centered=True)
    g.add_uv("z")
    u0, v0 = g.grid("u").copy(), g.grid("v").copy()
    s = rng.randint(1, 3)
    g.add_uv_lagerloef("z", schema=s)
    d = g.grid("z")
    for _ in range(3):
        d = g.convolve_filter_with_dynamic_kernel(d, g.kernel_bessel, lat_max=10, wave_length=500, order=1, extend=0.1)
    d = np.ma.filled(d, np.nan)
    nan = np.full(d.shape, np.nan)

    def dx(a):
        out = nan.copy()
        if circ:
            out = np.roll(a, -s, 0) - np.roll(a, s, 0)
        else:
            out[s : nx - s] = a[2 * s :] - a[: nx - 2 * s]
        return out / (2 * s * xs * DEG * R * np.cos(yc * DEG))

    def dy(a):
        out = nan.copy()
        out[:, s : ny - s] = a[:, 2 * s :] - a[:, : ny - 2 * s]
        return out / (2 * s * ys * DEG * R)
    beta = 4 * np.pi / 86164.1 * np.cos(yc * DEG) / R
    w = 1 - np.exp(-((yc / 2.2) ** 2))
    with np.errstate(all="ignore"):
        wu = np.ma.filled(u0, np.nan) * w - (1 - w) * g.GRAVITY / beta * dy(dy(d))
        wv = np.ma.filled(v0, np.nan) * w + (1 - w) * g.GRAVITY / beta * dx(dx(d))
    near = np.abs(yc) < 5 - ys
    far = np.abs(yc) > 5 + ys
    for name, want, geo in (("u", wu, u0), ("v", wv, v0)):
        got = np.ma.filled(g.grid(name), np.nan)
        check(np.array_equal(got[:, far], np.ma.filled(geo, np.nan)[:, far], equal_nan=True), "away from the equator the currents are the geostrophic ones", name=name, xc=xc, yc=yc, z=z, m=m, s=s)
        check((np.isnan(got) == np.isnan(want))[:, near].all() and np.allclose(got[:, near], want[:, near], rtol=1e-6, atol=1e-8, equal_nan=True), "near the equator the currents are blended with those of the beta plane", name=name, got=got[:, near], want=want[:, near], xc=xc, yc=yc, z=z, m=m, s=s, circular=circ)
