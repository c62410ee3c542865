"""Bounded scenarios: detection of eddies (run in the repository's interpreter)"""
from datetime import datetime

import numpy as np

from props.adapters import check
from props.b_grid import winding


def extrema(rng):
    """local extrema, plateaus included: one position by extremum, groups of extrema which touch each other replaced by their barycentre when they are too many"""
    from scipy.ndimage import label
    from py_eddy_tracker.eddy_feature import detect_local_minima_
    n, m = rng.randint(1, 9), rng.randint(1, 9)
    vals = rng.choice([[0.0, 1.0, 2.0], [0.0, 0.5, 1.0, 1.5, 2.0, 2.5], [0.0, 1.0]])
    z = np.array([[rng.choice(vals) for _ in range(m)] for _ in range(n)])
    mask = np.array([[rng.random() < 0.1 for _ in range(m)] for _ in range(n)])
    pix = np.array([[rng.random() < 0.8 for _ in range(m)] for _ in range(n)]) & ~mask
    mle, sign = rng.randint(0, 4), rng.choice([1, -1])
    z0, mask0, pix0 = z.copy(), mask.copy(), pix.copy()
    xs, ys = detect_local_minima_(z, mask, pix, mle, sign)
    got = sorted(zip([int(v) for v in xs], [int(v) for v in ys]))
    check((z == z0).all() and (mask == mask0).all() and (pix == pix0).all(), "the grid is left as it was")
    e = np.zeros((n, m), bool)
    g = np.where(mask, 2e10, z * sign)
    for i in range(1, n - 1):
        for j in range(1, m - 1):
            e[i, j] = pix[i, j] and g[i - 1:i + 2, j - 1:j + 2].min() == g[i, j]
    ref = list(zip(*np.where(e)))
    if len(ref) > mle:
        lab, k = label(e)
        out = []
        for q in range(1, k + 1):
            i, j = np.where(lab == q)
            out.append((int(np.round(i.mean())), int(np.round(j.mean()))))
        ref = out
    check(got == sorted((int(i), int(j)) for i, j in ref), "extrema found", z=z, mask=mask, inside=pix, mle=mle, sign=sign, got=got, expected=sorted(ref))


def _field(rng, nx, ny, circular):
    from scipy.ndimage import gaussian_filter
    z = np.array([[rng.gauss(0, 1) for _ in range(ny)] for _ in range(nx)])
    z = gaussian_filter(z, rng.choice([1.2, 1.8, 2.5]), mode=("wrap" if circular else "reflect", "reflect"))
    return z / np.abs(z).max()


def _gaussians(rng, xc, yc, circular):
    """separated gaussian eddies: height, list of (lon, lat, sign, amplitude)"""
    z = np.zeros((xc.size, yc.size))
    dx, dy = xc[1] - xc[0], yc[1] - yc[0]
    sy = 2.6 * dy
    eds = []
    for _ in range(rng.randint(1, 6)):
        lat = rng.uniform(yc[0] + 3.5 * sy, yc[-1] - 3.5 * sy)
        sx = max(sy / np.cos(np.deg2rad(lat)), 2.6 * dx)
        lon = rng.uniform(xc[0], xc[0] + 360) if circular else rng.uniform(xc[0] + 3.5 * sx, xc[-1] - 3.5 * sx)
        if any(abs((lon - o[0] + 180) % 360 - 180) < 8 * sx and abs(lat - o[1]) < 8 * sy for o in eds):
            continue
        s, amp = rng.choice([1, -1]), rng.uniform(0.4, 1)
        d = (xc - lon + 180) % 360 - 180
        z += s * amp * np.exp(-(d[:, None] ** 2 / (2 * sx**2) + (yc[None] - lat) ** 2 / (2 * sy**2)))
        eds.append((lon, lat, s, amp))
    return z, eds


def _grid(xc, yc, units, u_units, **datas):
    from py_eddy_tracker.dataset.grid import RegularGridDataset
    return RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(lon=xc, lat=yc, **datas), centered=True,
                                         variables_description=dict(h=dict(units=units), u=dict(units=u_units), v=dict(units=u_units)))


def _coords(rng, big=False):
    if rng.random() < 0.5:
        step = rng.choice([2.5, 3.0, 360 / 137])
        x0, nx, circular = rng.choice([0.0, -180.0, 40.0]), int(round(360 / step)), True
    else:
        step = rng.choice([1.0, 0.5, 1.5])
        x0, nx, circular = rng.choice([0.0, -9.0, 170.0, 350.0]), rng.randint(30, 40) if big else rng.randint(16, 30), False
    ys = step
    ny = rng.randint(26, 32) if big else rng.randint(14, 24)
    y0 = rng.choice([-ny * ys / 2, 1.0 if ny * ys < 70 else -ny * ys / 2])
    return x0 + step * (np.arange(nx) + 0.5), y0 + ys * (np.arange(ny) + 0.5), circular


def _paths(g, level):
    for c, v in zip(g.contours.contours.collections, g.contours.cvalues):
        if abs(v - level) < 1e-9:
            return c.get_paths()
    return []


def _turn(d):
    return (d + 180) % 360 - 180


def _which(g, level, lon, lat, sampling, method):
    """the isolines of the level which, resampled, are the outline stored"""
    from py_eddy_tracker.generic import uniform_resample
    from py_eddy_tracker.poly import visvalingam
    out = []
    for p in _paths(g, level):
        x, y = uniform_resample(p.lon, p.lat, num_fac=10)
        x, y = (visvalingam if method == "visvalingam" else uniform_resample)(x, y, fixed_size=sampling)
        if np.abs(_turn(x - lon)).max() < 1e-3 and np.abs(y - lat).max() < 1e-3:
            out.append(p)
    return out


def _inside(p, xc, yc):
    """nodes inside an isoline (any turn), nodes too close to it to decide"""
    w, near = np.zeros((xc.size, yc.size), bool), np.zeros((xc.size, yc.size), bool)
    for t in (-360, 0, 360):
        a, b = winding(p.lon + t, p.lat, xc, yc)
        w |= a != 0
        near |= b
    return w, near


UNITS = {"m": 1.0, "cm": 0.01, "mm": 0.001}


def _run(rng, xc, yc, z, mask, u, v, unit, u_unit, kw):
    f = UNITS[unit]
    uf = {"m/s": 1.0, "cm/s": 0.01}[u_unit]
    H = np.ma.array(z / f, mask=mask)
    g = _grid(xc, yc, unit, u_unit, h=H, u=np.ma.array(u / uf, mask=mask.copy()), v=np.ma.array(v / uf, mask=mask.copy()))
    before = H.copy()
    a, c = g.eddy_identification("h", "u", "v", datetime(2000, 1, 3, 12), **kw)
    after = g.grid("h")
    check((after.data == before.data).all() and (after.mask == before.mask).all(), "the grid is left as it was")
    return g, a, c


def identify(rng):
    """any field: what is said of each eddy holds for the isolines and the nodes of the grid"""
    from py_eddy_tracker.dataset.grid import _fit_circle_path
    from py_eddy_tracker.generic import coordinates_to_local, uniform_resample
    from py_eddy_tracker.poly import create_vertice, poly_area
    xc, yc, circular = _coords(rng)
    nx, ny = xc.size, yc.size
    z = _field(rng, nx, ny, circular) + rng.choice([0, 0.013, 5.0])
    mask = np.array([[rng.random() < rng.choice([0, 0, 0.01]) for _ in range(ny)] for _ in range(nx)])
    u, v = _field(rng, nx, ny, circular), _field(rng, nx, ny, circular)
    unit, u_unit = rng.choice(["m", "cm", "mm"]), rng.choice(["m/s", "cm/s"])
    step, sampling, method = rng.choice([0.05, 0.1, 0.03]), rng.choice([20, 50]), rng.choice(["visvalingam", "uniform"])
    shape, limit, mle, smin = rng.choice([55, 30, 70]), rng.choice([None, (4, 60), (8, 1000)]), rng.choice([1, 1, 2]), rng.choice([1, 2, 3])
    kw = dict(step=step, precision=rng.choice([None, None, None, step / 10, step]), shape_error=shape, sampling=sampling, sampling_method=method, pixel_limit=limit, mle=mle, nb_step_min=smin, nb_step_to_be_mle=rng.choice([2, 1]))
    g, a, c = _run(rng, xc, yc, z, mask, u, v, unit, u_unit, kw)
    check(g.is_circular() == circular, "closed grid")
    f, uf = UNITS[unit], {"m/s": 1.0, "cm/s": 0.01}[u_unit]
    if kw["precision"] is not None:
        z = (z / f / (kw["precision"] / f)).round() * (kw["precision"] / f) * f
    limit = limit or (4, 1000)
    taken = np.zeros((nx, ny), bool)
    det = dict(xc=xc[:2], yc=yc[:2], nx=nx, ny=ny, kw=kw, unit=unit)
    n_obs = 0
    for e, s in ((a, 1), (c, -1)):
        check(e.sign_type == s, "rotation sign", got=e.sign_type, **det)
        for k in range(len(e)):
            n_obs += 1
            o = {q: e[q][k] for q in e.fields}
            check(abs(o["time"] - (datetime(2000, 1, 3, 12) - datetime(1950, 1, 1)).total_seconds() / 86400) < 1e-6, "date", got=o["time"])
            check(0 <= o["lon"] <= 360 and 0 <= o["lon_max"] <= 360, "longitudes between 0 and 360", lon=o["lon"], lon_max=o["lon_max"])
            for w in "es":
                check((np.abs(o["contour_lon_" + w] - o["lon"]) <= 180.001).all(), "outline stored around its center", lon=o["lon"], contour=o["contour_lon_" + w], **det)
            L, Ls, Li = (o["height_%s_contour" % q] / f for q in ("external", "max_speed", "inner"))
            # stored heights are exact in float 8, else the nearest isoline
            lev = np.array(g.contours.cvalues)
            iL, iS, iI = (int(np.abs(lev - q).argmin()) for q in (L, Ls, Li))
            check(max(abs(lev[iL] - L), abs(lev[iS] - Ls), abs(lev[iI] - Li)) * f < 1e-4, "heights of isolines", heights=(L, Ls, Li), **det)
            check(0 <= (iS - iL) * s <= (iI - iL) * s, "the isoline of maximal speed is between the effective one and the inner one", levels=(iL, iS, iI), sign=s, **det)
            check(o["nb_contour_selected"] == (iI - iL) * s + 1, "number of isolines", got=o["nb_contour_selected"], levels=(iL, iI), **det)
            pe, ps = _which(g, lev[iL], o["contour_lon_e"], o["contour_lat_e"], sampling, method), _which(g, lev[iS], o["contour_lon_s"], o["contour_lat_s"], sampling, method)
            check(len(pe) == 1 and len(ps) == 1, "outlines stored are isolines at the heights stored", found=(len(pe), len(ps)), **det)
            pe, ps = pe[0], ps[0]
            check(pe.used and ps.used, "isolines of an eddy are marked", **det)
            check(o["num_point_e"] == len(pe.lon) and o["num_point_s"] == len(ps.lon), "number of points of the outlines")
            check(0 <= pe.fit_circle()[3] <= shape, "shape error of the effective outline", got=pe.fit_circle(), **det)
            w, near = _inside(pe, xc, yc)
            sure = w & ~near
            h = s * (z / f - lev[iL])
            check(not mask[sure].any(), "no masked node in an eddy", **det)
            check((h[sure] > -1e-7).all(), "nodes of an eddy are on one side of its outline", sign=s, level=lev[iL], values=z[sure] / f, **det)
            check(sure.sum() <= limit[1] and (w | near).sum() >= limit[0], "number of nodes in an eddy", got=(sure.sum(), (w | near).sum()), **det)
            check(not (taken & sure).any(), "a node belongs to one eddy at most", **det)
            taken |= sure
            # extrema
            amp = o["amplitude"] / f
            tol = 1e-5 / f
            check(amp >= smin * step / f - tol, "amplitude above the threshold", amplitude=amp, **det)
            check(amp <= h[w | near].max() + tol, "amplitude of one of the nodes inside", amplitude=amp, best=h[w | near].max(), **det)
            zz = np.pad(np.where(mask, np.nan, z), ((1, 1), (1, 1)), mode="wrap" if circular else "edge") * s
            best = np.nanmax([zz[1 + i:1 + i + nx, 1 + j:1 + j + ny] for i in (-1, 0, 1) for j in (-1, 0, 1) if i or j], axis=0)
            strict = s * z > best
            strict[:, [0, -1]] = False
            ex = np.where(strict & sure)
            if not near.any():
                if len(ex[0]) and h[ex].max() >= h[w].max():
                    check(abs(amp - h[ex].max()) < tol, "amplitude: highest extremum from the outline", amplitude=amp, expected=h[ex].max(), **det)
            check((h[ex] * f >= kw["nb_step_to_be_mle"] * step + 1e-9).sum() <= mle, "number of extrema in an eddy", got=h[ex], **det)
            # speeds
            sp = [g.speed_coef_mean(q) * uf for q in (pe, ps)]
            prof = o["uavg_profile"]
            check(abs(prof[0] - sp[0]) < 2e-4, "the profile starts on the effective outline", got=prof[0], expected=sp[0], **det)
            check(abs(o["speed_average"] - sp[1]) < 2e-4 and sp[1] >= sp[0] - 1e-12, "speed on the outline of maximal speed", got=o["speed_average"], expected=sp, **det)
            if iS == iL:
                check(ps is pe, "one isoline", **det)
            else:
                w2, near2 = winding(pe.lon, pe.lat, ps.lon + 360 * np.round((pe.lon[0] - ps.lon[0]) / 360), ps.lat)
                d = np.arange(len(ps.lon))
                check(((w2[d, d] != 0) | near2[d, d]).all(), "the outline of maximal speed is in the effective one", **det)
                check((lambda q: (q[0] | q[1]).sum() > limit[0])(_inside(ps, xc, yc)), "enough nodes in the outline of maximal speed", **det)
            # measures
            for q, p in (("e", pe), ("s", ps)):
                x, y = uniform_resample(p.lon, p.lat, num_fac=10)
                cx, cy, r, err = _fit_circle_path(create_vertice(x, y))
                check(abs(o["radius_" + q] - r) <= 1e-3 * r and abs(o["shape_error_" + q] - err) <= 1e-2 + 1e-3 * err, "radius and shape error of each outline", which=q, got=(o["radius_" + q], o["shape_error_" + q]), expected=(r, err), **det)
                area = poly_area(*coordinates_to_local(x, y, lon0=float(o["lon"]), lat0=float(o["lat"])))
                check(abs(o["effective_area" if q == "e" else "speed_area"] - area) <= 1e-2 * area, "area of each outline", which=q, **det)
                if q == "s":
                    check(abs(_turn(o["lon"] - cx)) < 1e-3 and abs(o["lat"] - cy) < 1e-3, "center of the outline of maximal speed", got=(o["lon"], o["lat"]), expected=(cx, cy), **det)
            inner = [p for p in _paths(g, lev[iI]) if np.hypot(*(lambda c_: (_turn(c_[0] - o["lon_max"]), c_[1] - o["lat_max"]))(_fit_circle_path(create_vertice(*uniform_resample(p.lon, p.lat, num_fac=10))))) < 1e-3]
            check(len(inner) >= 1, "position of the extremum: center of the inner isoline", lon_max=o["lon_max"], lat_max=o["lat_max"], **det)
            check(any(abs(prof[-1] - g.speed_coef_mean(p) * uf) < 2e-4 for p in inner), "the profile ends on the inner isoline", **det)


    # an isoline which meets every condition, none of its nodes being in another eddy, is not left aside
    lev = np.array(g.contours.cvalues)
    zz = np.pad(np.where(mask, np.nan, z), ((1, 1), (1, 1)), mode="wrap" if circular else "edge")
    for s in (1, -1):
        near_best = np.nanmax([s * zz[1 + i:1 + i + nx, 1 + j:1 + j + ny] for i in (-1, 0, 1) for j in (-1, 0, 1) if i or j], axis=0)
        strict, weak = s * z > near_best, s * z >= near_best
        for i, col in enumerate(g.contours.contours.collections):
            for p in col.get_paths():
                err = p.fit_circle()[3]
                if not 0 <= err < shape - 1e-6:
                    continue
                w, near = _inside(p, xc, yc)
                if near.any() or not limit[0] <= w.sum() <= limit[1] or (w & mask).any() or (w & taken).any():
                    continue
                h = s * (z / f - lev[i])[w]
                top = h[strict[w]]
                if (h > 1e-6).all() and (weak & w).sum() == 1 and len(top) == 1 and top[0] == h.max() and top[0] > smin * step / f * (1 + 1e-6):
                    check(False, "an isoline which meets every condition bounds an eddy", level=lev[i], sign=s, isoline=p.vertices, nodes=w.sum(), amplitude=top[0], **det)


def separated(rng):
    """separated eddies: each one is found, with its sign and place, wherever it is, in any unit"""
    xc, yc, circular = _coords(rng, big=True)
    z, eds = _gaussians(rng, xc, yc, circular)
    step = rng.choice([0.02, 0.05])
    z = z + 0.37 * step
    mask = np.zeros(z.shape, bool)
    u, v = np.gradient(z, axis=1), -np.gradient(z, axis=0)
    kw = dict(step=step, sampling=rng.choice([20, 50]))
    unit = rng.choice(["m", "cm"])
    g, a, c = _run(rng, xc, yc, z, mask, u, v, unit, "m/s", kw)
    det = dict(nx=xc.size, ny=yc.size, x0=xc[0], y0=yc[0], dx=xc[1] - xc[0], circular=circular, eddies=eds, kw=kw)
    dx, dy = xc[1] - xc[0], yc[1] - yc[0]
    for e, s in ((a, 1), (c, -1)):
        ref = [q for q in eds if q[2] == s]
        check(len(e) == len(ref), "each eddy is found, with its sign", sign=s, expected=ref, got=list(zip(e.lon, e.lat)), **det)
        for lon, lat, _, amp in ref:
            i = np.argmin(np.hypot(_turn(e.lon - lon), e.lat - lat))
            check(abs(_turn(e.lon[i] - lon)) < dx and abs(e.lat[i] - lat) < dy and abs(_turn(e.lon_max[i] - lon)) < dx and abs(e.lat_max[i] - lat) < dy, "place of an eddy", expected=(lon, lat), got=(e.lon[i], e.lat[i], e.lon_max[i], e.lat_max[i]), **det)
            top = np.abs(z - 0.37 * step)[np.abs(_turn(xc - lon)) < dx * 0.51][:, np.abs(yc - lat) < dy * 0.51].max()
            check(abs(e.amplitude[i] - top) < 1.7 * step, "amplitude of an eddy", expected=top, got=e.amplitude[i], **det)
    k = rng.randint(1, xc.size - 1)
    if circular and rng.random() < 0.5:
        zr = np.roll(z, k, axis=0)
        _, a2, c2 = _run(rng, xc, yc, zr, mask, np.roll(u, k, axis=0), np.roll(v, k, axis=0), "m", "m/s", kw)
        sh = k * dx
    else:
        zr = -z
        _, c2, a2 = _run(rng, xc + 360 * rng.choice([0, 1, -1]), yc, zr, mask, u, v, "m", "m/s", kw)
        sh = 0
    for e, e2 in ((a, a2), (c, c2)):
        check(len(e) == len(e2), "same eddies when the field is shifted or changes sign", shift=sh, **det)
        for i in range(len(e)):
            q = np.argmin(np.hypot(_turn(e2.lon - sh - e.lon[i]), e2.lat - e.lat[i]))
            check(abs(_turn(e2.lon[q] - sh - e.lon[i])) < 0.35 * dx and abs(e2.lat[q] - e.lat[i]) < 0.35 * dx and abs(e2.amplitude[q] - e.amplitude[i]) < 1.01 * step and abs(e2.radius_e[q] / e.radius_e[i] - 1) < 0.3,
                  "same eddies when the field is shifted or changes sign", shift=sh, got=(e2.lon[q], e2.lat[q], e2.amplitude[q], e2.radius_e[q]), expected=(e.lon[i] + sh, e.lat[i], e.amplitude[i], e.radius_e[i]), **det)
