"""Bounded scenarios: grids read from netCDF files and written back (run in the repository's interpreter)"""
import logging
import os
import shutil
import tempfile

import numpy as np

from props.adapters import check

logging.getLogger("pet").setLevel(logging.ERROR)


def _axis(rng, n, x0, step, dtype):
    return (x0 + step * np.arange(n)).astype(dtype)


def cube(rng, folder, name="g.nc", nt=None, planes_last=False):
    """a file with a variable on (time, depth, lat, lon), in any order; returns what it holds by position"""
    from netCDF4 import Dataset
    step = rng.choice([0.125, 0.25, 1.0, 2.5, 7.5])
    circ = rng.random() < 0.3
    if circ:
        step = rng.choice([30.0, 45.0, 22.5])
    nx, ny = int(360 / step) if circ else rng.randint(3, 9), rng.randint(3, 7)
    ys = rng.choice([step, step, step / 2])
    ct = rng.choice(["f4", "f8"])
    x, y = _axis(rng, nx, rng.choice([0.0, -180.0, 12.5, 355.0]), step, ct), _axis(rng, ny, rng.choice([0.0, -20.0, 31.25]), ys, ct)
    extra = [d for d in ("time", "depth") if rng.random() < (0.7 if d == "time" else 0.3)]
    if nt is not None and "time" not in extra:
        extra.append("time")
    sizes = dict(time=nt or rng.randint(1, 3), depth=rng.randint(1, 2), lon=nx, lat=ny)
    if planes_last:  # files with one date and one depth, these dimensions first
        sizes.update(time=1, depth=1)
    dims = ["lat", "lon"] + extra
    rng.shuffle(dims)
    if planes_last:
        dims.sort(key=lambda d: d in ("lat", "lon"))
    pack = rng.choice([None, None, "i2", "f4"])
    values = np.array([rng.randint(-300, 300) * 0.125 for _ in range(int(np.prod([sizes[d] for d in dims])))]).reshape([sizes[d] for d in dims])
    missing = np.array([rng.random() < 0.2 for _ in range(values.size)]).reshape(values.shape) if rng.random() < 0.6 else np.zeros(values.shape, bool)
    nan = np.array([rng.random() < 0.2 for _ in range(values.size)]).reshape(values.shape) & ~missing if rng.random() < 0.3 and pack != "i2" else np.zeros(values.shape, bool)
    path = os.path.join(folder, name)
    with Dataset(path, "w") as h:
        for d in dims:
            h.createDimension(d, None if d == "time" and rng.random() < 0.3 else sizes[d])
        for d, v in (("lon", x), ("lat", y)):
            q = h.createVariable(d, ct, (d,))
            q.units = "degrees_" + ("east" if d == "lon" else "north")
            q[:] = v
        if "time" in dims:
            h.createVariable("time", "f8", ("time",))[:] = 10 + np.arange(sizes["time"])
        z = h.createVariable("z", pack or "f8", tuple(dims), fill_value={"i2": -32000, None: 1e20, "f4": 1e20}[pack])
        z.units = rng.choice(["m", "cm", "m/s"])
        z.long_name = "heights"
        if pack == "i2":
            z.scale_factor = 0.125
        z[:] = np.ma.array(np.where(nan, np.nan, values), mask=missing)
        units = z.units
    return dict(path=path, x=x, y=y, dims=dims, sizes=sizes, values=values, missing=missing, nan=nan, step=step, ystep=ys, units=units, circ=circ)


def plane(c, index, sx=slice(None), sy=slice(None)):
    """(values, missing, nan) by (lon, lat) for the index of each other dimension"""
    out = []
    for a in (c["values"], c["missing"], c["nan"]):
        a = a[tuple(sx if d == "lon" else sy if d == "lat" else index.get(d, 0) for d in c["dims"])]
        left = [d for d in c["dims"] if d in ("lon", "lat")]
        out.append(a if left == ["lon", "lat"] else a.T)
    return out


def same(z, v, unknown, nan, what, **d):
    check(z.shape == v.shape, what + ": one value by node (longitude, latitude)", got=z.shape, expected=v.shape, **d)
    m = np.ma.getmaskarray(z)
    check((m == unknown).all(), what + ": nodes without value in the file, and only these, are unknown", mask=m, expected=unknown, **d)
    g = np.ma.getdata(z)
    ok = ~unknown & ~nan
    check(np.allclose(g[ok], v[ok], atol=1e-6) and np.isnan(g[nan & ~unknown].astype("f8")).all(), what + ": value of the file at this position", got=g, expected=v, **d)


def read(rng):
    from py_eddy_tracker.dataset.grid import RegularGridDataset
    folder = tempfile.mkdtemp(prefix="b_file_")
    try:
        c = cube(rng, folder)
        index = {d: rng.randrange(c["sizes"][d]) for d in c["dims"] if d not in ("lon", "lat") and rng.random() < 0.6}
        kw = {k: v for k, v in index.items()}
        sx = sy = slice(None)
        if not c["circ"] and rng.random() < 0.25:
            sx = slice(rng.randint(0, len(c["x"]) - 3), None)
            kw["lon"] = sx
        if rng.random() < 0.2:
            sy = slice(0, rng.randint(3, len(c["y"])))
            kw["lat"] = sy
        centered = rng.choice([True, True, None, False])
        nan_masking = rng.random() < 0.5
        g = RegularGridDataset(c["path"], "lon", "lat", centered=centered, nan_masking=nan_masking, **(dict(indexs=kw) if kw or rng.random() < 0.5 else {}))
        info = dict(dims=c["dims"], indexs=str(kw), centered=centered)
        x, y = np.asarray(c["x"][sx], "f8"), np.asarray(c["y"][sy], "f8")
        for nm, a, ac, ab, st in (("longitude", x, g.x_c, g.x_bounds, c["step"]), ("latitude", y, g.y_c, g.y_bounds, c["ystep"])):
            if centered is False:
                check(np.allclose(ab, a) and np.allclose(ac, a + st / 2, atol=1e-4), nm + ": coordinates are the low bounds of the cells, centers half a step further", a=a, bounds=ab, centers=ac)
            else:
                check(np.allclose(ac, a) and len(ab) == len(a) + 1 and np.allclose(ab[:-1], a - st / 2, atol=1e-4) and np.allclose(ab[-1], a[-1] + st / 2, atol=1e-4), nm + ": coordinates are the centers, bounds halfway", a=a, bounds=ab, centers=ac)
        check(abs(g.xstep - c["step"]) < 1e-4 and abs(g.ystep - c["ystep"]) < 1e-4, "steps of the grid", got=(g.xstep, g.ystep), expected=(c["step"], c["ystep"]))
        if centered is not False:
            full = sx == slice(None)
            check(bool(g.is_circular()) == (c["circ"] and full), "closed exactly when the cells go around the globe", x=x, got=g.is_circular())
            check(np.allclose(g.bounds, (x[0] - c["step"] / 2, x[-1] + c["step"] / 2, y[0] - c["ystep"] / 2, y[-1] + c["ystep"] / 2), atol=1e-4), "bounds of the grid", got=g.bounds)
        more = {}
        free = [d for d in c["dims"] if d not in ("lon", "lat")]
        if free and rng.random() < 0.4:
            d = rng.choice(free)
            more = {d: rng.randrange(c["sizes"][d])}
        v, miss, nan = plane(c, {**index, **more}, sx, sy)
        z = g.grid("z", indexs=more) if more else g.grid("z")
        same(z, v, miss | nan if nan_masking else miss, nan, "grid", **info, indexs_of_grid=str(more))
        check(g.grid("z") is z, "the same grid the next times")
        check(g.units("z") == c["units"] and set(g.variables) >= {"lon", "lat", "z"}, "units and variables of the file", got=g.units("z"))
        t = (slice(1, 3), slice(0, 2))
        v, miss, nan = plane(c, {}, *t)
        same(g.grid_tiles("z", *t), v, miss, nan, "tile", **info)
        g.clean()
        check(not len(g.vars) and g.x_c is None, "cleaning releases the grids")
        g.populate()
        v, miss, nan = plane(c, index, sx, sy)
        same(g.grid("z"), v, miss | nan if nan_masking else miss, nan, "grid read again", **info)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def written(rng):
    """grids added, copied, written and read back"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset
    folder = tempfile.mkdtemp(prefix="b_file_")
    try:
        c = cube(rng, folder, planes_last=True)
        info = dict(dims=c["dims"])
        if rng.random() < 0.3:
            x, y = c["x"].astype("f8"), c["y"].astype("f8")
            v, miss, nan = plane(c, {})
            g = RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(z=np.ma.array(v, mask=miss), lon=x, lat=y), centered=True, variables_description=dict(z=dict(units=c["units"])))
            nan = np.zeros(v.shape, bool)
            check(g.units("z") == c["units"], "units given with the arrays", got=g.units("z"))
        else:
            g = RegularGridDataset(c["path"], "lon", "lat", centered=True)
            v, miss, nan = plane(c, {})
        order = rng.choice(["copy", "copy", "load", "none"])
        if order == "load":
            g.grid("z")
        if order != "none":
            g.copy("z", "w")
            same(g.grid("w"), v, miss, nan, "copy", **info)
            w = g.grid("w")
            w[:] = w * 2
            same(g.grid("z"), v, miss, nan, "grid copied, after a change of the copy", **info)
            check(g.units("w") == c["units"], "units of the copy", got=g.units("w"))
        else:
            g.grid("z")
        out = os.path.join(folder, "out.nc")
        g.write(out)
        r = RegularGridDataset(out, "lon", "lat", centered=True)
        check(np.allclose(r.x_c, c["x"]) and np.allclose(r.y_c, c["y"]), "coordinates written", got=(r.x_c, r.y_c))
        same(r.grid("z"), v, miss, nan, "grid written then read", order=order, **info)
        if order != "none":
            same(r.grid("w"), v * 2, miss, nan, "copy written then read", order=order, **info)
            check(r.units("w") == c["units"], "units of the copy written")
        check(r.units("z") == c["units"], "units written")
        q = rng.choice([1, 3])
        a = np.ma.array(np.arange(v.size, dtype="f8").reshape(v.shape) * q, mask=miss)
        r.add_grid("new", a)
        same(r.grid("new"), a.data, miss, np.zeros(v.shape, bool), "grid added", **info)
        # interpolation of another grid at the nodes
        other = g
        h = RegularGridDataset.with_array(coordinates=("lon", "lat"), datas=dict(lon=c["x"].astype("f8")[:-1] + c["step"] * rng.choice([0, 0.25, 0.5]), lat=c["y"].astype("f8")[:-1] + c["ystep"] * rng.choice([0, 0.5])), centered=True)
        before = g.grid("z").copy()
        name = rng.choice([None, "there"])
        h.regrid(other, "z", name)
        z = h.grid(name or "z")
        check(z.shape == (len(h.x_c), len(h.y_c)), "grid interpolated: one value by node", got=z.shape)
        for i in range(len(h.x_c)):
            e = g.interp("z", np.full(len(h.y_c), h.x_c[i]), h.y_c)
            check((np.ma.getmaskarray(z)[i] == np.isnan(e)).all() and np.allclose(np.ma.getdata(z)[i][~np.isnan(e)], e[~np.isnan(e)]), "grid interpolated: value of the other grid at each node", got=z[i], expected=e)
        same(g.grid("z"), before.data, np.ma.getmaskarray(before), np.isnan(before.data.astype("f8")) & ~np.ma.getmaskarray(before), "the other grid does not change", **info)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def series(rng):
    from py_eddy_tracker.dataset.grid import GridCollection
    folder = tempfile.mkdtemp(prefix="b_file_")
    try:
        nt = rng.randint(2, 4)
        if rng.random() < 0.5:
            c = cube(rng, folder, nt=nt)
            g = GridCollection.from_netcdf_cube(c["path"], "lon", "lat", "time")
            files = [(c, dict(time=k)) for k in range(nt)]
            t = [10 + k for k in range(nt)]
            unset = False
        else:
            unset = rng.random() < 0.5
            files = [(cube(rng, folder, f"g{k}.nc"), {}) for k in range(nt)]
            t = [int(k) for k in np.cumsum([rng.randint(1, 3) for _ in range(nt)])]
            index = dict(time=rng.randrange(min([c["sizes"]["time"] for c, _ in files if "time" in c["dims"]] or [1])))
            files = [(c, index) for c, _ in files]
            g = GridCollection.from_netcdf_list([c["path"] for c, _ in files], t, "lon", "lat", indexs=index, unset=unset)
        check(list(g.time) == t and tuple(g.period) == (t[0], t[-1]) and len(list(g)) == nt, "dates of the files", got=list(g.time), expected=t)
        check((~np.asarray(g.are_loaded) == unset).all(), "grids read when needed only", got=g.are_loaded, unset=unset)
        k = rng.randrange(nt)
        v, miss, nan = plane(*files[k])
        same(g[t[k]].grid("z"), v, miss, nan, "grid at a date", k=k, t=t)
        check(bool(g.are_loaded[k]), "the grid asked is loaded")
        d0 = rng.choice(t + [t[0] - 1, t[-1] + 1, t[0] + 0.5])
        got = [q for q, d in g.get_next_time_step(d0)]
        check(got == [q for q in t if q >= d0], "next dates, in order", got=got, start=d0, t=t)
        got = [q for q, d in g.get_previous_time_step(d0)]
        check(got == [q for q in t[::-1] if q <= d0], "previous dates, in backward order", got=got, start=d0, t=t)
        for q, d in g.get_next_time_step(t[0]):
            v, miss, nan = plane(*files[t.index(q)])
            same(d.grid("z"), v, miss, nan, "grid of the date", t=t)
        n = rng.randint(0, nt)
        g.reset_grids(n)
        check(int(g.are_loaded.sum()) == (nt if nt <= n else 0), "grids released when there are more than asked", n=n, nt=nt, got=g.are_loaded)
        v, miss, nan = plane(*files[k])
        same(g[t[k]].grid("z"), v, miss, nan, "grid at a date, after the release", k=k, t=t)
        c = cube(rng, folder, "next.nc")
        g.shift_files(t[-1] + 2, c["path"], x_name="lon", y_name="lat")
        check(list(g.time) == t[1:] + [t[-1] + 2], "the oldest date leaves, the new one is last", got=list(g.time))
        v, miss, nan = plane(c, {})
        same(g[t[-1] + 2].grid("z"), v, miss, nan, "grid of the date added")
        try:
            g[t[0]]
            check(False, "no grid for another date", t=list(g.time), date=t[0])
        except KeyError:
            pass
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def curvilinear(rng):
    """grids with two-dimensional coordinates: nearest nodes, nodes in an outline"""
    from netCDF4 import Dataset
    from py_eddy_tracker.dataset.grid import UnRegularGridDataset
    folder = tempfile.mkdtemp(prefix="b_file_")
    try:
        nx, ny = rng.randint(3, 7), rng.randint(3, 7)
        a = rng.uniform(-0.3, 0.3)
        i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
        x, y = rng.choice([0.0, 20.0, -50.0]) + i + a * j, rng.choice([0.0, -30.0]) + j - a * i
        v = np.array([rng.randint(-80, 80) / 8 for _ in range(nx * ny)]).reshape(nx, ny)
        p = os.path.join(folder, "u.nc")
        with Dataset(p, "w") as h:
            h.createDimension("i", nx), h.createDimension("j", ny)
            for nm, q in (("lon", x), ("lat", y), ("z", v)):
                h.createVariable(nm, "f8", ("i", "j"))[:] = q
        g = UnRegularGridDataset(p, "lon", "lat", centered=True)
        check((np.asarray(g.x_c) == x).all() and (np.asarray(g.grid("z")) == v).all(), "coordinates and values of the file")
        check(np.allclose(g.bounds, (x.min(), x.max(), y.min(), y.max())), "bounds", got=g.bounds)
        px, py = rng.uniform(x.min(), x.max()), rng.uniform(y.min(), y.max())
        got = g.nearest_grd_indice(px, py)
        d = (x - px) ** 2 + (y - py) ** 2
        check(abs(d[int(got[0]), int(got[1])] - d.min()) < 1e-9, "nearest node", got=got, position=(px, py))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def curvilinear_eddies(rng):
    """the eddies of a field do not depend on the way its coordinates are stored (one or two dimensions)"""
    from datetime import datetime
    from netCDF4 import Dataset
    from py_eddy_tracker.dataset.grid import RegularGridDataset, UnRegularGridDataset
    folder = tempfile.mkdtemp(prefix="b_file_")
    try:
        nx, ny, st = rng.randint(30, 40), rng.randint(26, 34), 0.25
        x, y = rng.choice([10.0, -40.0]) + np.arange(nx) * st, rng.choice([30.0, -45.0]) + np.arange(ny) * st
        X, Y = np.meshgrid(x, y, indexing="ij")
        s = rng.choice([-1, 1])
        z = s * 0.3 * np.exp(-((X - x[nx // 2] - rng.uniform(-0.2, 0.2)) ** 2 + (Y - y[ny // 2] - rng.uniform(-0.2, 0.2)) ** 2) / (2 * rng.uniform(0.6, 0.8) ** 2))
        g, cor = 9.807, 2 * 7.292115e-5 * np.sin(np.radians(Y))
        v, u = np.gradient(z, st, axis=0) / (111e3 * np.cos(np.radians(Y))) * g / cor, -np.gradient(z, st, axis=1) / 111e3 * g / cor
        found = []
        for cls, nm in ((RegularGridDataset, "r.nc"), (UnRegularGridDataset, "u.nc")):
            p = os.path.join(folder, nm)
            with Dataset(p, "w") as h:
                h.createDimension("lon", nx), h.createDimension("lat", ny)
                two = cls is UnRegularGridDataset
                for n, a, d, un in (("lon", X if two else x, ("lon", "lat") if two else ("lon",), "degrees"), ("lat", Y if two else y, ("lon", "lat") if two else ("lat",), "degrees"),
                                    ("z", z, ("lon", "lat"), "m"), ("u", u, ("lon", "lat"), "m/s"), ("v", v, ("lon", "lat"), "m/s")):
                    q = h.createVariable(n, "f8", d)
                    q.units = un
                    q[:] = a
            found.append(cls(p, "lon", "lat", centered=True).eddy_identification("z", "u", "v", datetime(2020, 1, 1), 0.02))
        (a0, c0), (a1, c1) = found
        check((len(a0), len(c0)) == (len(a1), len(c1)), "as many eddies", one=(len(a0), len(c0)), two=(len(a1), len(c1)))
        for p, q in ((a0, a1), (c0, c1)):
            for f, tol in (("longitude", 1e-3), ("latitude", 1e-3), ("amplitude", 1e-3), ("radius_e", 200), ("shape_error_e", 1), ("speed_average", 0.03)):
                check(np.allclose(p[f], q[f], atol=tol, rtol=1e-3), "same eddies: " + f, one=p[f], two=q[f])
    finally:
        shutil.rmtree(folder, ignore_errors=True)
