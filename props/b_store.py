"""Bounded scenarios: storage of observations in netCDF and zarr (run in the repository's interpreter)"""
import os
import shutil
import tempfile

import numpy as np

from props.adapters import check

RANGES = dict(uint16=65535, u2=65535, u1=255, byte=1, uint32=4000000, u4=4000000, int32=4000000)


def dataset(rng):
    from py_eddy_tracker import VAR_DESCR
    from py_eddy_tracker.observations.network import NetworkObservations as N
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
    cls = rng.choice([E, E, T, N])
    n = rng.choice([0, 1, 2, 3, 5, 9])
    arrays = [] if rng.random() < 0.2 else [v for v in ("contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile") if rng.random() < 0.6]
    extra = [v for v in ("dlon", "distance_next", "cost_association", "lon_max", "height_max_speed_contour", "score", "index_other", "year", "i", "chl") if rng.random() < 0.3]
    extra = [v for v in extra if v not in cls.ELEMENTS]
    kw = dict(track_array_variables=rng.choice([3, 20]), array_variables=arrays) if arrays else {}
    e = cls(size=n, track_extra_variables=extra, **kw)
    e.sign_type = rng.choice([-1, 1])
    for f in e.fields:
        d = VAR_DESCR[f]
        s, o = d.get("scale_factor"), d.get("add_offset") or 0
        v = e.obs[f]
        draw = np.array([rng.random() for _ in range(v.size)]).reshape(v.shape)
        if f.startswith("contour_l"):
            v[:] = np.floor(draw * 40000 - 20000) * s + o + (draw - 0.5) * 0.9 * s
        elif s is not None:
            top = dict(uint16=65000, u2=65000, u1=250, uint32=3e9)[d["output_type"]]
            v[:] = np.floor(draw * top) * s + o if rng.random() < 0.5 else draw * top * s + o
            if f == "time":
                v[:] = np.round(v) if rng.random() < 0.5 else np.round(v * 24) / 24
        elif v.dtype.kind in "iu":
            v[:] = draw * min(np.iinfo(v.dtype).max, 4000000) - (1 if v.dtype.kind == "i" and rng.random() < 0.2 else 0)
        else:
            v[:] = draw * 300 - 150
    if "type_cyc" in e.fields:
        e.type_cyc[:] = e.sign_type
    return e


def stored(e, f, raw=False):
    """value that the file can hold for each value, and tolerance"""
    from py_eddy_tracker import VAR_DESCR
    d = VAR_DESCR[f]
    s, o = d.get("scale_factor"), d.get("add_offset") or 0
    v = np.asarray(e.obs[f], "f8")
    if s is None:
        return v, np.abs(v) * 1e-7 if np.dtype(d["output_type"]) == np.float32 else np.zeros(v.shape)
    n = np.round((v - o) / s)
    eps = 1e-3 if e.obs[f].dtype.itemsize > 2 else 0
    return (n if raw else v), (np.full(v.shape, 1.0) if raw else np.full(v.shape, s * 0.5 + eps * s) + np.abs(v) * (2e-7 if e.obs[f].dtype.itemsize > 2 else 1e-3))


def same_values(got, exp, f, what, raw=False, rows=slice(None), **d):
    from py_eddy_tracker import VAR_DESCR
    v, tol = stored(exp, f, raw)
    v, tol = v[rows], tol[rows]
    check(got.shape == v.shape, what + ": size", field=f, expected=v.shape, got=got.shape, **d)
    check(bool(np.all(np.abs(got.astype("f8") - v) <= tol)), what + ": value of each field of each observation", field=f, expected=v, got=got, **d)
    if not raw and v.size and VAR_DESCR[f].get("scale_factor") and got.dtype.itemsize > 2:
        s, o = VAR_DESCR[f]["scale_factor"], VAR_DESCR[f].get("add_offset") or 0
        k = (got.astype("f8") - o) / s
        check(bool(np.all(np.abs(k - np.round(k)) < 0.02)), what + ": values are multiples of the scale", field=f, got=got, **d)


def chunk(rng, zarr):
    return dict(chunck_size=rng.choice([20, 60, 1000])) if zarr else {}


def round_trip(rng):
    import warnings
    warnings.filterwarnings("ignore")
    d = tempfile.mkdtemp(prefix="b_store_")
    try:
        _round_trip(rng, d)
    finally:
        shutil.rmtree(d)


def _round_trip(rng, d):
    from py_eddy_tracker import VAR_DESCR
    e = dataset(rng)
    cls = type(e)
    zarr = rng.random() < 0.5
    before = {f: e.obs[f].copy() for f in e.fields}
    c = dict(cls=cls.__name__, n=len(e), fields=sorted(e.fields), arrays=e.array_variables, nb_sample=e.track_array_variables, zarr=zarr, sign=e.sign_type)
    e.write_file(path=d, filename="%(path)s/a_%(sign_type)s.nc", zarr_flag=zarr, **chunk(rng, zarr))
    legend = "Cyclonic" if e.sign_type == -1 else "Anticyclonic"
    names = os.listdir(d)
    check(names == ["a_" + legend + (".zarr" if zarr else ".nc")], "one file is written, named after the rotation", got=names, **c)
    check(all(np.array_equal(before[f], e.obs[f]) for f in e.fields), "writing leaves the observations as they are", **c)
    path = os.path.join(d, names[0])
    r = cls.load_file(path)
    check(type(r) is cls and set(r.fields) == set(e.fields), "fields loaded", expected=sorted(e.fields), got=sorted(r.fields), **c)
    check(len(r) == len(e) and int(r.sign_type) == e.sign_type, "number of observations and rotation loaded", got=(len(r), r.sign_type), **c)
    for f in e.fields:
        check(r.obs[f].dtype == e.obs[f].dtype, "type of a field", field=f, got=r.obs[f].dtype, **c)
        same_values(r.obs[f], e, f, "observations loaded", **c)
    # second trip changes nothing
    os.mkdir(os.path.join(d, "b"))
    z = rng.random() < 0.5
    r.write_file(path=os.path.join(d, "b"), filename="%(path)s/b.nc", zarr_flag=z, **chunk(rng, z))
    r2 = cls.load_file(os.path.join(d, "b", os.listdir(os.path.join(d, "b"))[0]))
    for f in e.fields:
        s = VAR_DESCR[f].get("scale_factor") or 0
        check(r2.obs[f].shape == r.obs[f].shape and bool(np.all(np.abs(r2.obs[f].astype("f8") - r.obs[f].astype("f8")) <= s * 0.05 + 1e-6 * np.abs(r.obs[f].astype("f8")))), "values loaded do not move when they are stored again", field=f, expected=r.obs[f], got=r2.obs[f], **c)
    # part of the file
    if not len(e):
        return
    a = rng.randint(0, len(e))
    b = rng.randint(a, len(e) + 2)
    sl = rng.choice([slice(a, b), slice(None, b), slice(a, None), slice(None)])
    rows = np.arange(len(e))[sl]
    part = cls.load_file(path, indexs=dict(obs=sl))
    check(len(part) == len(rows), "observations loaded with a slice", slice=sl, got=len(part), **c)
    for f in part.fields:
        check(np.array_equal(part.obs[f], r.obs[f][rows]), "observations loaded with a slice are those of the file", slice=sl, field=f, expected=r.obs[f][rows], got=part.obs[f], **c)
    # part of the variables
    ff = sorted(e.fields)
    keep = [f for f in ff if f == "time" or rng.random() < 0.4]
    nc = lambda fs: [VAR_DESCR[f]["nc_name"] for f in fs]
    for what, q, w in (("include_vars", cls.load_file(path, include_vars=nc(keep)), set(keep)), ("remove_vars", cls.load_file(path, remove_vars=nc([f for f in ff if f not in keep])), set(keep) | (set(cls.ELEMENTS)))):
        check(w <= set(q.fields) <= w | (set() if cls.__name__ == "EddiesObservations" else {"track", "segment", "n", "virtual", "cost_association", "previous_obs", "next_obs", "previous_cost", "next_cost"}), what + ": fields", keep=keep, expected=sorted(w), got=sorted(q.fields), **c)
        check(int(q.sign_type) == e.sign_type, what + ": rotation", got=q.sign_type, **c)
        for f in keep:
            check(np.array_equal(q.obs[f], r.obs[f]), what + ": values are those of the file", keep=keep, field=f, expected=r.obs[f], got=q.obs[f], **c)
    # raw values
    w = cls.load_file(path, raw_data=True)
    for f in e.fields:
        check(w.obs[f].dtype == np.dtype(VAR_DESCR[f]["output_type"]), "type of a raw field", field=f, got=w.obs[f].dtype, **c)
        same_values(w.obs[f], e, f, "raw observations loaded", raw=True, **c)
    os.mkdir(os.path.join(d, "c"))
    z = rng.random() < 0.5
    w.write_file(path=os.path.join(d, "c"), filename="%(path)s/c.nc", zarr_flag=z, **chunk(rng, z))
    r3 = cls.load_file(os.path.join(d, "c", os.listdir(os.path.join(d, "c"))[0]))
    for f in e.fields:
        s = VAR_DESCR[f].get("scale_factor") or 0
        check(r3.obs[f].shape == r.obs[f].shape and bool(np.all(np.abs(r3.obs[f].astype("f8") - r.obs[f].astype("f8")) <= s * 0.05 + 1e-6 * np.abs(r.obs[f].astype("f8")))), "raw values stored again give the same values", field=f, expected=r.obs[f], got=r3.obs[f], raw=w.obs[f], **c)
