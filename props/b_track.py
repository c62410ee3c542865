"""Bounded scenarios: tracks tables and selections (run in the repository's interpreter)"""
import math

import numpy as np

from props.adapters import Bad, check


def hav(lon0, lat0, lon1, lat1):
    lon0, lat0, lon1, lat1 = (np.radians(np.asarray(v, dtype="f8")) for v in (lon0, lat0, lon1, lat1))
    a = np.sin((lat1 - lat0) / 2) ** 2 + np.cos(lat0) * np.cos(lat1) * np.sin((lon1 - lon0) / 2) ** 2
    return 6370997.0 * 2 * np.arctan2(np.sqrt(a), np.sqrt(1 - a))


def tracks(rng, nb=None, contours=False, one_min=True):
    """dataset sorted by track, some ids not used"""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
    nb = rng.randint(1, 5) if nb is None else nb
    ids = np.array(sorted(rng.sample(range(8), nb)), dtype="u4")
    length = [rng.randint(1, 5) for _ in ids]
    n = sum(length)
    kw = dict(track_array_variables=6, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]) if contours else {}
    e = T(size=n, track_extra_variables=["distance_next"] if rng.random() < 0.2 else [], **kw)
    e.sign_type = rng.choice([-1, 1])
    for f in e.fields:
        e[f][:] = np.array([rng.randint(0, 200) for _ in range(e[f].size)]).reshape(e[f].shape)
    i = 0
    wide = rng.choice([3, 180])
    for t, m in zip(ids, length):
        s = slice(i, i + m)
        e.track[s] = t
        e.time[s] = rng.randint(0, 6) + np.arange(m)
        e.n[s] = np.arange(m)
        lon, lat = rng.uniform(-180, 360), rng.uniform(-60, 60)
        e.lon[s] = lon + np.cumsum([rng.uniform(-wide, wide) if rng.random() < 0.8 else 0 for _ in range(m)])
        e.lat[s] = np.clip(lat + np.cumsum([rng.uniform(-3, 3) if rng.random() < 0.8 else 0 for _ in range(m)]), -80, 80)
        i += m
    e.virtual[:] = np.array([rng.random() < 0.3 for _ in range(n)])
    if contours:
        for c in "es":
            e["contour_lon_" + c][:] = (e.lon + np.array([[rng.uniform(-2, 2) + 360 * rng.randint(-1, 1) for _ in range(n)] for _ in range(6)])).T
    return e


def same_obs(e, idx, got, what, but=(), **d):
    """got holds exactly the given observations of e, in order"""
    check(len(got) == len(idx), what + ": number of observations", expected=idx, got=len(got), track=e.track, **d)
    for f in e.fields:
        if f in but:
            continue
        check(f in got.fields and np.array_equal(got.obs[f], e.obs[f][idx]), what + f": values of {f}", expected=e.obs[f][idx], got=got.obs[f] if f in got.fields else None, track=e.track, **d)
    check(got.sign_type == e.sign_type, what + ": rotation sign", **d)


def by_track(e):
    tr = e.track.tolist()
    return {t: [i for i, v in enumerate(tr) if v == t] for t in sorted(set(tr))}


def tables(rng):
    e = tracks(rng)
    g = by_track(e)
    d = dict(track=e.track)
    i0, nb = e.index_from_track, e.nb_obs_by_track
    check(len(i0) == max(g) + 1 == len(nb), "one entry per id up to the largest", **d)
    for t in range(len(nb)):
        check(nb[t] == len(g.get(t, [])), "number of observations of each track", id=t, got=nb, **d)
        if t in g:
            check(i0[t] == g[t][0], "index of the first observation of each track", id=t, got=i0, **d)
            s = e.track_slice(t)
            check(list(range(*s.indices(len(e)))) == g[t], "slice of a track", id=t, got=s, **d)
    check(e.nb_tracks == len(g), "number of tracks", got=e.nb_tracks, **d)
    check(e.lifetime.tolist() == [len(g[t]) for t in e.track.tolist()], "lifetime of the track of each observation", got=e.lifetime, **d)
    m = np.array([rng.random() < 0.5 for _ in range(len(e))])
    c = e.count_by_track(m)
    check(c.tolist() == [int(m[g.get(t, [])].sum()) for t in range(len(nb))], "flagged observations of each track", mask=m, got=c, **d)
    for t, tr in zip(sorted(g), e.iter_track()):
        same_obs(e, g[t], tr, "iteration over tracks")
    check(len(list(e.iter_track())) == len(g), "one item per track in the iteration", **d)
    sel = [t for t in range(len(nb)) if rng.random() < 0.5]
    m = e.get_mask_from_id(np.array(sel, dtype="i8"))
    check(m.tolist() == [t in sel for t in e.track.tolist()], "mask of the tracks", ids=sel, got=m, **d)
    same_obs(e, [i for i, t in enumerate(e.track.tolist()) if t in sel], e.extract_ids(np.array(sel, dtype="i8")), "tracks given by id", ids=sel)
    # distance between consecutive observations
    dn = e.distance_to_next()
    h = np.zeros(len(e))
    for idx in g.values():
        for i, j in zip(idx[:-1], idx[1:]):
            h[i] = hav(e.lon[i], e.lat[i], e.lon[j], e.lat[j])
    check(np.allclose(dn, h, rtol=1e-6, atol=1), "distance to the next observation of the track, 0 for the last one", expected=h, got=dn, lon=e.lon, lat=e.lat, **d)
    a = e.add_distance()
    if "distance_next" not in e.fields:
        check(np.allclose(a.distance_next, h, rtol=1e-3, atol=1), "distance field", expected=h, got=a.distance_next, **d)
        same_obs(e, list(range(len(e))), a, "adding a field")


def selections(rng):
    e = tracks(rng)
    g = by_track(e)
    d = dict(track=e.track, time=e.time)
    n = len(e)
    tr = e.track.tolist()
    keep = lambda f: [i for i, t in enumerate(tr) if f(t)]
    # lengths
    b0, b1 = rng.choice([-1, 0, 1, 2, 3]), rng.choice([-1, 1, 2, 3, 5])
    if (b0, b1) != (-1, -1):
        ok = lambda t: (b0 == -1 or len(g[t]) >= b0) and (b1 == -1 or len(g[t]) <= b1)
        same_obs(e, keep(ok), e.extract_with_length((b0, b1)), "tracks with a length in the bounds", bounds=(b0, b1))
    # mask and its options
    m = np.array([rng.random() < rng.choice([0.2, 0.7]) for _ in range(n)])
    m0 = m.copy()
    mode = rng.choice(["", "full", "full_virtual", "complete"])
    kw = {"": {}, "full": dict(full_path=True), "full_virtual": dict(full_path=True, reject_virtual=True), "complete": dict(remove_incomplete=True)}[mode]
    comp = rng.random() < 0.4
    if mode == "":
        idx = np.where(m)[0].tolist()
    elif mode == "complete":
        idx = keep(lambda t: all(m[i] for i in g[t]))
    else:
        idx = keep(lambda t: any(m[i] and not (mode == "full_virtual" and e.virtual[i]) for i in g[t]))
    r = e.extract_with_mask(m, compress_id=comp, **kw)
    same_obs(e, idx, r, "selection with a mask", mask=m0, options=kw, but=("track",) if comp else ())
    check((m == m0).all(), "the mask given is not modified", mask=m0, options=kw, after=m)
    if comp and len(idx):
        rank = {t: k + 1 for k, t in enumerate(sorted({tr[i] for i in idx}))}
        for nm, v in (("track", r.track), ("stored track", r.obs["track"]), ("tracks", r.tracks)):
            check(v.tolist() == [rank[tr[i]] for i in idx], f"compressed ids ({nm})", expected=[rank[tr[i]] for i in idx], got=v, **d)
    # period
    p0, p1 = rng.choice([0, 2, 4, -1, -3]), rng.choice([0, 3, 5, 8, -1, -2])
    t = e.time
    lo = {True: p0, False: t.min() - p0}[p0 > 0] if p0 else -1e9
    hi = {True: p1, False: t.max() + p1}[p1 > 0] if p1 else 1e9
    same_obs(e, np.where((t >= lo) & (t <= hi))[0].tolist(), e.extract_with_period((p0, p1)), "observations in a period", period=(p0, p1), time=t)
    # direction between the first and the last observation
    side, val_ = rng.choice("NSEW"), rng.choice([0, 0.5, 2])
    first, last = (lambda t: g[t][0]), (lambda t: g[t][-1])
    dlat = {t: float(e.lat[last(t)]) - float(e.lat[first(t)]) for t in g}
    dlon = {t: (float(e.lon[last(t)]) - float(e.lon[first(t)]) + 180) % 360 - 180 for t in g}
    if all(abs(abs(v) - val_) > 1e-4 and abs(v) > 1e-4 or v == 0 and (val_ > 0 or side in "NS") for v in (dlat if side in "NS" else dlon).values()) and all(abs(abs(v) - 180) > 1e-3 for v in dlon.values()):
        ok = {"N": lambda t: dlat[t] > 0, "S": lambda t: dlat[t] < 0, "E": lambda t: dlon[t] > 0, "W": lambda t: dlon[t] < 0}[side]
        dd = dlat if side in "NS" else dlon
        same_obs(e, keep(lambda t: ok(t) and abs(dd[t]) > val_), e.extract_in_direction(side, val_), "tracks going in a direction", side=side, value=val_, lon=e.lon, lat=e.lat)
    raw = {t: float(e.lon[last(t)]) - float(e.lon[first(t)]) for t in g}
    west, dl = rng.random() < 0.5, rng.choice([None, 1.0, 20.0])
    if all(abs(abs(v) - (dl or 0)) > 1e-4 or v == 0 for v in raw.values()):
        same_obs(e, keep(lambda t: (raw[t] < 0 if west else raw[t] > 0) and (dl is None or abs(raw[t]) > dl)), e.extract_toward_direction(west, dl), "tracks going westward or eastward", west=west, delta_lon=dl, lon=e.lon)
    # first observation of each track in each box
    res = rng.choice([1.0, 2.0, 5.0])
    seen, idx = set(), []
    for i in range(n):
        k = (float(np.float32(e.lon[i] - e.lon[i] % res)), float(np.float32(e.lat[i] - e.lat[i] % res)), tr[i])
        if k not in seen:
            seen.add(k)
            idx.append(i)
    same_obs(e, idx, e.extract_first_obs_in_box(res), "first observation of each track in each box", res=res, lon=e.lon, lat=e.lat)
    # long tracks
    mn = rng.choice([1, 2, 3])
    idx = keep(lambda t: len(g[t]) >= mn)
    if idx:
        r = e.extract_longer_eddies(mn, e.lifetime, compress_id=comp)
        same_obs(e, idx, r, "long tracks", but=("track",) if comp else ())
        if comp:
            rank = {t: k + 1 for k, t in enumerate(sorted({tr[i] for i in idx}))}
            check(r.track.tolist() == [rank[tr[i]] for i in idx] and r.obs["track"].tolist() == r.track.tolist(), "compressed ids of long tracks", got=r.track, **d)
    # at a date and some days after
    date, days = rng.randint(0, 9), rng.randint(-4, 4)
    tm = e.time.tolist()
    r = e.keep_tracks_by_date(date, days)
    same_obs(e, keep(lambda t: date in [tm[i] for i in g[t]] and date + days in [tm[i] for i in g[t]]), r, "tracks existing at a date and some days later", date=date, days=days)


def longitudes(rng):
    """normalisation of longitudes along tracks"""
    e = tracks(rng, contours=True)
    g = by_track(e)
    if e.raw_data:
        return
    lon, lat = e.lon.astype("f8"), e.lat.copy()
    ce, cs = e.contour_lon_e.astype("f8"), e.contour_lon_s.astype("f8")
    ref = np.array([lon[g[t][0]] for t in e.track.tolist()])
    if (np.abs(np.abs((lon - ref + 180) % 360) - 0) < 1e-3).any() or (np.abs((lon - ref + 180) % 360 - 360) < 1e-3).any():
        return
    e.normalize_longitude()
    d = dict(track=e.track, lon=lon, got=e.lon)
    turn = lambda a: np.abs(np.asarray(a, dtype="f8") / 360 - np.round(np.asarray(a, dtype="f8") / 360)) * 360
    check((turn(e.lon - lon) < 1e-2).all(), "longitudes are kept modulo whole turns", **d)
    check((np.abs(e.lon - ref) <= 180 + 1e-2).all(), "longitudes are within half a turn of the first one of the track", **d)
    for nm, old in (("contour_lon_e", ce), ("contour_lon_s", cs)):
        new = e[nm]
        check((turn(new - old) < 1e-2).all(), "contour longitudes are kept modulo whole turns", name=nm, **d)
        check((np.abs(new.T - e.lon) <= 180 + 1e-2).all(), "contours are around their center", name=nm, **d)
    check((e.lat == lat).all(), "latitudes are unchanged", **d)


def smoothing(rng):
    """the filters of the dataset apply to a field along a time field"""
    e = tracks(rng)
    h, md = rng.choice([1, 2, 3]), rng.choice([0, 1, 2])
    t, tr = e.time.astype("f8"), e.track.tolist()

    def loess(x, y):
        out = []
        for i in range(len(e)):
            w = [(1 - (abs(x[i] - x[j]) / h) ** 3) ** 3 if tr[i] == tr[j] and abs(x[i] - x[j]) < h else 0 for j in range(len(e))]
            out.append(sum(a * float(b) for a, b in zip(w, y)) / sum(w))
        return np.array(out)

    def med(x, y):
        return np.array([np.median([float(y[j]) for j in range(len(e)) if tr[i] == tr[j] and abs(x[i] - x[j]) <= md]) for i in range(len(e))])
    inpl = rng.random() < 0.5
    y = e.amplitude.astype("f8").copy()
    exp = loess(t, y)
    r = e.loess_filter(h, "time", "amplitude", inplace=inpl)
    got = r.amplitude if inpl else r
    d = dict(track=e.track, time=t, y=y)
    check(np.allclose(got, exp, rtol=1e-4, atol=1e-4), "smoothed field", half_window=h, expected=exp, got=got, **d)
    y2 = e.amplitude.astype("f8").copy()
    check(inpl or np.array_equal(y2, y), "the field is kept when the result is returned", **d)
    exp = med(t, y2)
    r = e.median_filter(md, "time", "amplitude", inplace=inpl)
    got = r.amplitude if inpl else r
    check(np.allclose(got, exp, rtol=1e-4, atol=1e-4), "median of the field", half_window=md, expected=exp, got=got, **d)
    lon, lat = e.lon.astype("f8").copy(), e.lat.astype("f8").copy()
    e.position_filter(md, h)
    check(np.allclose(e.lon, loess(t, med(t, lon)), rtol=1e-4, atol=1e-3) and np.allclose(e.lat, loess(t, med(t, lat)), rtol=1e-4, atol=1e-3), "positions: median then weighted mean, for both coordinates",
          expected=(loess(t, med(t, lon)), loess(t, med(t, lat))), got=(e.lon, e.lat), **d)
