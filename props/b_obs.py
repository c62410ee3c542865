"""Bounded scenarios: observation containers, selections and iterations (run in the repository's interpreter)"""
import numpy as np

from props.adapters import Bad, check

EXTRA = ["height_max_speed_contour", "uavg_profile"]


def obs(rng, n=None, cls=None, arrays=True, nmax=9):
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
    cls = cls or rng.choice([E, T])
    n = rng.randint(0, nmax) if n is None else n
    kw = dict(track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]) if arrays else {}
    e = cls(size=n, **kw)
    e.sign_type = rng.choice([-1, 1])
    for k, f in enumerate(sorted(e.fields)):
        v = e.obs[f]
        v[:] = np.arange(v.size).reshape(v.shape) % 97 + k
    e.lon[:] = [rng.choice([0, 20, 170, 355]) + rng.uniform(-10, 10) for _ in range(n)]
    e.lat[:] = [rng.uniform(-60, 60) for _ in range(n)]
    e.time[:] = [rng.randint(0, 12) for _ in range(n)]
    if rng.random() < 0.5:
        e.time.sort()
    e.amplitude[:] = [rng.randint(0, 8) / 4 for _ in range(n)]
    return e


def snap(e):
    return {f: e.obs[f].copy() for f in e.fields}


def is_(e, rows, what, fields=None, sign=True, like=None, **d):
    """e holds exactly the rows [(snapshot, index)] in that order"""
    check(len(e) == len(rows), what + ": number of observations", expected=len(rows), got=len(e), **d)
    for f in fields if fields is not None else e.fields:
        for k, (s, i) in enumerate(rows):
            if f in s:
                check(np.array_equal(e.obs[f][k], s[f][i], equal_nan=True), what + ": every field of every observation", field=f, k=k, expected=s[f][i], got=e.obs[f][k], **d)
    if like is not None:
        check(set(e.fields) == set(like.fields), what + ": fields", expected=sorted(like.fields), got=sorted(e.fields), **d)
        check(type(e) is type(like) or not sign, what + ": class")
        if sign:
            check(e.sign_type == like.sign_type, what + ": rotation sign", expected=like.sign_type, got=e.sign_type, **d)


def a_selector(rng, n):
    k = rng.randrange(5)
    if k == 0:
        m = np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool)
        if rng.random() < 0.2:
            m[:] = rng.random() < 0.5
        return m
    if k == 1:
        a = [None] + list(range(-n, n + 1))
        return slice(rng.choice(a), rng.choice(a), rng.choice([None, None, 1, 2]))
    if k == 2:
        return np.array(rng.sample(range(n), rng.randint(0, n)), dtype=rng.choice(["i8", "i4", "u4"]))
    if k == 3:
        return slice(rng.randint(0, n), rng.randint(0, n))
    return None


def containers(rng):
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    a = obs(rng)
    n, A = len(a), snap(a)
    rows = lambda idx: [(A, int(i)) for i in idx]
    # selection by position
    sel = a_selector(rng, n)
    if isinstance(sel, slice):
        is_(a.index(sel), rows(np.arange(n)[sel]), "index with a slice", like=a, sel=sel, n=n)
    elif sel is not None and sel.dtype == bool:
        is_(a.extract_with_mask(sel) if type(a) is E else E.extract_with_mask(a, sel), rows(np.where(sel)[0]), "extract_with_mask", like=a, sel=sel)
    elif sel is not None:
        is_(a.index(sel), rows(sel), "index with positions", like=a, sel=sel)
        is_(a.index(sel.tolist()), rows(sel), "index with a list of positions", like=a, sel=sel)
        is_(a.index(sel, reverse=True), rows([i for i in range(n) if i not in sel.tolist()]), "index, other observations", like=a, sel=sel)
    if n:
        i = rng.randrange(n)
        is_(a.index(i), rows([i]), "index with one position", like=a)
    # copies are independent
    c = a.copy()
    is_(c, rows(range(n)), "copy", like=a)
    check(c == a, "a copy is equal to its source")
    if n:
        c.lat[rng.randrange(n)] += 1
        check(not (c == a), "datasets with different values are not equal")
    e0 = a.empty_dataset()
    is_(e0, [], "empty dataset", like=a)
    is_(a, rows(range(n)), "the dataset is left as it is")
    if n:
        t0, step = rng.randint(0, 12), rng.choice([1, 2, 3, 5])
        if type(a) is E:
            is_(a.time_sub_sample(t0, step), rows([i for i in range(n) if (A["time"][i] - t0) % step == 0]), "time sub sampling", like=a, t0=t0, step=step)
        check(tuple(a.period) == (A["time"].min(), A["time"].max()) and a.nb_days == A["time"].max() - A["time"].min() + 1, "period and number of days", got=a.period, time=A["time"])
    # fields
    new = [f for f in ("type_cyc", "xe_mean", "lon_max") if f not in a.fields]
    from py_eddy_tracker import VAR_DESCR
    new = [f for f in new if f in VAR_DESCR]
    b = a.add_fields(new[:1])
    is_(b, rows(range(n)), "add_fields", fields=a.fields)
    check(set(b.fields) == set(a.fields) | set(new[:1]) and b.sign_type == a.sign_type, "add_fields: fields and sign", got=b.fields)
    gone = rng.sample(sorted(f for f in a.fields if f in E.ELEMENTS or "contour" in f), rng.randint(1, 3))
    r = a.remove_fields(*gone)
    is_(r, rows(range(n)), "remove_fields", fields=r.fields)
    check(set(r.fields) == set(a.fields) - set(gone) and r.sign_type == a.sign_type, "remove_fields: fields and sign", expected=gone, got=r.fields)
    t = a.add_rotation_type()
    check((t.type_cyc == a.sign_type).all(), "rotation type added", got=t.type_cyc)


def joining(rng):
    a = obs(rng, arrays=True)
    b = obs(rng, cls=type(a))
    b.sign_type = a.sign_type
    n, m, A, B = len(a), len(b), snap(a), snap(b)
    if rng.random() < 0.5 and n and m:
        a.period, b.period  # already asked
    if "track" in a.fields:
        for e in (a, b):
            e.track[:] = np.sort([rng.randint(0, 4) for _ in range(len(e))])
        A, B = snap(a), snap(b)
    ab = [(A, i) for i in range(n)] + [(B, i) for i in range(m)]
    if n or "track" not in a.fields:
        g = a.merge(b)
        is_(g, ab, "merge", fields=[f for f in a.fields if f != "track"], like=None)
        check(g.sign_type == a.sign_type, "merge: sign")
        if "track" in a.fields and n and m:
            t = g.track
            check(np.array_equal(t[:n], A["track"]) and np.array_equal(t[n:].astype(int) - int(t[n - 1]) - 1, B["track"].astype(int)), "merge: tracks of the other dataset are renumbered after the last one", got=t, a=A["track"], b=B["track"])
    for e, s in ((a, A), (b, B)):
        is_(e, [(s, i) for i in range(len(e))], "joining leaves its inputs as they are")
    if "track" not in a.fields:
        g = type(a).concatenate([a, b, a])
        is_(g, ab + [(A, i) for i in range(n)], "concatenate", like=a)
    k = rng.randint(0, n)
    neg = rng.random() < 0.4 and n
    idx = k - n - 1 if neg else k
    c = a.copy()
    if rng.random() < 0.5:
        c.period
    r = c.insert_observations(b, idx)
    exp = [(A, i) for i in range(k)] + [(B, i) for i in range(m)] + [(A, i) for i in range(k, n)]
    is_(r, exp, "insertion", index=idx, n=n, m=m)
    if n + m:
        t = np.concatenate([A["time"], B["time"]])
        check(tuple(r.period) == (t.min(), t.max()), "period of a dataset with observations inserted", expected=(t.min(), t.max()), got=r.period)
    is_(a.copy().append(b), ab, "append")
    if n:
        check(np.array_equal(b.time, B["time"]), "insertion leaves the observations inserted as they are")


# ----------------------------------------------------------------- iterations
def _bins(rng, regular=None):
    if regular is None:
        regular = rng.random() < 0.6
    if regular:
        a, s, k = rng.choice([-3, 0, 2, 5, 20]), rng.choice([1, 2, 0.5, 4]), rng.randint(1, 6)
        return a + s * np.arange(k + 1)
    return np.unique([rng.randint(-4, 28) / 2 for _ in range(rng.randint(3, 7))])


def _groups(x, bins):
    out = []
    for a, b in zip(bins[:-1], bins[1:]):
        i = [k for k, v in enumerate(x) if a <= v < b]
        if i:
            out.append((i, a, b))
    return out


def _idx(s, n):
    return np.arange(n)[s].tolist()


def iterating(rng):
    a = obs(rng, rng.randint(1, 9))
    n = len(a)
    name = rng.choice(["time", "amplitude", "lat"])
    x = a[name]
    if rng.random() < 0.3:
        x.sort()
    by = name if rng.random() < 0.6 else x.copy()
    d = dict(x=x)
    if rng.random() < 0.3:
        h = rng.choice([0.5, 1, 2])
        x0 = np.sort([rng.uniform(-1, 13) for _ in range(rng.randint(1, 4))])
        got = [(sorted(_idx(i, n)), p, q) for i, p, q in a.iter_on(by, window=h, bins=x0)]
        exp = [([k for k, v in enumerate(x) if c - h < v <= c + h], c - h, c + h) for c in x0]
        check(len(got) == len(exp) and all(g[0] == e[0] and abs(g[1] - e[1]) < 1e-9 and abs(g[2] - e[2]) < 1e-9 for g, e in zip(got, exp)), "observations around each center", window=h, expected=exp, got=got, **d)
        return
    if rng.random() < 0.3:
        bins = None
        ref = np.arange(x.min(), x.max() + 2)
    else:
        bins = ref = _bins(rng)
        if len(bins) < 2:
            return
        if rng.random() < 0.3:
            bins = list(bins)
    got = [(sorted(_idx(i, n)), float(p), float(q)) for i, p, q in a.iter_on(by, bins=bins)]
    exp = [(i, float(p), float(q)) for i, p, q in _groups(x, ref)]
    check(got == exp, "each bin holds exactly its observations, bins without observation are skipped", bins=ref, expected=exp, got=got, **d)
    # two datasets
    b = obs(rng, rng.randint(1, 9), cls=type(a))
    if bins is None:
        bins = ref = np.arange(-1, 15)
    al = rng.random() < 0.5
    got = [(sorted(_idx(i, n)), sorted(_idx(j, len(b))), float(p), float(q)) for i, j, p, q in a.align_on(b, name, all_ref=al, bins=bins)]
    exp = []
    o = {p: j for j, p, q in _groups(b[name], ref)}
    for i, p, q in _groups(x, ref):
        if al or p in o:
            exp.append((i, o.get(p, []), float(p), float(q)))
    check(got == exp, "bins of two datasets are aligned", all_ref=al, bins=ref, other=b[name], expected=exp, got=got, **d)


def filtering(rng):
    a = obs(rng, rng.randint(1, 9))
    n = len(a)
    sel = [a_selector(rng, n) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        sel.append(lambda o: o.amplitude > 0.5)
    inter = set(range(n))
    for s in sel:
        s = s(a) if callable(s) else s
        if s is not None:
            inter &= set(np.arange(n)[s].tolist())
    f = a.merge_filters(*sel) if rng.random() < 0.5 else a.merge_filters(list(sel))
    got = np.arange(n)[f].tolist()
    check(sorted(got) == sorted(inter) and len(set(got)) == len(got), "merged filters keep the observations kept by each of them", filters=[repr(s) for s in sel], n=n, expected=sorted(inter), got=got)


def counting(rng):
    a = obs(rng, rng.randint(1, 9))
    n = len(a)
    name = rng.choice(["time", "amplitude"])
    x = a[name].astype("f8")
    bins = _bins(rng)
    if len(bins) < 2:
        return
    # numpy convention: the last bin is closed
    grp = [[k for k, v in enumerate(x) if p <= v < q or (q == bins[-1] and v == q)] for p, q in zip(bins[:-1], bins[1:])]
    cnt = np.array([len(g) for g in grp])
    d = dict(x=x, bins=bins)
    w = a["radius_e"].astype("f8")
    by, wy = (name, "radius_e") if rng.random() < 0.5 else (x, w)
    check(np.array_equal(a.hist(wy, by, bins, nb=True), cnt), "number of observations by bin", expected=cnt, got=a.hist(wy, by, bins, nb=True), **d)
    tot = np.array([w[g].sum() for g in grp])
    check(np.allclose(a.hist(wy, by, bins), tot), "sum by bin", expected=tot, **d)
    if cnt.sum():
        check(np.allclose(a.hist(wy, by, bins, nb=True, percent=True), cnt / cnt.sum() * 100, rtol=1e-5), "percent by bin", **d)
    with np.errstate(all="ignore"):
        check(np.allclose(a.hist(wy, by, bins, mean=True), tot / cnt, equal_nan=True), "mean by bin", expected=tot / cnt, **d)
    m = a_selector(rng, n)
    if m is None or not isinstance(m, slice) and m.dtype != bool:
        m = None
    keep = set(range(n) if m is None else np.arange(n)[m].tolist())
    if not keep:
        return
    use = bins if rng.random() < 0.7 else None
    if use is None:
        kx = x[sorted(keep)]
        bins = np.arange(kx.min(), kx.max() + 2)
    grp = [[k for k, v in enumerate(x) if k in keep and (p <= v < q or (q == bins[-1] and v == q))] for p, q in zip(bins[:-1], bins[1:])]
    cnt = np.array([len(g) for g in grp])
    bx, by_ = a.bins_stat(by, use, mask=m)
    check(np.allclose(bx, (bins[1:] + bins[:-1]) / 2) and np.array_equal(by_, cnt), "bins_stat: centers and numbers of observations", mask=m, expected=cnt, got=(bx, by_), x=x, bins=bins)
    bx, by_ = a.bins_stat(by, use, yname=wy, method="mean", mask=m)
    with np.errstate(all="ignore"):
        ex = np.array([w[g].sum() for g in grp]) / cnt
    check(np.allclose(by_, ex, equal_nan=True), "bins_stat: mean by bin", mask=m, expected=ex, got=by_, x=x, bins=bins)


def area(rng):
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    a = obs(rng, rng.randint(1, 9), cls=E)
    n, A = len(a), snap(a)
    a.lon[:] = a.lon + 360 * np.array([rng.randint(-1, 1) for _ in range(n)])
    A = snap(a)
    x0, y0 = rng.choice([-20, 0, 10, 165, 345, -370]), rng.choice([-40, 0, 10])
    w, h = rng.choice([5, 25, 180, 355]), rng.choice([10, 50])
    box = dict(llcrnrlon=x0, urcrnrlon=x0 + w)
    if rng.random() < 0.8:
        box.update(llcrnrlat=y0, urcrnrlat=y0 + h)
    la, lb = box.get("llcrnrlat", -90), box.get("urcrnrlat", 90)
    dx = (A["lon"].astype("f8") - x0) % 360
    if (np.minimum(dx, abs(dx - w)) < 1e-3).any() or (np.abs(A["lat"] - la) < 1e-3).any() or (np.abs(A["lat"] - lb) < 1e-3).any():
        return
    is_(a.extract_with_area(box), [(A, i) for i in range(n) if dx[i] < w and la < A["lat"][i] < lb], "observations of a box", like=a, box=box, lon=A["lon"], lat=A["lat"])
    polys = []
    for _ in range(rng.randint(1, 3)):
        cx, cy, r = rng.choice([0, 20, 170, 355]) + rng.uniform(-3, 3), rng.uniform(-40, 40), rng.uniform(2, 15)
        polys.append((np.array([cx - r, cx + r, cx + r, cx - r, cx - r]), np.array([cy - r, cy - r, cy + r, cy + r, cy - r])))
    ins = lambda x, y, p: (p[1][0] < y < p[1][2]) and ((x - p[0][0]) % 360 < p[0][1] - p[0][0])
    exp = np.array([any(ins(float(x), float(y), p) for p in polys) for x, y in zip(A["lon"], A["lat"])])
    check(np.array_equal(a.mask_from_polygons(polys), exp), "observations in one of the polygons", polygons=polys, lon=A["lon"], lat=A["lat"], expected=exp, got=a.mask_from_polygons(polys))
    # positions in the outlines of the dataset
    for c in "es":
        r = 3 if c == "e" else 2
        a["contour_lon_" + c][:] = a.lon[:, None] + r * np.array([-1, 1, 1, -1, -1])
        a["contour_lat_" + c][:] = a.lat[:, None] + r * np.array([-1, -1, 1, 1, -1])
    m = rng.randint(0, 6)
    xs = np.array([rng.choice(a.lon.tolist()) + rng.uniform(-6, 6) + 360 * rng.randint(-1, 1) for _ in range(m)])
    ys = np.array([rng.choice(a.lat.tolist()) + rng.uniform(-6, 6) for _ in range(m)])
    for k in range(m):
        if rng.random() < 0.15:
            (xs if rng.random() < 0.5 else ys)[k] = np.nan
    intern = rng.random() < 0.5
    r = 2 if intern else 3
    box = lambda x, y, k: abs(y - float(a.lat[k])) < r and abs((x - float(a.lon[k]) + 180) % 360 - 180) < r
    exp = [-1 if x != x or y != y else next((k for k in range(n) if box(x, y, k)), -1) for x, y in zip(xs, ys)]
    got = a.contains(xs, ys, intern=intern)
    check(got.tolist() == exp, "first outline that contains each position", x=xs, y=ys, lon=a.lon, lat=a.lat, intern=intern, expected=exp, got=got)
    ok = ~np.isnan(xs + ys)
    check(not ok.any() or np.array_equal(a.inside(xs[ok], ys[ok], intern=intern), np.array(exp)[ok] >= 0), "positions inside an outline", x=xs[ok], y=ys[ok], expected=exp)
