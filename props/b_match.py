"""Bounded scenarios: pairing of observations of two dates, tracks built from the pairs (run in the repository's interpreter)"""
import os
import shutil
import tempfile

import numpy as np

from props.adapters import Bad, check
from props.b_track import hav


def cost_matrix(rng):
    n, m = rng.randint(1, 6), rng.randint(1, 6)
    p = rng.choice([0.2, 0.4, 0.8, 1])
    mask = np.array([rng.random() >= p for _ in range(n * m)]).reshape(n, m)
    if rng.random() < 0.5:
        c = np.array([rng.randint(0, 4) / 4 for _ in range(n * m)])
    else:
        c = np.array(rng.sample(range(100), n * m)) / 100
    return np.ma.array(c.reshape(n, m).astype("f4"), mask=mask)


def stable(links, ok, cost, what, **d):
    """one to one, only allowed pairs, and a pair left out shares an observation with a kept pair that costs no more"""
    links = {(int(a), int(b)) for a, b in links}
    check(all(ok[l] for l in links), what + ": a pair kept is not allowed", links=links, **d)
    check(len({a for a, _ in links}) == len(links) == len({b for _, b in links}), what + ": an observation is in two pairs", links=links, **d)
    for i, j in zip(*np.where(ok)):
        if (i, j) not in links:
            best = [cost[l] for l in links if l[0] == i or l[1] == j]
            check(best and min(best) <= cost[i, j] + 1e-6, what + ": a pair left out is cheaper than those kept for its observations", pair=(i, j), links=links, **d)


def solve(rng):
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    c = cost_matrix(rng)
    ref = c.copy()
    ok, cost = ~np.ma.getmaskarray(ref), ref.data
    m = E.solve_simultaneous(c)
    check(m.shape == cost.shape and np.array_equal(c.mask, ref.mask) and np.array_equal(c.data, ref.data), "the costs given are not modified", mask=~ok)
    d = dict(allowed=ok, costs=cost)
    stable(list(zip(*np.where(m))), ok, cost, "cheapest pairs first", **d)
    i, j = E().solve_function(c)
    check(list(zip(i.tolist(), j.tolist())) == list(zip(*[a.tolist() for a in np.where(m)])), "pairs in order of the first observations", **d)
    # one observation after the other
    m = E.solve_first(ref.copy())
    used = set()
    for a in range(ok.shape[0]):
        cand = [(cost[a, b], b) for b in range(ok.shape[1]) if ok[a, b] and b not in used]
        got = np.where(m[a])[0].tolist()
        if not cand:
            check(got == [], "first come, first served: nothing left for this observation", i=a, got=got, **d)
            continue
        check(len(got) == 1 and got[0] not in used and ok[a, got[0]] and cost[a, got[0]] <= min(cand)[0] + 1e-6, "first come, first served: cheapest pair left", i=a, got=got, **d)
        used.add(got[0])


def day(rng, n, spread, t=0, wide=False):
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    e = E(size=n, track_array_variables=12, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    e.sign_type = 1
    e.time[:] = t
    c = rng.choice([0, 179.5, 359.8, 20])
    e.lon[:] = c + np.array([rng.uniform(-spread, spread) for _ in range(n)])
    if wide:
        e.lon[:] = e.lon + 360 * np.array([rng.randint(-1, 1) for _ in range(n)])
    e.lat[:] = rng.choice([0, 30, -45]) + np.array([rng.uniform(-spread, spread) for _ in range(n)])
    e.amplitude[:] = np.array([rng.choice([0.05, 0.1, 0.2]) for _ in range(n)])
    e.radius_s[:] = np.array([rng.choice([40e3, 50e3, 80e3]) for _ in range(n)])
    e.radius_e[:] = e.radius_s * 1.2
    contours(e)
    return e


def contours(e):
    a = np.linspace(0, 2 * np.pi, 12)
    for c in "se":
        r = e["radius_" + c][:, None] / 111e3
        e["contour_lon_" + c][:] = e.lon[:, None] + r * np.cos(a) / np.cos(np.radians(e.lat))[:, None]
        e["contour_lat_" + c][:] = e.lat[:, None] + r * np.sin(a)


def pairing(rng):
    from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    spread = rng.choice([0.5, 1.5, 4])
    a, b = day(rng, rng.randint(1, 6), spread, 0, True), day(rng, rng.randint(1, 6), spread, 1, True)
    b.lon[:] += a.lon[0] - b.lon[0] + rng.uniform(-1, 1)
    b.lat[:] += a.lat[0] - b.lat[0] + rng.uniform(-0.5, 0.5)
    contours(b)
    d = dict(lon0=a.lon, lat0=a.lat, lon1=b.lon, lat1=b.lat)
    a0, b0 = a.copy(), b.copy()
    i, j, c = a.tracking(b)
    dist = hav(a.lon[:, None], a.lat[:, None], b.lon[None], b.lat[None]) / 1000
    if (abs(dist - 125) < 1e-3).any():
        return
    A, R = (lambda v, w: ((v[:, None] - w[None]) / v[:, None]) ** 2), None
    cost = np.sqrt(A(a.amplitude.astype("f8"), b.amplitude.astype("f8")) + A(a.radius_s.astype("f8"), b.radius_s.astype("f8")) + (dist / 125) ** 2)
    stable(list(zip(i, j)), dist < 125, np.round(cost, 4), "pairs of observations closer than 125 km", **d)
    check(np.allclose(c, cost[i, j], rtol=1e-3, atol=1e-4), "cost of each pair kept", expected=cost[i, j], got=c, **d)
    # overlap of contours
    cmin = rng.choice([0.1, 0.3, 0.6])
    t0, t1 = (AreaTracker(size=len(e), track_array_variables=12, array_variables=e.array_variables, cmin=cmin) for e in (a, b))
    for t, e in ((t0, a), (t1, b)):
        t.sign_type = 1
        for f in e.fields:
            t.obs[f] = e.obs[f]
    i, j, c = t0.tracking(t1)
    k0, k1, s = a.match(b)
    S = np.zeros((len(a), len(b)))
    S[k0, k1] = s
    stable(list(zip(i, j)), S > cmin, 1 - S, "pairs of observations with contours that overlap enough", cmin=cmin, score=S, **d)
    check(np.allclose(c, 1 - S[i, j], atol=1e-5), "cost of each pair kept is 1 - overlap", expected=1 - S[i, j], got=c, **d)
    from Polygon import Polygon
    for p in range(len(a)):
        for q in range(len(b)):
            x = b.contour_lon_e[q] + 360 * np.round((a.contour_lon_e[p, 0] - b.contour_lon_e[q, 0]) / 360)
            P, Q = Polygon(np.stack([a.contour_lon_e[p], a.contour_lat_e[p]], 1)), Polygon(np.stack([x, b.contour_lat_e[q]], 1))
            inter = (P & Q).area()
            check(abs(S[p, q] - inter / (P.area() + Q.area() - inter)) < 1e-3, "overlap score of a couple", i=p, j=q, got=S[p, q], **d)
    for u, v in ((a, a0), (b, b0)):
        check(all(np.array_equal(u.obs[f], v.obs[f]) for f in u.fields), "pairing leaves the observations as they are", **d)


def eddies_day(rng, where, t, sign):
    """file content of one day: where = list of (lon, lat, amplitude, radius, tag)"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    where = list(where)
    rng.shuffle(where)
    e = E(size=len(where), track_array_variables=12, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], track_extra_variables=["height_max_speed_contour"])
    e.sign_type = sign
    e.time[:] = t
    for k, f in enumerate(("lon", "lat", "amplitude", "radius_s", "height_max_speed_contour")):
        e[f][:] = [w[k] for w in where]
    e.radius_e[:] = e.radius_s * 1.2
    contours(e)
    return e


def expected_tracks(present, nv):
    """tracks of one eddy, alone, moving steadily: lists of days with an observation"""
    tracks, cur = [], None
    for t, p in enumerate(present):
        if not p:
            continue
        if cur is not None and (t - cur[-1] == 1 or (len(cur) > 1 and t - cur[-1] - 1 <= nv)):
            cur.append(t)
        else:
            cur = [t]
            tracks.append(cur)
    return [k for k in tracks if len(k) > 1], [k[0] for k in tracks if len(k) == 1]


def scene(rng, d, nd):
    ne = rng.randint(1, 4)
    t0 = rng.choice([7000, 20000])
    base = rng.choice([10, 178, 358])
    sign = rng.choice([-1, 1])
    eddies = [dict(lon=base + 15 * k, lat=rng.choice([-40, -20, 15, 35]), u=rng.uniform(-0.05, 0.05), v=rng.uniform(-0.05, 0.05), a=rng.choice([0.1, 0.2]), r=rng.choice([50e3, 60e3]),
                   on=[rng.random() < 0.75 for _ in range(nd)]) for k in range(ne)]
    names = []
    import datetime
    for t in range(nd):
        w = [((e["lon"] + t * e["u"]) % 360, e["lat"] + t * e["v"], e["a"], e["r"], 100 * k + t) for k, e in enumerate(eddies) if e["on"][t]]
        # an eddy seen once, each day somewhere else: never linked, and a day is never empty
        w.append((base + 200 + 10 * (t % 3), -50 + 30 * (t % 2), 0.1, 50e3, 10000 + t))
        o = eddies_day(rng, w, t0 + t, sign)
        day = (datetime.datetime(1950, 1, 1) + datetime.timedelta(days=t0 + t)).strftime("%Y%m%d")
        o.write_file(path=d, filename="%(path)s/%(sign_type)s_" + day + ".nc")
        names.append(os.path.join(d, o.sign_legend + "_" + day + ".nc"))
    return eddies, names, t0, o.sign_legend


def track_files(rng):
    import warnings
    warnings.filterwarnings("ignore")
    d = tempfile.mkdtemp(prefix="b_match_")
    try:
        _track_files(rng, d)
    finally:
        shutil.rmtree(d)


def _track_files(rng, d):
    from py_eddy_tracker.appli.eddies import track
    from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
    nd = rng.randint(3, 10)
    nv = rng.choice([0, 0, 1, 2, 3])
    nmin = rng.randint(2, nd)
    eddies, names, t0, sign = scene(rng, d, nd)
    exp = {k: expected_tracks(e["on"], nv) for k, e in enumerate(eddies)}
    if not any(a for a, _ in exp.values()):
        return
    kw = {}
    if rng.random() < 0.4:
        kw = dict(class_method=AreaTracker, class_kw=dict(cmin=0.2))
    info = dict(days=nd, nb_virtual=nv, nb_obs_min=nmin, seen=[e["on"] for e in eddies], cls=str(kw))
    out = os.path.join(d, "out")
    os.mkdir(out)
    raw = rng.random() < 0.5
    cout = os.path.join(d, "c.nc")
    if rng.random() < 0.4 and nd > 4:
        # in two steps
        n1 = rng.randint(2, nd - 1)
        part = [e["on"][:n1] for e in eddies]
        if any(expected_tracks(p, nv)[0] for p in part):
            info["first step"] = n1
            track(names[:n1], out, cout, nb_obs_min=2, virtual=nv, correspondances_only=True, **kw)
            kw = dict(kw, previous_correspondance=cout)
            cout = os.path.join(d, "c2.nc")
    track(names, out, cout, nb_obs_min=nmin, raw=raw, virtual=nv, memory=rng.random() < 0.3, **kw)
    first, last = min(t0 + t for t in range(nd)), t0 + nd - 1
    res = {}
    for f in os.listdir(out):
        if f.endswith("_untracked.nc"):
            res["untracked"] = E.load_file(os.path.join(out, f))
        elif "too_short" in f:
            res["short"] = T.load_file(os.path.join(out, f))
        else:
            res["long"] = T.load_file(os.path.join(out, f))
    check(set(res) == {"untracked", "short", "long"}, "three files are written", files=os.listdir(out), **info)
    check(all(f.startswith(sign) for f in os.listdir(out)), "files written are named after the rotation of the eddies", sign=sign, files=os.listdir(out), **info)
    check(all(o.sign_legend == sign for o in res.values()), "rotation sign of the files written", sign=sign, got={k: o.sign_legend for k, o in res.items()}, **info)
    length = lambda k: k[-1] - k[0] + 1
    everything = [(k, tr) for k, (a, _) in exp.items() for tr in a]
    for key, sel in (("long", [x for x in everything if length(x[1]) >= nmin]), ("short", [x for x in everything if length(x[1]) < nmin])):
        o = res[key]
        check(len(o) == sum(length(x[1]) for x in sel), f"{key} tracks: number of observations", expected=sel, got=(o.track, o.time), **info)
        got = {}
        for i in range(len(o)):
            got.setdefault(int(o.track[i]), []).append(i)
        check(len(got) == len(sel) and set(got) == set(range(len(sel))), f"{key} tracks: one id for each track", expected=sel, got=o.track, **info)
        for ii in got.values():
            check(ii == list(range(ii[0], ii[-1] + 1)), "observations of a track are contiguous", got=o.track, **info)
            tag0 = int(round(float(o.height_max_speed_contour[ii[0]])))
            k, t = tag0 // 100, tag0 % 100
            m = [x for x in sel if x == (k, x[1]) and x[1][0] == t]
            check(len(m) == 1, f"{key} tracks: tracks expected", expected=sel, tag=tag0, **info)
            tr = m[0][1]
            e = eddies[k]
            for n, i in enumerate(ii):
                day = tr[0] + n
                real = day in tr
                what = f"{key} tracks: observation of the track"
                c = dict(track=tr, n=n, **info)
                check(int(o.n[i]) == n and o.time[i] == t0 + day, what + " (rank and time)", got=(o.n[i], o.time[i], t0 + day), **c)
                if nv:
                    check(bool(o.virtual[i]) == (not real), what + " (virtual flag)", got=o.virtual[i], **c)
                x, y = e["lon"] + day * e["u"], e["lat"] + day * e["v"]
                check(abs((float(o.lon[i]) - x + 180) % 360 - 180) < 2e-3 and abs(float(o.lat[i]) - y) < 2e-3, what + " (position)", expected=(x, y), got=(o.lon[i], o.lat[i]), **c)
                check(abs(float(o.amplitude[i]) - e["a"]) < 2e-3 and abs(float(o.radius_s[i]) - e["r"]) < 60, what + " (values)", got=(o.amplitude[i], o.radius_s[i]), **c)
                if real:
                    check(abs(float(o.height_max_speed_contour[i]) - (100 * k + day)) < 1e-2, what + " (source)", got=o.height_max_speed_contour[i], **c)
    u = res["untracked"]
    want = sorted([10000 + t for t in range(nd)] + [100 * k + t for k, (_, alone) in exp.items() for t in alone])
    check(sorted(int(round(float(h))) for h in u.height_max_speed_contour) == want, "observations out of any track", expected=want, got=u.height_max_speed_contour, **info)
