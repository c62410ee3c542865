"""Bounded scenarios: networks (run in the repository's interpreter)"""
import numpy as np

from props.adapters import Bad, check
from props.b_track import same_obs


def network(rng, trash=None, extra=(), contours=False, ids=None, gaps=False, size=None):
    """sorted network with links inside segments and between segments (splitting and merging)"""
    from py_eddy_tracker.observations.network import NetworkObservations as N
    trash = rng.random() < 0.4 if trash is None else trash
    rows = []  # (track, segment, time)
    if trash:
        for _ in range(rng.randint(1, 3)):
            rows.append((0, 0, rng.randint(0, 5), None))
        rows.sort(key=lambda r: r[2])
    nets = sorted(rng.sample(range(1, 7), rng.randint(1, 3))) if ids is None else ids
    for net in nets:
        segs = sorted(rng.sample(range(1, 8), rng.randint(1, 4)))
        for sg in segs:
            t = rng.randint(0, 8)
            for _ in range(rng.randint(1, 4)):
                rows.append((net, sg, t, None))
                t += 1 if not gaps or rng.random() < 0.6 else rng.randint(2, 3)
    n = len(rows)
    kw = dict(track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]) if contours else {}
    e = N(size=n, track_extra_variables=list(extra), **kw)
    e.sign_type = rng.choice([-1, 1])
    for f in e.fields:
        e[f][:] = np.array([rng.randint(0, 100) for _ in range(e[f].size)]).reshape(e[f].shape)
    e.track[:] = [r[0] for r in rows]
    e.segment[:] = [r[1] for r in rows]
    e.time[:] = [r[2] for r in rows]
    e.lon[:] = [rng.uniform(-20, 20) for _ in rows]
    e.lat[:] = [rng.uniform(-20, 20) for _ in rows]
    e.amplitude[:] = np.arange(n)  # label of each observation
    e.next_obs[:], e.previous_obs[:] = -1, -1
    if "virtual" in e.fields:
        e.virtual[:] = [rng.random() < 0.2 for _ in rows]
    for i in range(n):
        if rows[i][0] == 0:
            continue
        last = i + 1 == n or rows[i + 1][:2] != rows[i][:2]
        first = i == 0 or rows[i - 1][:2] != rows[i][:2]
        if not last:
            e.next_obs[i] = i + 1
        elif rng.random() < 0.5:
            c = [j for j in range(n) if rows[j][0] == rows[i][0] and rows[j][1] != rows[i][1] and rows[j][2] > rows[i][2]]
            if c:
                e.next_obs[i] = rng.choice(c)
        if not first:
            e.previous_obs[i] = i - 1
        elif rng.random() < 0.5:
            c = [j for j in range(n) if rows[j][0] == rows[i][0] and rows[j][1] != rows[i][1] and rows[j][2] < rows[i][2]]
            if c:
                e.previous_obs[i] = rng.choice(c)
    return e


def segs(e):
    """list of segments in order: list of indexes"""
    out, last = [], None
    for i, k in enumerate(zip(e.track.tolist(), e.segment.tolist())):
        if k != last:
            out.append([])
        out[-1].append(i)
        last = k
    return out


def desc(e):
    return dict(track=e.track.tolist(), segment=e.segment.tolist(), time=e.time.tolist(), next_obs=e.next_obs.tolist(), previous_obs=e.previous_obs.tolist())


NETF = ("track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost")
LINKS = ("next_obs", "previous_obs")


def linked(e, idx, got, what, **d):
    """got holds the observations idx of e, in this order, with links to the same observations (-1 when the target is not kept)"""
    same_obs(e, idx, got, what, but=LINKS, before=desc(e), **d)
    place = {j: k for k, j in enumerate(idx)}
    for f in LINKS:
        exp = [place.get(int(e[f][j]), -1) for j in idx]
        check(got[f].tolist() == exp, what + f": {f} links the same observations", expected=exp, got=got[f], kept=idx, before=desc(e), **d)


def extract(rng):
    e = network(rng)
    n = len(e)
    d = desc(e)
    tr = e.track.tolist()
    m = np.array([rng.random() < rng.choice([0.3, 0.8]) for _ in range(n)])
    linked(e, np.where(m)[0].tolist(), e.extract_with_mask(m), "selection with a mask", mask=m)
    a = rng.randint(0, n)
    b = rng.randint(a, n)
    linked(e, list(range(a, b)), e.extract_with_mask(slice(a, b)), "selection with a slice", bounds=(a, b))
    ids = sorted(set(tr))
    one = rng.choice(ids)
    linked(e, [i for i in range(n) if tr[i] == one], e.network(one), "one network", id=one)
    some = [i for i in ids if rng.random() < 0.6] or [one]
    rng.shuffle(some)
    linked(e, [i for i in range(n) if tr[i] in some], e.networks(some), "some networks", ids=some)
    check(e.networks_mask(np.array(some)).tolist() == [t in some for t in tr], "mask of networks", ids=some, **d)
    sg = segs(e)
    which = [k for k in range(len(sg)) if rng.random() < 0.5] or [0]
    linked(e, sorted(i for k in which for i in sg[k]), e.extract_segment(which, absolute=True), "some segments", segments=which)
    check(e.networks_mask(np.array(which), segment=True).tolist() == [any(i in sg[k] for k in which) for i in range(n)], "mask of segments", segments=which, **d)
    t = e.time
    p0, p1 = rng.choice([0, 2, 4, -1]), rng.choice([0, 5, 8, -2])
    lo = (p0 if p0 > 0 else t.min() - p0) if p0 else -1e9
    hi = (p1 if p1 > 0 else t.max() + p1) if p1 else 1e9
    linked(e, np.where((t >= lo) & (t <= hi))[0].tolist(), e.extract_with_period((p0, p1)), "period", period=(p0, p1))
    q0, q1 = rng.choice([-1, 0, 3, 6]), rng.choice([-1, 5, 9])
    ok = {i: (lambda v: v >= q0 and (q1 < 0 or v <= q1))(max(t[k] for k in range(n) if tr[k] == i) - min(t[k] for k in range(n) if tr[k] == i) + 1) for i in ids}
    linked(e, [i for i in range(n) if ok[tr[i]]], e.longer_than(q0, q1), "networks with a duration in the bounds", bounds=(q0, q1))
    # tables
    size = e.network_size()
    check(size.tolist() == [tr.count(k) for k in range(ids[0], ids[-1] + 1)], "observations of each network", got=size, **d)
    check(e.nb_network == len(ids) and e.nb_segment == len(sg), "number of networks and segments", got=(e.nb_network, e.nb_segment), **d)
    check(e.segment_size().tolist() == [len(k) for k in sg], "observations of each segment", got=e.segment_size(), **d)
    check(e.segment_track_array.tolist() == [k for k, v in enumerate(sg) for _ in v], "segment numbers over all networks", got=e.segment_track_array, **d)
    ns = e.network_segment_size()
    check(ns.tolist() == [sum(tr[k[0]] == i for k in sg) for i in range(ids[0], ids[-1] + 1)], "segments of each network", got=ns, **d)
    y = np.array([rng.randint(0, 50) for _ in range(n)], dtype="f8")
    r = e.mean_by_segment(y)
    check(np.allclose(r, [y[k].mean() for k in sg for _ in k]), "mean along each segment", y=y, got=r, **d)
    r = e.map_network(lambda x: x.max(), y, same=True)
    check(np.allclose(r, [max(y[j] for j in range(n) if tr[j] == tr[i]) for i in range(n)]), "map on networks", y=y, got=r, **d)


def order(rng):
    """sort and re-numbering"""
    e = network(rng)
    d = desc(e)
    n = len(e)
    p = list(range(n))
    rng.shuffle(p)
    place = {j: k for k, j in enumerate(p)}
    s = e.copy()
    for f in e.fields:
        s[f][:] = e[f][p]
    for f in LINKS:
        s[f][:] = [place.get(int(v), -1) for v in s[f]]
    u = s.copy()
    io, tr_ = s.sort()
    exp = sorted(range(n), key=lambda k: (u.track[k], u.segment[k], u.time[k]))
    check(sorted(io) == list(range(n)), "order returned by the sort: each observation once", got=io)
    if [(u.track[k], u.segment[k], u.time[k]) for k in io] == [(u.track[k], u.segment[k], u.time[k]) for k in exp]:
        exp = [int(k) for k in io]  # ties in any order
    linked(u, exp, s, "sort")
    check(list(io) == exp, "order returned by the sort", got=io, expected=exp)
    check([int(tr_[k]) for k in exp] == list(range(n)) and tr_[-1] == -1, "new place of each observation", got=tr_)
    e0 = e.copy()
    start = rng.choice([0, 1, 5])
    e.numbering_segment(start)
    seen, exp = {}, []
    for t, g in zip(d["track"], d["segment"]):
        seen.setdefault(t, [])
        if g not in seen[t]:
            seen[t].append(g)
        exp.append(start + seen[t].index(g))
    check(e.segment.tolist() == exp, "segments are numbered from the start in each network", start=start, got=e.segment, expected=exp, **d)
    same_obs(e0, list(range(n)), e, "numbering of segments", but=("segment",))
    e.numbering_network(start)
    ids = sorted(set(d["track"]))
    check(e.track.tolist() == [start + ids.index(t) for t in d["track"]], "networks are numbered from the start", start=start, got=e.track, **d)
    same_obs(e0, list(range(n)), e, "numbering of networks", but=("segment", "track"))


def events(rng):
    e = network(rng)
    d = desc(e)
    sg = segs(e)
    nx, pv, t, tr = e.next_obs.tolist(), e.previous_obs.tolist(), e.time.tolist(), e.track.tolist()
    real = [k for k in sg if tr[k[0]] != 0]
    if tr[0] != 0 and all(nx[i] == -1 and pv[i] == -1 for i in sg[0]):
        return  # a first segment without links is considered as the trash
    lab = lambda x: [int(v) for v in x.amplitude]
    same_obs(e, [k[0] for k in real if pv[k[0]] == -1], e.birth_event(), "births", but=NETF, before=d)
    same_obs(e, [k[-1] for k in real if nx[k[-1]] == -1], e.death_event(), "deaths", but=NETF, before=d)
    mer = [(nx[k[-1]], pv[nx[k[-1]]], k[-1]) for k in sg if nx[k[-1]] != -1]
    spl = [(pv[k[0]], nx[pv[k[0]]], k[0]) for k in sg if pv[k[0]] != -1]
    for nm, ev, f in (("merging", mer, e.merging_event), ("splitting", spl, e.splitting_event)):
        check(f(only_index=True).tolist() == sorted({v[0] for v in ev}), f"observations of {nm}", got=f(only_index=True), **d)
        same_obs(e, sorted({v[0] for v in ev}), f(), f"{nm} events", but=NETF, before=d)
        trip = [tuple(int(q) for q in v) for v in zip(*f(triplet=True, only_index=True))]
        check(sorted(trip) == sorted(ev), f"observations involved in {nm}", got=trip, expected=ev, **d)
        check([t[v[0]] for v in trip] == sorted(t[v[0]] for v in trip), f"{nm} events in time order", got=trip, **d)
        a, b, c = f(triplet=True)
        check([v for v, q in zip(zip(lab(a), lab(b), lab(c)), trip) if -1 not in q] == [q for q in trip if -1 not in q], f"{nm} observations extracted", got=(lab(a), lab(b), lab(c)), **d)
    dt = rng.choice([1, 2, 3, 5])
    mg, sp = rng.random() < 0.7, rng.random() < 0.7
    exp = set()

    def follow(link, i):
        j = i
        while True:
            exp.add(j)
            j = link[j]
            if j == -1 or abs(t[j] - t[i]) >= dt:
                return
    if mg:
        for a, b, c in mer:
            if b != -1:
                follow(pv, b)
            follow(pv, c)
            follow(nx, a)
    if sp:
        for a, b, c in spl:
            if b != -1:
                follow(nx, b)
            follow(nx, c)
            follow(pv, a)
    if all(v[1] != -1 for v in mer + spl):
        m = e.mask_obs_close_event(mg, sp, dt)
        check(np.where(m)[0].tolist() == sorted(exp), "observations close to an event", dt=dt, merging=mg, splitting=sp, got=m, expected=sorted(exp), **d)


def graph(e, sg):
    where = {i: k for k, v in enumerate(sg) for i in v}
    g = {k: set() for k in range(len(sg))}
    for k, v in enumerate(sg):
        for j in (int(e.next_obs[v[-1]]), int(e.previous_obs[v[0]])):
            if j != -1:
                g[k].add(where[j])
                g[where[j]].add(k)
    return where, g


def dist(g, start):
    out, todo = {s: 0 for s in start}, list(start)
    while todo:
        a = todo.pop(0)
        for b in g[a]:
            if b not in out:
                out[b] = out[a] + 1
                todo.append(b)
    return out


def connected(rng):
    e = network(rng)
    d = desc(e)
    n = len(e)
    sg = segs(e)
    where, g = graph(e, sg)
    c = e.connexions(multi_network=True)
    check({int(k): {int(q) for q in v} for k, v in c.items()} == {k: v for k, v in g.items() if v}, "segments in interaction", got=c, expected=g, **d)
    # relatives
    obs = [rng.randrange(n) for _ in range(rng.randint(1, 2))]
    o = rng.choice([0, 1, 2, 3])
    dd = dist(g, sorted({where[i] for i in obs}))
    linked(e, [i for i in range(n) if dd.get(where[i], 99) <= o], e.relatives(obs[0] if len(obs) == 1 else obs, order=o), "relatives of observations", obs=obs, order=o)
    # where water could go
    nx, pv = e.next_obs.tolist(), e.previous_obs.tolist()
    fw, bw = {i: set() for i in range(n)}, {i: set() for i in range(n)}
    for v in sg:
        for i, j in zip(v[:-1], v[1:]):
            fw[i].add(j)
            bw[j].add(i)
        if nx[v[-1]] != -1:
            fw[v[-1]].add(nx[v[-1]])
            bw[nx[v[-1]]].add(v[-1])
        if pv[v[0]] != -1:
            bw[v[0]].add(pv[v[0]])
            fw[pv[v[0]]].add(v[0])
    f_, b_ = rng.choice([(True, False), (False, True), (True, True)])
    exp = (set(dist(fw, obs)) if f_ else set()) | (set(dist(bw, obs)) if b_ else set())
    if not (f_ and b_):
        linked(e, sorted(exp), e.find_link(obs, forward=f_, backward=b_), "observations linked in time", obs=obs, forward=f_, backward=b_)
    one = e.network(e.track[obs[0]])
    sg1 = segs(one)
    where1, g1 = graph(one, sg1)
    i1 = rng.randrange(len(one))
    dd = dist(g1, [where1[i1]])
    if len(set(one.segment.tolist())) == len(sg1):
        got = one.obs_relative_order(i1)
        check(got.tolist() == [dd.get(where1[i], -1) for i in range(len(one))], "distance of each segment in number of interactions", obs=i1, got=got, **desc(one))
    # networks without interaction are separated
    u = e.copy()
    u.dissociate_network()
    lab = u.amplitude.astype(int).tolist()
    comp = {}
    for k in range(len(sg)):
        comp[k] = min(dist(g, [k]))
    net = {i: u.track[lab.index(i)] for i in range(n)}
    tr = e.track.tolist()
    for i in range(n):
        for j in range(i):
            check((net[i] == net[j]) == (comp[where[i]] == comp[where[j]]), "two observations are in the same network when their segments are connected", i=i, j=j, got=net, **d)
    check(not (tr[0] == 0) or all(net[i] == 0 for i in range(n) if tr[i] == 0), "the trash is kept", got=net, **d)
    linked(e, lab, u, "dissociated networks") if False else None
    for f in LINKS:
        exp = [-1 if e[f][i] == -1 else lab.index(int(e[f][i])) for i in lab]
        check(u[f].tolist() == exp, f"dissociated networks: {f}", got=u[f], expected=exp, **d)


def dead_ends(rng):
    e = network(rng, trash=True)
    d = desc(e)
    n = len(e)
    nobs, ndays, rec = rng.choice([0, 2, 3]), rng.choice([0, 2, 4]), rng.choice([0, 0, 1, 2])
    mask = np.array([rng.random() < 0.15 for _ in range(n)]) if rng.random() < 0.4 else None
    u = e.copy()
    u.remove_dead_end(nobs, ndays, rec, mask=None if mask is None else mask.copy())
    # reference on plain python
    state = {i: (int(e.track[i]), int(e.segment[i])) for i in range(n)}
    nx = {i: int(e.next_obs[i]) for i in range(n)}
    pv = {i: int(e.previous_obs[i]) for i in range(n)}
    t = e.time.tolist()
    for _ in range(rec + 1):
        order_ = sorted(range(n), key=lambda i: state[i] + (t[i],))
        sg = {}
        for i in order_:
            sg.setdefault(state[i], []).append(i)
        link = {k: set() for k in sg}
        for k, v in sg.items():
            for j in (nx[v[-1]], pv[v[0]]):
                if j != -1:
                    link[k].add(state[j])
                    link[state[j]].add(k)
        keep = {k for k, v in sg.items() if (t[v[-1]] - t[v[0]] + 1 >= ndays and len(v) >= nobs) or len(link[k]) >= 2 or (mask is not None and any(mask[i] for i in v))}
        gone = {i for k, v in sg.items() if k not in keep for i in v}
        for i in range(n):
            if i in gone:
                state[i], nx[i], pv[i] = (0, 0), -1, -1
        for i in range(n):
            if nx[i] in gone:
                nx[i] = -1
            if pv[i] in gone:
                pv[i] = -1
    lab = u.amplitude.astype(int).tolist()
    info = dict(nobs=nobs, ndays=ndays, recursive=rec, mask=mask, **d)
    check(sorted(lab) == list(range(n)), "every observation is kept", got=lab, **info)
    check([(int(a), int(b)) for a, b in zip(u.track, u.segment)] == [state[i] for i in lab], "short segments with less than two interactions go to the trash, others are kept", got=list(zip(u.track, u.segment)), expected=[state[i] for i in lab], **info)
    for nm, ln in (("next_obs", nx), ("previous_obs", pv)):
        exp = [-1 if ln[i] == -1 else lab.index(ln[i]) for i in lab]
        check(u[nm].tolist() == exp, f"links after removal: {nm}", got=u[nm], expected=exp, **info)


def groups(rng):
    """group numbers from pairs of observations in interaction"""
    from py_eddy_tracker.observations.network import Network
    nb = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
    st = np.cumsum(nb) - nb
    n = sum(nb)
    results, edges = [], []
    for i in range(len(nb)):
        for j in range(i + 1, len(nb)):
            if rng.random() < 0.3:
                continue
            pairs = [(a, b) for a in range(nb[i]) for b in range(nb[j]) if rng.random() < rng.choice([0.1, 0.4])]
            edges += [(st[i] + a, st[j] + b) for a, b in pairs]
            results.append((i, j, np.array([p[0] for p in pairs], dtype="i8"), np.array([p[1] for p in pairs], dtype="i8")))
    net = Network.from_eddiesobservations([])
    gr = net.get_group_array(results, nb).tolist()
    g = {k: set() for k in range(n)}
    for a, b in edges:
        g[a].add(b)
        g[b].add(a)
    d = dict(nb=nb, pairs=edges, got=gr)
    comp = [min(dist(g, [k])) for k in range(n)]
    for i in range(n):
        check((gr[i] == 0) == (not g[i]), "observations without interaction, and only them, have no group", i=i, **d)
        for j in range(i):
            if g[i] and g[j]:
                check((gr[i] == gr[j]) == (comp[i] == comp[j]), "two observations are in the same group when a chain of interactions links them", i=i, j=j, **d)


def _square(x, y, r):
    return np.array([x - r, x + r, x + r, x - r, x - r]), np.array([y - r, y - r, y + r, y + r, y - r])


def _days(rng, nfile):
    """observations by day, each with a square outline"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    out = []
    for k in range(nfile):
        m = rng.randint(1, 4)
        e = E(size=m, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
        e.sign_type = 1
        for i in range(m):
            x, y = rng.choice([0, 1, 2, 4, 6]) + rng.choice([0, 0.1]), rng.choice([0, 3])
            e.contour_lon_e[i], e.contour_lat_e[i] = _square(x, y, 1.0)
            e.contour_lon_s[i], e.contour_lat_s[i] = _square(x + rng.choice([0, 0.6]), y, 0.5)
            e.lon[i], e.lat[i] = x, y
        e.time[:] = k
        out.append(e)
    return out


def overlap(a, b):
    inter = max(0, min(a[0] + a[2], b[0] + b[2]) - max(a[0] - a[2], b[0] - b[2])) * max(0, min(a[1] + a[2], b[1] + b[2]) - max(a[1] - a[2], b[1] - b[2]))
    return inter / ((2 * a[2]) ** 2 + (2 * b[2]) ** 2 - inter)


def grouping(rng):
    """groups of observations of several days from the overlap of the outlines, whatever was done before in the process"""
    from py_eddy_tracker.observations.network import Network
    days = _days(rng, rng.randint(1, 4))
    for _ in range(2):
        intern, window = rng.random() < 0.5, rng.choice([1, 2, 3])
        mn = rng.choice([0.1, 0.2, 0.45])
        c = "s" if intern else "e"
        sq = [[((x[0] + x[1]) / 2, (y[1] + y[2]) / 2, (x[1] - x[0]) / 2) for x, y in zip(e["contour_lon_" + c], e["contour_lat_" + c])] for e in days]
        flat = [(k, s) for k, day in enumerate(sq) for s in day]
        n = len(flat)
        g = {k: set() for k in range(n)}
        for i in range(n):
            for j in range(i):
                dt = flat[i][0] - flat[j][0]
                o = overlap(flat[i][1], flat[j][1])
                if abs(o - mn) < 1e-4:
                    return
                if 0 < dt <= window and o > mn:
                    g[i].add(j)
                    g[j].add(i)
        comp = [min(dist(g, [k])) for k in range(n)]
        if not any(g.values()):
            continue
        gr = Network.from_eddiesobservations(days, window=window, intern=intern).group_observations(min_overlap=mn).tolist()
        d = dict(squares=sq, window=window, intern=intern, min_overlap=mn, got=gr)
        for i in range(n):
            check((gr[i] == 0) == (not g[i]), "observations without interaction, and only them, have no group", i=i, **d)
            for j in range(i):
                if g[i] and g[j]:
                    check((gr[i] == gr[j]) == (comp[i] == comp[j]), "two observations are in the same group when a chain of interactions links them", i=i, j=j, **d)


def splitting(rng):
    """segments of a group: every observation in one segment, links in the window and consistent"""
    from py_eddy_tracker.observations.network import NetworkObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
    n = rng.randint(3, 10)
    ids = np.sort(np.array([rng.choice([0, 1, 1, 1, 3]) for _ in range(n)]))
    e = T(size=n, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    e.sign_type = 1
    e.track[:] = ids
    for g in set(ids.tolist()):
        k = np.where(ids == g)[0]
        e.time[k] = np.sort([rng.randint(0, 6) for _ in k])
    if len(set(e.time.tolist())) < 2 or np.median(np.diff(np.unique(e.time))) != 1:
        return
    for i in range(n):
        e.contour_lon_e[i], e.contour_lat_e[i] = _square(rng.uniform(0, 1.5), 0, 1.0)
        e.contour_lon_s[i], e.contour_lat_s[i] = _square(rng.uniform(0, 1.5), 0, 1.0)
    e.amplitude[:] = np.arange(n)
    window = rng.choice([1, 2, 4])
    # inner contours by default
    kw = rng.choice([dict(), dict(intern=True), dict(intern=False)])
    cx = e.contour_lon_s if kw.get("intern", True) else e.contour_lon_e
    r = e.split_network(window=window, **kw)
    d = dict(track=ids, time=e.time, x=cx[:, 0], kw=kw, window=window, next_obs=r["next_obs"], previous_obs=r["previous_obs"], segment=r["track"])
    check((r["group"] == ids).all(), "groups are kept", **d)
    cost = lambda i, j: overlap(((cx[i, 0] + cx[i, 1]) / 2, 0, 1.0), ((cx[j, 0] + cx[j, 1]) / 2, 0, 1.0))
    for i in range(n):
        if ids[i] == 0:
            check(r["track"][i] == 0 and r["next_obs"][i] == -1 and r["previous_obs"][i] == -1, "observations without group are left alone", i=i, **d)
            continue
        check(r["track"][i] > 0, "every observation of a group is in a segment", i=i, **d)
        for f, s in (("next_obs", 1), ("previous_obs", -1)):
            j = int(r[f][i])
            cand = {}
            for q in range(n):
                dt = s * (e.time[q] - e.time[i])
                if ids[q] == ids[i] and 0 < dt <= window and cost(i, q) > 0.2:
                    cand.setdefault(dt, []).append(q)
            if any(abs(cost(i, q) - 0.2) < 1e-4 for q in range(n)):
                return
            if j != -1:
                dt = s * (e.time[j] - e.time[i])
                check(ids[j] == ids[i] and 0 < dt <= window, f"{f}: an observation of the same group in the window", i=i, **d)
            if f == "next_obs":
                if not cand:
                    check(j == -1, "no next observation when none overlaps in the window", i=i, **d)
                else:
                    best = cand[min(cand)]
                    check(j in best and cost(i, j) >= max(cost(i, q) for q in best) - 1e-4, "the next observation has the largest overlap at the first date with an overlap", i=i, candidates=best, **d)
        j = int(r["next_obs"][i])
        if j != -1 and r["track"][j] == r["track"][i]:
            check(r["previous_obs"][j] == i, "inside a segment links go both ways", i=i, **d)
    for g in set(ids.tolist()) - {0}:
        for t in set(r["track"][ids == g].tolist()):
            v = np.where((ids == g) & (r["track"] == t))[0]
            tm = e.time[v]
            check(len(set(tm.tolist())) == len(tm), "one observation of a segment by date", group=g, seg=t, **d)
            for i, j in zip(v[:-1], v[1:]):
                check(r["next_obs"][i] == j, "observations of a segment follow each other", group=g, seg=t, **d)
    w = NetworkObservations.from_split_network(e, r)
    lab = w.amplitude.astype(int).tolist()
    exp = sorted(range(n), key=lambda i: (r["group"][i], r["track"][i], r["time"][i]))
    check(lab == exp or sorted(lab) == sorted(exp) and [(ids[i], r["track"][i], e.time[i]) for i in lab] == [(ids[i], r["track"][i], e.time[i]) for i in exp], "network ordered by group, segment and date", got=lab, expected=exp, **d)
    check(w.track.tolist() == ids[lab].tolist() and w.segment.tolist() == r["track"][lab].tolist(), "group and segment of each observation", got=(w.track, w.segment), **d)
    for f in LINKS:
        x = [-1 if r[f][i] == -1 else lab.index(int(r[f][i])) for i in lab]
        check(w[f].tolist() == x, f"{f} links the same observations", expected=x, got=w[f], **d)


def identify(rng):
    """couples of equal networks or segments of two atlases"""
    a = network(rng, trash=False)
    b = network(rng, trash=False)
    seg = rng.random() < 0.5
    # copy some items of a in b
    key = (lambda e, i: (int(e.track[i]), int(e.segment[i]))) if seg else (lambda e, i: int(e.track[i]))

    def items(e):
        out = {}
        for i in range(len(e)):
            out.setdefault(key(e, i), []).append(i)
        return out
    ia, ib = items(a), items(b)
    for k, v in ib.items():
        c = [w for w in ia.values() if len(w) == len(v)]
        if c and rng.random() < 0.7:
            w = list(rng.choice(c))
            if not seg:
                rng.shuffle(w)
            for f in ("lon", "lat", "time"):
                b[f][v] = a[f][w]
    sig = lambda e, v: sorted((float(e.time[i]), float(e.lon[i]), float(e.lat[i])) for i in v)
    mn = rng.choice([1, 1, 2])
    if max(len(v) for v in ia.values()) < mn:
        return  # nothing to identify
    x, y = a.identify_in(b, size_min=mn, segment=seg)
    d = dict(segment_mode=seg, size_min=mn, a=desc(a), b=desc(b), got=(x, y))
    num = (lambda its: {k: q for q, k in enumerate(sorted(its))}) if seg else (lambda its: {k: k for k in its})
    na, nb_ = num(ia), num(ib)
    sa, sb = {na[k]: sig(a, v) for k, v in ia.items()}, {nb_[k]: sig(b, v) for k, v in ib.items()}
    x, y = [int(v) for v in x], [int(v) for v in y]
    check(sorted(x) == sorted(k for k, v in sa.items() if len(v) >= mn), "each item of the size asked is listed once", **d)
    used = [v for v in y if v != -1]
    check(len(used) == len(set(used)), "an item of the other atlas is used once", **d)
    for i, j in zip(x, y):
        if j != -1:
            check(j in sb and sa[i] == sb[j], "items of a couple are equal", couple=(i, j), **d)
        else:
            free = [q for q, v in sb.items() if v == sa[i] and q not in used]
            check(not free, "an item without couple has no equal item left in the other atlas", item=i, candidates=free, **d)


def virtual(rng):
    """virtual observations are inserted where dates are missing"""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
    net = rng.random() < 0.5
    if net:
        e = network(rng, extra=["virtual"], gaps=True)
        sg = segs(e)
        skip = lambda i: e.track[i] == 0
    else:
        from props.b_track import by_track, tracks
        e = tracks(rng)
        for v in by_track(e).values():
            e.time[v] = rng.randint(0, 5) + np.cumsum([1 if rng.random() < 0.6 else rng.randint(2, 3) for _ in v])
        sg = list(by_track(e).values())
        skip = lambda i: False
        e.amplitude[:] = np.arange(len(e))
    if len(e) < 2 or np.median(np.diff(e.time)) != 1:
        return
    miss = []  # (after which observation, number)
    for v in sg:
        for i, j in zip(v[:-1], v[1:]):
            k = int(e.time[j] - e.time[i]) - 1
            if k > 0 and not skip(i):
                miss.append((i, k))
    add = dict(miss)
    exp = []  # old index or (i, rank, number)
    for i in range(len(e)):
        exp.append(i)
        for q in range(add.get(i, 0)):
            exp.append((i, q + 1, add[i] + 1))
    d = dict(track=e.track, time=e.time, segment=e.segment if net else None, missing=miss)
    w = e.insert_virtual()
    check(len(w) == len(exp), "one observation is added by missing date", expected=len(exp), got=len(w), **d)
    old = [k for k, v in enumerate(exp) if not isinstance(v, tuple)]
    same_obs_in(e, w, old, **d)
    for k, v in enumerate(exp):
        if isinstance(v, tuple):
            i, q, m = v
            check(w.virtual[k] == 1, "inserted observations are virtual", k=k, **d)
            for f in ("track", "segment") if net else ("track",):
                check(w[f][k] == e[f][i], f"inserted observations have the {f} of their neighbours", k=k, got=w[f], **d)
            for f in ("time", "lon", "lat"):
                x = float(e[f][i]) + (float(e[f][i + 1]) - float(e[f][i])) * q / m
                check(abs(w[f][k] - x) < 1e-3, f"inserted observations are interpolated: {f}", k=k, got=w[f][k], expected=x, **d)
    check(w.sign_type == e.sign_type, "rotation sign", **d)
    if net:
        place = {v: k for k, v in enumerate(exp) if not isinstance(v, tuple)}
        for k, v in enumerate(exp):
            if isinstance(v, tuple):
                nx, pv = k + 1, k - 1
            else:
                nx = k + 1 if v in add else (-1 if e.next_obs[v] == -1 else place[int(e.next_obs[v])])
                pv = k - 1 if v - 1 in add else (-1 if e.previous_obs[v] == -1 else place[int(e.previous_obs[v])])
            check(w.next_obs[k] == nx and w.previous_obs[k] == pv, "links follow the observations", k=k, got=(w.next_obs, w.previous_obs), expected=(nx, pv), **d, before=desc(e))


def same_obs_in(e, w, place, **d):
    for f in e.fields:
        if f in LINKS:
            continue
        check(np.array_equal(w.obs[f][place], e.obs[f]), f"original observations are kept: {f}", expected=e.obs[f], got=w.obs[f], **d)


def coherence(rng):
    """storage of the targets of one date in the tables of the dataset"""
    from py_eddy_tracker.observations.groups import GroupEddiesObservations as G
    n = rng.randint(2, 9)
    o = np.array(rng.sample(range(n), rng.randint(0, n)), dtype="i8")
    t = np.array(rng.sample(range(n), rng.randint(1, n)), dtype="i8")
    local = np.array([[rng.randint(-1, len(t) - 1) for _ in range(2)] for _ in o], dtype="i4").reshape(-1, 2)
    pct = np.array([[rng.randint(0, 100) for _ in range(2)] for _ in o], dtype="i1").reshape(-1, 2)
    it, p = np.full((n, 2), -1, dtype="i4"), np.zeros((n, 2), dtype="i1")
    ei, ep = it.copy(), p.copy()
    for k, i in enumerate(o):
        for c in range(2):
            ei[i, c] = -1 if local[k, c] == -1 else t[local[k, c]]
            ep[i, c] = pct[k, c]
    d = dict(origin=o, end=t, local=local.copy(), percents=pct.copy())
    G.merge_particle_result(it, p, local, pct, o, t)
    check(np.array_equal(it, ei) and np.array_equal(p, ep), "targets and percents are stored for the origin observations only", got=(it, p), expected=(ei, ep), **d)
