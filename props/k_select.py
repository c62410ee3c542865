"""Contracts on the selections of tracks (methods of TrackEddiesObservations): mask of the observations kept"""
from vc.contract import O, R

from .common import *

TRK = "observations.tracking:TrackEddiesObservations."


def _mask(eng, obj, mask, **kw):
    return mask


def _tracks(**kw):
    return O("observations.tracking:TrackEddiesObservations", stub="mask", hooks={"extract_with_mask": _mask, "__len__": lambda eng, obj: obj.attrs["tracks"].n},
             **{**dict(tracks=P("int", "n", np_="u4"), index_from_track=P("int", "m"), nb_obs_by_track=P("int", "m")), **kw})


def _tables(s):
    """tables of a dataset sorted by track (postconditions of compute_index on such a dataset)"""
    t, i0, nb = s.self.tracks, s.self.index_from_track, s.self.nb_obs_by_track
    n, m = t.n, i0.n
    return And(forall2(0, n, 0, n, lambda a, b: Implies(a <= b, t[a] <= t[b])),
               forall(0, n, lambda k: And(t[k] >= 0, t[k] < m, i0[t[k]] <= k, k < i0[t[k]] + nb[t[k]])),
               forall(0, m, lambda q: And(nb[q] >= 0, Implies(nb[q] == 0, i0[q] == -1), Implies(nb[q] > 0, And(i0[q] >= 0, i0[q] + nb[q] <= n)))),
               forall2(0, m, 0, n, lambda q, k: Implies(And(nb[q] > 0, i0[q] <= k, k < i0[q] + nb[q]), t[k] == q)),
               forall(0, m, lambda q: Implies(nb[q] > 0, lambda: And(t[i0[q]] == q, t[i0[q] + nb[q] - 1] == q, Implies(i0[q] > 0, lambda: t[i0[q] - 1] < q), Implies(i0[q] + nb[q] < n, lambda: t[i0[q] + nb[q]] > q)))))


TABLES = ("tables of a dataset sorted by track", _tables)


def _starts(s, start, r, sel, R):
    """the blocks of the tracks of rank below r are the observations before `start`"""
    t = s.old.self.tracks
    return And(start >= 0, start <= t.n, If(r >= R, start == t.n, forall(0, t.n, lambda k: Iff(t[k] < sel(r), k < start))))


def _same_track(s, k):
    return s.old.self.tracks[k]


def _data(rng, **more):
    from vc.worker import RealObj
    m = rng.randint(1, 5)
    nb = rng_ints(rng, m, 0, 3).astype("i8")
    if not nb.sum():
        nb[rng.randrange(m)] = 2
    t = np.repeat(np.arange(m), nb).astype("u4")
    m = int(t.max()) + 1
    nb = nb[:m]
    i0 = np.where(nb > 0, np.cumsum(nb) - nb, -1)
    return RealObj("observations.tracking:TrackEddiesObservations#mask", tracks=t, index_from_track=i0, nb_obs_by_track=nb, **{k: f(len(t)) for k, f in more.items()}), m, len(t)


def _each(s, f):
    """an observation is kept exactly when its track meets the condition"""
    o = s.old.self
    return And(s.result.n == s.dim_n, forall(0, s.dim_n, lambda k: Iff(s.result[k], f(o.tracks[k]))))


def _first(s, a, t):
    return a[s.old.self.index_from_track[t]]


def _last(s, a, t):
    o = s.old.self
    return a[o.index_from_track[t] + o.nb_obs_by_track[t] - 1]


# ---------------------------------------------------------------- by length
def _length(lo, hi):
    b = (S("int") if lo else C(-1), S("int") if hi else C(-1))

    def ok(s, t):
        nb = s.old.self.nb_obs_by_track[t]
        return And(*([nb >= s.old.bounds[0]] if lo else []), *([nb <= s.old.bounds[1]] if hi else []))
    return Contract(TRK + "extract_with_length", dict(self=_tracks(), bounds=T(*b)), key=TRK + "extract_with_length" + ("_lo" if lo else "") + ("_hi" if hi else ""),
                    requires=[TABLES, ("not empty", lambda s: s.dim_n > 0), lambda s: And(*([s.bounds[0] >= 0] if lo else []), *([s.bounds[1] >= 0] if hi else []))],
                    ensures=[("exactly the tracks whose number of observations is in the bounds", lambda s: _each(s, lambda t: ok(s, t)))],
                    opts=dict(repeat=(_starts, _same_track)), bmc=False,
                    gen=lambda rng, k: dict(self=_data(rng)[0], bounds=(rng.randint(0, 3) if lo else -1, rng.randint(0, 3) if hi else -1)))


length_both, length_min, length_max = _length(True, True), _length(True, False), _length(False, True)


# ---------------------------------------------------------------- by direction
_lonlat = dict(longitude=P("real", "n"), latitude=P("real", "n"))


def _toward(west, limit):
    def ok(s, t):
        lon = s.old.self.longitude
        d = _last(s, lon, t) - _first(s, lon, t)
        return And(d < 0 if west else d > 0, *([fabs(d) > s.old.delta_lon] if limit else []))
    return Contract(TRK + "extract_toward_direction", dict(self=_tracks(**_lonlat), west=C(west), delta_lon=S("real") if limit else C(None)),
                    key=TRK + "extract_toward_direction" + ("_west" if west else "_east") + ("_limit" if limit else ""), requires=[TABLES],
                    ensures=[("exactly the tracks whose last position is on this side of the first one, by more than the span", lambda s: _each(s, lambda t: ok(s, t)))],
                    opts=dict(repeat=(_starts, _same_track)), bmc=False,
                    gen=lambda rng, k: dict(self=_data(rng, longitude=lambda n: rng_floats(rng, n, -3, 3, 0.5), latitude=lambda n: rng_floats(rng, n, -3, 3, 0.5))[0], west=west, delta_lon=rng.choice([0.0, 0.5, 2.0]) if limit else None))


toward_west, toward_east = _toward(True, True), _toward(False, True)
toward_west_all, toward_east_all = _toward(True, False), _toward(False, False)


def _direction(c):
    def ok(s, t):
        o = s.old.self
        if c in "NS":
            d = _last(s, o.latitude, t) - _first(s, o.latitude, t)
        else:
            d = rmod(_last(s, o.longitude, t) - (_first(s, o.longitude, t) - 180), 360) - 180
        return And(d < 0 if c in "SW" else d > 0, fabs(d) > s.old.value)
    return Contract(TRK + "extract_in_direction", dict(self=_tracks(**_lonlat), direction=C(c), value=S("real")), key=TRK + "extract_in_direction_" + c, requires=[TABLES],
                    ensures=[("exactly the tracks which went this way, by more than the limit (shortest way in longitude)", lambda s: _each(s, lambda t: ok(s, t)))],
                    opts=dict(repeat=(_starts, _same_track), opaque_mod=True), bmc=False,
                    gen=lambda rng, k: dict(self=_data(rng, longitude=lambda n: rng_floats(rng, n, -3, 3, 0.5) + 360 * rng_ints(rng, n, -1, 1), latitude=lambda n: rng_floats(rng, n, -3, 3, 0.5))[0], direction=c, value=rng.choice([0, 0, 0.5, 2.0])))


direction_N, direction_S, direction_E, direction_W = (_direction(c) for c in "NSEW")


# ---------------------------------------------------------------- by id, by date
mask_from_id = Contract(
    TRK + "get_mask_from_id", dict(self=_tracks(), tracks=P("int", "p")),
    requires=[TABLES, ("ids in the table", lambda s: forall(0, s.tracks.n, lambda q: And(s.tracks[q] >= 0, s.tracks[q] < s.dim_m)))],
    ensures=[("exactly the observations of the tracks given", lambda s: And(s.result.n == s.dim_n, forall(0, s.dim_n, lambda k: Iff(s.result[k], exists(0, s.old.tracks.n, lambda q: s.old.tracks[q] == s.old.self.tracks[k])))))],
    bmc=False, gen=lambda rng, k: (lambda d: dict(self=d[0], tracks=rng_ints(rng, rng.randint(0, 4), 0, d[1] - 1)))(_data(rng)))


def _period(a, b):
    """bounds: a date (positive), a number of days after the first or before the last date (negative), or none (0)"""
    sg = dict(date=lambda v: v > 0, offset=lambda v: v < 0, none=lambda v: v == 0)

    def post(s):
        o = s.old
        t = o.self.time
        lo = {"date": lambda: o.period[0], "offset": lambda: o.self.period[0] - o.period[0], "none": lambda: None}[a]()
        hi = {"date": lambda: o.period[1], "offset": lambda: o.self.period[1] + o.period[1], "none": lambda: None}[b]()
        return And(s.result.n == s.dim_n, forall(0, s.dim_n, lambda k: Iff(s.result[k], And(*([] if lo is None else [t[k] >= lo]), *([] if hi is None else [t[k] <= hi])))))

    def gen(rng, k):
        t = rng_ints(rng, rng.randint(1, 8), 5, 15)
        from vc.worker import RealObj
        v = lambda q: {"date": rng.randint(4, 16), "offset": -rng.randint(1, 5), "none": 0}[q]
        return dict(self=RealObj("observations.tracking:TrackEddiesObservations#mask", time=t, period=(int(t.min()), int(t.max()))), period=(v(a), v(b)))
    return Contract(TRK + "extract_with_period", dict(self=O("observations.tracking:TrackEddiesObservations", stub="mask", hooks={"extract_with_mask": _mask}, time=P("real", "n"), period=T(S("real"), S("real"))), period=T(S("real"), S("real"))), key=f"{TRK}extract_with_period_{a}_{b}",
                    requires=[lambda s: And(sg[a](s.period[0]), sg[b](s.period[1]))],
                    ensures=[("exactly the observations in the period", post)], bmc=False, gen=gen)


period_dates, period_offsets, period_from, period_until = _period("date", "date"), _period("offset", "offset"), _period("date", "none"), _period("none", "date")
period_mixed, period_all = _period("offset", "date"), _period("none", "none")


# ---------------------------------------------------------------- values by observation
lifetime = Contract(
    TRK + "lifetime", dict(self=_tracks()), requires=[TABLES], ensures=[("number of observations of the track of each observation", lambda s: And(
        s.result.n == s.dim_n, forall(0, s.dim_n, lambda k: s.result[k] == s.old.self.nb_obs_by_track[s.old.self.tracks[k]])))],
    opts=dict(repeat=(_starts, _same_track)), bmc=False, gen=lambda rng, k: dict(self=_data(rng)[0]))

distance_to_next = Contract(
    TRK + "distance_to_next", dict(self=_tracks(**_lonlat)), requires=[("not empty", lambda s: s.dim_n > 0)],
    ensures=[("distance to the next observation of the track, 0 for its last one", lambda s: And(s.result.n == s.dim_n, forall(0, s.dim_n, lambda k: If(
        k == s.dim_n - 1, lambda: eqf(s.result[k], 0), lambda: If(s.old.self.tracks[k + 1] != s.old.self.tracks[k], lambda: eqf(s.result[k], 0), lambda: eqf(
            s.result[k], haversine(s.old.self.longitude[k], s.old.self.latitude[k], s.old.self.longitude[k + 1], s.old.self.latitude[k + 1], 6370997.0)))))))],
    bmc=False, gen=lambda rng, k: dict(self=_data(rng, longitude=lambda n: rng_floats(rng, n, -3, 3, 0.5), latitude=lambda n: rng_floats(rng, n, -3, 3, 0.5))[0]))


# ---------------------------------------------------------------- copy of the observations selected
_obs = R("n", track=P("int", "n", np_="u4"), lon=P("real", "n"), time=P("int", "n", np_="u2"), contour=P("real", "n", "c"))
_FIELDS = ["track", "lon", "time", "contour"]


def _new_like(eng, args, kw, node):
    """fields of the same types, to fill in"""
    from vc.engine import Arr, Obj, Rec
    src, n = args[-2], args[-1]
    f = {k: Arr(eng, a.dtype, (n,) + tuple(a.shape[1:]), eng.fresh_fn(a.dtype, a.ndim, "new_" + k)) for k, a in src.attrs["obs"].fields.items()}
    return Obj(eng, src.cls, dict(obs=Rec(eng, (n,), f), track=f["track"]))


def _kept(s, sel):
    """the new dataset holds the observations selected (and no other), in order, with all their fields; the sources do not change"""
    o, r = s.old, s.result
    n, m = s.dim_n, r.obs.track.n
    nb = memo(s, "nb", lambda: dsl.count(lambda k: sel(k)))
    same = lambda f: eqf(r.obs[f][nb(k)], o.self.obs[f][k])
    one = lambda k: And(nb(k) >= 0, nb(k) < m, *[eqf(r.obs[f][nb(k)], o.self.obs[f][k]) for f in _FIELDS[:3]], forall(0, s.dim_c, lambda c: eqf(r.obs["contour"][nb(k), c], o.self.obs["contour"][k, c])))
    return And(m == nb(n), forall(0, n, lambda k: Implies(sel(k), lambda: one(k)), pat=lambda k: nb(k)), r.sign_type == o.self.sign_type)


def _copy(full, virtual, incomplete):
    def has(s, k, f):
        return exists(0, s.dim_n, lambda q: And(f(q), s.old.self.tracks[q] == s.old.self.tracks[k]))

    def sel(s):
        o = s.old
        mask = (lambda q: And(o.mask[q], o.self.virtual[q] == 0)) if virtual else (lambda q: o.mask[q])
        if full:
            return lambda k: has(s, k, mask)
        return (lambda k: Not(has(s, k, lambda q: Not(mask(q))))) if incomplete else mask

    def kept(s):
        """selection as a symbol: its definition is what `after` proves of the mask of the code"""
        if not (full or incomplete):
            return sel(s)
        o, d = dsl.opaque(("kept", full, virtual), ["int"]), sel(s)
        return lambda k: o(k) if dsl.is_z3(k) else d(k)

    def after(s, args, r, ghost):
        from vc.engine import Arr
        no = Not if incomplete else (lambda q: q)
        d, o = sel(s), kept(s)
        return [("selection of the tracks concerned", forall(0, s.dim_n, lambda q: Iff(r.fn(q), no(d(q))))), ("size of the mask", r.n == s.dim_n)], Arr(r.eng, "bool", (s.dim_n,), lambda q: no(o(q))), []

    def gen(rng, k):
        d, m, n = _data(rng)
        a = d.attrs
        d.cls = d.cls.split("#")[0] + "#copy"
        a.update(obs=dict(track=a["tracks"], lon=rng_floats(rng, n, -3, 3, 0.5), time=rng_ints(rng, n, 0, 9, "u2"), contour=rng_floats(rng, 2 * n, -3, 3, 0.5).reshape(n, 2)), virtual=rng_ints(rng, n, 0, 1, "u1"), sign_type=rng.choice([-1, 1]), fields=list(_FIELDS))
        return dict(self=d, mask=rng_ints(rng, n, 0, 1).astype(bool), full_path=full, remove_incomplete=incomplete, compress_id=False, reject_virtual=virtual)
    return Contract(
        TRK + "extract_with_mask", dict(self=O("observations.tracking:TrackEddiesObservations", stub="copy", tracks=P("int", "n", np_="u4"), index_from_track=P("int", "m"), nb_obs_by_track=P("int", "m"), virtual=P("int", "n", np_="u1"),
                                               obs=_obs, sign_type=S("int"), fields=C(list(_FIELDS))), mask=P("bool", "n"), full_path=C(full), remove_incomplete=C(incomplete), compress_id=C(False), reject_virtual=C(virtual)),
        key=TRK + "extract_with_mask" + ("_full" if full else "") + ("_virtual" if virtual else "") + ("_complete" if incomplete else ""),
        requires=[TABLES, ("virtual is a flag", lambda s: forall(0, s.dim_n, lambda k: And(s.self.virtual[k] >= 0, s.self.virtual[k] <= 1)))],
        ensures=[("exactly the observations asked for, in order, with all their fields", lambda s: _kept(s, kept(s))),
                 ("the mask given is not changed", lambda s: forall(0, s.dim_n, lambda k: Iff(s.mask[k], s.old.mask[k])))],
        opts=dict(calls={"new_like": _new_like}, **(dict(after={"get_mask_from_id": after}) if full or incomplete else {})), bmc=False, gen=gen)


copy_mask, copy_full, copy_full_virtual, copy_complete = _copy(False, False, False), _copy(True, False, False), _copy(True, True, False), _copy(False, False, True)
