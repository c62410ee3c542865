"""Contracts on the selections in networks (methods of NetworkObservations)"""
from vc.contract import O, R

from .common import *

NET = "observations.network:NetworkObservations."
_obs = R("n", track=P("int", "n", np_="u4"), time=P("int", "n", np_="u2"), contour=P("real", "n", "c"))
_FIELDS = ["track", "time", "contour", "next_obs", "previous_obs"]


def _new_like(eng, args, kw, node):
    from vc.engine import Arr, Obj, Rec
    src, n = args[-2], args[-1]
    f = {k: Arr(eng, a.dtype, (n,) + tuple(a.shape[1:]), eng.fresh_fn(a.dtype, a.ndim, "new_" + k)) for k, a in src.attrs["obs"].fields.items()}
    return Obj(eng, src.cls, dict(obs=Rec(eng, (n,), f), **{q: Arr(eng, "int", (n,), eng.fresh_fn("int", 1, "new_" + q)) for q in ("next_obs", "previous_obs")}))


def _links(s):
    n = s.dim_n
    return And(*[forall(0, n, lambda k: And(s.self[q][k] >= -1, s.self[q][k] < n)) for q in ("next_obs", "previous_obs")])


def _kept(s):
    o, r = s.old, s.result
    n = s.dim_n
    nb = memo(s, "nb", lambda: dsl.count(lambda k: o.mask[k]))
    return And(r.obs.track.n == nb(n), forall(0, n, lambda k: Implies(o.mask[k], lambda: And(
        nb(k) >= 0, nb(k) < r.obs.track.n, *[eqf(r.obs[f][nb(k)], o.self.obs[f][k]) for f in _FIELDS[:2]], forall(0, s.dim_c, lambda c: eqf(r.obs["contour"][nb(k), c], o.self.obs["contour"][k, c])))), pat=lambda k: nb(k)),
        r.sign_type == o.self.sign_type)


def _linked(q):
    def post(s):
        o, r = s.old, s.result
        nb = memo(s, "nb", lambda: dsl.count(lambda k: o.mask[k]))

        def one(k):
            t = o.self[q][k]
            return If(t == -1, lambda: r[q][nb(k)] == -1, lambda: If(o.mask[t], lambda: r[q][nb(k)] == nb(t), lambda: r[q][nb(k)] == -1))
        return forall(0, s.dim_n, lambda k: Implies(o.mask[k], lambda: one(k)), pat=lambda k: nb(k))
    return post


def _gen(rng, k):
    from vc.worker import RealObj
    n = rng.randint(1, 7)
    links = lambda: rng_ints(rng, n, -1, n - 1, "i4")
    return dict(self=RealObj("observations.network:NetworkObservations#network", obs=dict(track=rng_ints(rng, n, 0, 3, "u4"), time=rng_ints(rng, n, 0, 9, "u2"), contour=rng_floats(rng, 2 * n, -3, 3, 0.5).reshape(n, 2)),
                             next_obs=links(), previous_obs=links(), sign_type=rng.choice([-1, 1]), fields=list(_FIELDS), shape=(n,)), mask=rng_ints(rng, n, 0, 1).astype(bool))


network_mask = Contract(
    NET + "extract_with_mask", dict(self=O("observations.network:NetworkObservations", stub="network", hooks={"__len__": lambda eng, obj: obj.attrs["next_obs"].n}, obs=_obs, next_obs=P("int", "n"), previous_obs=P("int", "n"), sign_type=S("int"), fields=C(list(_FIELDS)), shape=T(Dim("n"))),
                                    mask=P("bool", "n")),
    requires=[("links designate observations, or none", _links)],
    ensures=[("exactly the observations selected, in order, with all their fields", _kept), ("links to the next observation designate the same one, or none when it is not selected", _linked("next_obs")),
             ("links to the previous observation designate the same one, or none when it is not selected", _linked("previous_obs"))],
    opts=dict(calls={"new_like": _new_like}, wrap_gather=True), bmc=False, gen=_gen)


# -- sort
_table = R("n", track=P("int", "n", np_="u4"), segment=P("int", "n", np_="u4"), time=P("int", "n", np_="u2"), lon=P("real", "n"), next_obs=P("int", "n", np_="i4"), previous_obs=P("int", "n", np_="i4"))
_TF = ["track", "segment", "time", "lon", "next_obs", "previous_obs"]


def _tlinks(s):
    return And(*[forall(0, s.dim_n, lambda k: And(s.self.obs[q][k] >= -1, s.self.obs[q][k] < s.dim_n)) for q in ("next_obs", "previous_obs")])


def _lex(a, p, k, j):
    """order of observations k < j once sorted"""
    le = True
    for f in ("time", "segment", "track"):
        le = Or(a[f][k] < a[f][j], And(a[f][k] == a[f][j], le))
    return le


def _perm(s):
    p, t, n = s.result[0], s.result[1], s.dim_n
    return And(p.n == n, t.n == n + 1, forall(0, n, lambda k: And(p[k] >= 0, p[k] < n, t[p[k]] == k), pat=lambda k: p[k]), forall(0, n, lambda k: And(t[k] >= 0, t[k] < n, p[t[k]] == k)), t[n] == -1)


def _relinked(q):
    def post(s):
        p, t, n = s.result[0], s.result[1], s.dim_n
        return forall(0, n, lambda k: If(s.old.self.obs[q][p[k]] == -1, lambda: s.self.obs[q][k] == -1, lambda: s.self.obs[q][k] == t[s.old.self.obs[q][p[k]]]))
    return post


def _gen_sort(rng, k):
    from vc.worker import RealObj
    n = rng.randint(1, 7)
    ii = lambda a, b, t: rng_ints(rng, n, a, b, t)
    return dict(self=RealObj("observations.network:NetworkObservations#table", obs=dict(track=ii(0, 2, "u4"), segment=ii(0, 2, "u4"), time=ii(0, 3, "u2"), lon=rng_floats(rng, n, -3, 3, 0.5), next_obs=ii(-1, n - 1, "i4"), previous_obs=ii(-1, n - 1, "i4")),
                             fields=list(_TF), _index_network=1, _index_segment_track=1, _segment_track_array=1))


_field = lambda eng, obj, k: obj.attrs["obs"].fields[k]
network_sort = Contract(
    NET + "sort", dict(self=O("observations.network:NetworkObservations", stub="table", hooks={"__len__": lambda eng, obj: obj.attrs["obs"].shape[0], "__getitem__": _field, "__getattr__": _field, **{f: (lambda h: (setattr(h, "is_prop", True), h)[1])(lambda eng, obj, f=f: obj.attrs["obs"].fields[f]) for f in _TF}},
                              obs=_table, fields=C(list(_TF)), _index_network=C(1), _index_segment_track=C(1), _segment_track_array=C(1))),
    requires=[("links designate observations, or none", _tlinks)],
    ensures=[("the order given back is a permutation, the translation its inverse", _perm),
             ("every observation keeps all its fields", lambda s: And(*[forall(0, s.dim_n, lambda k, f=f: s.self.obs[f][k] == s.old.self.obs[f][s.result[0][k]]) for f in _TF[:4]])),
             ("ordered by network, segment and time", lambda s: forall2(0, s.dim_n, 0, s.dim_n, lambda k, j: Implies(k < j, lambda: _lex(s.self.obs, s.result[0], k, j)))),
             ("links to the next observation designate the same one, or none", _relinked("next_obs")), ("links to the previous observation designate the same one, or none", _relinked("previous_obs")),
             ("tables of the former order are forgotten", lambda s: And(s.self._index_network is None, s.self._index_segment_track is None, s.self._segment_track_array is None))],
    opts=dict(wrap_gather=True), bmc=False, gen=_gen_sort)
