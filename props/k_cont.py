"""Contracts on the containers of observations (methods of EddiesObservations): copies, selections, joins"""
from vc.contract import O, R, SL

from .common import *

OBS = "observations.observation:EddiesObservations."
_F = ["track", "time", "lon", "contour"]


def _rec(d, fields=_F):
    P_ = dict(track=P("int", d, np_="u4"), time=P("int", d, np_="f8"), lon=P("real", d), contour=P("real", d, "c"), virtual=P("int", d, np_="u1"))
    return R(d, **{f: P_[f] for f in fields})


def _new_like(eng, args, kw, node):
    from vc.engine import Arr, Obj, Rec
    src, n = args[-2], args[-1]
    f = {k: Arr(eng, a.dtype, (n,) + tuple(a.shape[1:]), eng.fresh_fn(a.dtype, a.ndim, "new_" + k)) for k, a in src.attrs["observations"].fields.items()}
    return Obj(eng, src.cls, dict(observations=Rec(eng, (n,), f), fields=list(f)), src.hooks)


def _prop(f):
    f.is_prop = True
    return f


_field = lambda eng, obj, k: obj.attrs["observations"].fields[k]
HOOKS = {"__len__": lambda eng, obj: obj.attrs["observations"].shape[0], "__getitem__": _field, "coherence": lambda eng, obj, other: True, "new_like": lambda eng, obj, src, n: _new_like(eng, [src, n], {}, None),
         "obs": _prop(lambda eng, obj: obj.attrs["observations"]), **{f: _prop(lambda eng, obj, f=f: obj.attrs["observations"].fields[f]) for f in ("track", "time", "lon", "virtual")}}


def _o(d, fields=_F, **kw):
    return O("observations.observation:EddiesObservations", stub="container", hooks=HOOKS, observations=_rec(d, fields), fields=C(list(fields)), **kw)


def table(o):
    """fields of a dataset, or of what new_like gives"""
    try:
        return o.observations
    except (AttributeError, KeyError):
        return o.obs


def cell_eq(a, i, b, j, fields=_F, c=None):
    return And(*[(forall(0, c, lambda q: eqf(a[f][i, q], b[f][j, q])) if f == "contour" else eqf(a[f][i], b[f][j])) for f in fields])


def _same(a, b, n, c, shift=0, fields=_F, lo=0):
    """observation k of b is observation k + shift of a, for k in [lo, n)"""
    return forall(lo, n, lambda k: cell_eq(a, k + shift, b, k, fields, c))


def _data(rng, n, fields, c=2):
    d = dict(track=rng_ints(rng, n, 0, 5, "u4"), time=rng_ints(rng, n, 0, 9).astype("f8"), lon=rng_floats(rng, n, -3, 3, 0.5), contour=rng_floats(rng, c * n, -3, 3, 0.5).reshape(n, c), virtual=rng_ints(rng, n, 0, 1, "u1"))
    return {f: d[f] for f in fields}


def _obj(rng, n, fields=_F, **kw):
    from vc.worker import RealObj
    return RealObj("observations.observation:EddiesObservations#container", observations=_data(rng, n, fields), fields=list(fields), **kw)


# -- insertion of a dataset in another
def _gen_ins(rng, k):
    n, m = rng.randint(0, 5), rng.randint(0, 4)
    return dict(self=_obj(rng, n, period_=rng.choice([None, (1, 2)])), other=_obj(rng, m), index=rng.randint(-n - 1, n))


def _ins(s):
    n, m, o = s.dim_n, s.dim_m, s.old
    p = If(o.index < 0, o.index + n + 1, o.index)
    r = table(s.self)

    def cases():
        return And(r.lon.n == n + m, _same(r, o.self.observations, n, s.dim_c, 0) if False else And(
            forall(0, p, lambda k: cell_eq(r, k, o.self.observations, k, _F, s.dim_c)), forall(0, m, lambda k: cell_eq(r, p + k, o.other.observations, k, _F, s.dim_c)),
            forall(p, n, lambda k: cell_eq(r, m + k, o.self.observations, k, _F, s.dim_c))))
    return If(n == 0, lambda: And(r.lon.n == m, _same(r, o.other.observations, m, s.dim_c)), lambda: If(m == 0, lambda: And(r.lon.n == n, _same(r, o.self.observations, n, s.dim_c)), cases))


insert_observations = Contract(
    OBS + "insert_observations", dict(self=_o("n", period_=S("int")), other=_o("m"), index=S("int")),
    requires=[("the position is one of the dataset, from the start or from the end", lambda s: And(s.index >= -s.dim_n - 1, s.index <= s.dim_n))],
    ensures=[("observations of the other dataset are together at the position, around them those of the dataset, in order", _ins),
             ("the period is computed again", lambda s: Implies(s.dim_m > 0, lambda: s.self.period_ is None)),
             ("the dataset itself is given back", lambda s: table(s.result).lon.n == table(s.self).lon.n)],
    opts=dict(calls={"new_like": _new_like}), bmc=False, gen=_gen_ins)


# -- selection of observations
def _gen_index(kind_):
    def gen(rng, k):
        n = rng.randint(1, 5)
        return dict(self=_obj(rng, n, sign_type=rng.choice([-1, 1])), index=rng_ints(rng, rng.randint(0, 4), -n if kind_ == "rows" else 0, n - 1), **(dict(reverse=True) if kind_ == "reverse" else {}))
    return gen


def _rows(s):
    o = s.old
    n = s.dim_n
    r = table(s.result)
    w = lambda k: If(o.index[k] < 0, o.index[k] + n, o.index[k])
    return And(r.lon.n == o.index.n, forall(0, o.index.n, lambda k: cell_eq(r, k, o.self.observations, w(k), _F, s.dim_c)), s.result.sign_type == o.self.sign_type)


def _others(s):
    o = s.old
    n = s.dim_n
    r = table(s.result)
    out = lambda k: forall(0, o.index.n, lambda q: o.index[q] != k)
    nb = memo(s, "nb", lambda: dsl.count(out))
    return And(r.lon.n == nb(n), forall(0, n, lambda k: Implies(out(k), lambda: cell_eq(r, nb(k), o.self.observations, k, _F, s.dim_c)), pat=lambda k: nb(k)), s.result.sign_type == o.self.sign_type)


INB = ("positions are in the dataset", lambda s: forall(0, s.index.n, lambda k: And(s.index[k] >= -s.dim_n, s.index[k] < s.dim_n)))
index_rows = Contract(
    OBS + "index", dict(self=_o("n", sign_type=S("int")), index=P("int", "k")), requires=[INB],
    ensures=[("the observations asked, in the order asked, with all their fields and the sign", _rows)], key=OBS + "index_rows", opts=dict(calls={"new_like": _new_like}, wrap_gather=True), bmc=False, gen=_gen_index("rows"))
_one = lambda s: If(s.old.index < 0, s.old.index + s.dim_n, s.old.index)
index_one = Contract(
    OBS + "index", dict(self=_o("n", sign_type=S("int")), index=S("int")), dims_min={"n": 1}, requires=[("the position is in the dataset", lambda s: And(s.index >= -s.dim_n, s.index < s.dim_n))],
    ensures=[("the observation asked, alone, with all its fields and the sign", lambda s: And(table(s.result).lon.n == 1, cell_eq(table(s.result), 0, s.old.self.observations, _one(s), _F, s.dim_c), s.result.sign_type == s.old.self.sign_type))],
    key=OBS + "index_one", opts=dict(calls={"new_like": _new_like}), bmc=False, gen=lambda rng, k: (lambda n: dict(self=_obj(rng, n, sign_type=rng.choice([-1, 1])), index=rng.randint(-n, n - 1)))(rng.randint(1, 5)))


# -- selection by mask
def _masked(s):
    o = s.old
    n = s.dim_n
    r = table(s.result)
    nb = memo(s, "nb", lambda: dsl.count(lambda k: o.mask[k]))
    return And(r.lon.n == nb(n), forall(0, n, lambda k: Implies(o.mask[k], lambda: And(nb(k) >= 0, nb(k) < r.lon.n, cell_eq(r, nb(k), o.self.observations, k, _F, s.dim_c))), pat=lambda k: nb(k)), s.result.sign_type == o.self.sign_type)


extract_with_mask = Contract(
    OBS + "extract_with_mask", dict(self=_o("n", sign_type=S("int")), mask=P("bool", "n")),
    ensures=[("exactly the observations selected, in order, with all their fields and the sign", _masked)],
    opts=dict(calls={"new_like": _new_like}), bmc=False, gen=lambda rng, k: (lambda n: dict(self=_obj(rng, n, sign_type=rng.choice([-1, 1])), mask=rng_ints(rng, n, 0, 1).astype(bool)))(rng.randint(0, 6)))


# -- copy
def _copied(s):
    r, o = table(s.result), s.old.self.observations
    return And(r.lon.n == s.dim_n, _same(r, o, s.dim_n, s.dim_c), _same(s.self.observations, o, s.dim_n, s.dim_c), s.result.sign_type == s.old.self.sign_type)


copy = Contract(
    OBS + "__copy__", dict(self=_o("n", sign_type=S("int"))), ensures=[("every observation, with all its fields and the sign; the dataset is kept", _copied)],
    opts=dict(calls={"new_like": _new_like}), bmc=False, gen=lambda rng, k: dict(self=_obj(rng, rng.randint(0, 6), sign_type=rng.choice([-1, 1]))))


# -- two datasets joined
def _merged(of):
    def post(s):
        o = s.old
        n, m = s.dim_n, s.dim_m
        a, b, r = o.self.observations, o.other.observations, table(s.result)
        both = [f for f in _F if f in of]
        plain = [f for f in both if f != "track"]
        return And(r.lon.n == n + m, _same(r, a, n, s.dim_c), forall(0, m, lambda k: cell_eq(r, n + k, b, k, plain, s.dim_c)),
                   forall(0, m, lambda k: r["track"][n + k] == b["track"][k] + a["track"][n - 1] + 1) if "track" in both else True, s.result.sign_type == o.self.sign_type)
    return post


def _merge(name, of):
    return Contract(
        OBS + "merge", dict(self=_o("n", sign_type=S("int")), other=_o("m", of)), dims_min={"n": 1},
        ensures=[("observations of the dataset then those of the other with the fields in common, tracks of the other numbered after the last one", _merged(of))],
        key=OBS + "merge_" + name, opts=dict(calls={"new_like": _new_like}), bmc=False, gen=lambda rng, k: dict(self=_obj(rng, rng.randint(1, 5), sign_type=rng.choice([-1, 1])), other=_obj(rng, rng.randint(0, 5), of)))


merge_same = _merge("same", _F)
merge_fewer = _merge("fewer", ["lon", "time"])
merge_other = _merge("other", ["track", "lon", "contour", "virtual"])


# -- selection by slice
def _bounds(s):
    """bounds of the slice in the dataset, as Python takes them"""
    n = s.dim_n
    clip = lambda v: If(v < 0, lambda: If(v + n < 0, 0, v + n), lambda: If(v > n, n, v))
    a = 0 if s.old.index.start is None else clip(s.old.index.start)
    b = n if s.old.index.stop is None else clip(s.old.index.stop)
    return a, b


def _sliced(s):
    a, b = _bounds(s)
    r = table(s.result)
    ln = If(b > a, b - a, 0)
    return And(r.lon.n == ln, forall(0, ln, lambda k: cell_eq(r, k, s.old.self.observations, a + k, _F, s.dim_c)), s.result.sign_type == s.old.self.sign_type)


def _slice(name, start, stop):
    return Contract(
        OBS + "index", dict(self=_o("n", sign_type=S("int")), index=SL(start, stop)), ensures=[("the observations between the bounds, in order, with all their fields and the sign", _sliced)],
        key=OBS + "index_slice_" + name, opts=dict(calls={"new_like": _new_like}), bmc=False,
        gen=lambda rng, k: dict(self=_obj(rng, rng.randint(0, 5), sign_type=rng.choice([-1, 1])), index=slice(rng.randint(-6, 6) if start else None, rng.randint(-6, 6) if stop else None)))


index_slice = _slice("both", True, True)
index_slice_from = _slice("from", True, False)
index_slice_to = _slice("to", False, True)
