"""Contracts on py_eddy_tracker/observations/tracking.py and network.py kernels"""
from .common import *

# ----------------------------------------------------------------- index of tracks
def _cnt_track(s, arr, extra=None):
    return memo(s, "cnt" + ("" if extra is None else "m"), lambda: dsl.RecP(("cnt_track", dsl.tid(_probe(arr)), extra is not None and dsl.tid(_probe(extra))), lambda k, v, t: If(
        (arr[k] == t) if extra is None else And(arr[k] == t, extra[k]), v + 1, v), 0, ["int"]))


def _probe(a):
    if hasattr(a, "_f"):
        return a._f(z3.Int("probe_k"))
    return id(a)


compute_index = Contract(
    "observations.tracking:compute_index", dict(tracks=P("int", "n", np_="u4"), index=P("int", "m"), number=P("int", "m")),
    requires=[("ids in the table", lambda s: forall(0, s.tracks.n, lambda k: And(s.tracks[k] >= 0, s.tracks[k] < s.index.n)))],
    ensures=[("number of observations of each track", lambda s: forall(0, s.index.n, lambda t: s.number[t] == s.old.number[t] + _cnt_track(s, s.old.tracks)(s.old.tracks.n, t))),
             ("index of the start of a run of the track", lambda s: forall(0, s.index.n, lambda t: Or(
                 And(s.index[t] == s.old.index[t], forall(0, s.old.tracks.n, lambda k: s.old.tracks[k] != t)),
                 And(0 <= s.index[t], s.index[t] < s.old.tracks.n, s.old.tracks[s.index[t]] == t, Or(s.index[t] == 0, s.old.tracks[s.index[t] - 1] != t))))),
             ("no other run of the track starts later", lambda s: forall2(0, s.index.n, 0, s.old.tracks.n, lambda t, k: Implies(
                 And(s.old.tracks[k] == t, Or(k == 0, s.old.tracks[k - 1] != t)), k <= s.index[t])))],
    loops={0: [lambda s: s.previous_track == If(s.it == 0, -1, lambda: s.old.tracks[s.it - 1]),
               lambda s: forall(0, s.index.n, lambda t: s.number[t] == s.old.number[t] + _cnt_track(s, s.old.tracks)(s.it, t)),
               lambda s: forall(0, s.index.n, lambda t: Or(
                   And(s.index[t] == s.old.index[t], forall(0, s.it, lambda k: s.old.tracks[k] != t)),
                   And(0 <= s.index[t], s.index[t] < s.it, s.old.tracks[s.index[t]] == t, Or(s.index[t] == 0, s.old.tracks[s.index[t] - 1] != t)))),
               lambda s: forall2(0, s.index.n, 0, s.it, lambda t, k: Implies(And(s.old.tracks[k] == t, Or(k == 0, s.old.tracks[k - 1] != t)), k <= s.index[t]))]},
    gen=lambda rng, k: (lambda n, m: dict(tracks=(np.sort if rng.random() < 0.7 else (lambda a: a))(rng_ints(rng, n, 0, m - 1, "u4")), index=rng_ints(rng, m, 0, 9), number=np.zeros(m, dtype="i8")))(rng.randint(0, 9), rng.randint(1, 5)))

count_by_track = Contract(
    "observations.tracking:count_by_track", dict(tracks=P("int", "n", np_="u4"), mask=P("bool", "n"), number=P("int", "m")),
    requires=[("ids in the table", lambda s: forall(0, s.tracks.n, lambda k: And(s.tracks[k] >= 0, s.tracks[k] < s.number.n)))],
    ensures=[("number of flagged observations of each track", lambda s: forall(0, s.number.n, lambda t: s.number[t] == s.old.number[t] + _cnt_track(s, s.old.tracks, s.old.mask)(s.old.tracks.n, t)))],
    loops={0: [lambda s: forall(0, s.number.n, lambda t: s.number[t] == s.old.number[t] + _cnt_track(s, s.old.tracks, s.old.mask)(s.it, t))]},
    gen=lambda rng, k: (lambda n, m: dict(tracks=rng_ints(rng, n, 0, m - 1, "u4"), mask=rng_ints(rng, n, 0, 1).astype(bool), number=np.zeros(m, dtype="i8")))(rng.randint(0, 9), rng.randint(1, 5)))

compute_mask_from_id = Contract(
    "observations.tracking:compute_mask_from_id", dict(tracks=P("int", "p"), first_index=P("int", "m"), number_of_obs=P("int", "m"), mask=P("bool", "n")),
    requires=[("ids in the table", lambda s: forall(0, s.tracks.n, lambda k: And(s.tracks[k] >= 0, s.tracks[k] < s.first_index.n))),
              ("index table of the observations", lambda s: forall(0, s.first_index.n, lambda t: And(s.number_of_obs[t] >= 0, s.first_index[t] >= -1, Implies(s.number_of_obs[t] > 0, s.first_index[t] >= 0), s.first_index[t] + s.number_of_obs[t] <= s.mask.n)))],
    ensures=[("exactly the observations of the given tracks are added", lambda s: forall(0, s.mask.n, lambda k: Iff(s.mask[k], Or(s.old.mask[k], exists(
        0, s.old.tracks.n, lambda q: And(s.old.first_index[s.old.tracks[q]] <= k, k < s.old.first_index[s.old.tracks[q]] + s.old.number_of_obs[s.old.tracks[q]]))))))],
    loops={0: [lambda s: forall(0, s.mask.n, lambda k: Iff(s.mask[k], Or(s.old.mask[k], exists(
        0, s.it, lambda q: And(s.old.first_index[s.old.tracks[q]] <= k, k < s.old.first_index[s.old.tracks[q]] + s.old.number_of_obs[s.old.tracks[q]])))))]},
    modifies=["mask"], result=lambda eng, s, b: None, gen=lambda rng, k: _gen_mask(rng))


def _gen_mask(rng):
    m = rng.randint(1, 5)
    nb = rng_ints(rng, m, 0, 3)
    first = np.cumsum(nb) - nb
    n = int(nb.sum())
    return dict(tracks=rng_ints(rng, rng.randint(0, 4), 0, m - 1), first_index=np.where(nb > 0, first, -1), number_of_obs=nb, mask=rng_ints(rng, n, 0, 1).astype(bool) & (rng.random() < 0.3))


# ----------------------------------------------------------------- smoothing along a track
def _w(dx, h):
    return dsl.nl("cube", 1 - dsl.nl("cube", dsl.nl("div", dx, h)))


def _gen_filter(rng, k):
    n = rng.randint(0, 8)
    tr = np.sort(rng_ints(rng, n, 0, 2, "u4"))
    x = np.zeros(n, dtype="f8")
    for t in range(3):
        m = tr == t
        x[m] = rng.uniform(0, 3) + np.cumsum(rng_ints(rng, int(m.sum()), 0, 2))
    return dict(half_window=rng.choice([0.5, 1, 2, 3, 3.5, 20.0]), x=x, y=rng_floats(rng, n, -5, 5), track=tr)


def _same(o, i, j):
    f = lambda i, j: o.track[i] == o.track[j]
    if not is_z3(i) and not is_z3(j) and not is_z3(o.track[0]):
        return f(i, j)
    return dsl.define(("same_track", dsl.tid(_probe(o.track))), f, ["int", "int"])(i, j)


def _member(o, i, j, side):
    f = lambda i, j: And(_same(o, j, i) if side == "b" else _same(o, i, j), fabs(o.x[i] - o.x[j]) < o.half_window)
    if not is_z3(i) and not is_z3(j) and not is_z3(o.half_window):
        return f(i, j)
    return dsl.define(("member" + side, dsl.tid(_probe(o.x)), dsl.tid(_probe(o.track)), dsl.tid(o.half_window)), f, ["int", "int"])(i, j)


def _wsum(s, side, num_):
    """sum over the k observations before (after) i, those of the same track and in the window counted with their weight"""
    o = s.old
    at = (lambda i, k: i - 1 - k) if side == "b" else (lambda i, k: i + 1 + k)

    def term(k, i):
        j = at(i, k)
        w = _w(o.x[i] - o.x[j] if side == "b" else o.x[j] - o.x[i], o.half_window)
        return dsl.nl("mul", o.y[j], w) if num_ else w

    def step(k, v, i):
        return v + If(_member(o, i, at(i, k), side), lambda: term(k, i), lambda: num(0.0, o.half_window))

    def new(me, u, members):
        # every observation from the k-th one on is out of the window: the sum does not change (k_lemmas.tail)
        k, i, q = dsl.qvar("int"), dsl.qvar("int"), dsl.qvar("int")
        m = i if side == "b" else o.y.n - 1 - i
        dsl.lemma_instance(z3.ForAll([k, i], z3.Or(k < 0, m < k, u(m, i) == u(k, i), z3.Exists([q], z3.And(q >= k, q < m, _member(o, i, at(i, q), side)))), patterns=[dsl.mark("tail" + side, k, i)]))
    return dsl.RecP(("loess", side, num_, dsl.tid(_probe(o.x)), dsl.tid(_probe(o.y)), dsl.tid(_probe(o.track)), dsl.tid(o.half_window)), step, num(0.0, o.half_window), ["int"], sort="real", family=("loess", side, num_), on_new=new)


def _smooth(s, i):
    o = s.old
    n = o.y.n
    num_ = o.y[i] + _wsum(s, "b", True)(i, i) + _wsum(s, "f", True)(n - 1 - i, i)
    den = 1 + _wsum(s, "b", False)(i, i) + _wsum(s, "f", False)(n - 1 - i, i)
    return num_, den


_sorted_tracks = [("observations of a track follow each other", lambda s: forall2(0, s.track.n, 0, s.track.n, lambda i, j: Implies(And(i < j, _same(s, i, j)), lambda: forall(
                      i, j, lambda q: And(_same(s, i, q), _same(s, q, j)), pat=lambda q: s.track[q])), pat=lambda i, j: _same(s, i, j))),
                  ("time increases along a track", lambda s: forall2(0, s.track.n, 0, s.track.n, lambda i, j: Implies(And(i < j, _same(s, i, j)), s.x[i] <= s.x[j]), pat=lambda i, j: _same(s, i, j)))]


def _close(a, b, tol):
    if is_z3(a) or is_z3(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def _ratio(v, nd):
    if is_z3(v) or is_z3(nd[0]):
        return val(v) == dsl.nl("div", nd[0], nd[1])
    return _close(v, nd[0] / nd[1], 1e-9)


track_loess_filter = Contract(
    "observations.tracking:track_loess_filter", dict(half_window=S("real"), x=P("real", "n"), y=P("real", "n"), track=P("int", "n", np_="u4")),
    requires=[lambda s: s.half_window > 0] + _sorted_tracks,
    ensures=[("one value per observation", lambda s: s.result.n == s.old.y.n),
             ("weighted mean of the observations of the track in the window", lambda s: forall(0, s.result.n, lambda i: _ratio(s.result[i], _smooth(s, i))))],
    loops={0: [lambda s: forall(0, s.it, lambda i: And(_smooth(s, i)[1] >= 1, _ratio(s.y_new[i], _smooth(s, i))))],
           1: [lambda s: dsl.mark("tailb", s.it, s.i), lambda s: s.i_previous == s.i - 1 - s.it, lambda s: s.it <= s.i, lambda s: s.w_sum >= 1,
               lambda s: forall(s.i_previous + 1, s.i, lambda j: _member(s.old, s.i, j, "b")),
               lambda s: s.y_sum == s.old.y[s.i] + _wsum(s, "b", True)(s.it, s.i),
               lambda s: s.w_sum == 1 + _wsum(s, "b", False)(s.it, s.i)],
           2: [lambda s: dsl.mark("tailf", s.it, s.i), lambda s: s.i_next == s.i + 1 + s.it, lambda s: s.it <= s.old.y.n - 1 - s.i, lambda s: s.w_sum >= 1,
               lambda s: forall(s.i + 1, s.i_next, lambda j: _member(s.old, s.i, j, "f")),
               lambda s: s.y_sum == s.old.y[s.i] + _wsum(s, "b", True)(s.i, s.i) + _wsum(s, "f", True)(s.it, s.i),
               lambda s: s.w_sum == 1 + _wsum(s, "b", False)(s.i, s.i) + _wsum(s, "f", False)(s.it, s.i)]},
    gen=_gen_filter, opts=dict(opaque_nl=True), bmc=False)


def _in(o, i, j):
    f = lambda i, j: If(j <= i, lambda: And(_same(o, j, i), o.x[i] - o.x[j] <= o.half_window), lambda: And(_same(o, i, j), o.x[j] - o.x[i] <= o.half_window))
    if not is_z3(i) and not is_z3(j) and not is_z3(o.half_window):
        return f(i, j)
    return dsl.define(("in_window", dsl.tid(_probe(o.x)), dsl.tid(_probe(o.track)), dsl.tid(o.half_window)), f, ["int", "int"])(i, j)


def _window(o, i, a, b):
    """the observations of the window of i are those of [a, b)"""
    n = o.y.n
    f = lambda i, a, b: And(0 <= a, a <= i, i < b, b <= n, _in(o, i, a), _in(o, i, b - 1), Or(a == 0, Not(_in(o, i, a - 1))), Or(b == n, Not(_in(o, i, b))), forall(0, a, lambda j: Not(_in(o, i, j)), pat=lambda j: _in(o, i, j)),
               forall(a, b, lambda j: _in(o, i, j), pat=lambda j: _in(o, i, j)), forall(b, n, lambda j: Not(_in(o, i, j)), pat=lambda j: _in(o, i, j)))
    if not any(map(is_z3, (i, a, b, o.half_window))):
        return f(i, a, b)
    return dsl.define(("window", dsl.tid(_probe(o.x)), dsl.tid(_probe(o.track)), dsl.tid(o.half_window)), f, ["int", "int", "int"])(i, a, b)


def _median_at(s, v, i):
    o = s.old
    f = lambda k: o.y._f(k) if hasattr(o.y, "_f") else o.y[k]
    return forall2(0, o.y.n + 1, 0, o.y.n + 1, lambda a, b: Implies(_window(o, i, a, b), lambda: eqf(v, dsl.stat("median", f, a, b))))


track_median_filter = Contract(
    "observations.tracking:track_median_filter", dict(half_window=S("real"), x=P("real", "n"), y=P("real", "n"), track=P("int", "n", np_="u4")),
    requires=[lambda s: s.half_window >= 0] + _sorted_tracks,
    ensures=[("one value per observation", lambda s: s.result.n == s.old.y.n),
             ("median of the observations of the track in the window", lambda s: forall(0, s.result.n, lambda i: _median_at(s, s.result[i], i)))],
    loops={0: [lambda s: And(0 <= s.i_previous, s.i_previous <= s.it, 0 <= s.i_next, s.i_next <= s.old.y.n, s.i_next >= s.it, Implies(s.it == 0, s.i_next == 0)),
               lambda s: Implies(s.it > 0, lambda: forall(0, s.i_previous, lambda j: Not(_in(s.old, s.it - 1, j)), pat=lambda j: s.old.track[j])),
               lambda s: Implies(s.it > 0, lambda: forall(s.it, s.i_next, lambda j: _in(s.old, s.it - 1, j), pat=lambda j: s.old.track[j])),
               lambda s: forall(0, s.it, lambda i: _median_at(s, s.y_new[i], i))],
           1: [lambda s: And(0 <= s.i_previous, s.i_previous <= s.i), lambda s: forall(0, s.i_previous, lambda j: Not(_in(s.old, s.i, j)), pat=lambda j: _in(s.old, s.i, j))],
           2: [lambda s: And(s.i_next <= s.old.y.n, s.i_next >= s.i), lambda s: _in(s.old, s.i, s.i_previous), lambda s: forall(s.i, s.i_next, lambda j: _in(s.old, s.i, j), pat=lambda j: _in(s.old, s.i, j))]},
    gen=_gen_filter, bmc=False)
