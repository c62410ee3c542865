"""Contracts on py_eddy_tracker/observations/groups.py kernels"""
from .common import *
from .k_track import _probe

GR = "observations.groups:"


# ----------------------------------------------------------------- missing observations
def _missing(s, i):
    """observations missing between i and i + 1"""
    o = _o(s)

    def f(i):
        d = o.array_time[i + 1] - o.array_time[i]
        q = rfloor(dsl.nl("div", d, o.dt)) if is_z3(d) or is_z3(o.dt) else int(d / o.dt)
        return If(Or(And(o.flag_untrack, o.array_track[i + 1] == o.indice_untrack), o.array_track[i + 1] != o.array_track[i], Not(d > o.dt)), 0, lambda: q - 1)
    if not is_z3(i) and not is_z3(o.dt):
        return f(i)
    return dsl.define(("missing", dsl.tid(o.dt)), f, ["int"], "int")(i)


_o = lambda s: s.old if hasattr(s, "old") else s


def _off(s):
    return memo(s, "off", lambda: dsl.SumFn(lambda i: _missing(s, i), 0, "int", mono=True))


def _placed(s, arr, upto_i, upto_p):
    return forall2(0, upto_p, 0, upto_i, lambda p, i: Implies(And(_off(s)(i) <= p, p < _off(s)(i + 1)), lambda: arr[p] == i + 1), pat=lambda p, i: [arr[p], _off(s)(i)])


get_missing_indices = Contract(
    GR + "get_missing_indices", dict(array_time=P("real", "n"), array_track=P("int", "n", np_="u4"), dt=S("real"), flag_untrack=S("bool"), indice_untrack=S("int")), dims_min=dict(n=1),
    requires=[lambda s: s.dt > 0],
    ensures=[("one entry per missing observation", lambda s: s.result.n == _off(s)(s.old.array_time.n - 1)),
             ("entries are the positions where to insert, as many times as steps are missing", lambda s: _placed(s, s.result, s.old.array_time.n - 1, s.result.n))],
    loops={0: [lambda s: And(s.t1 == s.old.array_time[s.it], s.tr1 == s.old.array_track[s.it]), lambda s: forall(0, s.it, lambda i: And(s.nbr_step[i] == _missing(s, i), s.nbr_step[i] >= 0)),
               lambda s: forall(s.it, s.old.array_time.n, lambda i: s.nbr_step[i] == 0)],
           1: [lambda s: s.j == _off(s)(s.it), lambda s: s.j >= 0, lambda s: s.indices.n == _off(s)(s.old.array_time.n - 1), lambda s: _placed(s, s.indices, s.it, s.j)],
           2: [lambda s: s.j == _off(s)(s.i) + s.it, lambda s: s.j >= 0, lambda s: s.indices.n == _off(s)(s.old.array_time.n - 1), lambda s: _placed(s, s.indices, s.i, _off(s)(s.i)),
               lambda s: forall(_off(s)(s.i), s.j, lambda p: s.indices[p] == s.i + 1)]},
    gen=lambda rng, k: (lambda n: dict(array_time=np.cumsum(rng_ints(rng, n, 0, 3)).astype("f8"), array_track=np.sort(rng_ints(rng, n, 0, 2, "u4")), dt=rng.choice([1.0, 1.0, 0.5, 2.0]), flag_untrack=rng.random() < 0.7, indice_untrack=rng.choice([0, 0, 1])))(rng.randint(1, 8)),
    opts=dict(opaque_nl=True))


# ----------------------------------------------------------------- targets of the particles
def _pcount(s):
    o = _o(s)
    return memo(s, "pcount", lambda: dsl.RecP(("pcount", dsl.tid(_probe(o.i_start)), dsl.tid(_probe(o.i_end))), lambda k, v, i, j: If(And(o.i_start[k] == i, o.i_end[k] == j), v + 1, v), 0, ["int", "int"]))


def _pref(s):
    o = _o(s)
    return memo(s, "pref", lambda: dsl.RecP(("pref", dsl.tid(_probe(o.i_start))), lambda k, v, i: If(o.i_start[k] == i, v + 1, v), 0, ["int"]))


def _pc(s, i, q):
    """percent of the particles of i that end in q"""
    n = _o(s).i_start.n
    c, r = _pcount(s)(n, i, q), _pref(s)(n, i)
    return If(c == 0, 0, lambda: dsl.nl("div", c, r) * 100)


def _some(s, i, q):
    return _pcount(s)(_o(s).i_start.n, i, q) > 0


def _first(s, i, t, p, upto, but=None):
    """t is the first of the best targets (but one) of i, p its percent; -1 and 0 when there is none"""
    ok = lambda q: True if but is None else q != but
    return If(t == -1, lambda: And(p == 0, forall(0, upto, lambda q: Implies(ok(q), Not(_some(s, i, q))))),
              lambda: And(0 <= t, t < upto, ok(t), _some(s, i, t), p == _pc(s, i, t), forall(0, upto, lambda q: Implies(ok(q), _pc(s, i, q) <= p)), forall(0, t, lambda q: Implies(ok(q), _pc(s, i, q) < p))))


def _two(s, i, t0, p0, t1, p1, upto):
    return And(_first(s, i, t0, p0, upto), If(t0 == -1, lambda: And(t1 == -1, p1 == 0), lambda: _first(s, i, t1, p1, upto, t0)))


def _row(s, i, upto):
    return _two(s, i, s.i_target[i, 0], s.pct[i, 0], s.i_target[i, 1], s.pct[i, 1], upto)


_counts_ok = lambda s, nm: lambda: None


def _gen_targets(rng, k):
    a, b, n = rng.randint(0, 4), rng.randint(0, 4), rng.randint(0, 14)
    if a == 0:
        n = 0
    return dict(i_start=rng_ints(rng, n, 0, max(a - 1, 0), "i8"), i_end=rng_ints(rng, n, -1, b - 1, "i8"), i_target=np.full((a, 2), -1, dtype="i4"), pct=np.zeros((a, 2)), nb_end=b)


_P1 = lambda s, c, upto, m0, m1: And(forall2(0, m0, 0, m1, lambda i, j: c[i, j] == _pcount(s)(upto, i, j), pat=lambda i, j: _pcount(s)(upto, i, j)),
                                  forall2(0, m0, 0, m1, lambda i, j: c[i, j] == _pcount(s)(upto, i, j), pat=lambda i, j: c[i, j]))
_in_range = ("particles start in an outline and end in one or none", lambda s: forall(0, s.i_start.n, lambda k: And(0 <= s.i_start[k], s.i_start[k] < _nbs(s), s.i_end[k] >= -1, s.i_end[k] < _nbe(s))))
_nbs = lambda s: s.translate_start.n if hasattr(s, "translate_start") else s.i_target.shape[0]
_nbe = lambda s: s.translate_end.n if hasattr(s, "translate_end") else s.nb_end


def _le_ref(s, k):
    """no more particles in a couple than in its start"""
    return forall2(0, _nbs(_o(s)), 0, _nbe(_o(s)), lambda i, j: And(0 <= _pcount(s)(k, i, j), _pcount(s)(k, i, j) <= _pref(s)(k, i)), pat=lambda i, j: _pcount(s)(k, i, j))


get_targets = Contract(
    GR + "get_targets", dict(i_start=P("int", "p"), i_end=P("int", "p"), i_target=P("int", "a", 2, np_="i4"), pct=P("real", "a", 2), nb_end=S("int")),
    requires=[lambda s: s.nb_end >= 0, _in_range, ("no target yet", lambda s: forall(0, s.i_target.shape[0], lambda i: And(s.i_target[i, 0] == -1, s.i_target[i, 1] == -1, s.pct[i, 0] == 0, s.pct[i, 1] == 0)))],
    ensures=[("best and second best targets of each start, with the percent of its particles", lambda s: forall(0, s.i_target.shape[0], lambda i: _row(s, i, s.old.nb_end)))],
    loops={0: [lambda s: forall(0, s.nb_start, lambda i: s.ref[i] == _pref(s)(s.it, i)), lambda s: _P1(s, s.counts, s.it, s.nb_start, s.nb_end), lambda s: _le_ref(s, s.it)],
           1: [lambda s: forall(s.it, s.nb_start, lambda i: And(s.i_target[i, 0] == -1, s.i_target[i, 1] == -1, s.pct[i, 0] == 0, s.pct[i, 1] == 0)), lambda s: forall(0, s.it, lambda i: _row(s, i, s.nb_end))],
           2: [lambda s: forall(s.i + 1, s.nb_start, lambda i: And(s.i_target[i, 0] == -1, s.i_target[i, 1] == -1, s.pct[i, 0] == 0, s.pct[i, 1] == 0)), lambda s: forall(0, s.i, lambda i: _row(s, i, s.nb_end)), lambda s: _row(s, s.i, s.it)]},
    gen=_gen_targets, opts=dict(opaque_nl=True), bmc=False)


# same with positions in the full dataset and percents stored as integers; place_end (ghost) is the rank of each observation among translate_end
def _local(s, v):
    return If(v == -1, -1, lambda: _o(s).place_end[v])


def _trunc(p):
    return rfloor(p) if is_z3(p) else int(p)


def _row_m(s, i, p0, p1, upto):
    a = _o(s).translate_start[i]
    v0, v1 = s.i_target[a, 0], s.i_target[a, 1]
    t0, t1 = _local(s, v0), _local(s, v1)
    back = lambda v, t: Implies(v != -1, lambda: And(0 <= v, v < _o(s).place_end.n, 0 <= t, t < _o(s).translate_end.n, _o(s).translate_end[t] == v))
    return And(back(v0, t0), back(v1, t1), _two(s, i, t0, p0, t1, p1, upto), s.pct[a, 0] == _trunc(p0), s.pct[a, 1] == _trunc(p1))


def _at(s, i, v):
    t = _local(s, v)
    return If(v == -1, 0, lambda: _pc(s, i, t))


def _done(s, i, upto):
    """the exact percents are those of the targets"""
    a = _o(s).translate_start[i]
    return _row_m(s, i, _at(s, i, s.i_target[a, 0]), _at(s, i, s.i_target[a, 1]), upto)


_empty_row = lambda s, a: And(s.i_target[a, 0] == -1, s.i_target[a, 1] == -1, s.pct[a, 0] == 0, s.pct[a, 1] == 0)
_left = lambda s, lo: forall(lo, _o(s).translate_start.n, lambda i: _empty_row(s, _o(s).translate_start[i]), pat=lambda i: _o(s).translate_start[i])
_others = lambda s: forall(0, s.i_target.shape[0], lambda a: Implies(forall(0, s.old.translate_start.n, lambda i: s.old.translate_start[i] != a), lambda: And(
    s.i_target[a, 0] == s.old.i_target[a, 0], s.i_target[a, 1] == s.old.i_target[a, 1], s.pct[a, 0] == s.old.pct[a, 0], s.pct[a, 1] == s.old.pct[a, 1])))


def _gen_matrix(rng, k):
    m = rng.randint(1, 6)
    ts = np.sort(np.array(rng.sample(range(m), rng.randint(0, min(3, m))), dtype="i8"))
    te = np.sort(np.array(rng.sample(range(m), rng.randint(0, min(4, m))), dtype="i8"))
    n = rng.choice([0, 5, 30, 200]) if len(ts) else 0
    place = np.full(m, -1, dtype="i8")
    place[te] = np.arange(len(te))
    return dict(i_start=rng_ints(rng, n, 0, max(len(ts) - 1, 0)), i_end=rng_ints(rng, n, -1, len(te) - 1), translate_start=ts, translate_end=te, i_target=np.full((m, 2), -1, dtype="i4"), pct=np.zeros((m, 2), dtype="i1"), place_end=place)


_incr = lambda a, n: And(forall(0, a.n, lambda k: And(0 <= a[k], a[k] < n)), forall2(0, a.n, 0, a.n, lambda i, j: Implies(i < j, a[i] < a[j]), pat=lambda i, j: [a[i], a[j]]))

get_matrix = Contract(
    GR + "get_matrix", dict(i_start=P("int", "p"), i_end=P("int", "p"), translate_start=P("int", "a"), translate_end=P("int", "b"), i_target=P("int", "m", 2, np_="i4"), pct=P("int", "m", 2, np_="i1"), place_end=P("int", "m")),
    order=["i_start", "i_end", "translate_start", "translate_end", "i_target", "pct"], real_args=lambda a: {k: v for k, v in a.items() if k != "place_end"},
    requires=[_in_range, ("positions in the dataset", lambda s: And(_incr(s.translate_start, s.i_target.shape[0]), _incr(s.translate_end, s.i_target.shape[0]))), ("no target yet", lambda s: _left(s, 0)),
              ("ghost: rank of each end", lambda s: forall(0, s.translate_end.n, lambda q: s.place_end[s.translate_end[q]] == q, pat=lambda q: s.translate_end[q]))],
    ensures=[("best and second best targets of each start, with the percent of its particles", lambda s: forall(0, s.old.translate_start.n, lambda i: _done(s, i, s.old.translate_end.n))),
             ("other observations are left as they are", _others)],
    loops={0: [lambda s: forall(0, s.nb_start, lambda i: s.ref[i] == _pref(s)(s.it, i)), lambda s: _P1(s, s.count, s.it, s.nb_start, s.nb_end), lambda s: _le_ref(s, s.it)],
           1: [lambda s: _left(s, s.it), lambda s: forall(0, s.it, lambda i: _done(s, i, s.nb_end)), _others],
           2: [lambda s: _left(s, s.i + 1), lambda s: forall(0, s.i, lambda i: _done(s, i, s.nb_end)), _others, lambda s: _row_m(s, s.i, s.pct_0, s.pct_1, s.it)]},
    gen=_gen_matrix, opts=dict(opaque_nl=True), bmc=False)
