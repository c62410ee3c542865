"""Contracts on py_eddy_tracker/observations/network.py kernels"""
from .common import *

NW = "observations.network:"

# ----------------------------------------------------------------- links around interpolated observations
_virt = lambda o, k: If(And(0 <= k, k < o.flag_virtual.n), lambda: o.flag_virtual[k], False)

fix_next_previous_obs = Contract(
    NW + "fix_next_previous_obs", dict(next_obs=P("int", "n", np_="i4"), previous_obs=P("int", "n", np_="i4"), flag_virtual=P("bool", "n")),
    requires=[("an interpolated observation is between two observations", lambda s: Implies(s.flag_virtual.n > 0, lambda: And(Not(s.flag_virtual[0]), Not(s.flag_virtual[s.flag_virtual.n - 1]))))],
    ensures=[("next: interpolated observations and the one before each are linked to the following one, others unchanged", lambda s: forall(
                 0, s.next_obs.n, lambda k: s.next_obs[k] == If(Or(_virt(s.old, k), _virt(s.old, k + 1)), lambda: k + 1, lambda: s.old.next_obs[k]))),
             ("previous: interpolated observations and the one after each are linked to the preceding one, others unchanged", lambda s: forall(
                 0, s.previous_obs.n, lambda k: s.previous_obs[k] == If(Or(_virt(s.old, k), _virt(s.old, k - 1)), lambda: k - 1, lambda: s.old.previous_obs[k])))],
    loops={0: [lambda s: forall(0, s.next_obs.n, lambda k: s.next_obs[k] == If(Or(And(k < s.it, _virt(s.old, k)), And(k + 1 < s.it, _virt(s.old, k + 1))), lambda: k + 1, lambda: s.old.next_obs[k])),
               lambda s: forall(0, s.previous_obs.n, lambda k: s.previous_obs[k] == If(Or(And(k < s.it, _virt(s.old, k)), And(k - 1 < s.it, _virt(s.old, k - 1))), lambda: k - 1, lambda: s.old.previous_obs[k]))]},
    gen=lambda rng, k: (lambda n: dict(next_obs=rng_ints(rng, n, -1, n, "i4"), previous_obs=rng_ints(rng, n, -1, n, "i4"),
                                       flag_virtual=np.array([0 < i < n - 1 and rng.random() < 0.5 for i in range(n)], dtype=bool)))(rng.randint(0, 9)))

# ----------------------------------------------------------------- reordering by group
from .k_track import _probe


def _cnt(s, a):
    return memo(s, "cnt", lambda: dsl.RecP(("bincount", dsl.tid(_probe(a))), lambda k, v, t: If(a[k] == t, v + 1, v), 0, ["int"]))


def _less(s, a):
    def new(me, u, members):
        # k_lemmas.ranks: counts by value add up to the number of smaller values
        k, t = dsl.qvar("int"), dsl.qvar("int")
        c = _cnt(s, a)
        dsl.lemma_instance(z3.ForAll([k, t], z3.Implies(k >= 0, u(k, t + 1) == u(k, t) + c(k, t)), patterns=[u(k, t + 1)]))
        nonneg = z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < k), a[t] >= 0))
        dsl.lemma_instance(z3.ForAll([k], z3.Implies(z3.And(k >= 0, nonneg), u(k, 0) == 0), patterns=[u(k, 0)]))
        # k_lemmas.ranks: sum of the counts of the smaller values
        n = a.n
        r = dsl.SumFn(lambda h: c(n, h), 0, "int", "ranks")
        dsl.lemma_instance(z3.ForAll([t], z3.Implies(z3.And(t >= 0, z3.substitute(nonneg, (k, toint(n)))), r(t) == u(toint(n), t)), patterns=[u(toint(n), t)]))
    return memo(s, "less", lambda: dsl.RecP(("less", dsl.tid(_probe(a))), lambda k, v, t: If(a[k] < t, v + 1, v), 0, ["int"], family="less", on_new=new))


get_next_index = Contract(
    NW + "get_next_index", dict(gr=P("int", "n", np_="u4")),
    requires=[("group ids are not negative", lambda s: forall(0, s.gr.n, lambda k: s.gr[k] >= 0))],
    ensures=[("one place per observation", lambda s: s.result.n == s.old.gr.n),
             ("place of an observation: after the observations of smaller groups and the previous ones of its group", lambda s: forall(
                 0, s.result.n, lambda i: s.result[i] == _less(s, s.old.gr)(s.old.gr.n, s.old.gr[i]) + _cnt(s, s.old.gr)(i, s.old.gr[i])))],
    loops={0: [lambda s: forall(0, s.i_gr.n, lambda g: s.i_gr[g] == _less(s, s.old.gr)(s.old.gr.n, g) + _cnt(s, s.old.gr)(s.it, g)),
               lambda s: forall(0, s.it, lambda i: s.new_index[i] == _less(s, s.old.gr)(s.old.gr.n, s.old.gr[i]) + _cnt(s, s.old.gr)(i, s.old.gr[i]))]},
    gen=lambda rng, k: dict(gr=rng_ints(rng, rng.randint(1, 9), 0, rng.choice([0, 2, 5]), "u4")))

apply_replace = Contract(
    NW + "apply_replace", dict(x=P("int", "n"), x0=S("int"), x1=S("int")),
    ensures=[("exactly the given id is replaced", lambda s: forall(0, s.x.n, lambda k: s.x[k] == If(s.old.x[k] == s.old.x0, lambda: s.old.x1, lambda: s.old.x[k])))],
    loops={0: [lambda s: forall(0, s.x.n, lambda k: s.x[k] == If(And(k < s.it, s.old.x[k] == s.old.x0), lambda: s.old.x1, lambda: s.old.x[k]))]},
    gen=lambda rng, k: dict(x=rng_ints(rng, rng.randint(0, 9), 0, 3), x0=rng.randint(0, 3), x1=rng.randint(0, 5)))


build_unique_array = Contract(
    NW + "build_unique_array", dict(id1=P("int", "n", np_="u4"), id2=P("int", "n", np_="u4")), dims_min=dict(n=1),
    ensures=[("size", lambda s: s.result.n == s.old.id1.n),
             ("starts at 0", lambda s: s.result[0] == 0),
             ("changes by one exactly when one of the ids changes", lambda s: forall(1, s.result.n, lambda k: s.result[k] == s.result[k - 1] + If(Or(s.old.id1[k] != s.old.id1[k - 1], s.old.id2[k] != s.old.id2[k - 1]), 1, 0)))],
    loops={0: [lambda s: And(s.id1_previous == s.old.id1[If(s.it > 0, s.it - 1, 0)], s.id2_previous == s.old.id2[If(s.it > 0, s.it - 1, 0)]),
               lambda s: s.k == If(s.it > 0, lambda: s.new_id[s.it - 1], 0), lambda s: Implies(s.it > 0, lambda: s.new_id[0] == 0),
               lambda s: forall(1, s.it, lambda k: s.new_id[k] == s.new_id[k - 1] + If(Or(s.old.id1[k] != s.old.id1[k - 1], s.old.id2[k] != s.old.id2[k - 1]), 1, 0))]},
    gen=lambda rng, k: (lambda n: dict(id1=np.sort(rng_ints(rng, n, 0, 3, "u4")), id2=np.sort(rng_ints(rng, n, 0, 3, "u4")) if rng.random() < 0.5 else rng_ints(rng, n, 0, 2, "u4")))(rng.randint(1, 9)))

new_numbering = Contract(
    NW + "new_numbering", dict(segs=P("int", "n", np_="u4"), start=S("int")), dims_min=dict(n=1),
    requires=[lambda s: s.start >= 0],
    ensures=[("starts at the given number", lambda s: s.segs[0] == s.old.start),
             ("changes by one exactly when the old number changes", lambda s: forall(1, s.segs.n, lambda k: s.segs[k] == s.segs[k - 1] + If(s.old.segs[k] != s.old.segs[k - 1], 1, 0)))],
    loops={0: [lambda s: s.s0 == s.old.segs[If(s.it > 0, s.it - 1, 0)], lambda s: s.j == If(s.it > 0, lambda: s.segs[s.it - 1], s.old.start), lambda s: Implies(s.it > 0, lambda: s.segs[0] == s.old.start),
               lambda s: forall(s.it, s.segs.n, lambda k: s.segs[k] == s.old.segs[k]),
               lambda s: forall(1, s.it, lambda k: s.segs[k] == s.segs[k - 1] + If(s.old.segs[k] != s.old.segs[k - 1], 1, 0))]},
    gen=lambda rng, k: (lambda n: dict(segs=np.sort(rng_ints(rng, n, 0, 5, "u4")) if rng.random() < 0.6 else rng_ints(rng, n, 0, 3, "u4"), start=rng.choice([0, 0, 1, 7])))(rng.randint(1, 9)))

ptp = Contract(
    NW + "ptp", dict(values=P("int", "n", np_="i4")), dims_min=dict(n=1),
    ensures=[("largest difference", lambda s: And(exists(0, s.old.values.n, lambda i: exists(0, s.old.values.n, lambda j: s.result == s.old.values[i] - s.old.values[j])),
                                                  forall2(0, s.old.values.n, 0, s.old.values.n, lambda i, j: s.old.values[i] - s.old.values[j] <= s.result)))],
    gen=lambda rng, k: dict(values=rng_ints(rng, rng.randint(1, 6), -5, 9, "i4")))

# ----------------------------------------------------------------- masks
_sel = lambda o, upto, k: exists(0, upto, lambda q: And(o.istart[o.id_networks[q] - o.i0] <= k, k < o.iend[o.id_networks[q] - o.i0]))


def _gen_ids(rng, k):
    i0 = rng.randint(0, 3)
    g = np.sort(rng_ints(rng, rng.randint(1, 8), i0, i0 + 3))
    g[0] = i0
    m = g.max() - i0 + 1
    nb = np.bincount(g - i0, minlength=m)
    end = np.cumsum(nb)
    return dict(id_networks=rng_ints(rng, rng.randint(0, 4), i0, g.max()), nb=len(g), istart=end - nb, iend=end, i0=i0)


generate_mask_from_ids = Contract(
    NW + "generate_mask_from_ids", dict(id_networks=P("int", "p"), nb=S("int"), istart=P("int", "m"), iend=P("int", "m"), i0=S("int")),
    requires=[lambda s: s.nb >= 0, ("ids in the table", lambda s: forall(0, s.id_networks.n, lambda q: And(s.id_networks[q] >= s.i0, s.id_networks[q] - s.i0 < s.istart.n))),
              ("index table of the observations", lambda s: forall(0, s.istart.n, lambda t: And(0 <= s.istart[t], s.istart[t] <= s.iend[t], s.iend[t] <= s.nb)))],
    ensures=[("size", lambda s: s.result.n == s.old.nb), ("exactly the observations of the given ids", lambda s: forall(0, s.result.n, lambda k: Iff(s.result[k], _sel(s.old, s.old.id_networks.n, k))))],
    loops={0: [lambda s: forall(0, s.m.n, lambda k: Iff(s.m[k], _sel(s.old, s.it, k)))],
           1: [lambda s: forall(0, s.m.n, lambda k: Iff(s.m[k], Or(_sel(s.old, s.outer[-1], k), And(s.old.istart[s.i - s.old.i0] <= k, k < s.it))))]},
    gen=_gen_ids)


def _same_obs(o, a, b):
    return And(o.t0[a] == o.t1[b], o.x0[a] == o.x1[b], o.y0[a] == o.y1[b])


def _match(o, j0, j1, upto=None):
    def f(j0, j1):
        return forall(0, If(o.i0[j0].n < o.i1[j1].n, lambda: o.i0[j0].n, lambda: o.i1[j1].n), lambda k: _same_obs(o, o.i0[j0][k] + o.i00[j0], o.i1[j1][k] + o.i01[j1]))
    if not any(map(is_z3, (j0, j1))) and not is_z3(o.i00.n):
        return f(j0, j1)
    return dsl.define(("match",), f, ["int", "int"])(j0, j1)


def _free(r, upto, j0, j1):
    """j1 does not match j0 or is the target of a previous one"""
    return lambda o: Or(Not(_match(o, j0, j1)), exists(0, j0, lambda q: r[q] == j1))


def _greedy(o, r, upto, nb1):
    return forall(0, upto, lambda j0: And(r[j0] >= -1, r[j0] < nb1, Implies(r[j0] >= 0, lambda: And(_match(o, j0, r[j0]), forall(0, j0, lambda q: r[q] != r[j0]))),
                                          forall(0, If(r[j0] >= 0, lambda: r[j0], nb1), lambda j1: _free(r, upto, j0, j1)(o), pat=lambda j1: _match(o, j0, j1))), pat=lambda j0: r[j0])


def _gen_samepos(rng, k):
    def ds(base=None):
        rows, i0, perm = [], [], []
        for q in range(rng.randint(1, 3)):
            m = rng.randint(1, 3)
            r = [(rng.randint(0, 1), rng.randint(0, 1) / 2, rng.randint(0, 1)) for _ in range(m)]
            if base and rng.random() < 0.7:
                r = list(rng.choice(base))
                if rng.random() < 0.3:
                    j = rng.randrange(len(r))
                    r[j] = (r[j][0], r[j][1], 1 - r[j][2])
            rows.append(r)
        return rows
    a = ds()
    b = ds(a)
    out = {}
    for nm, rows in (("0", a), ("1", b)):
        st, per, flat = [], [], []
        for r in rows:
            p = list(range(len(r)))
            rng.shuffle(p)
            st.append(len(flat))
            q = [None] * len(r)
            for pos, j in enumerate(p):
                q[j] = r[pos]
            flat += q
            per.append(np.array(p, dtype="i8"))
        out["x" + nm] = np.array([v[0] for v in flat], dtype="f8")
        out["y" + nm] = np.array([v[1] for v in flat], dtype="f8")
        out["t" + nm] = np.array([v[2] for v in flat], dtype="i8")
        out["i0" + nm] = np.array(st, dtype="i8")
        out["i" + nm] = per
    return {k: out[k] for k in ("x0", "y0", "t0", "x1", "y1", "t1", "i00", "i01", "i0", "i1")}


_inb = lambda a, b, n: forall(0, a.n, lambda j: forall(0, b[j].n, lambda k: And(0 <= b[j][k] + a[j], b[j][k] + a[j] < n), pat=lambda k: b[j][k]), pat=lambda j: a[j])

same_position = Contract(
    NW + "same_position", dict(x0=P("real", "n0"), y0=P("real", "n0"), t0=P("int", "n0"), x1=P("real", "n1"), y1=P("real", "n1"), t1=P("int", "n1"), i00=P("int", "m0"), i01=P("int", "m1"), i0=PR("int", "m0"), i1=PR("int", "m1")),
    requires=[("indexes of the observations of both sides", lambda s: And(_inb(s.i00, s.i0, s.x0.n), _inb(s.i01, s.i1, s.x1.n)))],
    ensures=[("size", lambda s: s.result.n == s.old.i00.n),
             ("each item is matched to the first equal item of the other side not used before, -1 when there is none", lambda s: _greedy(s.old, s.result, s.result.n, s.old.i01.n))],
    loops={0: [lambda s: And(s.i_target.n == s.old.i00.n, s.used1.n == s.old.i01.n), lambda s: forall(s.it, s.i_target.n, lambda j: s.i_target[j] == -1),
               lambda s: forall(0, s.used1.n, lambda j: Iff(s.used1[j], exists(0, s.it, lambda q: s.i_target[q] == j)), pat=lambda j: s.used1[j]),
               lambda s: _greedy(s.old, s.i_target, s.it, s.old.i01.n)],
           1: [lambda s: And(s.i_target.n == s.old.i00.n, s.used1.n == s.old.i01.n), lambda s: forall(s.j0, s.i_target.n, lambda j: s.i_target[j] == -1),
               lambda s: forall(0, s.used1.n, lambda j: Iff(s.used1[j], exists(0, s.j0, lambda q: s.i_target[q] == j)), pat=lambda j: s.used1[j]),
               lambda s: _greedy(s.old, s.i_target, s.j0, s.old.i01.n),
               lambda s: forall(0, s.it, lambda j1: _free(s.i_target, 0, s.j0, j1)(s.old), pat=lambda j1: _match(s.old, s.j0, j1))],
           2: [lambda s: s.test, lambda s: forall(0, s.it, lambda k: _same_obs(s.old, s.old.i0[s.j0][k] + s.old.i00[s.j0], s.old.i1[s.j1][k] + s.old.i01[s.j1]))]},
    gen=_gen_samepos, adapter="same_position", bmc=False)

# ----------------------------------------------------------------- following the links
def _chain(s, nxt, key="chain"):
    return memo(s, key, lambda: dsl.RecP((key, dsl.tid(_probe(nxt))), lambda k, v, i: nxt[v], None, ["int"], base_fn=lambda i: i))


def _reach(s):
    o = s.old

    def new(me, u, members):
        # k_lemmas.prefix: a reached step comes after reached steps
        a, b, i = dsl.qvar("int"), dsl.qvar("int"), dsl.qvar("int")
        dsl.lemma_instance(z3.ForAll([a, b, i], z3.Implies(z3.And(0 <= a, a <= b, u(b, i)), u(a, i)), patterns=[z3.MultiPattern(u(a, i), u(b, i))]))
    ch = _chain(s, o.next_obs)
    return memo(s, "reach", lambda: dsl.RecP(("reach", dsl.tid(o.dt)), lambda k, v, i: And(v, ch(k + 1, i) != -1, fabs(o.time[ch(k + 1, i)] - o.time[i]) < o.dt), True, ["int"], sort="bool", family="reach", on_new=new))


def _steps(o, body):
    """some number of steps"""
    if is_z3(o.time.n) or is_z3(o.dt):
        k = dsl.qvar("int")
        return z3.Exists([k], z3.And(k >= 0, dsl.boolify(body(k))))
    return any(body(k) for k in range(o.time.n + 1))


def _followed(s, i, k):
    return _steps(s.old, lambda st: And(_reach(s)(st, i), _chain(s, s.old.next_obs)(st, i) == k))


def _gen_follow(rng, k):
    n = rng.randint(1, 8)
    seg = np.sort(rng_ints(rng, n, 0, 2))
    t = np.zeros(n)
    nx = np.full(n, -1, dtype="i4")
    for i in range(n):
        t[i] = 0 if i == 0 or seg[i] != seg[i - 1] else t[i - 1] + rng.randint(1, 2)
        if i + 1 < n and seg[i + 1] == seg[i]:
            nx[i] = i + 1
        elif rng.random() < 0.3:
            later = [j for j in range(n) if j > i]
            if later:
                nx[i] = rng.choice(later)
    return dict(m=rng_ints(rng, n, 0, 1).astype(bool) & (rng.random() < 0.3), next_obs=nx, time=t, indexs=rng_ints(rng, rng.randint(0, 3), 0, n - 1), dt=rng.choice([0, 1, 2, 3, 5]))


mask_follow_obs = Contract(
    NW + "mask_follow_obs", dict(m=P("bool", "n"), next_obs=P("int", "n", np_="i4"), time=P("real", "n"), indexs=P("int", "p"), dt=S("real")),
    requires=[("links and starts are observations", lambda s: And(forall(0, s.next_obs.n, lambda k: And(s.next_obs[k] >= -1, s.next_obs[k] < s.next_obs.n)), forall(0, s.indexs.n, lambda q: And(0 <= s.indexs[q], s.indexs[q] < s.next_obs.n))))],
    ensures=[("exactly the starts and the observations linked to them closer than dt in time are added", lambda s: forall(0, s.m.n, lambda k: Iff(s.m[k], Or(s.old.m[k], exists(0, s.old.indexs.n, lambda q: _followed(s, s.old.indexs[q], k))))))],
    loops={0: [lambda s: forall(0, s.m.n, lambda k: Iff(s.m[k], Or(s.old.m[k], exists(0, s.it, lambda q: _followed(s, s.old.indexs[q], k)))))],
           1: [lambda s: And(s.i_next >= -1, s.i_next < s.m.n, s.i_next == _chain(s, s.old.next_obs)(s.it + 1, s.i)), lambda s: s.dt_ == fabs(s.old.time[If(s.i_next < 0, s.m.n - 1, s.i_next)] - s.old.time[s.i]), lambda s: _reach(s)(s.it, s.i),
               lambda s: s.t0 == s.old.time[s.i],
               lambda s: forall(0, s.m.n, lambda k: Iff(s.m[k], Or(s.old.m[k], exists(0, s.outer[-1], lambda q: _followed(s, s.old.indexs[q], k)), exists(0, s.it + 1, lambda st: _chain(s, s.old.next_obs)(st, s.i) == k))))]},
    gen=_gen_follow)

# ----------------------------------------------------------------- statistic of the coherence along a segment
def _pchain(s):
    return memo(s, "pchain", lambda: dsl.RecP(("pchain", dsl.tid(_probe(s.old.follow_obs if hasattr(s, "old") else s.follow_obs))), lambda k, v: (s.old if hasattr(s, "old") else s).follow_obs[v], (s.old if hasattr(s, "old") else s).i, []))


def _o(s):
    return s.old if hasattr(s, "old") else s


def _pok(s, k):
    """step k is followed"""
    o, c = _o(s), _pchain(s)(k)
    return And(c != -1, fabs(o.t[o.i] - o.t[c]) < o.window, o.segment[c] == o.segment[o.i])


def _preach(s):
    def new(me, u, members):
        a, b = dsl.qvar("int"), dsl.qvar("int")
        dsl.lemma_instance(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, u(b)), u(a)), patterns=[z3.MultiPattern(u(a), u(b))]))
    return memo(s, "preach", lambda: dsl.RecP(("preach", dsl.tid(_o(s).window)), lambda k, v: And(v, lambda_and(_pok(s, k))), True, [], sort="bool", family="preach", on_new=new))


lambda_and = lambda x: x


def _psel(s, k, c):
    o = _o(s)
    i = o.indexs[_pchain(s)(k), c]
    return And(i != -1, If(i != -1, lambda: o.segment[i] == o.segment[o.i_target], False))


def _pcnt(s):
    return memo(s, "pcnt", lambda: dsl.RecP(("pcnt", dsl.tid(_o(s).i_target)), lambda k, v: v + If(_psel(s, k, 0), 1, 0) + If(_psel(s, k, 1), 1, 0), 0, []))


def _pall(s, body):
    """at every number of steps"""
    if is_z3(_o(s).t.n) or is_z3(_o(s).window):
        k = dsl.qvar("int")
        return z3.ForAll([k], z3.Implies(k >= 0, dsl.boolify(body(k))), patterns=[_pchain(s)(k)])
    for k in range(_o(s).t.n + 2):
        if not dsl.boolify(body(k)):
            return False
        if _pchain(s)(k) == -1:
            break
    return True


def _pstop(s, k):
    """the walk stops after k steps"""
    return And(_preach(s)(k), Not(_pok(s, k)))


def _gen_pct(rng, k):
    n = rng.randint(2, 8)
    seg = np.sort(rng_ints(rng, n, 0, 2, "u4"))
    t = np.zeros(n)
    nx = np.full(n, -1, dtype="i4")
    for i in range(n):
        t[i] = 0 if i == 0 or seg[i] != seg[i - 1] else t[i - 1] + 1
        if i + 1 < n and seg[i + 1] == seg[i]:
            nx[i] = i + 1
    ind = rng_ints(rng, 2 * n, -1, n - 1, "i4").reshape(n, 2)
    pct = np.round(rng_floats(rng, 2 * n, 0, 100), 1).reshape(n, 2)
    i, w = rng.randrange(n), rng.choice([1, 2, 4, 9])
    tgt = rng.randrange(n)
    q, seq, j = i, [], 0
    while q != -1 and abs(t[i] - t[q]) < w and seg[q] == seg[i]:
        for c in range(2):
            if ind[q, c] != -1 and seg[ind[q, c]] == seg[tgt]:
                seq.append(pct[q, c])
        q = nx[q]
    return dict(i=i, indexs=ind, percents=pct, follow_obs=nx, t=t, segment=seg, i_target=tgt, window=w, q=float(rng.choice([0, 50, 50, 90, 100])), nb_min=rng.choice([1, 1, 2, 3]), collected=np.array(seq, dtype="f8"))


get_percentile_on_following_obs = Contract(
    NW + "get_percentile_on_following_obs",
    dict(i=S("int"), indexs=P("int", "n", 2, np_="i4"), percents=P("real", "n", 2), follow_obs=P("int", "n", np_="i4"), t=P("real", "n"), segment=P("int", "n", np_="u4"), i_target=S("int"), window=S("int"), q=S("real"), nb_min=S("int"),
         collected=P("real", "m")), order=["i", "indexs", "percents", "follow_obs", "t", "segment", "i_target", "window", "q", "nb_min"],
    requires=[lambda s: And(0 <= s.i, s.i < s.t.n, 0 <= s.i_target, s.i_target < s.t.n, s.window >= 1, 0 <= s.q, s.q <= 100, s.nb_min >= 1),
              ("links and candidates are observations", lambda s: forall(0, s.t.n, lambda k: And(s.follow_obs[k] >= -1, s.follow_obs[k] < s.t.n, s.indexs[k, 0] >= -1, s.indexs[k, 0] < s.t.n, s.indexs[k, 1] >= -1, s.indexs[k, 1] < s.t.n))),
              ("no more selected values than the window", lambda s: _pall(s, lambda k: Implies(_preach(s)(k), lambda: _pcnt(s)(k) <= s.window))),
              ("ghost: the selected values in order", lambda s: _pall(s, lambda k: Implies(And(_preach(s)(k), If(_preach(s)(k), lambda: _pok(s, k), False)), lambda: And(
                  Implies(_psel(s, k, 0), lambda: And(s.collected[_pcnt(s)(k)] == s.percents[_pchain(s)(k), 0])),
                  Implies(_psel(s, k, 1), lambda: s.collected[_pcnt(s)(k) + If(_psel(s, k, 0), 1, 0)] == s.percents[_pchain(s)(k), 1])))))],
    ensures=[("percentile of the values for the target along the segment until the end of the window, nan when there are too few", lambda s: _pall(s, lambda k: Implies(If(_preach(s)(k), lambda: _pstop(s, k), False), lambda: If(
        _pcnt(s)(k) < s.old.nb_min, lambda: isnan(s.result), lambda: And(Not(isnan(s.result)), Implies(Not(isnan(s.result)), lambda: _pclose(val(s.result), dsl.stat("percentile", lambda m: s.old.collected[m], 0, _pcnt(s)(k), s.old.q))))))))],
    loops={0: [lambda s: And(s.j >= 0, s.i >= -1, s.i < s.old.t.n, s.i == _pchain(s)(s.it), s.j == _pcnt(s)(s.it)), lambda s: And(s.last_t == s.old.t[s.old.i], s.segment_follow == s.old.segment[s.old.i], s.segment_target == s.old.segment[s.old.i_target]),
               lambda s: _preach(s)(s.it), lambda s: forall(0, s.j, lambda m: And(Not(isnan(s.percent_target[m])), val(s.percent_target[m]) == s.old.collected[m]))]},
    gen=_gen_pct, bmc=False, real_args=lambda a: {k: v for k, v in a.items() if k != "collected"})


def _pclose(a, b):
    return a == b if is_z3(a) or is_z3(b) else abs(a - b) <= 1e-9 * max(1, abs(b))
