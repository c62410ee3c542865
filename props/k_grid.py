"""Contracts on py_eddy_tracker/dataset/grid.py kernels"""
from .common import *

GD = "dataset.grid:"


def circular(xg):
    """the grid closes on itself: the last column and (first column - step) are the same meridian"""
    d = rmod(xg[xg.n - 1] - xg[0] + (xg[1] - xg[0]) + num(180, xg[0]), num(360, xg[0])) - num(180, xg[0])
    return fabs(d) < (real(1e-5) if is_z3(d) else 1e-5)


# ----------------------------------------------------------------- gradient
def _sten(vertical):
    def parts(s):
        o = s.old if hasattr(s, "old") else s
        x = o.y if vertical else o.x
        n = x.n
        circ = False if vertical else memo(s, "circ", lambda: circular(o.x))

        def at(a, i, j):
            return a[j, i] if vertical else a[i, j]

        def wr(i):
            if is_z3(i) or is_z3(circ):
                return If(circ, imod(i, n), i)
            return i % n if circ else i

        def H(i, j):
            return at(o.h, wr(i), j)

        def M(i, j):
            inb = And(0 <= i, i < n)
            v = lambda: at(o.m, wr(i), j)
            if is_z3(inb) or is_z3(circ):
                return If(Or(circ, inb), v, True)
            return v() if circ or inb else True
        return o, n, H, M

    def factor(s, j):
        o = s.old if hasattr(s, "old") else s
        if is_z3(o.y[j]) or is_z3(o.earth_radius):
            c = lambda v: real(v)
            st = (o.y[1] - o.y[0]) if vertical else (o.x[1] - o.x[0])
            if vertical:
                return dsl.nl("div", c(360), dsl.nl("mul", st * c(math.pi) * c(2), o.earth_radius))
            deg = o.y[j] * c(math.pi) / c(180)
            return dsl.nl("div", c(360), dsl.nl("mul", dsl.nl("mul", st, ucos(deg)) * c(math.pi) * c(2), o.earth_radius))
        if vertical:
            return 360 / ((o.y[1] - o.y[0]) * math.pi * 2 * o.earth_radius)
        return 360 / ((o.x[1] - o.x[0]) * math.cos(math.radians(o.y[j])) * math.pi * 2 * o.earth_radius)

    def cell(s, g, mo, i, j):
        """i along the derivative, j across"""
        o, n, H, M = parts(s)
        hw = o.stencil_halfwidth
        d = factor(s, j)
        G, MO = (g[j, i], mo[j, i]) if vertical else (g[i, j], mo[i, j])
        h = lambda k: H(i + k, j)
        m = lambda k: M(i + k, j)
        sym = is_z3(i) or is_z3(hw)
        c = (lambda v: real(v)) if sym else (lambda v: v)
        eqg = (lambda v: lambda: And(Not(MO), eqf(val(G), dsl.nl("mul", v, d) if sym else v * d, None if sym else 1e-6 * (1 + abs(d)) * 1000)))
        two = lambda: (h(1) - h(-1)) / c(2)
        return If(m(0), lambda: MO, lambda: If(And(m(1), m(-1)), lambda: MO, lambda: If(
            m(-1), eqg(h(1) - h(0)), lambda: If(m(1), eqg(h(0) - h(-1)), lambda: If(
                Or(m(2), m(-2), hw == 1), eqg(two()), lambda: If(
                    Or(m(3), m(-3), hw == 2), eqg((h(-2) - h(2) + 8 * (h(1) - h(-1))) / c(12)), lambda: If(
                        Or(m(4), m(-4), hw == 3), eqg((h(3) - h(-3) + 9 * (h(-2) - h(2)) + 45 * (h(1) - h(-1))) / c(60)),
                        eqg((3 * (h(-4) - h(4)) + 32 * (h(3) - h(-3)) + 168 * (h(-2) - h(2)) + 672 * (h(1) - h(-1))) / c(840)))))))))

    def buf(s):
        """the buffer holds the values around, masked out of the grid"""
        o, n, H, M = parts(s)
        out = []
        for k, (hn, mn) in enumerate((("h_3", "m_3"), ("h_2", "m_2"), ("h_1", "m_1"), ("h0", "m0"), ("h1", "m1"), ("h2", "m2"), ("h3", "m3"), ("h4", "m4"))):
            i = s.it - 4 + k
            out.append(Iff(getattr(s, mn), M(i, s.j)))
            out.append(Implies(Not(M(i, s.j)), lambda i=i, hn=hn: getattr(s, hn) == H(i, s.j)))
        return out
    nj = (lambda s: s.dim_nx) if vertical else (lambda s: s.dim_ny)
    ni = (lambda s: s.dim_ny) if vertical else (lambda s: s.dim_nx)
    full = lambda s, g, m, upto: forall2(0, ni(s), 0, upto, lambda i, j: cell(s, g, m, i, j))
    tr = (lambda a: TV(a)) if vertical else (lambda a: a)

    class TV:  # inside the function the arrays are transposed
        def __init__(self, a):
            self.a = a

        def __getitem__(self, k):
            return self.a[k[1], k[0]]
    return Contract(
        GD + "compute_stencil", dict(x=P("real", "nx"), y=P("real", "ny"), h=P("real", "nx", "ny"), m=P("bool", "nx", "ny"), earth_radius=S("real"), vertical=C(vertical), stencil_halfwidth=S("int")),
        dims_min=dict(nx=1, ny=4) if vertical else dict(nx=4, ny=1),
        requires=[lambda s: s.earth_radius > 0, lambda s: (s.y[1] > s.y[0]) if vertical else (s.x[1] > s.x[0]), lambda s: And(s.stencil_halfwidth >= 1, s.stencil_halfwidth <= 4)]
        + ([] if vertical else [("no pole", lambda s: forall(0, s.dim_ny, lambda j: ucos(s.y[j] * num(math.pi, s.y[j]) / num(180, s.y[j])) != 0))]),
        ensures=[("largest balanced stencil available around each valid value, one-sided next to a gap, masked without neighbour; values out of the grid are gaps", lambda s: full(s, s.result[0], s.result[1], nj(s)))],
        loops={0: [lambda s: full(s, tr(s.grad), tr(s.m_out), s.it)] + ([lambda s: s.d_ == factor(s, s.it)] if vertical else []),
               1: [buf, lambda s: full(s, tr(s.grad), tr(s.m_out), s.j), lambda s: forall(0, s.it, lambda i: cell(s, tr(s.grad), tr(s.m_out), i, s.j))]},
        opts=dict(opaque_nl=True), gen=lambda rng, k: _gen_sten(rng, vertical), bmc=False, key=GD + "compute_stencil" + ("_v" if vertical else "_h"), timeout=40, fuzz_n=300, cost=4 if vertical else 6)


def _gen_sten(rng, vertical):
    circ = rng.random() < 0.5
    nx = rng.choice([4, 6, 8]) if circ else rng.randint(4, 7)
    x = rng.choice([0.0, -180.0]) + np.arange(nx) * (360.0 / nx if circ else rng.choice([1.0, 0.5]))
    ny = rng.randint(4, 6)
    y = rng.choice([-3.0, 10.0, 50.0]) + np.arange(ny) * rng.choice([1.0, 0.25])
    h = rng_floats(rng, nx * ny, -4, 4, 0.25).reshape(nx, ny)
    p = rng.choice([0, 0.1, 0.4])
    m = np.array([rng.random() < p for _ in range(nx * ny)]).reshape(nx, ny)
    return dict(x=x, y=y, h=h, m=m, earth_radius=6370997.0, vertical=vertical, stencil_halfwidth=rng.randint(1, 4))


stencil_h = _sten(False)
stencil_v = _sten(True)


# ----------------------------------------------------------------- advection of particles
class Field:
    """velocity of a couple of fields at a position: bilinear in the cell that contains it; no velocity when a corner is masked or outside the grid"""

    def __init__(self, s, names, key):
        self.o = s.old if hasattr(s, "old") else s
        self.u, self.v, self.m = (getattr(self.o, k) for k in names)
        self.key = key
        o = self.o
        self.circ = memo(s, "circ", lambda: circular(o.x_g))
        self.sym = is_z3(o.x_g[0])
        k = (key, names)
        if self.sym:
            t = dsl.tid(o.x_g._f(z3.Int("probe_k"))), dsl.tid(self.u._f(z3.Int("probe_k"), z3.Int("probe_l")))
            self.B = dsl.opaque(("advB", k, t), ["real", "real"], "bool")
            self.U = dsl.opaque(("advU", k, t), ["real", "real"], "real")
            self.V = dsl.opaque(("advV", k, t), ["real", "real"], "real")
        else:
            self.B, self.U, self.V = self._bad, (lambda x, y: self._vel(self.u, x, y)), (lambda x, y: self._vel(self.v, x, y))

    def unfold(self, x, y):
        """definitions of B, U, V at a position"""
        return [self.B(x, y) == self._bad(x, y), self.U(x, y) == self._vel(self.u, x, y), self.V(x, y) == self._vel(self.v, x, y)]

    def cell(self, x, y):
        o = self.o
        X, Y = dsl.nl("div", x - o.x_g[0], o.x_g[1] - o.x_g[0]), dsl.nl("div", y - o.y_g[0], o.y_g[1] - o.y_g[0])
        i, j = rfloor(X), rfloor(Y)
        return X, Y, i, j, self.wrap(i), self.wrap(i + 1)

    def wrap(self, i):
        if is_z3(i) or is_z3(self.circ):
            return If(self.circ, imod(i, self.o.x_g.n), i)
        return i % self.o.x_g.n if self.circ else i

    def bad_cell(self, a, b, j):
        nx, ny = self.m.shape
        out = Or(a < 0, b < 0, a >= nx, b >= nx, j < 0, j + 1 >= ny)
        return Or(out, self.m[a, j], self.m[a, j + 1], self.m[b, j], self.m[b, j + 1])

    def _bad(self, x, y):
        X, Y, i, j, a, b = self.cell(x, y)
        return self.bad_cell(a, b, j)

    def corners(self, g, a, b, j):
        return g[a, j], g[a, j + 1], g[b, j], g[b, j + 1]

    def _vel(self, g, x, y):
        X, Y, i, j, a, b = self.cell(x, y)
        fl_ = (lambda v: z3.ToReal(v)) if is_z3(i) else (lambda v: v)
        xd, yd = X - fl_(i), Y - fl_(j)
        g00, g01, g10, g11 = self.corners(g, a, b, j)
        mul = lambda p, q: dsl.nl("mul", p, q)
        return mul(mul(g00, 1 - xd) + mul(g10, xd), 1 - yd) + mul(mul(g01, 1 - xd) + mul(g11, xd), yd)


class Traj:
    """positions of a particle after k steps; `step(F, k, x, y)` gives (list of positions where a velocity is needed, dx, dy)"""

    def __init__(self, s, key, step, bad, stages=None):
        self.step, self.bad, self.key, self.stages = step, bad, key, stages or (lambda k, x, y: [(x, y)])
        o = s.old if hasattr(s, "old") else s
        self.sym = is_z3(o.x_g[0])
        self.cache = {}
        if self.sym:
            self.X = dsl.RecP(("trajX", key), lambda k, v, a, b: v + step(k, v, self.Y(k, a, b))[0], None, ["real", "real"], sort="real", name="tx", base_fn=lambda a, b: a)
            self.Y = dsl.RecP(("trajY", key), lambda k, v, a, b: v + step(k, self.X(k, a, b), v)[1], None, ["real", "real"], sort="real", name="ty", base_fn=lambda a, b: b)

    def run(self, a, b, n):
        """concrete: (lost, x, y)"""
        x, y = a, b
        for k in range(n):
            if self.bad(k, x, y):
                return True, nan, nan
            dx, dy = self.step(k, x, y)
            x, y = x + dx, y + dy
        return False, x, y

    def lost(self, n, a, b):
        return exists(0, n, lambda k: self.bad(k, self.X(k, a, b), self.Y(k, a, b)))


def _final(s, T, n, j):
    """particle j after all the steps"""
    o = s.old
    if not T.sym:
        if o.m[j]:
            return bool(s.m[j] and (s.x[j] == o.x[j] or isnan(s.x[j]) and isnan(o.x[j])))
        lost, x, y = T.run(o.x[j], o.y[j], n)
        if lost:
            return bool(isnan(s.x[j]) and isnan(s.y[j]) and s.m[j])
        return bool(not s.m[j] and abs(s.x[j] - x) < 1e-6 and abs(s.y[j] - y) < 1e-6)
    x0, y0 = val(o.x[j]), val(o.y[j])
    return If(o.m[j], And(same(s.x[j], o.x[j]), same(s.y[j], o.y[j]), s.m[j]), If(
        T.lost(n, x0, y0), And(isnan(s.x[j]), isnan(s.y[j]), s.m[j]),
        And(Not(isnan(s.x[j])), Not(isnan(s.y[j])), val(s.x[j]) == T.X(n, x0, y0), val(s.y[j]) == T.Y(n, x0, y0), Not(s.m[j]))))


def _untouched(s, lo):
    o = s.old
    return forall(lo, o.x.n, lambda j: And(same(s.x[j], o.x[j]), same(s.y[j], o.y[j]), Iff(s.m[j], o.m[j])))


ADV_PRE = [("grid steps are positive", lambda s: And(s.x_g[1] > s.x_g[0], s.y_g[1] > s.y_g[0])),
           ("particles flagged valid have a position", lambda s: forall(0, s.x.n, lambda j: Implies(Not(s.m[j]), And(Not(isnan(s.x[j])), Not(isnan(s.y[j]))))))]


def _gen_adv(rng, two=False):
    circ = rng.random() < 0.5
    step = 90.0 if circ else 1.0
    nx = 4 if circ else rng.randint(2, 5)
    ny = rng.randint(2, 5)
    n = rng.randint(1, 6)
    d = dict(x_g=rng.choice([0.0, -180.0, 10.0]) + step * np.arange(nx), y_g=rng.choice([-2.0, 0.0, 30.0]) + np.arange(ny) * 1.0)
    sc = rng.choice([0.125, 0.5, 1.5])
    p = rng.choice([0, 0.05, 0.2])
    for k in ("0", "1") if two else ("",):
        for c, f in (("u", step), ("v", 1.0)):
            d[c + "_g" + k] = rng_floats(rng, nx * ny, -4, 4, 1).reshape(nx, ny) * sc * f / 8
        d["m_g" + k] = np.array([rng.random() < p for _ in range(nx * ny)]).reshape(nx, ny)
    x = d["x_g"][0] + rng_floats(rng, n, -step, nx * step, step / 4) + (rng.choice([0, 360, -360]) if circ else 0)
    y = d["y_g"][0] + rng_floats(rng, n, -0.5, ny - 0.5, 0.25)
    if rng.random() < 0.5:
        x[:], y[:] = x[0] + np.array([rng.choice([0, step / 4]) for _ in range(n)]), y[0]
    d.update(x=x, y=y, m=np.array([rng.random() < 0.2 for _ in range(n)]))
    return d


def _border(s, T_step_positions):
    return True


def _order_adv(d, names):
    return {k: d[k] for k in names}


def _veq(p, q):
    if isinstance(p, float) and p != p:
        return False
    return And(Not(isnan(p)), real(val(p)) == q)


def _cache_inv(s, F, i, j, masked, us, vs, sent):
    a, b = F.wrap(i), F.wrap(i + 1)
    o = F.o
    ok = And(*[_veq(p, q) for p, q in zip(us, F.corners(F.u, a, b, j))], *[_veq(p, q) for p, q in zip(vs, F.corners(F.v, a, b, j))])
    return Or(And(i == sent, j == sent), And(Iff(masked, F.bad_cell(a, b, j)), Implies(Not(masked), ok), Implies(F.circ, And(i >= 0, i < o.x_g.n))))


_q = lambda s, p, k="": [getattr(s, f"{p}{k}{c}") for c in ("00", "01", "10", "11")]


# -- first order, steady field
_F1 = lambda s: memo(s, "F1", lambda: Field(s, ("u_g", "v_g", "m_g"), "steady"))


def _T1(s):
    def mk():
        F_ = _F1(s)
        return Traj(s, ("euler", F_.key), lambda k, x, y: (F_.U(x, y), F_.V(x, y)), lambda k, x, y: F_.B(x, y))
    return memo(s, "T1", mk)


def _nosent(F_, T, n, sent):
    """no particle goes through the cell used as a sentinel by the cache"""
    def f(s):
        t, ff, nn = T(s), F_(s), n(s)
        if not t.sym:
            return True
        return forall2(0, s.x.n, 0, nn, lambda j, k: Implies(Not(s.m[j]), ff.cell(t.X(k, val(s.x[j]), val(s.y[j])), t.Y(k, val(s.x[j]), val(s.y[j])))[3] != sent),
                       pat=lambda j, k: [s.m[j], t.Y(k, val(s.x[j]), val(s.y[j]))])
    return ("no position 100000 cells south of the grid", f)


_adv_params = dict(x_g=P("real", "nx"), y_g=P("real", "ny"), u_g=P("real", "nx", "ny"), v_g=P("real", "nx", "ny"), m_g=P("bool", "nx", "ny"), x=P("float", "n"), y=P("float", "n"), m=P("bool", "n"), nb_step=S("int"))


def _inner(s, T):
    """one particle, in the loop on steps"""
    o = s.old
    i = s.i
    x0, y0 = val(o.x[i]), val(o.y[i])
    return T, x0, y0


# -- fourth order, and two fields
def _rk4(U, V, B, ws=None):
    """Runge-Kutta step from the velocity of the stages: U(stage, x, y)"""
    def stages(x, y):
        h = num(0.5, x)
        u1, v1 = U(0, x, y), V(0, x, y)
        p2 = x + u1 * h, y + v1 * h
        u2, v2 = U(1, *p2), V(1, *p2)
        p3 = x + u2 * h, y + v2 * h
        u3, v3 = U(1, *p3), V(1, *p3)
        p4 = x + u3, y + v3
        return (x, y), p2, p3, p4, (u1, u2, u3), (v1, v2, v3)

    def step(x, y):
        p1, p2, p3, p4, us, vs = stages(x, y)
        u4, v4 = U(2, *p4), V(2, *p4)
        six = num(6, x)
        return (us[0] + 2 * us[1] + 2 * us[2] + u4) / six, (vs[0] + 2 * vs[1] + 2 * vs[2] + v4) / six

    def bad(x, y):
        if is_z3(x):
            p1, p2, p3, p4, us, vs = stages(x, y)
            return Or(B(*p1), B(*p2), B(*p3), B(*p4))
        if B(x, y):
            return True
        u1, v1 = U(0, x, y), V(0, x, y)
        p2 = x + u1 * 0.5, y + v1 * 0.5
        if B(*p2):
            return True
        p3 = x + U(1, *p2) * 0.5, y + V(1, *p2) * 0.5
        if B(*p3):
            return True
        return B(x + U(1, *p3), y + V(1, *p3))
    return step, bad, lambda x, y: stages(x, y)[:4]


def _T1rk(s):
    def mk():
        F_ = _F1(s)
        step, bad, stages = _rk4(lambda k, x, y: F_.U(x, y), lambda k, x, y: F_.V(x, y), F_.B)
        return Traj(s, ("rk4", F_.key), lambda k, x, y: step(x, y), lambda k, x, y: bad(x, y), lambda k, x, y: stages(x, y))
    return memo(s, "T1rk", mk)


def _after(Fs, T):
    """what the code computes between two lookups: the position of each stage, the velocity of each field there"""
    def located(s, args, r, ghost):
        stage = ghost.get("stage", 0)
        ghost["stage"] = stage + 1
        ghost["k"] = 0
        t = T(s)
        k, i = s.outer[-1], s.i
        x0, y0 = val(s.old.x[i]), val(s.old.y[i])
        p = t.stages(k, t.X(k, x0, y0), t.Y(k, x0, y0))[stage]
        ghost["p"] = p
        return [(f"position of stage {stage + 1}, longitude", real(val(args[4])) == p[0]), (f"position of stage {stage + 1}, latitude", real(val(args[5])) == p[1])], None, [d for F_ in Fs for d in F_(s).unfold(*p)]

    def velocity(s, args, r, ghost):
        p = ghost["p"]
        f = Fs[ghost["k"] % len(Fs)](s)
        ghost["k"] += 1
        u, v = f.U(*p), f.V(*p)
        return [("velocity of the cell, along x", And(Not(isnan(r[0])), real(val(r[0])) == u)), ("velocity of the cell, along y", And(Not(isnan(r[1])), real(val(r[1])) == v)), ("velocity known", Not(f.B(*p)))], (u, v), []
    return dict(get_grid_indices=located, interp_uv=velocity)


def _adv_contract(fn, params, T, Fs, nstep, sent, cache, masks, vals, local, gen, extra=(), **kw):
    """common shape of the four integrators.  Fs: fields; cache: names of the cached cell; masks: names of its flags; vals: prefixes of the cached values; local: names of the current position"""
    n = lambda s: nstep(s.old if hasattr(s, "old") else s)
    caches = [lambda s, F_=F_, mk=mk, vl=vl: _cache_inv(s, F_(s), getattr(s, cache[0]), getattr(s, cache[1]), getattr(s, mk), _q(s, "u", vl), _q(s, "v", vl), sent) for F_, mk, vl in zip(Fs, masks, vals)]
    if local:
        pos = lambda s: (getattr(s, local[0]), getattr(s, local[1]))
    else:
        pos = lambda s: (s.x[s.i], s.y[s.i])
    F0 = Fs[0]
    common = [lambda s: Iff(s.is_circular, F0(s).circ)]
    return Contract(
        GD + fn, params, dims_min=dict(nx=2, ny=2), requires=ADV_PRE + list(extra) + [_nosent(F0, T, lambda s: nstep(s), sent)],
        ensures=[("each valid particle follows the velocity field step by step, and is lost (nan, flagged) exactly when a velocity needed is unknown", lambda s: forall(0, s.x.n, lambda j: _final(s, T(s), n(s), j)))],
        loops={0: [lambda s: forall(0, s.it, lambda j: _final(s, T(s), n(s), j)), lambda s: _untouched(s, s.it)] + common + caches,
               1: [lambda s: forall(0, s.i, lambda j: _final(s, T(s), n(s), j)), lambda s: _untouched(s, s.i if local else s.i + 1)] + common + caches + [
                   lambda s: And(Not(s.m[s.i]), Not(isnan(pos(s)[0])), Not(isnan(pos(s)[1])), real(val(pos(s)[0])) == T(s).X(s.it, val(s.old.x[s.i]), val(s.old.y[s.i])), real(val(pos(s)[1])) == T(s).Y(s.it, val(s.old.x[s.i]), val(s.old.y[s.i]))),
                   lambda s: Not(T(s).lost(s.it, val(s.old.x[s.i]), val(s.old.y[s.i])))]},
        opts=dict(opaque_nl=True, after=_after(Fs, T)), bmc=False, gen=gen, fuzz_n=300, **kw)


advect = _adv_contract("advect", _adv_params, _T1, [_F1], lambda s: s.nb_step, -100000, ("i0_old", "j0_old"), ["masked"], [""], None,
                       lambda rng, k: _order_adv(dict(_gen_adv(rng), nb_step=rng.randint(0, 4)), _adv_params), extra=[lambda s: s.nb_step >= 0])

advect_rk4 = _adv_contract("advect_rk4", _adv_params, _T1rk, [_F1], lambda s: s.nb_step, -1000000, ("i_cache", "j_cache"), ["masked"], [""], ("x_", "y_"),
                           lambda rng, k: _order_adv(dict(_gen_adv(rng), nb_step=rng.randint(0, 4)), _adv_params), extra=[lambda s: s.nb_step >= 0], cost=7)

_F2 = [lambda s: memo(s, "F2a", lambda: Field(s, ("u_g0", "v_g0", "m_g0"), "first date")), lambda s: memo(s, "F2b", lambda: Field(s, ("u_g1", "v_g1", "m_g1"), "second date"))]


def _mix(s, c, w):
    """velocity at weight w between both dates"""
    a, b = (getattr(f(s), c) for f in _F2)
    mul = lambda p, q: dsl.nl("mul", p, q)
    return lambda x, y: mul(a(x, y), w) + mul(b(x, y), 1 - w)


def _T2(s):
    def mk():
        o = s.old if hasattr(s, "old") else s
        W = o.weigths
        return Traj(s, ("euler", "two dates"), lambda k, x, y: (_mix(s, "U", W[k])(x, y), _mix(s, "V", W[k])(x, y)), lambda k, x, y: Or(*[f(s).B(x, y) for f in _F2]))
    return memo(s, "T2", mk)


def _T2rk(s):
    def mk():
        o = s.old if hasattr(s, "old") else s
        ws = lambda k: (o.weigths[k], o.weigths[k] - o.half_w, o.weigths[k] - 2 * o.half_w)
        rk = lambda k: _rk4(lambda st, x, y: _mix(s, "U", ws(k)[st])(x, y), lambda st, x, y: _mix(s, "V", ws(k)[st])(x, y), lambda x, y: Or(*[f(s).B(x, y) for f in _F2]))
        return Traj(s, ("rk4", "two dates"), lambda k, x, y: rk(k)[0](x, y), lambda k, x, y: rk(k)[1](x, y), lambda k, x, y: rk(k)[2](x, y))
    return memo(s, "T2rk", mk)


_adv_params2 = dict(x_g=P("real", "nx"), y_g=P("real", "ny"), u_g0=P("real", "nx", "ny"), v_g0=P("real", "nx", "ny"), m_g0=P("bool", "nx", "ny"),
                    u_g1=P("real", "nx", "ny"), v_g1=P("real", "nx", "ny"), m_g1=P("bool", "nx", "ny"), x=P("float", "n"), y=P("float", "n"), m=P("bool", "n"), weigths=P("real", "nw"), half_w=S("real"))


def _gen_adv2(rng):
    d = _gen_adv(rng, True)
    nw = rng.randint(0, 4)
    h = rng.choice([0.125, 0.0625])
    w = 1 - 2 * h * np.arange(nw)
    if rng.random() < 0.5:
        w, h = 1 - w, -h
    return _order_adv(dict(d, weigths=w, half_w=h), _adv_params2)


advect_t = _adv_contract("advect_t", _adv_params2, _T2, _F2, lambda s: s.weigths.n, -100000, ("i0_old", "j0_old"), ["m0", "m1"], ["0", "1"], None, lambda rng, k: _gen_adv2(rng), cost=2)
advect_t_rk4 = _adv_contract("advect_t_rk4", _adv_params2, _T2rk, _F2, lambda s: s.weigths.n, -1000000, ("i_cache", "j_cache"), ["m0", "m1"], ["0", "1"], ("x_", "y_"), lambda rng, k: _gen_adv2(rng), cost=10)
