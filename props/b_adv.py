"""Bounded scenarios: advection of particles by grids and series of grids, particles from outlines to outlines (run in the repository's interpreter)"""
import logging
import math
import os
import shutil
import tempfile

import numpy as np

from props.adapters import check

logging.getLogger("pet").setLevel(logging.ERROR)
R = 6370997.0


def write(path, x, y, u, v, mask):
    from netCDF4 import Dataset
    with Dataset(path, "w") as h:
        for d, a in (("lon", x), ("lat", y)):
            h.createDimension(d, len(a))
            h.createVariable(d, "f8", (d,))[:] = a
        for k, a in (("u", u), ("v", v)):
            z = h.createVariable(k, "f8", ("lon", "lat"), fill_value=1e20)
            z.units = "m/s"
            z[:] = np.ma.array(a, mask=mask)


class Lost(Exception):
    pass


class Unclear(Exception):
    """a position too close to the border of a cell to tell the cell"""


class Flow:
    """velocities at the nodes (degrees by step), linear in the cell, unknown when a corner is"""

    def __init__(self, x, y, u, v, mask, circ):
        self.x, self.y, self.u, self.v, self.m, self.circ = x, y, u, v, mask, circ

    def __call__(self, px, py):
        i, j = (px - self.x[0]) / (self.x[1] - self.x[0]), (py - self.y[0]) / (self.y[1] - self.y[0])
        if any(1e-12 < abs(k - round(k)) < 1e-6 for k in (i, j)):
            raise Unclear
        a, b = math.floor(i), math.floor(j)
        p, q = i - a, j - b
        a1, b1 = a + 1, b + 1
        if self.circ:
            a, a1 = a % len(self.x), a1 % len(self.x)
        if a < 0 or b < 0 or a1 >= len(self.x) or b1 >= len(self.y):
            raise Lost
        if self.m[a, b] or self.m[a1, b] or self.m[a, b1] or self.m[a1, b1]:
            raise Lost
        f = lambda w: (w[a, b] * (1 - p) + w[a1, b] * p) * (1 - q) + (w[a, b1] * (1 - p) + w[a1, b1] * p) * q
        return f(self.u), f(self.v)


def step(flow, px, py, t, dt, rk4):
    """flow(t, x, y): displacement by step"""
    u1, v1 = flow(t, px, py)
    if not rk4:
        return px + u1, py + v1
    u2, v2 = flow(t + dt / 2, px + u1 / 2, py + v1 / 2)
    u3, v3 = flow(t + dt / 2, px + u2 / 2, py + v2 / 2)
    u4, v4 = flow(t + dt, px + u3, py + v3)
    return px + (u1 + 2 * u2 + 2 * u3 + u4) / 6, py + (v1 + 2 * v2 + 2 * v3 + v4) / 6


def fields(rng, nt):
    circ = rng.random() < 0.4
    sx = 45.0 if circ else rng.choice([0.5, 1.0])
    nx, ny = 8 if circ else rng.randint(3, 8), rng.randint(3, 7)
    x, y = rng.choice([0.0, -180.0, 20.0]) + sx * np.arange(nx), rng.choice([0.0, -20.0, 40.0]) + rng.choice([0.5, 1.0]) * np.arange(ny)
    p = rng.choice([0, 0, 0.05, 0.2])
    one = lambda: (np.array([rng.uniform(-1, 1) for _ in range(nx * ny)]).reshape(nx, ny) * rng.choice([1, 4, 20 if circ else 4]),
                   np.array([rng.uniform(-1, 1) for _ in range(nx * ny)]).reshape(nx, ny), np.array([rng.random() < p for _ in range(nx * ny)]).reshape(nx, ny))
    return x, y, [one() for _ in range(nt)], circ


def start(rng, x, y, circ):
    n = rng.randint(1, 6)
    sx = x[1] - x[0]
    px = np.array([rng.uniform(x[0] - sx / 2, x[-1] + sx / 2) for _ in range(n)]) + (360 * rng.randint(-1, 1) if circ else 0)
    py = np.array([rng.uniform(y[0] - 0.2, y[-1] + 0.2) for _ in range(n)])
    for k in range(n):
        r = rng.random()
        if r < 0.1:
            px[k] = np.nan
        elif r < 0.2:
            py[k] = np.nan
        elif r < 0.5 and k:
            px[k], py[k] = px[k - 1] + 0.01, py[k - 1]
    return px, py


def same_positions(px, py, exp, what, tol=1e-6, **d):
    for k, e in enumerate(exp):
        if e is None:
            continue
        if e == "lost":
            check(np.isnan(px[k]) and np.isnan(py[k]), what + ": a particle is lost when a velocity needed is unknown", k=k, got=(px, py), expected=exp, **d)
        else:
            check(abs(px[k] - e[0]) <= tol and abs(py[k] - e[1]) <= tol, what, k=k, got=(px, py), expected=exp, **d)


def move(exp, flow, t, dt, nb, rk4):
    """expected positions after nb steps: (x, y), 'lost', None (unclear) or 'never' (no position)"""
    out = []
    for e in exp:
        if isinstance(e, tuple):
            try:
                for k in range(nb):
                    e = step(flow, *e, t + k * dt, dt, rk4)
            except Lost:
                e = "lost"
            except Unclear:
                e = None
        out.append(e)
    return out


def _begin(px, py):
    return [None if np.isnan(p) or np.isnan(q) else (float(p), float(q)) for p, q in zip(px, py)]


def steady(rng):
    """particles and filaments in one field of currents"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset
    x, y, ((u, v, m),), circ = fields(rng, 1)
    ts = rng.choice([600, 3600, 7200])
    u, v = u * 3600 / ts, v * 3600 / ts
    back, factor = rng.random() < 0.3, rng.choice([1, 1, 2])
    bare = not m.any() and rng.random() < 0.5
    arr = lambda w: np.ma.array(w) if bare else np.ma.array(w, mask=m)
    g = RegularGridDataset.with_array(("x", "y"), dict(x=x, y=y, u=arr(u), v=arr(v)), centered=True)
    c = ts * 180 / math.pi / R * factor * (-1 if back else 1)
    f = Flow(x, y, u * c / np.cos(np.radians(y)), v * c, m, circ)
    flow = lambda t, a, b: f(a, b)
    px, py = start(rng, x, y, circ)
    if not (~(np.isnan(px) | np.isnan(py))).any():
        return
    rk4, nb, turns = rng.random() < 0.6, rng.randint(1, 5), rng.randint(1, 4)
    kw = dict(time_step=ts, backward=back, factor=factor, nb_step=nb, rk4=rk4)
    d = dict(x=x, y=y, u=u, v=v, mask=m, kw=kw, start=(px.copy(), py.copy()))
    names = ("u", "v") if rng.random() < 0.7 else (arr(u), arr(v))
    exp = _begin(px, py)
    if rng.random() < 0.6:
        px, py = px.copy(), py.copy()
        gen = g.advect(px, py, *names, **kw)
        for _ in range(turns):
            exp = move(exp, flow, 0, 1, nb, rk4)
            a, b = next(gen)
            same_positions(a, b, exp, "positions after each call", **d)
        check(np.array_equal(px, a, equal_nan=True) and np.array_equal(py, b, equal_nan=True), "positions are updated in place")
    else:
        size = rng.randint(1, 4)
        gen = g.filament(px, py, *names, filament_size=size, **kw)
        hist = [exp]
        for _ in range(turns):
            hist.append(move(hist[-1], flow, 0, 1, nb, rk4))
            a, b = next(gen)
            filament(a, b, hist, size, **d)
        check(np.array_equal(px, d["start"][0], equal_nan=True), "the positions given are kept")
    z = g.grid("u")
    check(np.array_equal(np.ma.getmaskarray(z), m) and np.allclose(z.data[~m], u[~m]), "the currents of the grid are kept", **d)


def filament(a, b, hist, size, **d):
    n = len(hist[0])
    check(len(a) == len(b) == n * (size + 1), "one line by particle, and a separator", **d)
    a, b = a.reshape(n, size + 1), b.reshape(n, size + 1)
    check(np.isnan(a[:, size]).all() and np.isnan(b[:, size]).all(), "lines are separated", got=(a, b), **d)
    for j in range(size):
        q = len(hist) - 1 - j
        if q < 0:
            check(np.isnan(a[:, j]).all(), "no position before the start", got=(a, b), **d)
        else:
            same_positions(a[:, j], b[:, j], hist[q], "last positions of each particle, the newest first", tol=1e-3, **d)


def series(rng):
    """particles in a series of dates: currents are linear between two dates, forward or backward"""
    from py_eddy_tracker.dataset.grid import GridCollection
    folder = tempfile.mkdtemp(prefix="b_adv_")
    try:
        nt = rng.randint(3, 4)
        x, y, fs, circ = fields(rng, nt)
        days = [int(k) for k in 10 + np.cumsum([0] + [rng.randint(1, 2) for _ in range(nt - 1)])]
        nb = rng.randint(1, 4)
        ts = rng.choice([86400, 43200]) // nb  # one or two calls by day: a call never passes a date
        back, rk4 = rng.random() < 0.4, rng.random() < 0.6
        scale = 3600.0 / ts
        paths = []
        for k, (u, v, m) in enumerate(fs):
            paths.append(os.path.join(folder, f"g{k}.nc"))
            write(paths[-1], x, y, u * scale, v * scale, m)
        g = GridCollection.from_netcdf_list(paths, np.array(days) if rng.random() < 0.5 else days, "lon", "lat")
        c = ts * 180 / math.pi / R * (-1 if back else 1)
        fl = [Flow(x, y, u * scale * c / np.cos(np.radians(y)), v * scale * c, m, circ) for u, v, m in fs]
        k0 = rng.randrange(1, nt) if back else rng.randrange(0, nt - 1)
        t = days[k0]
        sign = -1 if back else 1
        total = abs((days[0] if back else days[-1]) - t) * 86400 // (nb * ts)
        px, py = start(rng, x, y, circ)
        if not (~(np.isnan(px) | np.isnan(py))).any():
            return
        ordered = list(zip(days, fl))[::sign]

        def bracket(s):
            """the two dates around, s seconds after the start, in the sense of time"""
            for (ta, fa), (tb, fb) in zip(ordered, ordered[1:]):
                if sign * (ta - t) * 86400 <= s < sign * (tb - t) * 86400:
                    return sign * (ta - t) * 86400, fa, sign * (tb - t) * 86400, fb
            raise AssertionError("no date around")
        d = dict(days=days, start=(px.copy(), py.copy()), t_init=t, nb_step=nb, time_step=ts, backward=back, rk4=rk4, x=x, y=y, fields=[(u * scale, v * scale, m) for u, v, m in fs])
        kw = dict(t_init=t, nb_step=nb, time_step=ts, backward=back, rk4=rk4)
        exp = _begin(px, py)
        mode = rng.choice(["advect", "advect", "filament", "path"])
        if mode == "path":
            q0, q1 = px.copy(), py.copy()
            turns = rng.randint(1, min(total, 5))
            dates, aa, bb = g.path(px, py, nb_time=turns, u_name="u", v_name="v", **kw)
            check(aa.shape == bb.shape == (turns + 1, len(px)), "one row by call", **d)
            check(np.array_equal(px, q0, equal_nan=True) and np.array_equal(py, q1, equal_nan=True) and np.array_equal(aa[0], q0, equal_nan=True), "the path starts at the positions given, which are kept", **d)
            gen = ((dates[k], aa[k], bb[k]) for k in range(1, turns + 1))
        else:
            turns = rng.randint(1, min(total, 6))
            if rng.random() < 0.3:
                kw["reset_grid"] = rng.randint(0, 2)
            if mode == "advect":
                gen = g.advect(px, py, u_name="u", v_name="v", **kw)
            else:
                kw.pop("reset_grid", None)
                size = rng.randint(1, 4)
                gen = g.filament(px, py, "u", "v", filament_size=size, **kw)
        hist = [exp]
        for q in range(turns):
            s = q * nb * ts
            sa, fa, sb, fb = bracket(s)

            def flow(when, a, b):
                w = (when - sa) / (sb - sa)
                (ua, va), (ub, vb) = fa(a, b), fb(a, b)
                return ua * (1 - w) + ub * w, va * (1 - w) + vb * w
            hist.append(move(hist[-1], flow, s, ts, nb, rk4))
            tt, a, b = next(gen)
            check(abs(tt - (t * 86400 + sign * (q + 1) * nb * ts)) < 1e-3, "date of the positions, in seconds", got=tt, turn=q, **d)
            if mode == "filament":
                filament(a, b, hist, size, **d)
            else:
                same_positions(a, b, hist[-1], "positions at each date", turn=q, **d)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def targets(rng):
    """particles from the outlines of one date to the outlines of another, by a current uniform in space"""
    from py_eddy_tracker.dataset.grid import GridCollection
    from py_eddy_tracker.observations.groups import particle_candidate
    from py_eddy_tracker.observations.network import NetworkObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations
    folder = tempfile.mkdtemp(prefix="b_adv_")
    try:
        S = 0.5  # step of the particles
        nt = rng.randint(3, 5)
        days = list(range(20, 20 + nt))
        x, y = 0.37 + np.arange(16), -7.63 + np.arange(16)
        sg = rng.choice([-1, 1])
        a = [sg * rng.choice([0, 2, 2, 4]) * S for _ in range(nt)]  # degrees by day
        b = [rng.choice([-2, 0, 0, 2]) * S for _ in range(1)] * nt
        lim = rng.choice([None, rng.randint(3, 14)])
        mask = np.zeros((16, 16), bool)
        if lim is not None:
            mask[lim:] = True
        unit = math.pi * R / 180 / 86400
        paths = []
        for k in range(nt):
            paths.append(os.path.join(folder, f"g{k}.nc"))
            write(paths[-1], x, y, np.ones((16, 1)) * (a[k] * unit * np.cos(np.radians(y))), np.full((16, 16), b[k] * unit), mask)
        c = GridCollection.from_netcdf_list(paths, days, "lon", "lat")
        # outlines: boxes with bounds out of the particles, disjoint by date: one by slot
        rows = []
        for t in days:
            for k in range(3):
                if rng.random() < 0.8:
                    x0 = 1 + 4 * k + S * rng.randint(0, 2) + 0.5 * S
                    y0 = -4 + S * rng.randint(0, 3) + 0.5 * S
                    w, h = S * rng.randint(1, 5), S * rng.randint(1, 8)
                    inner = rng.choice([0, S]) if min(w, h) > 2 * S else 0
                    rows.append((t, x0, x0 + w, y0, y0 + h, inner))
        if len({r[0] for r in rows}) < 2:
            return
        rng.shuffle(rows)
        n = len(rows)
        cls = rng.choice([NetworkObservations, TrackEddiesObservations])
        e = cls(size=n, track_array_variables=5, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
        e.time[:] = [r[0] for r in rows]
        box = lambda r, i: (np.array([r[1] + i, r[2] - i, r[2] - i, r[1] + i, r[1] + i]), np.array([r[3] + i, r[3] + i, r[4] - i, r[4] - i, r[3] + i]))
        for k, r in enumerate(rows):
            e.contour_lon_e[k], e.contour_lat_e[k] = box(r, 0)
            e.contour_lon_s[k], e.contour_lat_s[k] = box(r, r[5])

        def bounds(k, speed):
            r = rows[k]
            i = r[5] if speed else 0
            return r[1] + i, r[2] - i, r[3] + i, r[4] - i

        def final(px, py, t, dt):
            """position dt days later, or None"""
            s = 1 if dt > 0 else -1
            for k in range(abs(dt)):
                q0, q1 = days.index(t + s * k), days.index(t + s * (k + 1))
                for f in range(7):
                    z = f / 6
                    # integral of the current linear in time
                    here = px + s * (a[q0] * z + (a[q1] - a[q0]) * z * z / 2), py + s * (b[q0] * z + (b[q1] - b[q0]) * z * z / 2)
                    i, j = math.floor(here[0] - x[0]), math.floor(here[1] - y[0])
                    if i < 0 or j < 0 or i + 1 >= 16 or j + 1 >= 16 or mask[i + 1, j]:
                        return None
                px, py = here
            return px, py

        def expected(k, t, dt, s0, s1):
            """percents by target"""
            x0, x1, y0, y1 = bounds(k, s0)
            pts = [(i * S, j * S) for i in range(math.floor(x0 / S), math.ceil(x1 / S) + 1) for j in range(math.floor(y0 / S), math.ceil(y1 / S) + 1) if x0 < i * S < x1 and y0 < j * S < y1]
            ends = [final(*p, t, dt) for p in pts]
            out = {}
            for q in [q for q in range(n) if rows[q][0] == t + dt]:
                u0, u1, v0, v1 = bounds(q, s1)
                nb = sum(p is not None and u0 < p[0] < u1 and v0 < p[1] < v1 for p in ends)
                if nb:
                    out[q] = nb / len(pts) * 100
            return out

        def compare(k, it, pc, exp, trunc, **d):
            best = sorted(exp.values(), reverse=True)[:2]
            d.update(origin=k, got=(it[k].tolist(), pc[k].tolist()), expected=exp, rows=rows, a=a, b=b, lim=lim)
            for r in range(2):
                if r >= len(best):
                    check(it[k, r] == -1 and pc[k, r] == 0, "no target without particle", rank=r, **d)
                else:
                    check(int(it[k, r]) in exp and abs(exp[int(it[k, r])] - best[r]) < 1e-6, "targets with the most particles first", rank=r, **d)
                    check(abs(float(pc[k, r]) - (math.floor(best[r] + 1e-9) if trunc else best[r])) < 1e-4, "percents of the particles of the origin", rank=r, **d)
            if len(best) == 2:
                check(it[k, 0] != it[k, 1], "two targets", **d)
        kw = dict(u_name="u", v_name="v")
        if rng.random() < 0.5:
            back = rng.random() < 0.4
            nd = rng.randint(1, nt - 1)
            t = days[rng.randint(nd, nt - 1)] if back else days[rng.randint(0, nt - 1 - nd)]
            dt = -nd if back else nd
            if not any(r[0] == t for r in rows) or not any(r[0] == t + dt for r in rows):
                return
            s0, s1 = rng.choice([("speed", "effective"), ("effective", "speed"), ("effective", "effective")])
            it, pc = np.full((n, 2), -1, "i4"), np.zeros((n, 2), "f8")
            particle_candidate(c, e, S, t, it, pc, contour_start=s0, contour_end=s1, n_days=dt, **kw)
            for k in range(n):
                if rows[k][0] != t:
                    check((it[k] == -1).all() and (pc[k] == 0).all(), "only the origins of the date have targets", origin=k, got=(it, pc), rows=rows)
                else:
                    compare(k, it, pc, expected(k, t, dt, s0 == "speed", s1 == "speed"), False, t=t, dt=dt, outlines=(s0, s1))
        else:
            back = rng.random() < 0.4
            nd = rng.randint(1, nt - 1)
            dt = -nd if back else nd
            s0, s1 = rng.random() < 0.5, rng.random() < 0.5
            it, pc = e.particle_candidate_atlas(c, S, dt, start_intern=s0, end_intern=s1, **kw, **(dict(backward=True) if back else {}))
            check(it.shape == pc.shape == (n, 2), "one row by observation")
            first, last = min(r[0] for r in rows), max(r[0] for r in rows)
            for k in range(n):
                t = rows[k][0]
                if not first <= t + dt <= last:
                    check((it[k] == -1).all() and (pc[k] == 0).all(), "no target out of the dates", origin=k, got=(it, pc), rows=rows, dt=dt)
                elif max(t, t + dt) < last:
                    compare(k, it, pc, expected(k, t, dt, s0, s1), True, t=t, dt=dt, outlines=(s0, s1))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
