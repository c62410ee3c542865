"""Discharge of obligations: z3 (API, several configurations), then cvc5; 8 processes."""
import multiprocessing as mp
import os
import subprocess
import tempfile
import time

import z3


def to_smt(pc, goal):
    s = z3.Solver()
    for c in pc:
        s.add(c)
    if goal is False:
        pass
    else:
        s.add(z3.Not(goal))
    return s.to_smt2()


CONFIGS = [
    ("z3/ematching", {"auto_config": False, "smt.mbqi": False}),
    ("z3/default", {}),
    ("z3/ematching-seed", {"auto_config": False, "smt.mbqi": False, "smt.random_seed": 7, "smt.arith.solver": 2}),
]


def try_z3(smt, opts, ms):
    try:
        s = z3.Solver(ctx=z3.Context())
        s.set("timeout", max(200, int(ms)))
        for k, v in opts.items():
            s.set(k, v)
        s.from_string(smt)
        r = s.check()
    except z3.Z3Exception as e:
        return f"error {e}"
    return "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"


def try_cvc5(smt, secs):
    path = None
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + "\n".join(l for l in smt.splitlines() if not l.startswith("(set-info")))
            path = f.name
        p = subprocess.run(["cvc5", "--tlimit", str(int(secs * 1000)), path], capture_output=True, text=True, timeout=secs + 5)
        return "proved" if p.stdout.startswith("unsat") else "refuted" if p.stdout.startswith("sat") else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        if path:
            try:
                os.unlink(path)
            except OSError:
                pass


def _default(seed):
    return (f"z3/default#{seed}", {"smt.random_seed": seed, "smt.arith.random_initial_value": True} if seed else {})


# (configuration, seconds) rounds: run times of quantified goals are heavy-tailed, several short runs with other seeds beat a long one
SCHEDULE = [(CONFIGS[0], 0.6), (CONFIGS[1], 0.6), (CONFIGS[2], 0.6), (_default(1), 1.0), (_default(2), 1.0), (CONFIGS[0], 3.0), (CONFIGS[1], 2.0), ("cvc5", 3.0), (_default(3), 2.0), (_default(4), 2.0), (_default(5), 2.0),
            (CONFIGS[2], 3.0), (_default(6), 4.0), (_default(7), 4.0), ("cvc5", 12.0), (CONFIGS[0], 12.0), (CONFIGS[1], 12.0), (_default(8), 12.0), (CONFIGS[2], 12.0), ("cvc5", 40.0), (_default(9), 40.0), (CONFIGS[0], 40.0)]


def solve_one(job):
    """escalating rounds over the back ends; `timeout` bounds the total"""
    key, smt, timeout = job
    t0 = time.time()
    back = "timeout"
    for cfg, per in SCHEDULE:
        left = timeout - (time.time() - t0)
        if left < 0.2:
            break
        if cfg == "cvc5":
            if left > 0.5:
                r = try_cvc5(smt, min(per, left))
                if r in ("proved", "refuted"):
                    return key, r, "cvc5", time.time() - t0
            continue
        nm, opts = cfg
        r = try_z3(smt, opts, 1000 * min(per, left))
        if r in ("proved", "refuted"):
            return key, r, nm.split("#")[0], time.time() - t0
        if r.startswith("error"):
            back = r
    return key, "unknown", back, time.time() - t0


def _init():
    z3.set_param("memory_max_size", 3000)


def split_goal(goal, depth=0, hyps=(), ctr=None):
    """equivalent list of (extra hypotheses, smaller goal)"""
    ctr = ctr if ctr is not None else [0]
    if not z3.is_expr(goal) or depth > 12:
        return [(list(hyps), goal)]
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = []
        for i in range(goal.num_vars()):
            ctr[0] += 1
            cs.append(z3.Const(f"sk!{ctr[0]}", goal.var_sort(i)))
        body = z3.substitute_vars(goal.body(), *reversed(cs))
        out = []
        for h, g in split_goal(body, depth + 1, hyps, ctr):
            cases = [(h, g)]
            for c in cs:
                if c.sort() != z3.IntSort():
                    continue
                top = upper(h[len(hyps):], c)
                if top is not None:
                    new = []
                    for x, y in cases:
                        last = z3.simplify(top - 1)
                        new.append(([z3.substitute(q, (c, last)) for q in x], z3.substitute(y, (c, last))))
                        new.append((x + [c < last], y))
                    cases = new
            out.extend(cases)
        return out
    k = goal.decl().kind() if z3.is_app(goal) else None
    if k == z3.Z3_OP_AND:
        out = []
        for i in range(goal.num_args()):
            out.extend(split_goal(goal.arg(i), depth + 1, hyps, ctr))
        return out
    if k == z3.Z3_OP_IMPLIES:
        return split_goal(goal.arg(1), depth + 1, list(hyps) + conjuncts(goal.arg(0)), ctr)
    if k == z3.Z3_OP_OR and goal.num_args() > 1:
        # last disjunct is the goal, negations of the others are hypotheses, when the others are literals
        rest = [goal.arg(i) for i in range(goal.num_args())]
        comp = [x for x in rest if is_compound(x)]
        if len(comp) == 1:
            return split_goal(comp[0], depth + 1, list(hyps) + [z3.Not(x) for x in rest if not x.eq(comp[0])], ctr)
    if k == z3.Z3_OP_NOT and z3.is_app(goal.arg(0)) and goal.arg(0).decl().kind() == z3.Z3_OP_OR:
        a = goal.arg(0)
        out = []
        for i in range(a.num_args()):
            out.extend(split_goal(z3.Not(a.arg(i)), depth + 1, hyps, ctr))
        return out
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(goal.arg(0)):
        a, b = goal.arg(0), goal.arg(1)
        return split_goal(b, depth + 1, list(hyps) + conjuncts(a), ctr) + split_goal(a, depth + 1, list(hyps) + conjuncts(b), ctr)
    if k == z3.Z3_OP_ITE:
        c, a, b = goal.children()
        return split_goal(a, depth + 1, list(hyps) + conjuncts(c), ctr) + split_goal(b, depth + 1, list(hyps) + [z3.Not(c)], ctr)
    return [(list(hyps), goal)]


def hints(pc, hyps, goal):
    """ground terms f(c) for the skolem constants c of the goal, to seed e-matching (under a fresh predicate: adds no fact)"""
    sks, fns, seen = {}, {}, set()
    todo = [(x, True) for x in hyps] + [(goal, True)] + [(x, False) for x in pc]
    while todo:
        x, g = todo.pop()
        i = (x.get_id(), g)
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append((x.body(), g))
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            d = x.decl()
            if d.arity() == 0 and d.name().startswith("sk!") and x.sort() == z3.IntSort():
                sks[d.name()] = x
            elif 1 <= d.arity() <= 2 and all(d.domain(k) == z3.IntSort() for k in range(d.arity())):
                fns[d.name()] = d
        todo.extend((c, g) for c in x.children())
    out = []
    cs = list(sks.values())
    for d in list(fns.values())[:40]:
        p = z3.Function("hint!" + d.range().name(), d.range(), z3.BoolSort())
        if d.arity() == 1:
            out.extend(p(d(c)) for c in cs[:4])
        else:
            out.extend(p(d(a, b)) for a in cs[:3] for b in cs[:3])
    return out


def is_compound(x):
    return z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE))


def conjuncts(c):
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_AND:
        return [y for i in range(c.num_args()) for y in conjuncts(c.arg(i))]
    return [c]


def upper(hyps, c):
    for h in hyps:
        if z3.is_app(h) and h.num_args() == 2:
            a, b = h.arg(0), h.arg(1)
            k = h.decl().kind()
            if k == z3.Z3_OP_LT and a.eq(c):
                return b
            if k == z3.Z3_OP_GT and b.eq(c):
                return a
            if k == z3.Z3_OP_LE and a.eq(c):
                return b + 1
    return None


_SHARED = {}


def _job(job):
    """in a worker: build the query from the obligation inherited at fork time, then solve it"""
    key, timeout = job
    if time.time() > _SHARED["deadline"]:
        return key, "unknown", "deadline", 0.0
    try:
        smt = to_smt(*_SHARED["q"][key]())
    except Exception as e:  # noqa
        return key, "unknown", f"error: {type(e).__name__}: {e}", 0.0
    return solve_one((key, smt, max(0.5, min(timeout, _SHARED["deadline"] - time.time()))))


def discharge(obligations, timeout=20.0, procs=8, first=2.5, deadline=None, max_bad=12):
    """obligations: list of Obligation; fills status/backend/time.  A goal that resists a first short attempt is split into smaller ones.
    Stops (obligations left unknown) at the deadline, or when max_bad obligations have resisted everything."""
    todo = [o for o in obligations if o.status != "proved"]
    if not todo:
        return
    ctx = mp.get_context("fork")
    deadline = deadline or time.time() + 86400
    pools = []

    def run(queries, tmo):
        _SHARED["q"], _SHARED["deadline"] = queries, deadline
        jobs = [(k, tmo) for k in queries]
        if len(jobs) == 1:
            return map(_job, jobs)
        pools.append(ctx.Pool(min(procs, len(jobs)), initializer=_init))
        return pools[-1].imap_unordered(_job, jobs)

    try:
        for key, st, back, t in run({i: (lambda o=o: (o.pc, o.goal)) for i, o in enumerate(todo)}, min(first, timeout)):
            o = todo[key]
            o.status, o.backend, o.time = st, back, t
        for p in pools:
            p.terminate()
        left = [o for o in todo if o.status == "unknown" and o.backend != "deadline"]
        if not left or timeout <= first or time.time() > deadline:
            return
        queries, parts, subs = {}, {}, {}
        for i, o in enumerate(left):
            sub = split_goal(o.goal) if o.goal is not False else [([], False)]
            if len(sub) > 300:
                sub = [([], o.goal)]
            parts[i], subs[i] = len(sub), sub
            for j, (h, g) in enumerate(sub):
                queries[i, j] = lambda o=o, h=h, g=g: (o.pc + h + (hints(o.pc, h, g) if g is not False else []), g)
        bad = {}
        for (i, j), st, back, t in run(queries, timeout):
            o = left[i]
            o.time += t
            if st == "proved":
                parts[i] -= 1
                o.backend = back + "+split"
            else:
                bad[i] = st if bad.get(i) != "refuted" else "refuted"
                if os.environ.get("VC_DEBUG"):
                    print("SUB", o.name, st, back, round(t, 1), [str(x)[:200] for x in subs[i][j][0]], "GOAL", str(subs[i][j][1])[:900])
                if len(bad) >= max_bad:
                    break
        for i, o in enumerate(left):
            o.status = "proved" if parts[i] == 0 else bad.get(i, "unknown")
    finally:
        for p in pools:
            p.terminate()
