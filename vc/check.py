"""python3-vt -m vc.check <property> [--tier quick|thorough]

Decides one property: every contract and lemma of the property is proved again from /repo's current source.
exit 0: everything explored holds; exit 1: VIOLATION line.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

from .contract import Contract, jsonable
from .lemma import Lemma
from .real import Real
from .source import Source

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rc = 1
    try:
        rc = Check(pid, tier, seed, t0).run()
    except BaseException as e:  # an internal failure is never a silent pass
        tb = traceback.format_exc()
        path = write_replay(pid, {"internal": tb, "failed_obligation": "internal error of the verifier: the property was not decided"})
        print(tb)
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        write_evidence(pid, tier, seed, {"obligations": 0, "discharged": 0, "checker_cmd": "internal error", "trusted_base": []}, [str(e)], time.time() - t0, 1)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def write_replay(pid, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    rec = dict(rec, property=pid)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=repr)
    return path


def write_evidence(pid, tier, seed, cov, assumptions, wall, violations, level="proof"):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations},
                  f, indent=1, default=repr)


class Light:
    """an obligation without its terms (crosses process boundaries)"""

    def __init__(self, o):
        self.name, self.kind, self.status, self.time, self.backend, self.where = o.name, o.kind, o.status, o.time, o.backend, o.where
        self.goal = str(o.goal)[:600] if o.status != "proved" else ""


def prove_one(c, reg, thorough, wall, procs):
    t0 = time.time()
    r = c.prove(Source(), reg, timeout=c.timeout * (5 if thorough else 1), wall=wall, procs=procs)
    if r["status"] == "failed":
        # give the solver a second, longer chance before reporting
        bad = [o for o in r["obligations"] if o.status == "unknown"]
        if bad and len(bad) <= 10 and time.time() - t0 < wall - 60:
            from .solve import discharge
            discharge(bad, c.timeout * 3, procs=procs, deadline=t0 + wall)
            if all(o.status == "proved" for o in r["obligations"]):
                r["status"] = "proved"
    r["obligations"] = [Light(o) for o in r["obligations"]]
    return r


def _child(conn, *a):
    os.setsid()  # the prover and its solvers can be stopped together
    try:
        conn.send(prove_one(*a))
    except Exception as e:  # noqa
        import traceback
        conn.send(dict(status="untranslated", obligations=[], trusted=[], functions={}, wall=0.0, error=f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}"))
    conn.close()


class Background:
    """runs on the compiled code, in processes of their own while the proofs are made: the bounded stand-ins, and the seeded cross-check of the contracts"""

    def __init__(self, chk, kn, bounded, contracts):
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        self.byname = {c.key: c for c in list(bounded) + list(contracts)}
        self.out, self.viol, self.t_viol, self.errors = dict(bounded=[], cross_check=[]), None, 0.0, []
        self.jobs = []
        for name, fn, items in (("bounded", self._bounded, bounded), ("cross_check", self._cross, [c for c in contracts if c.gen is not None and c.real])):
            if items:
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=self._run, args=(w, fn, chk, kn, items))
                p.start()
                w.close()
                self.jobs.append([name, p, r, True])

    @staticmethod
    def _run(conn, fn, chk, kn, items):
        os.setsid()
        real = Real()
        try:
            for msg in fn(chk, kn, real, items):
                conn.send(msg)
        except Exception:  # noqa
            conn.send(("error", traceback.format_exc()[-1500:], None))
        real.close()
        conn.close()

    @staticmethod
    def _bounded(chk, kn, real, items):
        for b in items:
            left = chk.left()
            if left < 20:
                yield ("row", dict(name=b.key, skipped="time"), None)
                continue
            rep, n = b.fuzz(real, random.Random(chk.seed), b.n_thorough if chk.thorough else b.n_quick, min(left - 15, b.wall_thorough if chk.thorough else b.wall_quick), known=kn.match)
            yield ("row", dict(name=b.key, bound=b.bound, inputs=n, evaluated=b.evals), (b.key, rep) if rep is not None else None)
            if rep is not None:
                return

    @staticmethod
    def _cross(chk, kn, real, items):
        end = time.time() + (chk.left() - 60) * (0.45 if not chk.thorough else 0.25)
        for k, c in enumerate(items):
            n = getattr(c, "fuzz_n", 150) * (40 if chk.thorough else 1)
            share = max(4.0, (end - time.time()) / (len(items) - k))
            rep, done = c.fuzz(real, random.Random(chk.seed), n, share if chk.thorough else min(60.0, share), known=kn.match)
            yield ("row", dict(contract=c.key, inputs=done, precondition_met=c.evals), (c.key, rep) if rep is not None else None)
            if rep is not None:
                return

    def poll(self):
        for job in self.jobs:
            name, p, r, alive = job
            while job[3] and r.poll(0):
                try:
                    kind, row, bad = r.recv()
                except EOFError:
                    job[3] = False
                    p.join()
                    if p.exitcode != 0:
                        self.errors.append(f"{name}: the process ended with {p.exitcode}")
                    break
                if kind == "error":
                    self.errors.append(f"{name}: {row}")
                    continue
                self.out[name].append(row)
                if bad is not None and self.viol is None:
                    self.viol, self.t_viol = (self.byname[bad[0]], bad[1]), time.time()

    def wait(self, limit):
        """until everything ran, or a violation is known"""
        end = time.time() + limit
        self.poll()
        while self.viol is None and any(j[3] for j in self.jobs) and time.time() < end:
            time.sleep(0.1)
            self.poll()

    def stop(self, grace):
        self.poll()
        return self.viol is not None and time.time() > self.t_viol + grace

    def close(self):
        for name, p, r, alive in self.jobs:
            if alive:
                self.out[name].append(dict(skipped="time"))
                kill_group(p)


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()
    p.join()


def prove_all(contracts, reg, thorough, left, stop=lambda: False, width=3):
    """the contracts are independent: a few at a time, in processes of their own; the longest first.
    stop: the property is known to be violated by an input of the real code, and the proofs had time to name an obligation"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    queue = sorted(contracts, key=lambda c: -c.cost)
    out, running = {}, []
    procs = 8 if len(queue) == 1 else 4
    while queue or running:
        if stop():
            for c, p, r in running:
                kill_group(p)
            for c in queue + [it[0] for it in running]:
                out[c.key] = dict(status="stopped", obligations=[], trusted=[], functions={}, wall=0.0, error="a failing input of the real code was found first")
            break
        while queue and len(running) < width:
            c = queue.pop(0)
            # keep time for the search of a failing input; share what is left when there is more than one batch to go
            wall = max(30, left() - 200 if not thorough else left() - 600)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, c, reg, thorough, wall, procs))
            p.start()
            w.close()
            running.append((c, p, r))
        for it in list(running):
            c, p, r = it
            if r.poll(0.05):
                try:
                    out[c.key] = r.recv()
                except EOFError:
                    out[c.key] = dict(status="untranslated", obligations=[], trusted=[], functions={}, wall=0.0, error="the prover process ended without a result")
                p.join()
                running.remove(it)
                break
    return out


BASE_ASSUMPTIONS = [
    "Python/numpy integers (u4, i8, u2 ... columns) are mathematical integers: no wrap-around of machine integers.",
    "machine floats are exact reals plus an explicit nan flag: no rounding and no infinities in the proofs (the replay runs on machine floats with a tolerance).",
    "numba compiles the verified Python text faithfully (the proofs read the Python source; replay and the seeded cross-check run the compiled code with bounds checking on).",
    "unchanged-by-aliasing: two array parameters of one call do not overlap in memory unless the contract says so.",
]


class Check:
    def __init__(self, pid, tier, seed, t0):
        from props import spec
        self.pid, self.tier, self.seed, self.t0 = pid, tier, seed, t0
        self.p = spec.PROPS[pid]
        self.thorough = tier == "thorough"
        self.limit = 5 * 3600 if self.thorough else 780
        self.real = None
        self.violations = []

    def left(self):
        return self.t0 + self.limit - time.time()

    def get_real(self):
        if self.real is None:
            self.real = Real()
        return self.real

    def run(self):
        from props import registry
        reg = registry.load()
        p = self.p
        contracts = [resolve(n) for n in p["contracts"]]
        lemmas = [resolve(n) for n in p.get("lemmas", [])]
        bounded = [resolve(n) for n in p.get("bounded", [])]
        proofs, failed = [], []
        kn = KnownFindings(self.pid)
        cov = dict(obligations=0, discharged=0, functions_under_contract=[], contracts=[], back_ends={}, solver_time_s=0.0, lemmas=[], bounded=[], cross_check=[])
        trusted = set()
        back = Counter()
        stime = 0.0
        seenfn = {}
        todo = [c for c in contracts if c.proof]
        bg = Background(self, kn, bounded, contracts)
        results = prove_all(todo, reg, self.thorough, lambda: self.left(), lambda: bg.stop(60))
        for c in todo:
            r = results[c.key]
            obs = r["obligations"]
            cov["obligations"] += len(obs)
            ok = sum(o.status == "proved" for o in obs)
            cov["discharged"] += ok
            for o in obs:
                if o.status == "proved":
                    back[o.backend] += 1
                stime += o.time
            trusted |= set(r["trusted"])
            seenfn.update(r["functions"])
            cov["contracts"].append(dict(contract=c.key, function=c.fn, status=r["status"], obligations=len(obs), discharged=ok, paths=r.get("paths"), completed_paths=r.get("completed_paths"),
                                         wall_s=round(r["wall"], 2), error=r["error"], contracts_used=r.get("contracts_used", []), hints=r.get("hints")))
            print(f"[{self.pid}] {c.key}: {r['status']} {ok}/{len(obs)} obligations, {r['wall']:.1f}s {r['error'] or ''}", flush=True)
            if r["status"] == "proved" and not r.get("completed_paths"):
                r["status"], r["error"] = "vacuous", "no path reaches the end of the function"
            if r["status"] not in ("proved", "stopped"):
                failed.append((c, r))
            proofs.append((c, r))
        for lm in lemmas:
            r = lm.prove()
            cov["obligations"] += r["n"]
            cov["discharged"] += r["ok"]
            stime += r["time"]
            for b in r["back"]:
                back[b] += 1
            cov["lemmas"].append(dict(lemma=lm.name, status=r["status"]))
            print(f"[{self.pid}] lemma {lm.name}: {r['status']}", flush=True)
            if r["status"] != "proved":
                failed.append((lm, r))
        viol = None
        # failed proofs: look for a failing input of the real code, among those of the background runs or for the contract that fails
        nofail = None
        if failed:
            bg.wait(self.left() - 200)
        else:
            bg.wait(self.left() - 15)
        for c, r in failed:
            if bg.viol is not None:
                break
            if isinstance(c, Lemma):
                nofail = nofail or (c, r)
                continue
            rep = self.search(c, r, kn)
            if rep is not None:
                viol = (c, r, rep)
                break
            nofail = nofail or (c, r)
            bg.poll()
        if viol is None and bg.viol is None:
            bg.wait(self.left() - 15)
        bg.close()
        if viol is None and bg.viol is not None:
            c, rep = bg.viol
            viol = (c, next((r for c2, r in failed if c2.key == c.key), None) if isinstance(c, Contract) else next((r for c2, r in failed), None), rep)
        for row in bg.out["bounded"]:
            if row.get("inputs") and not row["evaluated"] and nofail is None and viol is None:
                nofail = (bg.byname[row["name"]], dict(status="not decided", error="no input could be run: the functions called by this scenario are not there any more, or take other parameters"))
        if bg.errors and viol is None and nofail is None:
            raise RuntimeError("; ".join(bg.errors))
        cov.update(bg.out)
        for row in cov["bounded"]:
            print(f"[{self.pid}] bounded {row.get('name', '')}: {row.get('inputs', 0)} inputs", flush=True)
        print(f"[{self.pid}] cross-check on the compiled code: {sum(x.get('precondition_met', 0) for x in cov['cross_check'])} runs", flush=True)
        for line in kn.report(self.get_real):
            print(line)
        cov["functions_under_contract"] = sorted({c.fn for c in contracts})
        cov["functions_translated"] = sorted(seenfn)
        cov["back_ends"] = dict(back)
        cov["solver_time_s"] = round(stime, 2)
        cov["checker_cmd"] = f"python3-vt -m vc.check {self.pid} --tier {self.tier}"
        cov["trusted_base"] = ["vc/: verification-condition generator for the Python/numpy subset (this repository)", "z3 / cvc5", "CPython ast module"] + sorted(trusted)
        cov["known_findings"] = kn.lines
        assumptions = BASE_ASSUMPTIONS + list(self.p.get("assumptions", []))
        if self.p.get("not_covered"):
            cov["not_covered"] = self.p["not_covered"]
        nv = 0
        if viol is not None:
            c, r, rep = viol
            rec = dict(rep)
            if r is not None:
                rec["failed_obligations"] = describe(r)
            path = write_replay(self.pid, rec)
            nv = 1
            print(f"{c.key}: violated: {rep.get('violated')}")
            print(f"VIOLATION property={self.pid} replay={path}")
        elif nofail is not None:
            c, r = nofail
            rec = dict(contract=getattr(c, "key", getattr(c, "name", "")), function=getattr(c, "fn", None), failed_obligation=(describe(r) or [dict(name=r.get("error"))])[0].get("name"),
                       failed_obligations=describe(r), status=r["status"], verifier_output=r.get("error"))
            path = write_replay(self.pid, rec)
            nv = 1
            print(f"{rec['contract']}: not proved: {rec['failed_obligation']}")
            print(f"VIOLATION property={self.pid} replay={path} no-failing-input-found")
        write_evidence(self.pid, self.tier, self.seed, cov, assumptions, time.time() - self.t0, nv, level=self.p.get("level", "proof"))
        if self.real is not None:
            self.real.close()
        return 1 if nv else 0

    def search(self, c, r, kn):
        rep = None
        left = self.left()
        if c.gen is not None and c.real and left > 20:
            rep, n = c.fuzz(self.get_real(), random.Random(self.seed), 250, min(45, left - 10), known=kn.match)
        if rep is None and c.bmc and c.real and self.left() > 40:
            try:
                rep = c.refute(Source(), self.get_real(), wall=min(90 if not self.thorough else 600, self.left() - 30), known=kn.match)
            except Exception as e:  # search only: the failed proof is reported in any case
                print("search:", type(e).__name__, e)
        if rep is None and c.gen is not None and c.real and self.left() > 40:
            rep, n = c.fuzz(self.get_real(), random.Random(self.seed + 1), 4000, min(60 if not self.thorough else 900, self.left() - 20), known=kn.match)
        return rep


def describe(r):
    return [dict(name=o.name, status=o.status, backend=o.backend, line=o.where, goal=str(o.goal)[:600]) for o in r.get("obligations", []) if o.status != "proved"][:20]


def resolve(name):
    import importlib
    m, n = name.rsplit(".", 1)
    return getattr(importlib.import_module("props." + m), n)


class KnownFindings:
    """entries of /verif/known_findings.json; `finding` entries have a probe that demonstrates them on the real code"""

    def __init__(self, pid):
        self.lines = []
        path = os.path.join(VERIF, "known_findings.json")
        self.entries = []
        if os.path.exists(path):
            with open(path) as f:
                self.entries = [e for e in json.load(f)["findings"] if e["property"] == pid]

    def match(self, rep):
        from props import findings
        return any(e["id"] in findings.MATCH and findings.MATCH[e["id"]](rep) for e in self.entries)

    def report(self, get_real):
        from props import findings
        for e in self.entries:
            if findings.PROBE[e["id"]](get_real()):
                line = f"KNOWN-FINDING: property={e['property']} {e['what']}"
                self.lines.append(line)
                yield line


if __name__ == "__main__":
    main()
