"""development helper: python3-vt -m vc.dev props.k_generic name [name...]"""
import importlib
import os
import random
import sys
import time

from .contract import Contract
from .real import Real
from .source import Source

REGISTRY = {}


def main():
    mod = importlib.import_module(sys.argv[1])
    names = sys.argv[2:]
    from props import registry
    reg = registry.load()
    real = Real()
    tot = time.time()
    for nm, c in list(vars(mod).items()):
        if not isinstance(c, Contract) or (names and nm not in names):
            continue
        t = time.time()
        line = nm
        if c.proof:
            r = c.prove(Source(), reg, timeout=float(os.environ["VC_T"]) if "VC_T" in os.environ else None, only=os.environ.get("VC_ONLY"))
            st = {}
            from collections import Counter
            cnt = Counter(o.status for o in r["obligations"])
            line += f" PROOF {r['status']} {dict(cnt)} paths={r.get('paths')} {time.time()-t:.1f}s"
            print(line, r["error"] or "", flush=True)
            for o in r["obligations"]:
                if o.status != "proved":
                    print("    ", o.status, o.name, o.backend, round(o.time, 1), o.where)
            slow = sorted(r["obligations"], key=lambda o: -o.time)[:2]
            if slow and slow[0].time > 3:
                print("     slow:", [(o.name, o.backend, round(o.time, 1)) for o in slow])
        else:
            print(nm, "(no proof)")
        if c.bmc and c.real:
            t = time.time()
            st = {}
            rep = c.refute(Source(), real, wall=20, stats=st)
            print("    BMC", "none" if rep is None else rep, st, f"{time.time()-t:.1f}s", flush=True)
        if c.gen:
            t = time.time()
            rep, n = c.fuzz(real, random.Random(1), 150, 25)
            print("    FUZZ", "none" if rep is None else rep, n, "evals", c.evals, f"{time.time()-t:.1f}s", flush=True)
    print("total", round(time.time() - tot, 1))


main()
