"""development helper: python3-vt -m vc.devb name [n]"""
import json
import random
import sys
import time

from props import bounded
from .real import Real

real = Real()
for nm in sys.argv[1].split(","):
    b = getattr(bounded, nm)
    t = time.time()
    rep, n = b.fuzz(real, random.Random(1), int(sys.argv[2]) if len(sys.argv) > 2 else b.n_quick, 300)
    print(nm, "OK" if rep is None else json.dumps(rep, indent=1, default=repr), n, round(time.time() - t, 1))
