"""All contracts usable at call sites."""
import importlib
import os

from vc.contract import Contract


def modules():
    d = os.path.dirname(os.path.abspath(__file__))
    return sorted(f[:-3] for f in os.listdir(d) if f.startswith("k_") and f.endswith(".py"))


def load():
    reg = {}
    for m in modules():
        mod = importlib.import_module("props." + m)
        for nm, c in vars(mod).items():
            if isinstance(c, Contract) and c.proof and (c.result is not None or c._apply is not None) and c.fn not in reg:
                reg[c.fn] = c
    return reg
