"""Lemmas over contracts: closed formulas given to the same back ends as the obligations."""
import time

import z3

from . import dsl
from .engine import Obligation
from .solve import discharge


class Lemma:
    """build() -> list of (name, [hypotheses], goal)"""

    def __init__(self, name, build, timeout=20.0):
        self.name, self.build, self.timeout = name, build, timeout
        self.key = name

    def prove(self):
        t = time.time()
        dsl.take_axioms()
        dsl._SUMS.clear()
        dsl._MODS.clear()
        dsl._IMOD.clear()
        dsl._EXT.clear()
        dsl.OPAQUE_MOD[0] = True
        dsl._fresh[0] = 0
        obs = []
        for nm, hyps, goal in self.build():
            ax = dsl.take_axioms()
            obs.append(Obligation(f"lemma:{self.name}:{nm}", "lemma", [h for h in hyps + ax if dsl.is_z3(h)], dsl.boolify(goal), None, None))
            if obs[-1].goal is True:
                obs[-1].status, obs[-1].backend = "proved", "simplifier"
        discharge(obs, self.timeout)
        ok = sum(o.status == "proved" for o in obs)
        return dict(status="proved" if obs and ok == len(obs) else "failed", obligations=obs, n=len(obs), ok=ok, time=time.time() - t, back=[o.backend for o in obs if o.status == "proved"], error=None)
