"""Bounded stand-ins: scenarios run on the real code against an executable oracle, for functions the verifier does not reach.  Never counted as proved."""
import time


class Bounded:
    """scenario(rng) in props/<module>.py, run in the repository's interpreter; it raises Bad(...) (or any exception) on a violation"""

    def __init__(self, module, name, fn, bound, n_quick=1500, n_thorough=8000, wall_quick=60, wall_thorough=900, what=""):
        self.module, self.name, self.fn, self.bound = module, name, fn, bound
        self.n_quick, self.n_thorough, self.wall_quick, self.wall_thorough = n_quick, n_thorough, wall_quick, wall_thorough
        self.key = f"{module}.{name}"
        self.what = what or name
        self.evals = 0

    def fuzz(self, real, rng, n, wall, known=None):
        t0, done, seed = time.time(), 0, rng.randint(0, 10 ** 6)
        self.evals = 0
        while done < n and time.time() - t0 < wall:
            k = min(25, n - done)
            rep = real.call("", dict(module=self.module, name=self.name, seed=seed, start=done, n=k, wall=wall - (time.time() - t0)), adapter="scenario", timeout=max(60, wall + 60))
            if "exc" in rep:
                r = dict(function=self.fn, contract=self.key, adapter="scenario", args=dict(module=self.module, name=self.name, seed=seed, start=done, n=k),
                         violated="terminates without an exception", exception=rep["exc"], message=rep.get("msg"), traceback=rep.get("tb"))
                return r, done
            res = rep["result"]
            done += res["done"]
            self.evals += res["done"] - res.get("skipped", 0)
            if res["bad"] is not None:
                r = dict(function=self.fn, contract=self.key, adapter="scenario", args=dict(module=self.module, name=self.name, seed=seed, start=res["k"], n=1), **res["bad"])
                if not (known and known(r)):
                    r["found_by"] = f"bounded scenario {self.key}, seed {seed}, input {res['k']}"
                    return r, done
                done += 1
        return None, done
