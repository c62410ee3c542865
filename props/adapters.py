"""Run by vc/worker.py in the repository's interpreter: thin calls of the real code whose results need external libraries to be interpreted."""
import os

import numpy as np


def vertice_overlap(x0, y0, x1, y1, minimal_area, p1_area, hybrid_area, min_overlap):
    """-> costs of the real function, and the areas of the outlines brought in one turn (Polygon library)"""
    from Polygon import Polygon
    from py_eddy_tracker.poly import vertice_overlap as f
    cost = f(x0, y0, x1, y1, minimal_area=minimal_area, p1_area=p1_area, hybrid_area=hybrid_area, min_overlap=min_overlap)
    out = []
    for a, b, c, d in zip(x0, y0, x1, y1):
        if abs(a[0] - c[0]) > 180:
            c = c - 360 * np.round((c[0] - a[0]) / 360)
        p, q = Polygon(np.stack([a, b], axis=1)), Polygon(np.stack([c, d], axis=1))
        out.append(((p & q).area(), p.area(), q.area()))
    return cost, np.array(out).reshape(-1, 3)


def polygon_overlap(x0, y0, x1, y1, minimal_area):
    from Polygon import Polygon
    from py_eddy_tracker.poly import polygon_overlap as f
    p = Polygon(np.stack([x0, y0], axis=1))
    qs = [Polygon(np.stack([a, b], axis=1)) for a, b in zip(x1, y1)]
    return f(p, qs, minimal_area), np.array([((p & q).area(), p.area(), q.area()) for q in qs]).reshape(-1, 3)


def same_position(x0, y0, t0, x1, y1, t1, i00, i01, i0, i1):
    from numba.typed import List
    from py_eddy_tracker.observations.network import same_position as f
    a, b = List(), List()
    for k in i0:
        a.append(np.asarray(k))
    for k in i1:
        b.append(np.asarray(k))
    return f(x0, y0, t0, x1, y1, t1, i00, i01, a, b)


class Bad(Exception):
    """the oracle disagrees with the real code"""

    def __init__(self, what, **details):
        super().__init__(what)
        self.what, self.details = what, details


def check(cond, what, **details):
    if not cond:
        raise Bad(what, **details)


def interface(e):
    """the call of the scenario itself does not fit the code any more (a function renamed, moved, with other parameters): nothing is decided"""
    import traceback
    if isinstance(e, ImportError):
        return True
    last = traceback.extract_tb(e.__traceback__)[-1].filename
    if os.sep + "props" + os.sep not in last:
        return False
    return isinstance(e, TypeError) and "argument" in str(e) or isinstance(e, AttributeError) and str(e).startswith("module ")


def scenario(module, name, seed, start, n, wall=1e9):
    import importlib
    import random
    import time
    import traceback
    import warnings
    warnings.simplefilter("ignore")
    f = getattr(importlib.import_module("props." + module), name)
    t0 = time.time()
    done = skipped = 0
    for k in range(start, start + n):
        if done and time.time() - t0 > wall:
            break
        np.random.seed((seed * 7919 + k) % 2 ** 32)
        rng = random.Random(f"{seed}-{k}")
        try:
            f(rng)
        except Bad as e:
            return dict(done=done, skipped=skipped, k=k, bad=dict(violated=e.what, details={a: repr(b)[:1500] for a, b in e.details.items()}))
        except Exception as e:
            if interface(e):
                skipped += 1
                done += 1
                continue
            return dict(done=done, skipped=skipped, k=k, bad=dict(violated="terminates without an exception", exception=type(e).__name__, message=str(e)[:300], traceback=traceback.format_exc()[-1500:]))
        done += 1
    return dict(done=done, skipped=skipped, k=None, bad=None)
