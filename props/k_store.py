"""Contracts on the storage of observations (observations/observation.py)"""
from vc.contract import SL

from .common import *

OB = "observations.observation:EddiesObservations."


def _raw(s, v):
    o = s.old
    return rround((v * o.factor - o.add_offset) / o.scale_factor)


def _copied(s, upto, value):
    """elements of the slice are copied, in order, up to a position of the file"""
    a = s.old.sl_obs.start
    a = 0 if a is None else a
    return forall(a, upto, lambda i: s.handler_eddies[i - a] == value(s.old.handler_zarr[i]))


def _bounds(s):
    a, b = s.sl_obs.start, s.sl_obs.stop
    a, b = 0 if a is None else a, s.dim_n if b is None else b
    return a, b


def _copy(key, sl, raw, value, out, **kw):
    def gen(rng, k):
        n = rng.randint(0, 8)
        if sl == "part":
            a = rng.randint(0, n)
            q = slice(a, rng.randint(a, n))
        else:
            a, q = 0, slice(None)
        m = (q.stop if q.stop is not None else n) - a
        d = dict(handler_zarr=rng_floats(rng, n, 0, 50, 0.5), handler_eddies=np.zeros(m, dtype="i8" if raw else "f8"), sl_obs=q, buffer_size=rng.randint(1, 4), factor=rng.choice([1.0, 2.0]), raw_data=raw)
        d.update(scale_factor=0.5 if raw else None, add_offset=rng.choice([0.5, 10.0]) if raw else None)
        return d

    def room(s):
        a, b = _bounds(s)
        return And(0 <= a, a <= b, b <= s.dim_n, s.handler_eddies.n == b - a)

    def done(s):
        b = _NS(s).hi
        return _copied(s, b, lambda v: value(s, v))
    return Contract(
        OB + "copy_data_to_zarr", dict(handler_zarr=P("real", "n"), handler_eddies=P("int" if raw else "real", "p"), sl_obs=SL() if sl == "part" else C(slice(None)), buffer_size=S("int"), factor=S("real"), raw_data=C(raw),
                                       scale_factor=S("real") if raw else C(None), add_offset=S("real") if raw else C(None)), key=key,
        requires=[("the output has the size of the slice", room), lambda s: s.buffer_size >= 1] + ([lambda s: s.scale_factor > 0] if raw else []),
        ensures=[("each value of the slice, in order, with its unit" + (", packed" if raw else ""), done)],
        loops={0: [lambda s: forall(_NS(s).lo, _NS(s).at(s.it), lambda i: s.handler_eddies[i - _NS(s).lo] == value(s, s.old.handler_zarr[i])),
                   lambda s: forall(_NS(s).at(s.it), s.dim_n, lambda i: s.handler_zarr[i] == s.old.handler_zarr[i])]},
        gen=gen, **kw)


class _NS:
    """bounds of the slice and position in the file at a state"""

    def __init__(self, s):
        self.sl_obs, self.dim_n = s.old.sl_obs, s.dim_n
        self.lo, self.hi = _bounds(self)

    def at(self, it):
        """first position not copied"""
        return If(it < self.hi, it, self.hi)


copy_all = _copy("copy_all", "all", False, lambda s, v: v * s.old.factor, "real")
copy_part = _copy("copy_part", "part", False, lambda s, v: v * s.old.factor, "real")
copy_raw = _copy("copy_raw", "part", True, _raw, "int")
