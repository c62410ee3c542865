"""Runs the REAL functions of /repo (numba-compiled, bounds checking on).  Interpreter: /opt/venv/bin/python.
Protocol on stdin/stdout: length-prefixed pickles made of plain data only."""
import importlib
import inspect
import io
import os
import pickle
import struct
import sys
import traceback

import numpy as np


KEEP = {}


class Interface(Exception):
    """the function is not there any more, or does not take these parameters"""


class RealObj:
    """object of a repository class made of given attributes"""

    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs


class Like:
    """dataset of the same fields (what new_like gives: fields to fill in)"""

    def __init__(self, other, n, *links):
        self.__dict__.update({k: np.zeros(n, dtype="i4") for k in links})
        self.obs = Table({k: np.zeros((n,) + v.shape[1:], dtype=v.dtype) for k, v in other.obs.items()})
        self.fields = list(self.obs)
        self.track = dict.get(self.obs, "track")

    def __getitem__(self, k):
        return self.obs[k]


class Table(dict):
    """fields of a structured array"""

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if isinstance(k, str) else Table({f: v[k] for f, v in self.items()})

    def __setitem__(self, k, val):
        if isinstance(k, str):
            dict.__getitem__(self, k)[:] = val  # fields of a structured array are written in place
        else:
            for f, v in self.items():
                v[k] = val[f]

    def copy(self):
        return Table({f: v.copy() for f, v in self.items()})

    @property
    def shape(self):
        return next(iter(self.values())).shape[:1]

    def __array__(self, *a, **kw):
        raise TypeError("table of fields")

    def argsort(self, order=None, kind=None):
        a = np.empty(len(next(iter(self.values()))), dtype=[(k, v.dtype, v.shape[1:]) for k, v in self.items()])
        for k, v in self.items():
            a[k] = v
        return a.argsort(order=order, kind=kind)


# stand-ins for the methods which are not the subject of a contract: selections give the mask of the observations kept, copies are plain arrays
STUBS = {"mask": {"extract_with_mask": lambda self, mask, **kw: mask, "__len__": lambda self: len(self.tracks)},
         "copy": {"new_like": classmethod(lambda cls, other, n: Like(other, n)), "__len__": lambda self: len(self.tracks)},
         "network": {"new_like": classmethod(lambda cls, other, n: Like(other, n, "next_obs", "previous_obs")), "__len__": lambda self: len(self.next_obs)},
         "table": {"__getitem__": lambda self, k: self.obs[k], "__getattr__": lambda self, k: self.obs[k], "__len__": lambda self: len(self.obs["track"])},
         "container": {"new_like": classmethod(lambda cls, other, n: Like(other, n)), "__getitem__": lambda self, k: self.observations[k], "__getattr__": lambda self, k: self.observations[k],
                       "__len__": lambda self: len(self.observations["lon"]), "coherence": lambda self, other: True, "obs": property(lambda self: self.observations)},
         "size": {"__len__": lambda self: len(self.tracks)}}


def enc(x):
    if isinstance(x, Like):
        return ("obj", "", {k: enc(v) for k, v in x.__dict__.items()})
    if isinstance(x, RealObj):
        return ("obj", x.cls, {k: enc(v) for k, v in x.attrs.items()})
    if id(x) in KEEP:
        return ("obj", "", {k: enc(getattr(x, k, None)) for k in KEEP[id(x)][1]})
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", enc(x.data), enc(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return ("rec", x.shape, {n: enc(np.ascontiguousarray(x[n])) for n in x.dtype.names})
        return ("nd", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ("sc", x.item())
    if isinstance(x, tuple):
        return ("tu", [enc(i) for i in x])
    if isinstance(x, list):
        return ("li", [enc(i) for i in x])
    if isinstance(x, dict):
        return ("di", [(k, enc(v)) for k, v in x.items()])
    if isinstance(x, (int, float, str, bool, type(None))):
        return ("sc", x)
    if isinstance(x, slice):
        return ("sl", x.start, x.stop, x.step)
    try:
        return ("li", [enc(i) for i in x])
    except TypeError:
        return ("repr", repr(x)[:200])


def dec(x):
    t = x[0]
    if t == "nd":
        return np.frombuffer(x[3], dtype=x[1]).reshape(x[2]).copy()
    if t == "ma":
        return np.ma.array(dec(x[1]), mask=dec(x[2]))
    if t == "sc":
        return x[1]
    if t == "tu":
        return tuple(dec(i) for i in x[1])
    if t == "li":
        return [dec(i) for i in x[1]]
    if t == "di":
        return {k: dec(v) for k, v in x[1]}
    if t == "sl":
        return slice(*x[1:])
    if t == "rec":
        f = {k: dec(v) for k, v in x[2].items()}
        return f
    if t == "obj":
        attrs = {k: dec(v) for k, v in x[2].items()}
        if not x[1]:
            return RealObj("", **attrs)
        mod, name = x[1].split("#")[0].split(":")
        stub = STUBS[x[1].split("#")[1]] if "#" in x[1] else {}
        c = getattr(importlib.import_module("py_eddy_tracker." + mod), name)
        o = c.__new__(c)
        own = {}
        for k, v in attrs.items():
            if "#" in x[1] and k in ("obs", "observations") and isinstance(v, dict):
                v = attrs[k] = Table(v)
            try:
                setattr(o, k, v)
            except AttributeError:  # property of the class
                own[k] = v
        if own or stub:
            # subclass with the properties replaced by the values given, and methods out of the contract by stand-ins
            o = object.__new__(type(name, (c,), {"__slots__": (), **own, **stub}))
            for k, v in attrs.items():
                if k not in own:
                    setattr(o, k, v)
        KEEP[id(o)] = (o, list(attrs))
        return o
    if t == "repr":
        return x[1]
    raise ValueError(t)


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    inp = sys.stdin.buffer
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from props import adapters
    import logging
    logging.disable(logging.CRITICAL)
    while True:
        h = inp.read(4)
        if len(h) < 4:
            return
        n = struct.unpack("<I", h)[0]
        req = pickle.loads(inp.read(n))
        KEEP.clear()
        args = {k: dec(v) for k, v in req["args"].items()}
        try:
            if req.get("adapter"):
                res = getattr(adapters, req["adapter"])(**args)
            else:
                modname, q = req["fn"].split(":")
                try:
                    obj = importlib.import_module("py_eddy_tracker." + modname if modname else "py_eddy_tracker")
                    for part in q.split("."):
                        obj = getattr(obj, part)
                except (ImportError, AttributeError) as e:
                    raise Interface(str(e))
                f = obj.fget if isinstance(obj, property) else obj
                try:
                    inspect.signature(getattr(f, "py_func", f)).bind(*req["order"])
                except TypeError as e:
                    raise Interface(str(e))
                except ValueError:
                    pass
                res = f(*[args[k] for k in req["order"]])
            rep = {"result": enc(res), "args": {k: enc(v) for k, v in args.items()}}
        except Exception as e:
            rep = {"exc": type(e).__name__, "msg": str(e)[:300], "tb": traceback.format_exc()[-1500:]}
        b = pickle.dumps(rep)
        out.write(struct.pack("<I", len(b)))
        out.write(b)
        out.flush()


if __name__ == "__main__":
    main()
