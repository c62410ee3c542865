"""Verification-condition generator for the Python/numpy subset used by py-eddy-tracker.

The real functions are parsed from /repo's current source and interpreted symbolically, one path at a
time (re-execution with a decision trail).  Loops are cut at their head with inductive invariants (proof
mode) or unrolled over concrete sizes (bounded search for a failing input).  Calls to functions that have a
contract are replaced by that contract in proof mode; other repository functions are inlined.

Integers are mathematical, machine floats are reals with an explicit nan flag (see DESIGN.md, assumptions).
"""
import ast
import time
from fractions import Fraction

import z3

from . import dsl
from .dsl import F, And, If, Implies, Not, Or, boolify, conc, is_z3, ite, kind, nanflag, real, simp_bool, simp_int, toint


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class Budget(Exception):
    pass


def pos(node):
    return (getattr(node, "lineno", 0), getattr(node, "col_offset", 0))


# ---------------------------------------------------------------- values
class Dt:
    """dtype"""

    def __init__(self, k, fields=None, name=None):
        self.k, self.fields, self.name = k, fields, name

    def __eq__(self, o):
        return isinstance(o, Dt) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"Dt({self.k})"


class Arr:
    """Mutable array of scalars, contents given by a closure over index terms."""

    def __init__(self, eng, dtype, shape, fn, is_list=False, site=None):
        self.eng = eng
        self.dtype, self.shape, self._fn = dtype, tuple(simp_int(s) for s in shape), fn
        self.version = 0
        self.is_list = is_list
        self.uid = eng.new_uid(site)

    @property
    def fn(self):
        return self._fn

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def n(self):
        return self.shape[0]

    def root(self):
        return self

    def at(self, *k):
        return self.fn(*k)

    def store(self, idx, val):
        self.eng.wrote(self)
        old = self._fn
        idx = tuple(idx)

        def new(*k, old=old, idx=idx, val=val):
            c = simp_bool(And(*[a == b for a, b in zip(k, idx)]))
            if c is True:
                return val
            if c is False:
                return old(*k)
            return ite(c, val, old(*k))

        self._fn = new
        self.version += 1

    def store_region(self, cond, valfn):
        self.eng.wrote(self)
        old = self._fn

        def new(*k, old=old):
            c = simp_bool(cond(*k))
            if c is True:
                return valfn(*k)
            if c is False:
                return old(*k)
            return ite(c, valfn(*k), old(*k))

        self._fn = new
        self.version += 1

    def set_fn(self, fn):
        self.eng.wrote(self)
        self._fn = fn
        self.version += 1


class View(Arr):
    """Basic-slicing view: index k of the view is index fwd(k) of the base."""

    def __init__(self, eng, base, shape, fwd, inv):
        self.eng, self.base, self.shape = eng, base, tuple(simp_int(s) for s in shape)
        self.fwd, self.inv = fwd, inv
        self.dtype, self.is_list = base.dtype, False
        self.uid = base.uid + "/v"

    @property
    def version(self):
        return self.base.version

    @property
    def fn(self):
        b = self.base.fn
        return lambda *k: b(*self.fwd(*k))

    def root(self):
        return self.base.root()

    def store(self, idx, val):
        self.base.store(self.fwd(*idx), val)

    def store_region(self, cond, valfn):
        def c(*k):
            inside, v = self.inv(*k)
            return And(inside, cond(*v))

        def vf(*k):
            return valfn(*self.inv(*k)[1])

        self.base.store_region(c, vf)

    def set_fn(self, fn):
        def c(*k):
            return self.inv(*k)[0]

        self.base.store_region(c, lambda *k: fn(*self.inv(*k)[1]))


class Ragged:
    """list of 1D arrays of any lengths (read only): row j holds fn(j, 0) .. fn(j, ln(j) - 1)"""

    def __init__(self, eng, dtype, n, ln, fn):
        self.eng, self.dtype, self.n, self.ln, self.fn = eng, dtype, n, ln, fn
        self.shape = (n,)
        self.uid = eng.new_uid("ragged")

    def row(self, j):
        return Arr(self.eng, self.dtype, (self.ln(j),), lambda k: self.fn(j, k), site="row")


class Rec:
    """structured array: dict of field arrays of one shape"""

    def __init__(self, eng, shape, fields):
        self.eng, self.shape, self.fields = eng, tuple(shape), fields
        self.uid = eng.new_uid("rec")

    @property
    def n(self):
        return self.shape[0]


class RecRow:
    def __init__(self, rec, i):
        self.rec, self.i = rec, i


class Obj:
    """instance of a repository class; attributes are explicit"""

    def __init__(self, eng, cls, attrs, hooks=None):
        self.eng, self.cls, self.attrs, self.hooks = eng, cls, dict(attrs), hooks or {}
        self.uid = eng.new_uid("obj")


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class Fn:
    def __init__(self, mod, node, cls=None, closure=None):
        self.mod, self.node, self.cls, self.closure = mod, node, cls, closure


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node = mod, node


class Bound:
    def __init__(self, obj, name, fn=None):
        self.obj, self.name, self.fn = obj, name, fn


class Rng:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class ZipV:
    def __init__(self, seqs):
        self.seqs = seqs


class EnumV:
    def __init__(self, seq, start=0):
        self.seq, self.start = seq, start


class OpaqueStr:
    def __repr__(self):
        return "<str>"


class Opaque:
    def __init__(self, what=""):
        self.what = what


# ---------------------------------------------------------------- spec views
class SArr:
    """Immutable snapshot of an array for specifications."""

    def __init__(self, a):
        if isinstance(a, Arr):
            self.shape, self._f, self.dtype = a.shape, a.fn, a.dtype
            self.perm_inv = getattr(a, "perm_inv", None)
        else:
            self.shape, self._f, self.dtype = a

    @property
    def n(self):
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self._f(*[toint(x) if is_z3(x) else x for x in k])
        return self._f(k)

    def at(self, *k):
        return self._f(*k)


class SRag:
    def __init__(self, n, row):
        self.n, self.row = n, row

    def __getitem__(self, j):
        return self.row(j)


def snap(v):
    if isinstance(v, Arr):
        return SArr(v)
    if isinstance(v, Ragged):
        ln, fn, dt = v.ln, v.fn, v.dtype
        return SRag(v.n, lambda j: SArr(((ln(j),), lambda k: fn(j, k), dt)))
    if isinstance(v, Rec):
        return SNS({k: snap(a) for k, a in v.fields.items()}, n=v.shape[0])
    if isinstance(v, Obj):
        return SNS({k: snap(a) for k, a in v.attrs.items()})
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, dict) and v and all(isinstance(k, str) for k in v):
        return SNS({k: snap(a) for k, a in v.items()})
    return v


class SNS:
    """namespace given to specifications"""

    def __init__(self, d, **kw):
        self.__dict__.update(d)
        self.__dict__.update(kw)

    def __getitem__(self, k):
        return self.__dict__[k]

    def __contains__(self, k):
        return k in self.__dict__


# ---------------------------------------------------------------- obligations
class Obligation:
    __slots__ = ("name", "kind", "pc", "goal", "tag", "status", "time", "backend", "where", "model")

    def __init__(self, name, kind_, pc, goal, tag, where):
        self.name, self.kind, self.pc, self.goal, self.tag, self.where = name, kind_, pc, goal, tag, where
        self.status, self.time, self.backend, self.model = None, 0.0, None, None


class LoopInfo:
    def __init__(self):
        self.modvars = {}     # var -> kind
        self.modarrs = {}     # uid -> dtype kind
        self.late = {}        # vars first assigned in the body: kind
        self.ordinal = None


_HQ, _HQ_KEEP = {}, []


def has_quant(e):
    """does the term contain a quantifier (memo on shared sub-terms, kept alive with their root)"""
    h = _HQ.get(e.get_id())
    if h is not None:
        return h
    if len(_HQ_KEEP) > 200000:
        _HQ.clear()
        _HQ_KEEP.clear()
    _HQ_KEEP.append(e)
    found, seen, todo = False, [], [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        h = _HQ.get(i)
        if h is None:
            if z3.is_quantifier(x):
                _HQ[i] = True
                found = True
                break
            seen.append(i)
            _HQ[i] = False      # corrected below when a quantifier is found
            todo.extend(x.children())
        elif h:
            found = True
            break
    if found:
        for i in seen:
            _HQ.pop(i, None)
        _HQ[e.get_id()] = True
    return found


class Engine:
    def __init__(self, source, mode="proof", registry=None, max_paths=3000, deadline=None, feas_ms=150, unroll=12):
        self.src, self.mode = source, mode
        self.registry = registry or {}
        self.max_paths, self.deadline, self.feas_ms, self.unroll = max_paths, deadline, feas_ms, unroll
        self.loopinfo = {}
        self.functions_seen = {}
        self.trusted = set()
        self.opts = {}
        self.loop_specs = {}
        self.incomplete = False
        self.reset_all()

    # ------------------------------------------------------------ exploration
    def reset_all(self):
        self.obligations = {}
        self.keep = []

    def reset_path(self):
        self.pc, self.pc_q = [], []
        self.fresh_n = 0
        self.uids = {}
        self.pos_trail = 0
        self.callstack = []
        self.ghost = {}
        self.log = []
        self.yields = None
        self.fsolver = z3.Solver()
        self.fsolver.set("timeout", self.feas_ms)
        dsl._fresh[0] = 0
        dsl.take_axioms()
        dsl._SUMS.clear()
        dsl._MODS.clear()
        dsl._IMOD.clear()
        dsl._EXT.clear()
        dsl.OPAQUE_MOD[0] = self.mode == "proof"
        self.loop_ord = {}

    def explore(self, run):
        for attempt in range(40):
            self.reset_all()
            self.missing_local = None
            try:
                self._explore(run)
                if self.missing_local:
                    raise Unsupported(self.missing_local)
                return
            except Restart:
                continue
        raise Unsupported("loop modification analysis did not stabilise")

    def _explore(self, run):
        self.stack = [[]]
        self.npaths = 0
        self.completed = 0
        while self.stack:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time")
            self.trail = self.stack.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Budget("paths")
            self.reset_path()
            try:
                run(self)
                self.completed += 1
            except PathEnd:
                pass

    def new_uid(self, site):
        key = (tuple(c[1] for c in self.callstack), site)
        n = self.uids.get(key, 0)
        self.uids[key] = n + 1
        return f"{'.'.join(str(x) for x in key[0])}:{site}:{n}"

    def fresh(self, k, name="t"):
        self.fresh_n += 1
        nm = f"{name}#{self.fresh_n}"
        if k == "int":
            return z3.Int(nm)
        if k == "bool":
            return z3.Bool(nm)
        if k == "real":
            return z3.Real(nm)
        if k == "F":
            return F(z3.Real(nm), z3.Bool(nm + "?nan"))
        raise Unsupported(f"fresh value of kind {k}")

    def fresh_fn(self, dtype, ndim, name="a"):
        self.fresh_n += 1
        nm = f"{name}#{self.fresh_n}"
        ii = [z3.IntSort()] * ndim
        if dtype == "int":
            f = z3.Function(nm, *ii, z3.IntSort())
        elif dtype == "bool":
            f = z3.Function(nm, *ii, z3.BoolSort())
        elif dtype == "real":
            f = z3.Function(nm, *ii, z3.RealSort())
        elif dtype == "float":
            f = z3.Function(nm, *ii, z3.RealSort())
            g = z3.Function(nm + "?nan", *ii, z3.BoolSort())
            return lambda *k: F(f(*[toint(x) for x in k]), g(*[toint(x) for x in k]))
        else:
            raise Unsupported(f"array of dtype {dtype}")
        return lambda *k: f(*[toint(x) for x in k])

    def fresh_arr(self, dtype, shape, name="a", is_list=False, site=None):
        return Arr(self, dtype, shape, self.fresh_fn(dtype, len(shape), name), is_list=is_list, site=site or name)

    def assume(self, c):
        c = simp_bool(boolify(c))
        self._flush_axioms()
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self._add(c)

    def _add(self, c):
        self.pc.append(c)
        if not has_quant(c):
            self.fsolver.add(c)
        self.keep.append(c)

    def _flush_axioms(self):
        for a in dsl.take_axioms():
            self._add(a)

    def feasible(self, c):
        self.fsolver.push()
        self.fsolver.add(c)
        r = self.fsolver.check()
        self.fsolver.pop()
        return r != z3.unsat

    def branch(self, cond):
        c = simp_bool(boolify(cond))
        if c is True or c is False:
            return c
        self._flush_axioms()
        if self.pos_trail < len(self.trail):
            d = self.trail[self.pos_trail]
            self.pos_trail += 1
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                self.stack.append(self.trail + [False])
                d = True
            else:
                d = ft
            self.trail = self.trail + [d]
            self.pos_trail += 1
        self._add(c if d else z3.Not(c))
        return d

    def choose(self, n):
        if self.pos_trail < len(self.trail):
            d = self.trail[self.pos_trail]
        else:
            for k in range(1, n):
                self.stack.append(self.trail + [k])
            d = 0
            self.trail = self.trail + [0]
        self.pos_trail += 1
        return d

    def oblige(self, goal, name, kind_="post", tag=None, node=None):
        g = simp_bool(boolify(goal))
        self._flush_axioms()
        where = pos(node) if node is not None else None
        fname = self.callstack[-1][0] if self.callstack else ""
        full = f"{fname}:{kind_}:{name}"
        if is_z3(g):
            self.keep.append(g)
            key = (full, tuple(c.get_id() for c in self.pc), g.get_id())
        else:
            key = (full, tuple(c.get_id() for c in self.pc), g)
        if key not in self.obligations:
            o = Obligation(full, kind_, list(self.pc), g, tag, where)
            if g is True:
                o.status, o.backend = "proved", "simplifier"
            self.obligations[key] = o
        if g is False:
            raise PathEnd()
        if g is not True and not has_quant(g):
            self._add(g)
        elif g is not True:
            self.pc.append(g)
            self.keep.append(g)

    def trust(self, what):
        self.trusted.add(what)

    def wrote(self, arr):
        pass

    def truth(self, v):
        """Python truth of a value as a term."""
        if isinstance(v, (Arr,)):
            if v.is_list:
                return v.shape[0] != 0
            if v.ndim == 0:
                return boolify(v.fn())
            raise Unsupported("truth value of an array")
        if v is None:
            return False
        if isinstance(v, (list, tuple, str, dict)):
            return len(v) > 0
        if isinstance(v, (Obj, Ext, Fn, Rec, Cls)):
            return True
        return boolify(v)
