"""Contracts on functions of /repo: proof, counterexample search, replay on the real code."""
import ast
import itertools
import math
import random
import time
from fractions import Fraction

import numpy as np
import z3

from . import dsl, nplib
from .dsl import F, And, Implies, Not, Or, boolify, conc, is_z3, kind, simp_bool, simp_int, toint
from .engine import Arr, Budget, Engine, Obj, PathEnd, Ragged, Rec, ReturnEx, SArr, SNS, Unsupported, snap
from .interp import Interp
from .solve import discharge, solve_one, to_smt
from .worker import RealObj


# ------------------------------------------------------------------ parameter specs
class P:
    """array parameter: dtype in int/bool/real/float(nan-able); dims are names or ints; np gives the numpy dtype used in replay"""

    def __init__(self, dtype, *dims, np_=None, islist=False):
        self.dtype, self.dims, self.np, self.islist = dtype, dims, np_, islist

    def make(self, eng, name, dims):
        shape = tuple(dims[d] if isinstance(d, str) else d for d in self.dims)
        return Arr(eng, self.dtype, shape, input_fn(eng, name, self.dtype, len(shape)), site="in_" + name, is_list=self.islist)

    def concretize(self, eng, v, m):
        # entry contents
        f = input_fn(eng, v.uid_name, self.dtype, len(v.shape0))
        shape = [simp_int(s) for s in v.shape0]
        out = np.empty(shape, dtype=self.np or {"int": "i8", "bool": "?", "real": "f8", "float": "f8"}[self.dtype])
        for idx in itertools.product(*[range(s) for s in shape]):
            out[idx] = mval(m, f(*idx))
        return list(out.tolist()) if self.islist else out


class PR:
    """list of 1D arrays (dim = number of rows)"""

    def __init__(self, dtype, dim, np_=None):
        self.dtype, self.dim, self.np = dtype, dim, np_
        self.dim_names = [dim]

    def make(self, eng, name, dims):
        ln = z3.Function("len_" + name, z3.IntSort(), z3.IntSort())
        j = z3.Int("len_j")
        eng.assume(z3.ForAll([j], ln(j) >= 0, patterns=[ln(j)]))
        return Ragged(eng, self.dtype, dims[self.dim], lambda j: ln(toint(j)), input_fn(eng, name, self.dtype, 2))

    def concretize(self, eng, v, m):
        out = []
        for j in range(mval(m, v.n) if is_z3(v.n) else v.n):
            n = min(int(mval(m, v.ln(z3.IntVal(j)))), 12)
            out.append(np.array([mval(m, v.fn(z3.IntVal(j), z3.IntVal(k))) for k in range(n)], dtype=self.np or {"int": "i8", "bool": "?"}.get(self.dtype, "f8")))
        return out


class S:
    """scalar parameter: int/real/bool/float"""

    def __init__(self, k):
        self.k = k

    def make(self, eng, name, dims):
        return {"int": z3.Int, "real": z3.Real, "bool": z3.Bool}[self.k](name) if self.k != "float" else F(z3.Real(name), z3.Bool(name + "?nan"))

    def concretize(self, eng, v, m):
        return mval(m, v)


class C:
    """fixed value"""

    def __init__(self, v):
        self.v = v

    def make(self, eng, name, dims):
        if isinstance(self.v, float):
            return dsl.real(self.v)
        return self.v

    def concretize(self, eng, v, m):
        return self.v


class T:
    """tuple of parameters"""

    def __init__(self, *parts):
        self.parts = parts

    def make(self, eng, name, dims):
        out = []
        for i, p in enumerate(self.parts):
            v = p.make(eng, f"{name}_{i}", dims)
            if isinstance(v, Arr):
                v.shape0, v.uid_name = v.shape, f"{name}_{i}"
            out.append(v)
        return tuple(out)

    def concretize(self, eng, v, m):
        return tuple(p.concretize(eng, x, m) for p, x in zip(self.parts, v))


class O:
    """object of a repository class, with the attributes that the method reads or writes (any other one is a translation error)"""

    def __init__(self, cls, hooks=None, stub=None, **attrs):
        self.cls, self.hooks, self.attrs, self.stub = cls, hooks, attrs, stub
        self.dim_names = []
        for p in attrs.values():
            for d in p.dim_names if isinstance(p, (R, D)) else ([p.d] if isinstance(p, Dim) else getattr(p, "dims", [])):
                if isinstance(d, str) and d not in self.dim_names:
                    self.dim_names.append(d)

    def make(self, eng, name, dims):
        e = eng.src.module(self.cls.split(":")[0]).names[self.cls.split(":")[1]]
        out = {}
        for k, p in self.attrs.items():
            out[k] = v = p.make(eng, f"{name}_{k}", dims)
            if isinstance(v, Arr):
                v.shape0, v.uid_name = v.shape, f"{name}.{k}"
        return Obj(eng, (e[1], e[2]), out, self.hooks)

    def concretize(self, eng, v, m):
        return RealObj(self.cls + (f"#{self.stub}" if self.stub else ""), **{k: p.concretize(eng, v.attrs[k], m) for k, p in self.attrs.items()})

    def dims_of(self, v):
        out = {}
        for k, p in self.attrs.items():
            if hasattr(p, "dims_of"):
                out.update(p.dims_of(v.attrs[k]))
                continue
            for q, dn in zip(np.shape(v.attrs[k]), getattr(p, "dims", [])):
                if isinstance(dn, str):
                    out.setdefault("dim_" + dn, q)
        return out


class R:
    """record (structured array or table of arrays of the same length)"""

    def __init__(self, dim, **fields):
        self.dim, self.fields = dim, fields
        self.dim_names = [dim] + [d for p in fields.values() for d in p.dims if isinstance(d, str) and d != dim]

    def make(self, eng, name, dims):
        return Rec(eng, (dims[self.dim],), {k: p.make(eng, f"{name}_{k}", dims) for k, p in self.fields.items()})

    def concretize(self, eng, v, m):
        return {k: p.concretize(eng, v.fields[k], m) for k, p in self.fields.items()}

    def dims_of(self, v):
        return {"dim_" + d: q for k, p in self.fields.items() for q, d in zip(np.shape(v[k]), p.dims) if isinstance(d, str)}


class D:
    """dictionary with these keys"""

    def __init__(self, **fields):
        self.fields = fields
        self.dim_names = [d for p in fields.values() for d in getattr(p, "dims", []) if isinstance(d, str)]

    def make(self, eng, name, dims):
        return {k: p.make(eng, f"{name}_{k}", dims) for k, p in self.fields.items()}

    def concretize(self, eng, v, m):
        return {k: p.concretize(eng, v[k], m) for k, p in self.fields.items()}

    def dims_of(self, v):
        return {"dim_" + d: q for k, p in self.fields.items() for q, d in zip(np.shape(v[k]), getattr(p, "dims", [])) if isinstance(d, str)}


class SL:
    """slice with two integer bounds (or only one, or none)"""

    def __init__(self, start=True, stop=True):
        self.start, self.stop = start, stop

    def make(self, eng, name, dims):
        return slice(z3.Int(name + "_start") if self.start else None, z3.Int(name + "_stop") if self.stop else None)

    def concretize(self, eng, v, m):
        return slice(*[None if q is None else int(mval(m, q)) for q in (v.start, v.stop)])


class Dim:
    """scalar int parameter equal to a dimension name"""

    def __init__(self, d):
        self.d = d

    def make(self, eng, name, dims):
        return dims[self.d]

    def concretize(self, eng, v, m):
        return mval(m, v) if is_z3(v) else v


def input_fn(eng, name, dtype, nd):
    ii = [z3.IntSort()] * nd
    nm = "in_" + name
    if dtype == "float":
        f, g = z3.Function(nm, *ii, z3.RealSort()), z3.Function(nm + "?nan", *ii, z3.BoolSort())
        return lambda *k: F(f(*[toint(x) for x in k]), g(*[toint(x) for x in k]))
    f = z3.Function(nm, *ii, {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[dtype])
    return lambda *k: f(*[toint(x) for x in k])


def mval(m, v):
    if isinstance(v, F):
        if z3.is_true(m.eval(boolify(v.nan) if is_z3(v.nan) else z3.BoolVal(v.nan), model_completion=True)):
            return float("nan")
        v = v.v
    if not is_z3(v):
        return v
    r = m.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return 0


# ------------------------------------------------------------------ concrete views for replay
class CArr:
    def __init__(self, a):
        self.a = a if isinstance(a, np.ndarray) else np.asarray(a)
        self.shape = self.a.shape

    @property
    def n(self):
        return self.shape[0]

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) != self.a.ndim or any(not (0 <= i < s) for i, s in zip(k, self.shape)):
                return self.sentinel()
            return self.a[k].item()
        if self.a.ndim > 1:
            return CArr(self.a[k])
        if not (0 <= k < self.shape[0]):
            return self.sentinel()
        return self.a[int(k)].item()

    at = lambda self, *k: self[k if len(k) > 1 else k[0]]

    def sentinel(self):
        return {"b": False, "i": -987654321, "u": -987654321}.get(self.a.dtype.kind, float("nan"))


def csnap(v):
    if isinstance(v, np.ndarray):
        return CArr(v) if v.ndim else v.item()
    if isinstance(v, list):
        if v and isinstance(v[0], (tuple, list)):
            return [csnap(x) for x in v]
        return CArr(np.array(v)) if not v or not isinstance(v[0], np.ndarray) else [csnap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(csnap(x) for x in v)
    if isinstance(v, dict):
        return SNS({k: csnap(x) for k, x in v.items()})
    if isinstance(v, RealObj):
        return SNS({k: csnap(x) for k, x in v.attrs.items()})
    return v


def jsonable(v):
    if isinstance(v, np.ndarray):
        return {"dtype": v.dtype.str, "shape": list(v.shape), "data": v.tolist()}
    if isinstance(v, (tuple, list)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, RealObj):
        return {"object of": v.cls, **{str(k): jsonable(x) for k, x in v.attrs.items()}}
    if isinstance(v, (np.generic,)):
        return v.item()
    if isinstance(v, slice):
        return repr(v)
    return v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)[:300]


class Contract:
    def __init__(self, fn, params, requires=(), ensures=(), loops=None, result=None, modifies=None, dims_min=None, opts=None,
                 gen=None, sizes=None, adapter=None, real=True, raises=None, proof=True, bmc=True, timeout=20.0, note="", wrap_result=None, dims_req=None,
                 run=None, concrete_requires=None, max_paths=3000, concrete_extra=None, apply=None, real_args=None, bmc_opts=None, helper_loops=None, key=None, lemmas=None, order=None, fuzz_n=150, cost=1):
        self.cost = cost
        self.fuzz_n = fuzz_n
        self.fn, self.params = fn, params
        self.requires = [(f"pre{i}", r) if not isinstance(r, tuple) else r for i, r in enumerate(requires)]
        self.ensures = [(f"post{i}", e) if not isinstance(e, tuple) else e for i, e in enumerate(ensures)]
        self.loops = loops or {}
        self.result, self.modifies = result, modifies or []
        self.dims_min = dims_min or {}
        self.opts = opts or {}
        self.gen, self.sizes, self.adapter, self.real = gen, sizes, adapter, real
        self.raises = raises
        self.proof, self.bmc, self.timeout, self.note = proof, bmc, timeout, note
        self.run, self.max_paths = run, max_paths
        self.dims_req = dims_req
        self.concrete_extra = concrete_extra
        self._apply = apply
        self.real_args = real_args
        self.bmc_opts = bmc_opts or {}
        self.helper_loops = helper_loops or {}
        self.key = key or fn
        self.lemmas = lemmas
        self.order = order

    # -------------------------------------------------------------- symbolic run
    def dim_names(self):
        out = []

        def rec(p):
            if isinstance(p, P):
                for d in p.dims:
                    if isinstance(d, str) and d not in out:
                        out.append(d)
            if isinstance(p, T):
                for q in p.parts:
                    rec(q)
            if isinstance(p, Dim) and p.d not in out:
                out.append(p.d)
            for d in getattr(p, "dim_names", []):
                if d not in out:
                    out.append(d)

        for p in self.params.values():
            rec(p)
        return out

    def make_engine(self, src, mode, registry, deadline=None):
        eng = Interp(src, mode=mode, registry=registry, deadline=deadline, max_paths=self.max_paths)
        eng.opts = dict(self.opts)
        dsl.OPAQUE_NL[0] = bool(self.opts.get("opaque_nl")) and mode == "proof"
        if mode == "bmc":
            eng.opts.update(self.bmc_opts)
        eng.opts.setdefault("raises", self.raises)
        eng.target_name = self.fn
        eng.loop_specs = {}
        eng.rename = {}
        if self.loops:
            eng.loop_specs[self.fn.split(":")[1]] = self.loops
        eng.loop_specs.update(self.helper_loops)
        return eng

    def runner(self, sizes=None, checks=True, entry_only=False):
        def run(eng):
            eng.where_cache = {}
            eng._sqrtfn = None
            eng.in_closure = 0
            eng.it_stack = []
            dims = {}
            for d in self.dim_names():
                if sizes is not None:
                    dims[d] = sizes[d]
                else:
                    dims[d] = z3.Int("dim_" + d)
                    eng._add(dims[d] >= self.dims_min.get(d, 0))
            if self.dims_req is not None:
                eng.assume(self.dims_req(SNS(dims)))
            args = {}
            for nm, p in self.params.items():
                v = p.make(eng, nm, dims)
                if isinstance(v, Arr):
                    v.shape0, v.uid_name = v.shape, nm
                args[nm] = v
            eng.args0 = args
            old = {k: snap(v) for k, v in args.items()}
            old.update({f"dim_{k}": v for k, v in dims.items()})
            ons = SNS(old)
            ons.eng = eng
            eng.entry_ns = ons
            s = SNS(dict(old))
            s.old = ons
            s.eng = eng
            for nm, r in self.requires:
                eng.assume(r(s))
            if entry_only:
                return
            eng.covered = True
            mod, node, cls = eng.src.function(self.fn)
            eng.fn_nodes = [node]
            if self.run is not None:
                result = self.run(eng, args)
            else:
                result = eng.run_function(mod, node, list(args.values()) if self.order is None else [args[k] for k in self.order], {}, cls)
            eng.callstack = [(self.fn.split(":")[1], "post")]
            s = SNS({k: snap(v) for k, v in args.items()})
            s.__dict__.update({f"dim_{k}": v for k, v in dims.items()})
            s.old, s.result, s.eng = ons, snap(result), eng
            s.args = args
            if checks:
                for nm, e in self.ensures:
                    c = e(s)
                    if isinstance(c, (list, tuple)):
                        for i, x in enumerate(c):
                            eng.oblige(x, f"{nm}.{i}", "post")
                    else:
                        eng.oblige(c, nm, "post")
            eng.callstack = []

        return run

    def prove(self, src, registry, timeout=None, wall=300, only=None, procs=8):
        """-> dict(status, obligations=[...], ...)"""
        t0 = time.time()
        res = {"contract": self.key, "function": self.fn, "status": None, "obligations": [], "trusted": [], "functions": {}, "error": None}
        eng = self.make_engine(src, "proof", registry, deadline=t0 + wall)
        try:
            eng.covered = False
            eng.explore(self.runner())
        except (Unsupported, Budget) as e:
            res.update(status="untranslated", error=f"{type(e).__name__}: {e}", functions=dict(eng.functions_seen))
            res["wall"] = time.time() - t0
            return res
        except Exception as e:
            import traceback
            res.update(status="untranslated", error=f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1200:]}", functions=dict(eng.functions_seen))
            res["wall"] = time.time() - t0
            return res
        obs = list(eng.obligations.values())
        if only:
            obs = [o for o in obs if only in o.name]
        discharge(obs, timeout or self.timeout, procs=procs, deadline=t0 + wall)
        res["obligations"] = obs
        res["trusted"] = sorted(eng.trusted)
        res["functions"] = dict(eng.functions_seen)
        res["paths"] = eng.npaths
        res["completed_paths"] = eng.completed
        bad = [o for o in obs if o.status != "proved"]
        if not obs:
            res.update(status="vacuous", error="no obligation was generated")
        elif bad:
            res["status"] = "failed"
        else:
            res["status"] = "proved"
        res["wall"] = time.time() - t0
        return res

    # -------------------------------------------------------------- bounded counterexample search
    def default_sizes(self):
        dims = self.dim_names()
        if self.sizes is not None:
            return self.sizes
        if not dims:
            return [{}]
        out = []
        rngs = [range(self.dims_min.get(d, 0), self.dims_min.get(d, 0) + (5 if len(dims) == 1 else 4 if len(dims) == 2 else 3)) for d in dims]
        for c in itertools.product(*rngs):
            out.append(dict(zip(dims, c)))
        out.sort(key=lambda d: sum(d.values()))
        return out

    def refute(self, src, real, wall=60, stats=None, known=None):
        """search sizes upwards for an input of the real code that breaks the contract -> replay record or None"""
        t0 = time.time()
        stats = stats if stats is not None else {}
        tried = 0
        sizes_list = self.default_sizes()
        for k, sizes in enumerate(sizes_list):
            left = t0 + wall - time.time()
            if left < 1:
                break
            per = max(3.0, left / max(1, min(4, len(sizes_list) - k)))
            eng = self.make_engine(src, "bmc", {}, deadline=time.time() + per)
            found = []

            def check_path(run=self.runner(sizes), eng=eng):
                run(eng)

            try:
                eng.explore(self.runner(sizes))
                stats["complete"] = stats.get("complete", 0) + 1
            except Budget:
                stats["budget"] = stats.get("budget", 0) + 1
            except Exception as e:
                stats["unsupported"] = f"{type(e).__name__}: {e}"[:200]
                return None
            stats["paths"] = stats.get("paths", 0) + eng.completed
            obs = sorted(eng.obligations.values(), key=lambda o: len(o.pc))
            for o in obs:
                if o.status == "proved":
                    continue
                if time.time() > t0 + wall:
                    break
                stats["queries"] = stats.get("queries", 0) + 1
                m = self.query(o, small=True)
                if m is None:
                    continue
                try:
                    args = {nm: p.concretize(eng, eng.args0[nm], m) for nm, p in self.params.items()}
                except Exception as e:  # noqa
                    stats["concretize"] = str(e)
                    continue
                tried += 1
                rep = self.replay(real, args)
                if rep is not None and not (known and known(rep)):
                    rep["found_by"] = f"counter-model of obligation {o.name} at sizes {sizes}"
                    return rep
                if tried > 60:
                    return None
        stats["sizes"] = len(sizes_list)
        return None

    def query(self, o, small=True):
        s = z3.Solver()
        s.set("timeout", 3000)
        for c in o.pc:
            s.add(c)
        if o.goal is not False:
            s.add(z3.Not(o.goal))
        r = s.check()
        if r != z3.sat:
            return None
        if small:
            # prefer small nice values
            s.push()
            s.set("timeout", 1500)
            consts = set()
            todo, seen = list(s.assertions()), set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_int(x) or z3.is_real(x)) and not has_var(x):
                    consts.add(x)
                todo.extend(x.children())
            for x in consts:
                s.add(x <= 100, x >= -100)
            if s.check() == z3.sat:
                return s.model()
            s.pop()
            s.check()
        try:
            return s.model()
        except z3.Z3Exception:
            return None

    # -------------------------------------------------------------- replay on the real code
    def concrete_ns(self, args):
        d = {k: csnap(v) for k, v in args.items()}
        return d

    def dims_of(self, args):
        dims = {}

        def rec(p, v):
            if isinstance(p, P):
                sh = np.shape(v)
                for q, dn in zip(sh, p.dims):
                    if isinstance(dn, str):
                        dims.setdefault("dim_" + dn, q)
            elif isinstance(p, T):
                for a, b in zip(p.parts, v):
                    rec(a, b)
            elif hasattr(p, "dims_of"):
                dims.update(p.dims_of(v))

        for nm, p in self.params.items():
            if nm in args:
                rec(p, args[nm])
        return dims

    def replay(self, real, args, timeout=60):
        """run the real function; return a record if its contract is violated, else None"""
        import copy
        a0 = copy.deepcopy(args)
        old = self.concrete_ns(a0)
        old.update(self.dims_of(a0))
        ons = SNS(dict(old))
        s = SNS(dict(old))
        s.old = ons
        s.eng = None
        try:
            for nm, r in self.requires:
                if not simp_bool(boolify(r(s))):
                    return None
        except (TypeError, AttributeError, ValueError, ZeroDivisionError, OverflowError):
            return None
        self.evals = getattr(self, "evals", 0) + 1
        send = self.real_args(args) if self.real_args else args
        rep = real.call(self.fn, send, order=list(send), adapter=self.adapter, timeout=timeout)
        base = {"function": self.fn, "contract": self.key, "args": jsonable(a0), "adapter": self.adapter}
        if "exc" in rep:
            if rep["exc"] == "Interface" or self.stubbed() and rep["exc"] in ("AttributeError", "TypeError", "KeyError", "NotImplementedError", "IndexError", "ValueError"):
                # not decided: another interface, or a stand-in of the object which lacks what the code uses now
                self.evals -= 1
                return None
            if self.raises is not None and rep["exc"] not in ("ProcessDied", "Timeout") and (self.raises == "ok" or (callable(self.raises) and self.raises_ok(s, rep))):
                return None
            base.update(violated="terminates without an exception", exception=rep["exc"], message=rep.get("msg"), traceback=rep.get("tb"))
            return base
        after = {k: csnap(rep["args"].get(k, v) if k in send and send[k] is args.get(k) else v) for k, v in a0.items()}
        s = SNS(after)
        s.__dict__.update(self.dims_of(a0))
        s.old, s.result, s.eng = ons, csnap(rep["result"]), None
        try:
            for nm, e in self.ensures:
                c = e(s)
                if isinstance(c, (list, tuple)):
                    for i, x in enumerate(c):
                        if not simp_bool(boolify(x)):
                            base.update(violated=f"{nm}.{i}", result=jsonable(rep["result"]), args_after=jsonable(rep["args"]))
                            return base
                elif not simp_bool(boolify(c)):
                    base.update(violated=nm, result=jsonable(rep["result"]), args_after=jsonable(rep["args"]))
                    return base
        except (IndexError, TypeError, AttributeError, ValueError, KeyError) as e:
            base.update(violated=f"result shape/type ({type(e).__name__}: {e})", result=jsonable(rep["result"]), args_after=jsonable(rep["args"]))
            return base
        return None

    def stubbed(self):
        return any(getattr(p, "stub", None) for p in self.params.values())

    def raises_ok(self, s, rep):
        return bool(simp_bool(boolify(self.raises(s))))

    def fuzz(self, real, rng, n, wall, known=None):
        if self.gen is None or not self.real:
            return None, 0
        t0 = time.time()
        done = 0
        self.evals = 0
        for k in range(n):
            if time.time() - t0 > wall:
                break
            args = self.gen(rng, k)
            rep = self.replay(real, args)
            done += 1
            if rep is not None and not (known and known(rep)):
                rep["found_by"] = f"contract-directed input {k} (seeded)"
                return rep, done
        return None, done

    # -------------------------------------------------------------- use at a call site
    def apply_at_call(self, eng, f, args, kw, node):
        if self._apply is not None:
            return self._apply(self, eng, f, args, kw, node)
        a = f.node.args
        names = [x.arg for x in a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        bound = dict(zip(names, args))
        bound.update(kw)
        for nm in names:
            if nm not in bound:
                bound[nm] = ast.literal_eval(defaults[nm])
        pre = {k: snap(v) for k, v in bound.items()}
        ons = SNS(dict(pre))
        ons.eng = eng
        # fixed parameters of this contract must match the call
        dims = {}
        for nm, p in self.params.items():
            v = bound.get(nm)
            if isinstance(p, C) and not is_z3(v) and v != p.v:
                return eng.run_inline(f, args, kw, node)
            if isinstance(p, P) and isinstance(v, Arr):
                for d, sz in zip(p.dims, v.shape):
                    if isinstance(d, str):
                        if d in dims:
                            if not (conc(sz) and conc(dims[d]) and sz == dims[d]):
                                eng.oblige(dims[d] == sz, f"call {f.node.name}: dimension {d}", "pre", node=node)
                        else:
                            dims[d] = sz
                    else:
                        eng.oblige(sz == d, f"call {f.node.name}: dimension", "pre", node=node)
        for d, v in dims.items():
            ons.__dict__["dim_" + d] = v
            if self.dims_min.get(d, 0) > 0:
                eng.oblige(v >= self.dims_min[d], f"call {f.node.name}: size of {d}", "pre", node=node)
        s = SNS(dict(ons.__dict__))
        s.old = ons
        s.eng = eng
        for nm, r in self.requires:
            eng.oblige(r(s), f"call {f.node.name}: {nm}", "pre", node=node)
        for m in self.modifies:
            v = bound[m]
            if v.is_list:
                raise Unsupported("contract modifying a list")
            v.set_fn(eng.fresh_fn(v.dtype, v.ndim, f.node.name + "_" + m))
        res = self.result(eng, s, bound) if callable(self.result) else self.result
        s = SNS({k: snap(v) for k, v in bound.items()})
        s.__dict__.update({"dim_" + d: v for d, v in dims.items()})
        s.old, s.result, s.eng = ons, snap(res), eng
        for nm, e in self.ensures:
            eng.assume_inv(e(s))
        eng.trusted_calls = getattr(eng, "trusted_calls", set())
        eng.trusted_calls.add(self.fn)
        return res


def has_var(x):
    if z3.is_var(x):
        return True
    return any(has_var(c) for c in x.children())


def RA(eng, dtype, *dims, name="res"):
    """fresh result array"""
    sh = []
    for d in dims:
        if d is None:
            d = eng.fresh("int", "rn")
            eng._add(d >= 0)
        sh.append(d)
    return eng.fresh_arr(dtype, tuple(sh), name, site=name)
