"""Symbolic interpreter of the Python subset (statements, expressions, loops, calls)."""
import ast
from fractions import Fraction

import z3

from . import dsl
from .dsl import F, And, If, Implies, Not, Or, boolify, conc, is_z3, ite, kind, nanflag, real, simp_bool, simp_int, toint
from .engine import (Arr, Bound, BreakEx, Cls, ContinueEx, Dt, Engine, EnumV, Ext, Fn, LoopInfo, Obj, Opaque, OpaqueStr,
                     PathEnd, Rec, RecRow, Restart, ReturnEx, Rng, SArr, SNS, Unsupported, View, ZipV, pos, snap)
from . import nplib

IGNORED_CALLS = {"logger", "print"}


def alpha_frame(env):
    return {k: v for k, v in env.items() if not k.startswith("__")}


class Interp(Engine):
    # ------------------------------------------------------------ names
    def lookup_name(self, name, node):
        env = self.frame
        if name in env:
            return env[name]
        c = self.closure
        while c is not None:
            if name in c[0]:
                return c[0][name]
            c = c[1]
        e = self.src.lookup(self.mod, name)
        if e is None:
            if name in nplib.BUILTINS:
                return Ext("builtins." + name)
            if name in ("True", "False", "None"):
                return {"True": True, "False": False, "None": None}[name]
            raise Unsupported(f"unbound name {name} at line {node.lineno}")
        return self.wrap_entry(e)

    def wrap_entry(self, e):
        if e[0] == "func":
            return Fn(e[1], e[2])
        if e[0] == "class":
            return Cls(e[1], e[2])
        if e[0] in ("ext", "extmod"):
            c = nplib.CONSTS.get(e[1])
            return c if c is not None else Ext(e[1])
        if e[0] == "const":
            save = self.mod, self.frame, self.closure
            self.mod, self.frame, self.closure = e[1], {}, None
            try:
                return self.ev(e[2])
            except Unsupported:
                return Opaque("const")
            finally:
                self.mod, self.frame, self.closure = save
        if e[0] == "repomod":
            return Ext("repo." + e[1])
        raise Unsupported(f"name entry {e[0]}")

    # ------------------------------------------------------------ functions
    def run_function(self, mod, node, args, kwargs, cls=None, closure=None, site=None, self_cls=None):
        """Interpret a real function body with the given argument values; returns its value."""
        fullname = (cls.name + "." if cls is not None else "") + node.name
        if len(self.callstack) > 12:
            raise Unsupported("call depth")
        saved = getattr(self, "mod", None), getattr(self, "frame", None), getattr(self, "closure", None), getattr(self, "cur_cls", None)
        self.callstack.append((fullname, site or fullname))
        self.functions_seen[f"{mod.name}:{fullname}"] = (node.lineno, node.end_lineno)
        self.mod, self.closure, self.cur_cls = mod, closure, (mod, cls)
        frame = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for nm, v in zip(names, args):
            frame[nm] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise Unsupported("too many arguments")
            frame[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            frame[a.vararg.arg] = ()
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                frame[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            frame[a.kwarg.arg] = rest
        elif rest:
            raise Unsupported(f"unexpected keyword arguments {list(rest)} for {fullname}")
        self.frame = {}
        for nm in names:
            if nm not in frame:
                if nm not in defaults:
                    raise Unsupported(f"missing argument {nm} of {fullname}")
                frame[nm] = self.ev(defaults[nm])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in frame:
                frame[x.arg] = self.ev(d)
        self.frame = frame
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        if is_gen and len(self.callstack) > 1:
            self.callstack.pop()
            self.mod, self.frame, self.closure, self.cur_cls = saved
            raise Unsupported(f"call of generator {fullname}")
        ret = None
        try:
            self.exec_block(node.body)
        except ReturnEx as r:
            ret = r.value
        if len(self.callstack) == 1:
            self.final_frame = self.frame
        self.callstack.pop()
        self.mod, self.frame, self.closure, self.cur_cls = saved
        return ret

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for st in stmts:
            self.exec(st)

    def exec(self, st):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} line {st.lineno}")
        return m(st)

    def x_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.ev(st.value.value) if st.value.value is not None else None
            self.on_yield(v, st)
            return
        self.ev(st.value)

    def on_yield(self, v, st):
        h = self.opts.get("on_yield")
        if h is None:
            raise Unsupported("yield")
        h(self, v)

    def x_Pass(self, st):
        pass

    def x_Global(self, st):
        pass

    def x_Import(self, st):
        raise Unsupported("import inside function")

    def x_FunctionDef(self, st):
        self.frame[st.name] = Fn(self.mod, st, None, (self.frame, self.closure))

    def x_Assert(self, st):
        c = self.truth(self.ev(st.test))
        if not self.branch(c):
            self.on_raise("assert", st)

    def x_Raise(self, st):
        self.on_raise(ast.unparse(st.exc) if st.exc is not None else "raise", st)

    def on_raise(self, what, st):
        h = self.opts.get("raises")
        if h == "ok":
            raise PathEnd()
        if callable(h):
            self.oblige(h(self.entry_ns), f"raise only when allowed: {what[:60]}", "raise", node=st)
            raise PathEnd()
        self.oblige(False, f"does not raise: {what[:60]}", "raise", node=st)
        raise PathEnd()

    def x_Return(self, st):
        raise ReturnEx(self.ev(st.value) if st.value is not None else None)

    def x_Break(self, st):
        raise BreakEx()

    def x_Continue(self, st):
        raise ContinueEx()

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frame.pop(t.id, None)
            else:
                raise Unsupported("del of non-name")

    def x_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value), st)

    def x_AugAssign(self, st):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, t)
            v = self.ev(st.value)
            if isinstance(cur, Arr) and not cur.is_list:
                # in place
                r = nplib.binop(self, op, cur, v, st)
                cur.set_fn(nplib.cast_fn(self, r, cur.dtype))
                return
            if isinstance(cur, Arr) and cur.is_list and op == "Add":
                nplib.list_extend(self, cur, v, st)
                return
            self.frame[t.id] = nplib.binop(self, op, cur, v, st)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            key = self.ev_index(t.slice)
            cur = nplib.getitem(self, base, key, st)
            v = self.ev(st.value)
            r = nplib.binop(self, op, cur, v, st)
            nplib.setitem(self, base, key, r, st)
            return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.getattr(base, t.attr, t)
            v = self.ev(st.value)
            if isinstance(cur, Arr) and not cur.is_list:
                r = nplib.binop(self, op, cur, v, st)
                cur.set_fn(nplib.cast_fn(self, r, cur.dtype))
                return
            self.setattr(base, t.attr, nplib.binop(self, op, cur, v, st), st)
            return
        raise Unsupported("augmented assignment target")

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.frame[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st, [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            nplib.setitem(self, base, self.ev_index(t.slice), v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v, st)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, st, star=()):
        if any(star):
            if not isinstance(v, (tuple, list)):
                raise Unsupported("starred unpack")
            i = list(star).index(True)
            after = n - i - 1
            return list(v[:i]) + [list(v[i:len(v) - after])] + list(v[len(v) - after:])
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise Unsupported("unpack arity")
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 1:
                self.oblige(v.n == n, "unpack arity", "safety", node=st)
                return [v.fn(k) for k in range(n)]
            self.oblige(v.n == n, "unpack arity", "safety", node=st)
            return [nplib.getitem(self, v, k, st) for k in range(n)]
        raise Unsupported(f"unpack of {type(v).__name__}")

    def x_If(self, st):
        c = self.truth(self.ev(st.test))
        if self.branch(c):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def x_With(self, st):
        for it in st.items:
            v = self.ev(it.context_expr)
            if not (isinstance(v, Opaque) and v.what == "errstate" and it.optional_vars is None):
                raise Unsupported("with")
        self.errstate = getattr(self, "errstate", 0) + 1
        try:
            self.exec_block(st.body)
        finally:
            self.errstate -= 1

    # ------------------------------------------------------------ loops
    def x_While(self, st):
        if st.orelse:
            raise Unsupported("while-else")
        self.loop(st, None, lambda: self.truth(self.ev(st.test)), None)

    def x_For(self, st):
        if st.orelse:
            raise Unsupported("for-else")
        seq = self.ev(st.iter)
        if isinstance(seq, (list, tuple)) or (isinstance(seq, dict)):
            # static sequence: exact unrolling
            for v in list(seq):
                self.assign(st.target, v, st)
                try:
                    self.exec_block(st.body)
                except BreakEx:
                    break
                except ContinueEx:
                    continue
            return
        n, getter = self.seq_len_get(seq, st)
        step = 1
        start = 0
        if isinstance(seq, Rng):
            start, step = seq.lo, seq.step
            if not conc(step):
                self.oblige(step > 0, "range step is positive", "safety", node=st)
            elif step == 0:
                raise Unsupported("range step")
            if step == 1:
                n_it = seq.hi
            else:
                n_it = seq.hi
            self.loop(st, (start, n_it, step), None, lambda it: it)
            return
        self.loop(st, (0, n, 1), None, getter)

    def seq_len_get(self, seq, st):
        if isinstance(seq, Rng):
            if conc(seq.step) and seq.step == 1:
                ln = simp_int(If(seq.hi > seq.lo, seq.hi - seq.lo, 0)) if not (conc(seq.hi) and conc(seq.lo)) else max(seq.hi - seq.lo, 0)
                if conc(seq.lo) and seq.lo == 0 and self.known_nonneg(seq.hi):
                    ln = seq.hi
                return ln, lambda it: seq.lo + it
            if conc(seq.step) and conc(seq.lo) and conc(seq.hi):
                r = range(seq.lo, seq.hi, seq.step)
                return len(r), lambda it: seq.lo + it * seq.step
            return None, lambda it: it
        if isinstance(seq, EnumV):
            n, g = self.seq_len_get(seq.seq, st)
            return n, lambda it: (it + seq.start, g(it))
        if isinstance(seq, ZipV):
            parts = [self.seq_len_get(s, st) for s in seq.seqs]
            n = parts[0][0]
            for m, _ in parts[1:]:
                if conc(n) and conc(m):
                    n = min(n, m)
                elif not (is_z3(n) and is_z3(m) and n.eq(m)):
                    n = If(m < n, m, n) if is_z3(m) or is_z3(n) else min(m, n)
            return n, lambda it: tuple(g(it) for _, g in parts)
        if isinstance(seq, Arr):
            if seq.ndim == 1:
                return seq.n, lambda it: seq.fn(it)
            return seq.n, lambda it: nplib.getitem(self, seq, it, st, nocheck=True)
        if isinstance(seq, (list, tuple)):
            return len(seq), lambda it: seq[it]
        if isinstance(seq, Obj):
            m = self.find_method(seq.cls, "__iter__")
            raise Unsupported(f"iteration over {seq.cls[1].name}")
        raise Unsupported(f"iteration over {type(seq).__name__}")

    def known_nonneg(self, t):
        if conc(t):
            return t >= 0
        return not self.feasible(toint(t) < 0)

    def set_target(self, st, v):
        if isinstance(st, ast.For):
            self.assign(st.target, v, st)

    def loop(self, st, rng, guard, getter):
        key = (tuple(c[1] for c in self.callstack), pos(st))
        concrete = rng is not None and conc(simp_int(rng[0])) and conc(simp_int(rng[1]))
        if self.mode != "proof" or (concrete and abs(simp_int(rng[1]) - simp_int(rng[0])) <= 8 and not self.opts.get("cut_all")):
            return self.loop_unroll(st, rng, guard, getter)
        L = self.loopinfo.setdefault(key, LoopInfo())
        fkey = tuple(c[0] for c in self.callstack)
        # ordinal of the loop within its function, by source order
        fname = self.callstack[-1][0]
        ords = self.loop_ordinals()
        ordinal = ords[pos(st)]
        specs = self.loop_invs(fname, ordinal, st)
        env = self.frame
        it0, step, hi = 0, 1, None
        if rng is not None:
            it0, hi, step = rng
        # --- entry obligations
        self.loop_check(specs, env, it0, f"loop{ordinal} entry", st, key, hi, rng)
        # --- cut
        decide = self.choose(2)
        heads_env = dict(env)
        for v, k in L.modvars.items():
            if v in env:
                cur = env[v]
                if isinstance(cur, Arr):
                    sh = [self.fresh("int", v + "_n") for _ in cur.shape]
                    for s_ in sh:
                        self.assume(s_ >= 0)
                    env[v] = self.fresh_arr(cur.dtype, sh, v, site=v, is_list=cur.is_list)
                else:
                    env[v] = self.havoc_value(k, v)
        for v, k in L.late.items():
            if v not in env and k is not None:
                env[v] = self.havoc_value(k, v)
        arrs = self.reachable_arrays()
        entry_arrs = [(a, a.dtype, a.shape, a._fn) for u, a in arrs.items() if u in L.modarrs]
        for uid, dt in L.modarrs.items():
            a = arrs.get(uid)
            if a is None:
                continue
            if a.is_list:
                if a.dtype is None or dt != a.dtype:
                    a.dtype = dt
                ln = self.fresh("int", "len")
                self._add(ln >= 0)
                a.shape = (ln,) + tuple(a.shape[1:])
                a._fn = self.list_fresh_fn(dt, len(a.shape))
            else:
                if dt is not None:
                    a.dtype = dt
                a._fn = self.fresh_fn(a.dtype, a.ndim, "h")
            a.version += 1
        it = self.fresh("int", "it")
        if rng is None:
            self._add(it >= 0)      # ghost: completed iterations of a while loop
        else:
            if step == 1:
                self._add(toint(it0) <= it)
                # upper bound: it <= max(it0, hi)
                if self.known_nonneg(hi - it0 if not (conc(hi) and conc(it0)) else hi - it0):
                    self._add(it <= toint(hi))
                else:
                    self._add(z3.Or(it <= toint(hi), it == toint(it0)))
            elif step == -1:
                self._add(it <= toint(it0))
                self._add(z3.Or(it >= toint(hi), it == toint(it0)))
            elif not conc(step) or step > 0:
                # the loop is at its first value, or the previous one was below the bound
                self._add(toint(it0) <= it)
                self._add(z3.Or(it - step < toint(hi), it == toint(it0)))
            else:
                raise Unsupported("negative range step other than -1")
        up = not conc(step) or step > 0
        for nm, f in specs:
            c = self.eval_inv(f, env, it, hi, rng)
            self.assume_inv(c)
        head_versions = {u: a.version for u, a in self.reachable_arrays().items()}
        head_env = dict(env)
        if decide == 1:
            # exit path
            if rng is not None:
                if up:
                    g = it < toint(hi)
                else:
                    g = it > toint(hi)
                self.assume(Not(g))
                nonempty = self.branch(it > toint(it0) if up else it < toint(it0))
                if nonempty:
                    if isinstance(st.target, (ast.Name, ast.Tuple)) and not self.target_reassigned(st):
                        self.set_target(st, getter(it - step))
                    elif self.target_reassigned(st):
                        pass
                else:
                    # loop body never executed: the state is exactly the entry state
                    env.clear()
                    env.update(heads_env)
                    for a, dt, sh, f in entry_arrs:
                        a.dtype, a.shape, a._fn = dt, sh, f
            else:
                g = guard()
                self.assume(Not(g))
            return
        # --- body path
        if rng is not None:
            self.assume(it < toint(hi) if up else it > toint(hi))
            self.set_target(st, getter(it))
        else:
            self.assume(guard())
        self.it_stack.append(it)
        try:
            try:
                self.exec_block(st.body)
            except ContinueEx:
                pass
        except BreakEx:
            return
        finally:
            self.it_stack.pop()
        # back edge
        self.backedge(L, env, head_env, head_versions, heads_env)
        nit = it + step
        self.loop_check(specs, env, nit, f"loop{ordinal} preserved", st, key, hi, rng)
        raise PathEnd()

    def target_reassigned(self, st):
        tn = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        for b in st.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in tn:
                    return True
        return False

    def list_fresh_fn(self, dt, ndim):
        if isinstance(dt, tuple):
            fns = [self.fresh_fn(d, ndim, "l") for d in dt]
            return lambda *k: tuple(f(*k) for f in fns)
        if dt is None:
            return lambda *k: (_ for _ in ()).throw(Unsupported("element of an untyped list"))
        return self.fresh_fn(dt, ndim, "l")

    def havoc_value(self, k, name):
        if isinstance(k, tuple):
            return tuple(self.havoc_value(x, name) for x in k)
        return self.fresh(k, name)

    def value_kind(self, v):
        if isinstance(v, tuple):
            return tuple(self.value_kind(x) for x in v)
        k = kind(v)
        if k in ("int", "bool", "real", "F"):
            if isinstance(v, float) and v != v:
                return "F"
            return k
        if k == "SNum":
            return None
        return None

    def join_kind(self, a, b):
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join_kind(x, y) for x, y in zip(a, b))
        order = ["bool", "int", "real", "F"]
        if a in order and b in order:
            return order[max(order.index(a), order.index(b))]
        raise Unsupported(f"loop-carried variable changes kind {a} -> {b}")

    def same_value(self, a, b):
        if a is b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.same_value(x, y) for x, y in zip(a, b))
        if is_z3(a) and is_z3(b):
            return a.eq(b)
        if isinstance(a, F) and isinstance(b, F):
            return self.same_value(a.v, b.v) and self.same_value(a.nan, b.nan)
        if isinstance(a, (int, float, str, Fraction)) and type(a) == type(b):
            return a == b
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same_value(x, y) for x, y in zip(a, b))
        if isinstance(a, View) and isinstance(b, View):
            return False
        return False

    def backedge(self, L, env, head_env, head_versions, entry_env):
        changed = False
        for v, cur in env.items():
            if v in head_env:
                if not self.same_value(cur, head_env[v]) or v in L.modvars:
                    if v in entry_env:
                        k = None
                        if isinstance(cur, Arr):
                            if not isinstance(entry_env[v], Arr):
                                raise Unsupported(f"loop-carried {v} changes type")
                            k = "arr"
                            if isinstance(cur, View) or v not in L.modvars:
                                k = "arr"
                        else:
                            k = self.value_kind(cur)
                            k0 = self.value_kind(entry_env[v])
                            if k is None or k0 is None:
                                if self.same_value(cur, entry_env[v]):
                                    continue
                                raise Unsupported(f"loop-carried variable {v} of type {type(cur).__name__}")
                            k = self.join_kind(k, k0)
                            if v in L.modvars:
                                k = self.join_kind(k, L.modvars[v])
                        if L.modvars.get(v) != k:
                            L.modvars[v] = k
                            changed = True
                    elif v in L.late:
                        k = self.value_kind(cur)
                        if k is not None and L.late[v] is not None and self.join_kind(k, L.late[v]) != L.late[v]:
                            L.late[v] = self.join_kind(k, L.late[v])
                            changed = True
            elif v not in L.late:
                k = None
                if not isinstance(cur, (Arr, list)):
                    k = self.value_kind(cur)
                L.late[v] = k
                changed = changed or k is not None
        now = self.reachable_arrays()
        for uid, ver in head_versions.items():
            a = now.get(uid)
            if a is None:
                continue
            if a.version != ver and L.modarrs.get(uid, 0) != a.dtype:
                L.modarrs[uid] = a.dtype
                changed = True
        if changed:
            raise Restart()

    def reachable_arrays(self):
        out = {}
        todo = list(self.frame.values())
        for fr in self.frames_below:
            todo.extend(fr.values())
        c = self.closure
        while c is not None:
            todo.extend(c[0].values())
            c = c[1]
        seen = set()
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, View):
                v = v.root()
            if isinstance(v, Arr):
                out[v.uid] = v
            elif isinstance(v, Rec):
                todo.extend(v.fields.values())
            elif isinstance(v, RecRow):
                todo.append(v.rec)
            elif isinstance(v, Obj):
                todo.extend(v.attrs.values())
            elif isinstance(v, (list, tuple)):
                todo.extend(v)
            elif isinstance(v, dict):
                todo.extend(v.values())
        return out

    @property
    def frames_below(self):
        return []

    def loop_ordinals(self):
        node = self.cur_fn_node()
        d = {}
        for n in walk_own(node):
            if isinstance(n, (ast.For, ast.While)):
                d[pos(n)] = None
        for i, p in enumerate(sorted(d)):
            d[p] = i
        return d

    def cur_fn_node(self):
        return self.fn_nodes[-1]

    def loop_invs(self, fname, ordinal, st):
        ls = self.loop_specs.get(fname)
        if ls is None:
            return []
        if callable(ls):
            return ls(ordinal)
        return [(f"inv{i}", f) if not isinstance(f, tuple) else f for i, f in enumerate(ls.get(ordinal, []))]

    def spec_env(self, env, it, hi, rng):
        d = {}
        for k, v in env.items():
            d[self.rename.get(k, k)] = snap(v)
        for k, v in self.entry_ns.__dict__.items():
            if k.startswith("dim_"):
                d.setdefault(k, v)
        ns = SNS(d)
        ns.it, ns.hi = it, hi
        ns.outer = list(self.it_stack)
        ns.old = self.entry_ns
        ns.env = env
        ns.eng = self
        return ns

    def eval_inv(self, f, env, it, hi, rng):
        try:
            return f(self.spec_env(env, it, hi, rng))
        except AttributeError as e:
            # tolerated while the loop analysis still discovers variables (Restart); fatal if exploration ends with it
            self.missing_local = f"invariant refers to a missing local: {e}"
            return True

    def assume_inv(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume_inv(x)
        else:
            self.assume(c)

    def loop_check(self, specs, env, it, what, st, key, hi, rng):
        for nm, f in specs:
            c = self.eval_inv(f, env, it, hi, rng)
            if isinstance(c, (list, tuple)):
                for i, x in enumerate(c):
                    self.oblige(x, f"{what} {nm}.{i}", "inv", node=st)
            else:
                self.oblige(c, f"{what} {nm}", "inv", node=st)

    def loop_unroll(self, st, rng, guard, getter):
        if rng is not None:
            it, hi, step = rng
            count = 0
            while self.branch(it < hi if not conc(step) or step > 0 else it > hi):
                count += 1
                if count > self.unroll * 4 and not (conc(simp_int(it)) and conc(simp_int(hi))):
                    self.incomplete = True
                    raise PathEnd()
                self.set_target(st, getter(it))
                try:
                    self.exec_block(st.body)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                it = simp_int(it + step)
            return
        count = 0
        while self.branch(guard()):
            count += 1
            if count > self.unroll:
                self.incomplete = True
                raise PathEnd()
            try:
                self.exec_block(st.body)
            except ContinueEx:
                pass
            except BreakEx:
                return

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {getattr(e, 'lineno', '?')}")
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, float):
            if e.value != e.value or e.value in (float("inf"), float("-inf")):
                return e.value
            return z3.RealVal(Fraction(e.value))
        return e.value

    def e_Name(self, e):
        return self.lookup_name(e.id, e)

    def e_JoinedStr(self, e):
        return OpaqueStr()

    def e_Tuple(self, e):
        return tuple(self.ev_elts(e.elts))

    def ev_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if not isinstance(v, (tuple, list)):
                    raise Unsupported("starred expression")
                out.extend(v)
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        if not e.elts:
            return nplib.new_list(self, pos(e))
        return self.ev_elts(e.elts)

    def e_Dict(self, e):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v)
                if not isinstance(d, dict):
                    raise Unsupported("dict unpack")
                out.update(d)
            else:
                kk = self.ev(k)
                if is_z3(kk):
                    raise Unsupported("symbolic dict key")
                out[kk] = self.ev(v)
        return out

    def e_Set(self, e):
        return set(self.ev_elts(e.elts))

    def e_Slice(self, e):
        return slice(self.ev(e.lower) if e.lower is not None else None,
                     self.ev(e.upper) if e.upper is not None else None,
                     self.ev(e.step) if e.step is not None else None)

    def ev_index(self, e):
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_elts(e.elts))
        return self.ev(e)

    def e_Subscript(self, e):
        base = self.ev(e.value)
        return nplib.getitem(self, base, self.ev_index(e.slice), e)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return nplib.unop(self, type(e.op).__name__, v, e)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        return nplib.binop(self, type(e.op).__name__, a, b, e)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = nplib.compare(self, type(op).__name__, left, right, e)
            res = c if res is None else nplib.logical(self, "and", res, c)
            left = right
        return res

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        terms = []
        n0 = len(self.pc)
        vals = []
        self.fsolver.push()
        added = []
        try:
            for x in e.values:
                v = self.ev(x)
                t = self.truth(v)
                t = simp_bool(t)
                if is_and and t is False:
                    terms.append(False)
                    break
                if not is_and and t is True:
                    terms.append(True)
                    vals.append(v)
                    break
                if t is True and is_and:
                    vals.append(v)
                    continue
                if t is False and not is_and:
                    vals.append(v)
                    continue
                terms.append(t)
                vals.append(v)
                # short circuit: the next operands are evaluated under this one's truth
                g = t if is_and else Not(t)
                if is_z3(g):
                    self.guards_push(g)
                    added.append(g)
        finally:
            self.fsolver.pop()
            self.guards_pop(added, n0)
        return And(*terms) if is_and else Or(*terms)

    # guards: temporary assumptions; obligations raised meanwhile carry them, facts are kept conditional
    def guards_push(self, g):
        self.pc.append(g)
        self.keep.append(g)
        if not has_quantifier(g):
            self.fsolver.add(g)

    def guards_pop(self, added, n0):
        # drop the guards, keep facts added in between under the conjunction of guards
        if not added:
            # facts added in the popped solver scope must be re-added
            for c in self.pc[n0:]:
                if not has_quantifier(c):
                    self.fsolver.add(c)
            return
        tail = self.pc[n0:]
        del self.pc[n0:]
        active = []
        gi = 0
        for c in tail:
            if gi < len(added) and c is added[gi]:
                active.append(c)
                gi += 1
                continue
            f = c if not active else z3.Implies(z3.And(*active) if len(active) > 1 else active[0], c)
            self.pc.append(f)
            self.keep.append(f)
            if not has_quantifier(f):
                self.fsolver.add(f)

    def e_IfExp(self, e):
        c = simp_bool(self.truth(self.ev(e.test)))
        if self.branch(c):
            return self.ev(e.body)
        return self.ev(e.orelse)

    def e_Lambda(self, e):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
        ast.copy_location(node, e)
        ast.fix_missing_locations(node)
        node.end_lineno = e.end_lineno
        return Fn(self.mod, node, None, (self.frame, self.closure))

    def e_ListComp(self, e):
        return self.comp(e)

    def e_GeneratorExp(self, e):
        return self.comp(e)

    def e_DictComp(self, e):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        seq = self.ev(g.iter)
        if isinstance(seq, dict):
            seq = list(seq)
        if not isinstance(seq, (list, tuple)):
            raise Unsupported("symbolic dict comprehension")
        out = {}
        saved = dict(self.frame)
        for v in seq:
            self.assign(g.target, v, e)
            if all(self.branch(self.truth(self.ev(i))) for i in g.ifs):
                out[self.ev(e.key)] = self.ev(e.value)
        self.frame.clear()
        self.frame.update(saved)
        return out

    def comp(self, e):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        seq = self.ev(g.iter)
        if isinstance(seq, dict):
            seq = list(seq)
        if not isinstance(seq, (list, tuple)):
            n, getter = self.seq_len_get(seq, e)
            n = simp_int(n) if n is not None else None
            if n is None or not conc(n):
                if self.mode == "proof" and not g.ifs:
                    return self.comp_symbolic(e, g, n, getter)
                raise Unsupported("comprehension over a symbolic sequence")
            seq = [getter(k) for k in range(n)]
        out = []
        saved = dict(self.frame)
        for v in seq:
            self.assign(g.target, v, e)
            if all(self.branch(self.truth(self.ev(i))) for i in g.ifs):
                out.append(self.ev(e.elt))
        self.frame.clear()
        self.frame.update(saved)
        return out

    def comp_symbolic(self, e, g, n, getter):
        raise Unsupported("comprehension over a symbolic sequence")

    # ------------------------------------------------------------ attributes and calls
    def e_Attribute(self, e):
        base = self.ev(e.value)
        return self.getattr(base, e.attr, e)

    def find_method(self, cls, name):
        return self.src.method(cls[0], cls[1], name)

    def getattr(self, base, attr, node):
        if isinstance(base, Obj):
            if attr in base.attrs:
                return base.attrs[attr]
            if attr in base.hooks:
                h = base.hooks[attr]
                return h(self, base) if getattr(h, "is_prop", False) else Bound(base, attr, h)
            if base.cls is None:
                raise Unsupported(f"attribute {attr} of an external object")
            if attr == "__class__":
                return Cls(*base.cls)
            m = self.find_method(base.cls, attr)
            if m is None:
                # class constant ?
                c = self.class_const(base.cls, attr)
                if c is not None:
                    return c[0]
                ga = base.hooks.get("__getattr__")
                if ga is not None:
                    return ga(self, base, attr)
                raise Unsupported(f"attribute {attr} of {base.cls[1].name}")
            decs = [ast.unparse(d) for d in m[1].decorator_list]
            if "property" in decs:
                return self.call_repo(Fn(m[0], m[1], m[2]), [base], {}, node)
            if "staticmethod" in decs:
                return Fn(m[0], m[1], m[2])
            if "classmethod" in decs:
                return Bound(Cls(*base.cls), attr, Fn(m[0], m[1], m[2]))
            return Bound(base, attr, Fn(m[0], m[1], m[2]))
        if isinstance(base, Cls):
            m = self.src.method(base.mod, base.node, attr)
            if m is None:
                c = self.class_const((base.mod, base.node), attr)
                if c is not None:
                    return c[0]
                raise Unsupported(f"class attribute {attr}")
            decs = [ast.unparse(d) for d in m[1].decorator_list]
            f = Fn(m[0], m[1], m[2])
            return Bound(base, attr, f) if "classmethod" in decs else f
        if isinstance(base, Ext):
            nm = base.name + "." + attr
            c = nplib.CONSTS.get(nm)
            return c if c is not None else Ext(nm)
        return nplib.getattr_(self, base, attr, node)

    def class_const(self, cls, attr):
        mod, node = cls
        for st in node.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in st.targets):
                return (self.wrap_entry(("const", mod, st.value)),)
        for b in node.bases:
            if isinstance(b, ast.Name):
                en = self.src.lookup(mod, b.id)
                if en and en[0] == "class":
                    r = self.class_const((en[1], en[2]), attr)
                    if r is not None:
                        return r
        return None

    def setattr(self, base, attr, v, node):
        if isinstance(base, Obj):
            base.attrs[attr] = v
            return
        raise Unsupported(f"attribute assignment on {type(base).__name__}")

    def e_Call(self, e):
        # ignored side-effect-free calls (logging)
        f = e.func
        root = f
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id in IGNORED_CALLS and root.id not in self.frame:
            return None
        if isinstance(f, ast.Name) and f.id == "super":
            return Opaque("super")
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self.call_super(f.attr, e)
        fv = self.ev(f)
        args = self.ev_elts(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if not isinstance(d, dict):
                    raise Unsupported("** of non dict")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(fv, args, kw, e)

    def call_super(self, name, e):
        selfv = self.frame.get("self")
        mod, cls = self.cur_cls
        for b in cls.bases:
            if isinstance(b, ast.Name):
                en = self.src.lookup(mod, b.id)
                if en and en[0] == "class":
                    m = self.src.method(en[1], en[2], name)
                    if m:
                        args = self.ev_elts(e.args)
                        kw = {k.arg: self.ev(k.value) for k in e.keywords}
                        return self.call_repo(Fn(m[0], m[1], m[2]), [selfv] + args, kw, e)
        raise Unsupported(f"super().{name}")

    def call(self, fv, args, kw, node):
        if isinstance(fv, Bound):
            if fv.fn is None:
                return nplib.call_method(self, fv.obj, fv.name, args, kw, node)
            if isinstance(fv.fn, Fn):
                if isinstance(fv.obj, Obj) and fv.name in fv.obj.hooks:
                    return fv.obj.hooks[fv.name](self, fv.obj, *args, **kw)
                return self.call_repo(fv.fn, [fv.obj] + args, kw, node)
            return fv.fn(self, fv.obj, *args, **kw)
        if isinstance(fv, Fn):
            return self.call_repo(fv, args, kw, node)
        if isinstance(fv, Ext):
            return nplib.call_ext(self, fv.name, args, kw, node)
        if isinstance(fv, Dt):
            return nplib.cast_scalar(self, args[0], fv.k, node)
        if isinstance(fv, Cls):
            h = self.opts.get("construct", {}).get(fv.node.name)
            if h is not None:
                return h(self, *args, **kw)
            raise Unsupported(f"construction of {fv.node.name}")
        if callable(fv) and not is_z3(fv):
            return fv(self, *args, **kw)
        raise Unsupported(f"call of {type(fv).__name__} {ast.unparse(node.func)[:40] if isinstance(node, ast.Call) else ''}")

    def call_repo(self, f, args, kw, node):
        name = f"{f.mod.name}:{(f.cls.name + '.') if f.cls is not None else ''}{f.node.name}"
        hook = self.opts.get("calls", {}).get(name) or self.opts.get("calls", {}).get(f.node.name)
        if hook is not None and (self.mode == "proof" or getattr(hook, "always", False)):
            r = hook(self, args, kw, node)
            if r is not NotImplemented:
                return r
        c = self.registry.get(name)
        if c is not None and self.mode == "proof" and name != self.target_name:
            r = c.apply_at_call(self, f, args, kw, node)
        else:
            r = self.run_inline(f, args, kw, node)
        # intermediate assertion of the contract: what the result of this call is, proved here then used instead of its definition
        after = self.opts.get("after", {}).get(f.node.name)
        if after is not None and self.mode == "proof":
            ns = self.spec_env(self.frame, None, None, None)
            goals, r2, defs = after(ns, args, r, self.ghost)
            for d in defs:  # instances of the definitions of specification functions
                self.assume(d)
            for nm, g in goals:
                self.oblige(g, nm, "assert", node=node)
            r = r if r2 is None else r2
        return r

    def run_inline(self, f, args, kw, node):
        self.fn_nodes.append(f.node)
        try:
            return self.run_function(f.mod, f.node, args, kw, f.cls, f.closure, site=f"{f.node.name}@{pos(node)}")
        finally:
            self.fn_nodes.pop()


def has_quantifier(e):
    from .engine import has_quant
    return has_quant(e)


def walk_own(node):
    """walk a function body without entering nested functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))
