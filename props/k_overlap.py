"""Overlap scores between outlines (poly.vertice_overlap, poly.polygon_overlap)"""
from vc.engine import Obj, SArr
from .common import *
from .k_poly import _gen_boxes

# areas given by the Polygon library: assumed non negative, intersection not larger than either outline
_A = [z3.Function(n, z3.IntSort(), z3.RealSort()) for n in ("area_inter", "area_0", "area_1")]
TRUST = "Polygon library (external): area() >= 0, area(p & q) <= min(area(p), area(q)), area(p + q) = area(p) + area(q) - area(p & q)"


def _facts(eng, i):
    inter, a0, a1 = [f(toint(i)) for f in _A]
    eng._add(z3.And(inter >= 0, inter <= a0, inter <= a1))


def _area(v):
    h = lambda eng, o: v
    return h


def _poly(eng, which, i):
    def band(eng, a, b):
        if {a.attrs["which"], b.attrs["which"]} != {0, 1} or not eq_term(a.attrs["i"], b.attrs["i"]):
            raise Exception("intersection of unrelated outlines")
        return Obj(eng, None, {"which": 2}, {"area": _area(_A[0](toint(i)))})

    def badd(eng, a, b):
        if {a.attrs["which"], b.attrs["which"]} != {0, 1} or not eq_term(a.attrs["i"], b.attrs["i"]):
            raise Exception("union of unrelated outlines")
        return Obj(eng, None, {"which": 3}, {"area": _area(_A[1](toint(i)) + _A[2](toint(i)) - _A[0](toint(i)))})
    return Obj(eng, None, {"which": which, "i": i}, {"area": _area(_A[1 + which](toint(i))), "__and__": band, "__or__": badd, "__add__": badd})


def eq_term(a, b):
    return a is b or (is_z3(a) and is_z3(b) and a.eq(b)) or (not is_z3(a) and not is_z3(b) and a == b)


def _wrapv(eng, args, kw, node):
    x0, y0, x1, y1, i = args
    for v, nm in zip((x0, y0, x1, y1), ("x0", "y0", "x1", "y1")):
        if v is not eng.args0[nm]:
            raise Exception("outlines taken from another list")
    eng.oblige(And(0 <= i, i < x0.shape[0], i < x1.shape[0]), "call get_wrap_vertice: index in range", "pre", node=node)
    _facts(eng, i)
    return Obj(eng, None, {"which": 0, "i": i}), Obj(eng, None, {"which": 1, "i": i})


def _ctor(eng, args, kw, node):
    eng.trust(TRUST)
    o = args[0]
    return _poly(eng, o.attrs["which"], o.attrs["i"])


def cost_of(s):
    return s.result[0] if isinstance(s.result, tuple) else s.result


def areas(s, i):
    if isinstance(s.result, tuple):
        t = s.result[1]
        return tuple(t[i, k] for k in range(3))
    return tuple(f(toint(i)) for f in _A)


def _div(a, b):
    return a / b if is_z3(a) or b else 0.0


def _expected(s, i, ar):
    o = s.old
    inter, a0, a1 = ar
    small = If(a0 < a1, a0, a1)
    ratio = _div(inter, small) if o.minimal_area else _div(inter, a1) if o.p1_area else _div(inter, a0 + a1 - inter)
    keep = Or(ratio >= o.min_overlap, And(o.hybrid_area, ratio != 0, _div(inter, small) > num(0.99, inter)))
    return If(inter == 0, num(0.0, inter), If(keep, ratio, num(0.0, inter)))


def _vo_post(s):
    c = cost_of(s)

    def f(i):
        ar = areas(s, i)
        if not is_z3(ar[0]):
            # machine rounding: thresholds are compared only away from equality
            e = _expected(s, i, ar)
            if eqf(c[i], e, tol=1e-6):
                return True
            inter, a0, a1 = ar
            r = [_div(inter, q) for q in (min(a0, a1), a1, a0 + a1 - inter)]
            return any(abs(v - s.old.min_overlap) < 1e-7 or abs(v - 0.99) < 1e-7 for v in r) or inter < 1e-12
        return And(Not(isnan(c[i])), real(c[i]) == _expected(s, i, ar))
    return [c.n == s.dim_n0, forall(0, s.dim_n0, f)]


def _vo_range(s):
    c = cost_of(s)
    if s.eng is None:
        return all(-1e-9 <= c[i] <= 1 + 1e-6 for i in range(c.n))
    return forall(0, s.dim_n0, lambda i: And(0 <= real(c[i]), real(c[i]) <= 1))


def _vo_inv(s):
    def f(i):
        return And(Not(isnan(s.cost[i])), real(s.cost[i]) == _expected(s, i, tuple(g(toint(i)) for g in _A)), 0 <= real(s.cost[i]), real(s.cost[i]) <= 1)
    return forall(0, s.it, f)


def _gen_vo(mode):
    def g(rng, k):
        d = _gen_boxes(rng, k)
        n = min(len(d["x0"]), len(d["x1"]))
        d = {a: b[:n] for a, b in d.items()}
        # rings: circles around the drawn centres
        m = 8
        t = np.linspace(0, 2 * np.pi, m)
        out = {}
        for q in "01":
            xc, yc = d["x" + q].mean(axis=1), d["y" + q].mean(axis=1) * 0.4
            r = rng_floats(rng, n, 0.5, 3)
            out["x" + q], out["y" + q] = xc[:, None] + r[:, None] * np.cos(t), yc[:, None] + r[:, None] * np.sin(t)
        out["x1"] = out["x1"] * 1.0
        out.update(minimal_area=mode[0], p1_area=mode[1], hybrid_area=mode[2], min_overlap=rng.choice([0.0, 0.1, 0.25, 0.5, 0.9]))
        return out
    return g


def _mk(mode, key):
    return Contract(
        "poly:vertice_overlap", dict(x0=P("real", "n0", "m0"), y0=P("real", "n0", "m0"), x1=P("real", "n0", "m1"), y1=P("real", "n0", "m1"),
                                     minimal_area=C(mode[0]), p1_area=C(mode[1]), hybrid_area=C(mode[2]), min_overlap=S("real")), dims_min=dict(m0=1, m1=1), key=f"vertice_overlap({key})",
        requires=[lambda s: s.min_overlap >= 0],
        ensures=[("score: shared area over the reference area, zero under the threshold (hybrid: kept when one is inside the other)", _vo_post), ("scores are in [0, 1]", _vo_range)],
        loops={0: [_vo_inv]}, opts=dict(calls={"get_wrap_vertice": _wrapv}, ext={"Polygon": _ctor}), adapter="vertice_overlap", gen=_gen_vo(mode), bmc=False, fuzz_n=300)


overlap_union = _mk((False, False, False), "shared/union")
overlap_minimal = _mk((True, False, False), "shared/smaller")
overlap_p1 = _mk((False, True, False), "shared/second")
overlap_hybrid = _mk((False, False, True), "hybrid")


def _po_run(eng, args):
    """p0 is one polygon, p1 a list of polygons of symbolic length"""
    mod, node, cls = eng.src.function("poly:polygon_overlap")
    lst = Obj(eng, None, {}, {"__len__": lambda e, o: args["n"], "__getitem__": _p1_item})
    return eng.run_function(mod, node, [_poly0(eng), lst, args["minimal_area"]], {})


def _poly0(eng):
    def band(eng, a, b):
        i = b.attrs["i"]
        return Obj(eng, None, {}, {"area": _area(_A[0](toint(i)))})

    def badd(eng, a, b):
        i = b.attrs["i"]
        return Obj(eng, None, {}, {"area": _area(_A[1](0) + _A[2](toint(i)) - _A[0](toint(i)))})
    return Obj(eng, None, {}, {"area": _area(_A[1](0)), "__and__": band, "__or__": badd, "__add__": badd})


def _p1_item(eng, o, k):
    eng.trust(TRUST)
    eng.oblige(And(0 <= k, k < eng.args0["n"]), "index in bounds", "safety")
    inter, a0, a1 = _A[0](toint(k)), _A[1](0), _A[2](toint(k))
    eng._add(z3.And(inter >= 0, inter <= a0, inter <= a1, a0 > 0, a1 > 0))

    def rev(eng, a, b):
        return b.hooks["__and__"](eng, b, a)

    def rev2(eng, a, b):
        return b.hooks["__add__"](eng, b, a)
    return Obj(eng, None, {"i": k}, {"area": _area(a1), "__and__": rev, "__or__": rev2, "__add__": rev2})


def _po_exp(s, i, ar):
    inter, a0, a1 = ar
    return inter / If(a0 < a1, a0, a1) if s.old.minimal_area else inter / (a0 + a1 - inter)


def _po_ar(s, i):
    if isinstance(getattr(s, "result", None), tuple):
        return tuple(s.result[1][i, k] for k in range(3))
    return _A[0](toint(i)), _A[1](0), _A[2](toint(i))


def _po_post(s):
    c = cost_of(s)
    return [c.n == s.dim_n, forall(0, s.dim_n, lambda i: eqf(c[i], _po_exp(s, i, _po_ar(s, i)), tol=1e-6))]


def _mkpo(minimal, key):
    def gen(rng, k):
        d = _gen_boxes(rng, k)
        t = np.linspace(0, 2 * np.pi, 8)
        n = len(d["x1"])
        r, r0 = rng_floats(rng, n, 0.5, 3), rng.uniform(0.5, 3)
        return dict(x0=r0 * np.cos(t), y0=r0 * np.sin(t), x1=(rng_floats(rng, n, -3, 3)[:, None] + r[:, None] * np.cos(t)), y1=(rng_floats(rng, n, -3, 3)[:, None] + r[:, None] * np.sin(t)), minimal_area=minimal)

    c = Contract(
        "poly:polygon_overlap", dict(n=Dim("n"), minimal_area=C(minimal)), key=f"polygon_overlap({key})",
        ensures=[("score: shared area over the reference area", _po_post)],
        loops={0: [lambda s: forall(0, s.it, lambda i: eqf(s.cost[i], _po_exp(s, i, _po_ar(s, i))))]},
        run=_po_run, adapter="polygon_overlap", gen=gen, bmc=False, fuzz_n=100)
    c.dims_of = lambda args: {"dim_n": len(args["x1"])} if "x1" in args else {}
    return c


polygon_overlap_union = _mkpo(False, "shared/union")
polygon_overlap_minimal = _mkpo(True, "shared/smaller")
