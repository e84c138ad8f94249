"""C18 aggregations of collections, StairsArray operators, tables and matrices are pointwise / pairwise."""
import functools
import itertools
import operator

import numpy as np
import pandas as pd
import staircase as sc

from .. import catalog as K
from .. import gen, impl, stats
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa
from . import c19

F = M.F
SIDES = ("left", "right")
NAN = float("nan")
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 7, ()
VALS_STRIDE, VALS_SKIP = 7, ('dates',)
BOUNDS = {
    "quick": "7 aggregations of every tuple of 1 and 2 and half of all triples over 10 member functions (step-free, undefined, partly undefined, disjoint points) in alternating "
             "materialisations; all pairs of 2-point functions {undefined,0,1}x{undefined,0,-2}; 14 container kinds x all aggregations x entry points "
             "(top level, array, Series reduction, agg, accessor); repeated members; long triples with every adjacent pair of joint values; all domains; StairsArray operators in both orders against "
             "22 kinds of other operand; sample/limit tables over 11 kinds of x; cov/corr matrices of <=4 members x windows",
    "thorough": "as quick with all triples over all materialisations, quadruples, operators over all member pairs, all domains",
}
RULE = "aggregate at each point is the aggregate of the members' values (undefined if any is), sum equals folding +; array operators, tables and matrices equal the per-member results"
ASSUMPTIONS = ["empty collections are outside the quantifier (1..n members)"]
AGGS = tuple(K.AGGM)


def members():
    return K.start_functions()


def form(f, i, forms=gen.FORMS4):
    fs = gen.nforms(f, forms)
    return fs[i % len(fs)]


CONT = ("list", "tuple", "dict", "dictorder", "array", "series", "serieslabels", "seriesdup", "seriesrev", "sa", "saarr", "sasa", "index", "objseries")
HOWS = ("top", "array", "series", "agg", "accessor")


def container(k, objs):
    objs = list(objs)
    n = len(objs)
    if k == "list":
        return objs
    if k == "tuple":
        return tuple(objs)
    if k == "dict":
        return {"k%d" % i: o for i, o in enumerate(objs)}
    if k == "dictorder":
        return {(10 - i): o for i, o in enumerate(objs)}
    a = np.empty(n, dtype=object)
    a[:] = objs
    if k == "array":
        return a
    if k == "series":
        return pd.Series(objs, dtype="Stairs")
    if k == "serieslabels":
        return pd.Series(objs, index=["m%d" % i for i in range(n)], dtype="Stairs")
    if k == "seriesdup":
        return pd.Series(objs, index=[7] * n, dtype="Stairs")
    if k == "seriesrev":
        return pd.Series(objs, index=list(range(n))[::-1], dtype="Stairs")
    if k == "objseries":
        return pd.Series(objs, index=range(3, 3 + n))
    if k == "sa":
        return sc.StairsArray(objs)
    if k == "saarr":
        return sc.StairsArray(a)
    if k == "sasa":
        return sc.StairsArray(sc.StairsArray(tuple(objs)))
    return pd.Index(objs, dtype=object)


def labels(k, n):
    return {"dict": ["k%d" % i for i in range(n)], "dictorder": [10 - i for i in range(n)], "serieslabels": ["m%d" % i for i in range(n)], "seriesdup": [7] * n,
            "seriesrev": list(range(n))[::-1], "objseries": list(range(3, 3 + n))}.get(k, list(range(n)))


def aggregated(name, coll, how):
    if how == "array":
        return getattr(sc.StairsArray(coll), name)()
    if how == "series":
        ser = pd.Series(coll, dtype="Stairs")
        return getattr(ser.sc, name)() if name.startswith("logical") else getattr(ser, name)()
    if how == "agg" and not name.startswith("logical"):
        return sc.agg(coll, getattr(np, name))
    if how == "accessor" and name.startswith("logical"):
        return getattr(pd.Series(coll, dtype="Stairs").sc, name)()
    if how == "accessor":
        return pd.Series(coll, dtype="Stairs").agg(name)
    return getattr(sc, name)(coll)


def leaves(fs, d, c, i):
    return tuple(Leaf(f, d, c, *form(f, i + j)) for j, f in enumerate(fs))


OPN = {"add": ("add", "radd"), "sub": ("subtract", "rsubtract"), "mul": ("multiply", "rmultiply"), "div": ("divide", "rdivide"), "lt": ("lt", None), "le": ("le", None), "gt": ("gt", None),
       "ge": ("ge", None), "eq": ("eq", None), "ne": ("ne", None)}
OTHERS = ("stairs", "free stairs", "int", "float", "nan", "zero", "bool", "npint", "npfloat", "npbool", "list", "tuple", "objarray", "array", "series", "seriesdup", "numlist", "numarray", "intarray", "numseries", "mixed", "self")
XKINDS = ("list", "tuple", "array", "index", "series", "scalar", "unsorted", "dup", "single", "oddseries", "falsy")


def spaces(tier):
    ms = members()
    yield "one", ((leaves((f,), d, c, i), o, CONT[(i + j) % len(CONT)], HOWS[(i + j) % 5]) for d in gen.ALL_DOMS for c in SIDES for i, f in enumerate(ms) for j, o in enumerate(AGGS))
    yield "two", ((leaves(fs, "int", SIDES[i % 2], i // 2), o, CONT[(i + 3 * j) % len(CONT)], HOWS[(i // 3 + j) % 5]) for i, fs in enumerate(itertools.product(ms, repeat=2)) for j, o in enumerate(AGGS))
    yield "three", ((leaves(fs, "float", SIDES[i % 2], i // 2), o, CONT[(i + 3 * j) % len(CONT)], HOWS[(i // 3 + j) % 5]) for i, fs in enumerate(itertools.product(ms, repeat=3)) for j, o in enumerate(AGGS)
                    if tier != "quick" or (i + j) % 3 == 0)
    yield "pairs", ((leaves((f, g), "int", "left", i + j), o, "list", "top") for i, f in enumerate(gen.functions((0, 2), (None, 0, 1))) for j, g in enumerate(gen.functions((1, 2), (None, 0, -2))) for k, o in enumerate(AGGS)
                    if tier != "quick" or (i + j + k) % 2)
    yield "containers", ((leaves(fs, d, "left", 0), o, c, h) for d in ("int", "tzfix") for fs in (tuple(ms[3:6]), (ms[9], ms[1], ms[4]), (ms[1], ms[0]), (ms[6],)) for o in AGGS for c in CONT for h in HOWS)
    yield "dup", ((leaves((f,), "int", "left", i), n, o, same) for i, f in enumerate(ms) for n in (2, 3, 5) for o in AGGS for same in (0, 1))
    yield "domains", ((leaves(fs, d, c, 1), o, CONT[(i + j) % len(CONT)], HOWS[(i + j) % 5]) for d in gen.ALL_DOMS for c in SIDES for i, fs in enumerate(((ms[3], ms[6], ms[1]), (ms[4], ms[9]), (ms[5], ms[8], ms[3]), (ms[0], ms[4], ms[0], ms[3]))) for j, o in enumerate(AGGS))
    u = gen.universal_tuple([(None, 0, 1), (None, 0, -2)])
    v = gen.universal_tuple([(0, 1), (0, 2), (None, 0, 1)])
    yield "universal", ((tuple(Leaf(x, d, c, *a) for x, a in zip(t, (gen.FORMS4[i % 4], gen.FORMS4[(i + 1) % 4], gen.FORMS4[(i + 3) % 4]))), o, "list", "top") for t in (u, v) for i in range(4) for d, c in (("int", "left"), ("utc", "right")) for o in AGGS)
    yield "ops", ((leaves(fs, d, c, i + k), o, t, rev, meth) for d, c in (("int", "left"), ("ts", "right")) for i, fs in enumerate(((ms[4], ms[6]), (ms[5],), (ms[1], ms[3], ms[9]))) for k, o in enumerate(OPN)
                  for t in range(len(OTHERS)) for rev in (0, 1) for meth in ((0, 1) if d == "int" else ((i + k + t) % 2,)))
    yield "oppairs", ((leaves((f, g), "int", "left", i), leaves((h, f), "int", "left", i + 1), o) for i, (f, g, h) in enumerate(itertools.product(ms[3:], repeat=3)) for o in (tuple(OPN)[i % 3::3] if tier == "quick" else OPN))
    yield "lengths", ((n, m, k, o, rev) for n in (1, 2, 3) for m in (1, 2, 3, 4) if n != m for k in ("list", "tuple", "array", "sa", "series") for o in OPN for rev in (0, 1))
    yield "seriesops", ((leaves(fs, "int", "left", k), o, t, rev) for fs in ((ms[4], ms[6]), (ms[1], ms[3], ms[9])) for k, o in enumerate(OPN) for t in range(6) for rev in (0, 1))
    yield "tables", ((leaves(fs, d, c, i), CONT[j], how, x, q) for d, c in (("int", "left"), ("ts", "right"), ("tzfall", "left"), ("td", "left"), ("float", "right"), ("tzfix", "left"), ("utc", "left"), ("tzspring", "right"))
                     for i, fs in enumerate(((ms[4], ms[9], ms[1]), (ms[5],), (ms[3], ms[3]), (ms[1], ms[2]))) for j in range(len(CONT)) for how in ("top", "array", "acc") for k, x in enumerate(XKINDS) for q in ("sample", "left", "right", "default")
                     if (i + j + k + len(q) + len(how)) % (12 if tier == "quick" and d != "int" else 3 if tier == "quick" else 1) == 0)
    yield "nowindow", ((leaves(fs, d, c, i), w, o, CONT[(2 * i + j + len(o)) % len(CONT)], how) for d, c in (("float", "left"), ("ts", "right")) for i, fs in enumerate(NOWIN) for j, w in enumerate((None, ("-inf", "inf"), (0, "inf"), ("-inf", 3)))
                       for o in ("cov", "corr") for how in ("top", "array", "acc"))
    yield "matrices", ((leaves(fs, d, c, i + j), w, o, CONT[(i + j) % len(CONT)], how) for d, c in (("float", "left"), ("ts", "right"), ("tzspring", "left")) for i, fs in enumerate(MATS) for j, w in enumerate(((0, 5), (-1, 3), (1, 4)))
                       for o in ("cov", "corr") for how in ("top", "array", "acc"))
    many = [gen.functions((i % 3, i % 3 + 2 + i % 4), (None, 0, 1, -2) if i % 4 == 3 else (0, 1, 2, -1)) for i in range(12)]
    many = [list(m)[(7 * i + 11) % 27] for i, m in enumerate(many)]
    yield "many", ((leaves(many[k: k + n], d, c, k), o, CONT[(k + j + n) % len(CONT)], HOWS[(k + n + j) % 5]) for d, c in (("int", "left"), ("tzfall", "right")) for n in (4, 5, 6, 7, 8, 9, 12) for k in range(0, 13 - n, 3) for j, o in enumerate(AGGS))
    yield "long", ((tuple(Leaf(gen.long(i, und=u), d, c, *a) for i in range(n)), o, "list", "top") for n in (2, 3) for u in (True, False) for d, c, a in gen.LONG3 for o in AGGS)
    if tier == "thorough":
        yield "three_full", ((tuple(Leaf(f, "int", "left", *a) for f, a in zip(fs, fa)), o, "list", "top") for fs in itertools.product(ms[1::2], repeat=3) for fa in itertools.product(gen.FORMS4, repeat=3)
                             if all(a in gen.nforms(f, gen.FORMS4) for f, a in zip(fs, fa)) for o in AGGS)
        yield "four", ((leaves(fs, "int", "right", i), o, "list", "top") for i, fs in enumerate(itertools.product(ms[::2], repeat=4)) for o in AGGS)


MATS = [(F(0, ((0, 1), (2, 3))), F(1, ((1, -2), (3, 2)))), (F(0, ((0, 1), (2, None), (4, 2))), F(0, ((1, 2), (3, 0))), F(2, ())), (F(1, ((1, 0), (2, None), (3, 3))),),
        (F(0, ((0, 1), (3, 2))), F(0, ((0, 1), (3, 2))), F(None, ((0, 2), (2, 1), (9, None))), F(0, ((2, -1),)))]


# members bounded on at least one side each, with bounded common parts: windows may be omitted or unbounded
NOWIN = [(F(None, ((0, 1), (2, 3), (4, None))), F(None, ((-1, 2), (0, 0), (1, None), (3, 5), (5, None)))), (F(None, ((0, -2), (3, None))), F(None, ((-1, 1), (1, 4), (2, None))), F(None, ((0, 2), (1, 5), (9, None)))),
         (F(None, ((0, 1), (1, 3), (4, None))),)]


def run(space, case, ctx):
    ctx.traces += 1
    ctx.outcome((space, case))
    if space in ("one", "two", "three", "pairs", "containers", "domains", "universal", "three_full", "four", "many", "long"):
        return agg(*case, ctx)
    if space == "dup":
        ls, n, o, same = case
        L = ls[0]
        s, f = L.fresh(), L.f.canon()
        objs = [s] * n if same else [s] + [L.fresh() for _ in range(n - 1)]
        r = aggregated(o, objs, HOWS[n % 5])
        ctx.transitions += 1
        return pre(impl.compare(r, L.dom, K.aggregate(o, [f] * n)) or impl.compare(s, L.dom, f), "%s of %d times the same" % (o, n))
    if space == "ops":
        return ops(*case, ctx)
    if space == "oppairs":
        A, B, o = case
        xs, ys = [l.fresh() for l in A], [l.fresh() for l in B]
        r = impl.BIN[o](sc.StairsArray(xs), sc.StairsArray(ys))
        return elements(r, [M.binary(o, a.f.canon(), b.f.canon()) for a, b in zip(A, B)], A[0].dom, "array %s array" % o, ctx)
    if space == "lengths":
        n, m, k, o, rev = case
        a, b = [sc.Stairs(initial_value=i).layer(i, i + 2) for i in range(n)], [sc.Stairs().layer(1, 2) for _ in range(m)]
        arr, other = sc.StairsArray(a), container(k, b)
        ctx.transitions += 1
        try:
            r = impl.BIN[o](other, arr) if rev else impl.BIN[o](arr, other)
        except ValueError:
            return None
        except Exception as e:
            # comparing or adding containers of different lengths may be refused by pandas / numpy itself
            return None if rev else "lengths: %s raised for %d against %d members" % (type(e).__name__, n, m)
        return "lengths: %d against %d members gives %s" % (n, m, type(r).__name__)
    if space == "seriesops":
        return seriesops(*case, ctx)
    if space == "tables":
        return tables(*case, ctx)
    return matrices(*case, ctx)


def pre(d, what):
    return d and "%s: %s" % (what, d)


def agg(ls, o, cont, how, ctx):
    dom = ls[0].dom
    objs = [l.fresh() for l in ls]
    fs = [l.f.canon() for l in ls]
    e = K.aggregate(o, fs)
    r = aggregated(o, container(cont, objs), how)
    ctx.transitions += 1
    ctx.state(e.key(), o)
    d = impl.compare(r, dom, e, deep=len(fs) == 2 and len(e.pts) < 9)
    if d is None and r.closed != ls[0].closed and any(f.steps for f in fs):
        d = "closed side %r" % r.closed
    if d is None and o == "sum":
        ctx.transitions += 1
        d = impl.compare(functools.reduce(operator.add, objs), dom, e)
        d = d and "folding +: " + d
    if d is None and K.exact(e) and not r.number_of_steps == len(e.pts):
        d = "number_of_steps %d expected %d" % (r.number_of_steps, len(e.pts))
    return pre(d, "%s of %s via %s" % (o, cont, how))


def elements(r, es, dom, what, ctx):
    if not isinstance(r, sc.StairsArray):
        return "%s: result is %s" % (what, type(r).__name__)
    if len(r) != len(es):
        return "%s: %d elements expected %d" % (what, len(r), len(es))
    for i, e in enumerate(es):
        ctx.transitions += 1
        ctx.state(e.key())
        d = impl.compare(r[i], dom, e)
        if d:
            return "%s: element %d: %s" % (what, i, d)
    return None


def other(kind, n, dom, closed, objs, fs):
    """-> (operand, [model per member])"""
    g = F(1, ((0, 2), (3, None)))
    gs = [F(1, ((0, 2), (3, 0))), F(None, ((1, -2),)), F(0, ((2, 1), (4, 0)))][:n]
    bl = lambda h: impl.build(h, dom, closed)  # noqa
    c = {"int": 2, "float": 0.5, "nan": NAN, "zero": 0, "bool": True, "npint": np.int64(-2), "npfloat": np.float64(0.25), "npbool": np.bool_(True)}
    if kind in c:
        v = c[kind]
        return v, [M.const(None if v != v else float(v))] * n
    if kind == "stairs":
        return bl(g), [g] * n
    if kind == "free stairs":
        return sc.Stairs(initial_value=3, closed=closed), [M.const(3)] * n
    if kind == "self":
        return sc.StairsArray(objs), list(fs)
    nums = [2, -1, 4][:n]
    if kind == "numlist":
        return list(nums), [M.const(v) for v in nums]
    if kind == "numarray":
        return np.array(nums, dtype=float), [M.const(v) for v in nums]
    if kind == "intarray":
        return np.array(nums), [M.const(v) for v in nums]
    if kind == "numseries":
        return pd.Series(nums, index=range(2, 2 + n)), [M.const(v) for v in nums]
    if kind == "mixed":
        return [bl(gs[0])] + nums[1:], [gs[0]] + [M.const(v) for v in nums[1:]]
    k = {"objarray": "array", "array": "sa"}.get(kind, kind)
    return container(k, [bl(h) for h in gs]), gs


def ops(ls, o, t, rev, meth, ctx):
    dom, closed = ls[0].dom, ls[0].closed
    objs, fs = [l.fresh() for l in ls], [l.f.canon() for l in ls]
    kind = OTHERS[t]
    arr = sc.StairsArray(objs)
    x, gs = other(kind, len(objs), dom, closed, objs, fs)
    fn, rfn = OPN[o]
    if meth:
        if rev:
            if rfn is None:
                return None
            r = getattr(arr, rfn)(x)
        else:
            r = getattr(arr, fn)(x)
    else:
        r = impl.BIN[o](x, arr) if rev else impl.BIN[o](arr, x)
    es = [M.binary(o, g, f) if rev else M.binary(o, f, g) for f, g in zip(fs, gs)]
    if isinstance(r, pd.Series):
        # a Series operand keeps its index
        if list(r.index) != list(x.index):
            return "array %s %s: index %s" % (o, kind, list(r.index))
        r = r.values
    d = elements(r, es, dom, "%s%s %s%s" % ("reflected " if rev else "", "array", o, " " + kind), ctx)
    if d:
        return d
    for s, f in zip(objs, fs):
        d = impl.compare(s, dom, f)
        if d:
            return "array %s: member changed: %s" % (o, d)
    if t == 0 and not rev and not meth and o == "add":
        return elements(-arr, [M.unary("neg", f) for f in fs], dom, "-array", ctx) or elements(arr.negate(), [M.unary("neg", f) for f in fs], dom, "negate", ctx)
    return None


def seriesops(ls, o, t, rev, ctx):
    """Series of step functions: operators act on the underlying array, aligned on a common index"""
    dom = ls[0].dom
    objs, fs = [l.fresh() for l in ls], [l.f.canon() for l in ls]
    idx = ["m%d" % i for i in range(len(objs))]
    ser = pd.Series(objs, index=idx, dtype="Stairs")
    g = F(1, ((0, 2), (3, 0)))
    x, gs = ((2, [M.const(2)] * len(fs)), (0.5, [M.const(0.5)] * len(fs)), (impl.build(g, dom), [g] * len(fs)), (pd.Series(objs[::-1], index=idx, dtype="Stairs"), fs[::-1]),
             (sc.StairsArray(objs[::-1]), fs[::-1]), (np.float64(3), [M.const(3)] * len(fs)))[t]
    if rev and t == 4:
        return None
    r = impl.BIN[o](x, ser) if rev else impl.BIN[o](ser, x)
    if not isinstance(r, pd.Series) or list(r.index) != idx:
        return "Series %s: result is %s" % (o, type(r).__name__)
    es = [M.binary(o, b, a) if rev else M.binary(o, a, b) for a, b in zip(fs, gs)]
    return elements(sc.StairsArray(list(r)), es, dom, "Series %s" % o, ctx)


def xs_of(kind, dom):
    pts = {"unsorted": [3, 0, 2], "dup": [2, 2, 0], "single": [1], "falsy": [2]}.get(kind, [-1, 0, 1, 2, 4])
    l = [dom.label(p) for p in pts]
    if kind == "scalar":
        return l[2], [pts[2]]
    if kind == "falsy":
        return l[0], pts
    if kind == "tuple":
        return tuple(l), pts
    if kind == "array":
        return (np.array(l) if not dom.datelike or dom.tz else pd.Index(l).values), pts
    if kind == "index":
        return dom.index(pts), pts
    if kind in ("series", "oddseries"):
        return pd.Series(l, index=range(len(l)) if kind == "series" else range(9, 9 + len(l))), pts
    return l, pts


def tables(ls, cont, how, xk, q, ctx):
    dom, c = ls[0].dom, ls[0].closed
    objs, fs = [l.fresh() for l in ls], [l.f.canon() for l in ls]
    coll = container(cont, objs)
    x, pts = xs_of(xk, dom)
    if how == "top":
        r = sc.sample(coll, x) if q == "sample" else sc.limit(coll, x) if q == "default" else sc.limit(coll, x, q)
        idx = labels(cont, len(ls))
    elif how == "array":
        a = sc.StairsArray(coll)
        r = a.sample(x) if q == "sample" else a.limit(x) if q == "default" else a.limit(x, side=q)
        idx = list(range(len(ls)))
    else:
        a = pd.Series(coll, dtype="Stairs")
        r = a.sc.sample(x) if q == "sample" else a.sc.limit(x) if q == "default" else a.sc.limit(x, side=q)
        idx = labels(cont, len(ls))
    q = "right" if q == "default" else q  # the documented default side
    ctx.transitions += 2
    what = "%s table of %s via %s" % (q, cont, how)
    if not isinstance(r, pd.DataFrame) or r.shape != (len(ls), len(pts)):
        return "%s: %s of shape %s" % (what, type(r).__name__, getattr(r, "shape", None))
    if list(r.index) != idx:
        return "%s: index %s expected %s" % (what, list(r.index), idx)
    if dom.decode(pd.Index(r.columns)) != list(pts):
        return "%s: columns %s" % (what, list(r.columns))
    for i, (s, f) in enumerate(zip(objs, fs)):
        row = [impl.val(v) for v in r.iloc[i].tolist()]
        exp = [f.sample(p, c) if q == "sample" else f.at(p, q) for p in pts]
        own = s.sample(x) if q == "sample" else s.limit(x, side=q)
        own = [impl.val(own)] if xk in ("scalar", "falsy") else [impl.val(v) for v in list(own)]
        for p, a, b, e in zip(pts, row, own, exp):
            if not M.close(a, e) or not M.close(b, e):
                return "%s: member %d at %s: table %r, call %r, expected %r" % (what, i, p, a, b, e)
    return None


def matrices(ls, w, o, cont, how, ctx):
    dom = ls[0].dom
    objs, fs = [l.fresh() for l in ls], [l.f.canon() for l in ls]
    coll = container(cont, objs)
    n = len(ls)
    inf = {"-inf": -np.inf, "inf": np.inf}
    args = () if w is None else (tuple(inf[x] if isinstance(x, str) else dom.label(x) for x in w),)
    lo, hi = (-1000, 1000) if w is None else (-1000 if w[0] == "-inf" else w[0], 1000 if w[1] == "inf" else w[1])
    mom = [[c19.moments(f, g, lo, hi) for g in fs] for f in fs]
    if any(m is None for r in mom for m in r):
        return None
    if how == "top":
        r = getattr(sc, o)(coll, *args)
    elif how == "array":
        r = getattr(sc.StairsArray(coll), o)(**({"where": args[0]} if args else {}))
    else:
        r = getattr(pd.Series(coll, dtype="Stairs").sc, o)(*args)
    what = "%s matrix of %s via %s" % (o, cont, how)
    if how == "array":
        m = np.asarray(r)
    else:
        if not isinstance(r, pd.DataFrame) or list(r.index) != labels(cont, n) or list(r.columns) != labels(cont, n):
            return "%s: labels %s" % (what, getattr(r, "index", None))
        m = r.to_numpy()
    if m.shape != (n, n):
        return "%s: shape %s" % (what, m.shape)
    ctx.transitions += n * n
    for i in range(n):
        for j in range(n):
            cov, vf, vg = mom[i][j]
            e = float(cov) if o == "cov" else None if vf == 0 or vg == 0 else float(cov) / (float(vf) * float(vg)) ** 0.5
            pair = impl.val(getattr(objs[i], o)(objs[j], *args))
            got, sym = impl.val(m[i, j]), impl.val(m[j, i])
            if not stats.near(got, e, 1e-8) or not stats.near(got, pair, 1e-8) or not stats.near(got, sym, 1e-12):
                return "%s: entry (%d,%d) is %r, transposed %r, pairwise %r, expected %r" % (what, i, j, got, sym, pair, e)
    return None
