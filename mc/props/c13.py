"""C13 only layer mutates; results never alias operands or each other."""
import itertools

import numpy as np
import pandas as pd
import staircase as sc

from .. import catalog as K
from .. import gen, impl
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa

F = M.F
SIDES = ("left", "right")
MUT = ("scalar", "vector", "shiftall", "twice")
MODES = ("result", "operand", "sibling")
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 13, ()
VALS_STRIDE, VALS_SKIP = 13, ('dates',)
BOUNDS = {
    "quick": "each of 46 unary and 23 binary operations and 60 queries (statistics, distribution, slicing, aggregation, tables, constructors) on 8 functions "
             "in 4 materialisations: operands re-read in every view afterwards; then every mutation (4 kinds of layer call) of the result, of each operand "
             "and of a sibling result, with 3 patterns of reads in between, re-reading every other object; all ordered pairs of operations on a common "
             "operand (siblings, and chains whose intermediate is mutated); same object on both sides; all domains",
    "thorough": "as quick with all mutation/read patterns for all pairs, 11 provenances and all domains",
}
RULE = "after any layer call on one object every other object still denotes what the model says, in every view, with the same closed side"


def form(f, i, forms=gen.FORMS4):
    fs = gen.nforms(f, forms)
    return fs[i % len(fs)]


def spaces(tier):
    un, bi = tuple(K.UNARY), tuple(K.BINARY)
    fs = K.start_functions()
    yield "unary", ((Leaf(f, "int", SIDES[0], *a), o, md, mt, t) for i, f in enumerate(fs) for k, a in enumerate(gen.nforms(f, gen.FORMS4)) for j, o in enumerate(un)
                    for md in MODES for mt, t in pick(i + j + k, tier))
    yield "unaryd", ((Leaf(f, d, "left", *form(f, i + j)), o, MODES[(i + j) % 3], MUT[j % 4], (i + j) % 3) for d in gen.ALL_DOMS for i, f in enumerate(fs[1::2]) for j, o in enumerate(un))
    yield "binary", ((Leaf(f, "int", "left", *form(f, i + k)), Leaf(g, "int", "left", *form(g, j + k // 2)), o, md, MUT[(i + j + k) % 4], (i + k) % 3)
                     for i, f in enumerate(fs) for j, g in enumerate(fs) for k, o in enumerate(bi) for md in MODES + ("operand2",) if tier != "quick" or (i + j + k + len(md)) % 2)
    yield "self", ((Leaf(f, d, c, *a), o, md, MUT[(i + k) % 4]) for d, c in (("int", "left"), ("tzfix", "right")) for i, f in enumerate(fs) for a in gen.nforms(f, gen.FORMS4)
                   for k, o in enumerate(bi) for md in ("result", "operand"))
    core = K.CORE_UNARY + ("copy", "boolean", "clip(0,)", "bfill", "shift(0)", "+2", "0|", "vlayer")
    yield "siblings", ((Leaf(f, "int", "left", *form(f, i + j)), a, b, MUT[(i + 2 * j + k) % 4]) for k, f in enumerate(fs[3:9:2]) for i, a in enumerate(core) for j, b in enumerate(core))
    yield "chain", ((Leaf(f, "float", "left", *form(f, i + j)), a, b, MUT[(i + 2 * j + k) % 4]) for k, f in enumerate(fs[4:10:2]) for i, a in enumerate(core) for j, b in enumerate(core))
    yield "queries", ((Leaf(f, d, c, *a), q) for d, c in (("int", "left"), ("ts", "right"), ("tzspring", "left")) for f in fs for a in (gen.nforms(f, gen.FORMS4) if d == "int" else gen.nforms(f, gen.FORMS4)[1:3])
                      for q in range(len(QUERIES)))
    yield "inputs", ((k, d, c) for k in range(8) for d in gen.ALL_DOMS for c in SIDES)
    yield "collections", ((Leaf(f, d, "left", *form(f, i)), Leaf(g, d, "left", *form(g, j)), k, md) for d in ("int", "ts") for i, f in enumerate(fs[:8]) for j, g in enumerate(fs[:8])
                          for k in range(len(COLL)) for md in ("result", "operand") if d == "int" or (i + j + k) % 3 == 0)
    yield "distobj", ((Leaf(f, d, "left", *a), k) for d in ("int", "ts") for f in fs if M.has_stats(f) for a in gen.nforms(f, gen.FORMS4) for k in range(3))
    if tier == "thorough":
        yield "unary_full", ((Leaf(f, d, c, *a), o, md, mt, t) for d, c in (("float", "right"), ("ts", "left"), ("tzfall", "left")) for f in fs for a in gen.nforms(f)
                             for o in un if c == "left" or not o.startswith("resample") for md in MODES for mt in MUT for t in range(3))
        yield "siblings_full", ((Leaf(f, "int", "left", *a), x, y, mt) for f in fs for a in gen.nforms(f, gen.FORMS4) for x in un for y in un for mt in MUT[:2])


def pick(n, tier):
    allp = [(m, t) for m in MUT for t in range(3)]
    return allp if tier != "quick" else [allp[(n * 5) % 12], allp[(n * 7 + 3) % 12]]


def mutate(s, f, dom, kind):
    """layer onto s (in place); returns the new function"""
    l = dom.label
    if kind == "scalar":
        s.layer(l(1), l(3), 2)
        return M.layer(f, [(1, 3, 2)])
    if kind == "vector":
        s.layer([l(0), l(2)], [l(2), None], [1, -2])
        return M.layer(f, [(0, 2, 1), (2, None, -2)])
    if kind == "shiftall":
        s.layer(None, None, 3)
        return M.layer(f, [(None, None, 3)])
    s.layer(l(-1), l(0))
    s.layer(l(2), None, -1)
    return M.layer(f, [(-1, 0, 1), (2, None, -1)])


def same(s, f, dom, closed, what, ctx):
    ctx.transitions += 1
    d = impl.compare(s, dom, f)
    if d is None:
        d = M.fdiff(impl.read_frame(s, dom), f)
    if d is None and s.closed != closed:
        d = "closed side is %r, was %r" % (s.closed, closed)
    if d is None and s.number_of_steps != len(f.canon().pts) and K.exact(f):
        d = "number_of_steps %r expected %d" % (s.number_of_steps, len(f.canon().pts))
    return d and "%s: %s" % (what, d)


def unary(L, o, md, mt, t, ctx):
    dom, f, c = L.dom, L.f.canon(), L.closed
    s = L.fresh()
    fi, fm = K.UNARY[o]
    if t == 1:
        s.step_values
        s.step_changes
    r = fi(s, dom)
    e = fm(f)
    if not K.exact(e):
        return None
    if t == 2:
        impl.touch(r, "vc")
    ctx.state(L, o)
    if md == "result":
        e2 = mutate(r, e, dom, mt)
        return same(s, f, dom, c, "operand of %s after layering onto the result" % o, ctx) or same(r, e2, dom, c, "layered result of %s" % o, ctx)
    if md == "operand":
        d = same(s, f, dom, c, "operand after %s" % o, ctx) if t else None
        f2 = mutate(s, f, dom, mt)
        rc = r.closed if not e.steps else c
        return d or same(r, e, dom, rc, "result of %s after layering onto the operand" % o, ctx) or same(s, f2, dom, c, "layered operand of %s" % o, ctx)
    r2 = fi(s, dom)
    e2 = mutate(r2, e, dom, mt)
    rc = r.closed if not e.steps else c
    return (same(r, e, dom, rc, "first result of %s after layering onto the second" % o, ctx) or same(s, f, dom, c, "operand of %s" % o, ctx)
            or same(r2, e2, dom, c if e2.steps else r2.closed, "second result of %s" % o, ctx))


def run(space, case, ctx):
    ctx.traces += 1
    if space.startswith("unary"):
        ctx.outcome(case[1:])
        return unary(*case, ctx)
    if space == "inputs":
        return inputs(*case, ctx)
    L = case[0]
    dom, f, c = L.dom, L.f.canon(), L.closed
    s = L.fresh()
    ctx.outcome(case[1:])
    if space == "binary":
        L2, o, md, mt, t = case[1:]
        g, u = L2.f.canon(), L2.fresh()
        if t == 1:
            impl.touch(s, "v"), impl.touch(u, "c")
        fi, fm = K.BINARY[o]
        r, e = fi(s, u, dom), fm(f, g)
        ctx.state(L, L2, o)
        if not K.exact(e):
            return None
        if t == 2:
            impl.touch(r, "cv")
        if md == "result":
            e2 = mutate(r, e, dom, mt)
            return (same(s, f, dom, c, "left operand of %s after layering onto the result" % o, ctx) or same(u, g, dom, c, "right operand of %s after layering onto the result" % o, ctx)
                    or same(r, e2, dom, c if e2.steps else r.closed, "layered result of %s" % o, ctx))
        if md == "sibling":
            r2 = fi(s, u, dom)
            mutate(r2, e, dom, mt)
            return same(r, e, dom, r.closed, "sibling of layered result of " + o, ctx) or same(s, f, dom, c, "left operand of " + o, ctx) or same(u, g, dom, c, "right operand of " + o, ctx)
        if md == "operand":
            f2 = mutate(s, f, dom, mt)
            return (same(r, e, dom, r.closed, "result of %s after layering onto the left operand" % o, ctx) or same(u, g, dom, c, "right operand of %s after layering onto the left" % o, ctx)
                    or same(s, f2, dom, c, "layered left operand of " + o, ctx))
        g2 = mutate(u, g, dom, mt)
        return (same(r, e, dom, r.closed, "result of %s after layering onto the right operand" % o, ctx) or same(s, f, dom, c, "left operand of %s after layering onto the right" % o, ctx)
                or same(u, g2, dom, c, "layered right operand of " + o, ctx))
    if space == "self":
        o, md, mt = case[1:]
        fi, fm = K.BINARY[o]
        r, e = fi(s, s, dom), fm(f, f)
        d = same(s, f, dom, c, "operand after f %s f" % o, ctx)
        if d:
            return d
        if md == "result":
            mutate(r, e, dom, mt)
            return same(s, f, dom, c, "operand of f %s f after layering onto the result" % o, ctx)
        mutate(s, f, dom, mt)
        return same(r, e, dom, r.closed, "result of f %s f after layering onto f" % o, ctx)
    if space.startswith("siblings"):
        a, b, mt = case[1:]
        (ai, am), (bi, bm) = K.UNARY[a], K.UNARY[b]
        ra, rb, ea, eb = ai(s, dom), bi(s, dom), am(f), bm(f)
        mutate(ra, ea, dom, mt)
        return (same(rb, eb, dom, rb.closed, "%s(f) after layering onto %s(f)" % (b, a), ctx) or same(s, f, dom, c, "f after layering onto %s(f)" % a, ctx)
                or same(ai(s, dom), ea, dom, ai(s, dom).closed, "a new %s(f)" % a, ctx))
    if space == "chain":
        a, b, mt = case[1:]
        (ai, am), (bi, bm) = K.UNARY[a], K.UNARY[b]
        ra, ea = ai(s, dom), am(f)
        rb, eb = bi(ra, dom), bm(ea)
        if not K.exact(eb):
            return None
        d = same(ra, ea, dom, ra.closed, "intermediate of %s;%s" % (a, b), ctx)
        ea2 = mutate(ra, ea, dom, mt)
        return (d or same(rb, eb, dom, rb.closed, "%s(%s(f)) after layering onto the intermediate" % (b, a), ctx) or same(s, f, dom, c, "f after layering onto %s(f)" % a, ctx)
                or same(ra, ea2, dom, ra.closed, "layered intermediate", ctx))
    if space == "queries":
        name, fn, need = QUERIES[case[1]]
        if need and not M.has_stats(f):
            return None
        fn(s, dom)
        return same(s, f, dom, c, "operand after %s" % name, ctx) or same(s, f, dom, c, "operand re-read after %s" % name, ctx)
    if space == "distobj":
        return distobj(s, f, dom, c, case[1], ctx)
    L2, k, md = case[1:]
    g, u = L2.f.canon(), L2.fresh()
    name, fn, exp = COLL[k]
    rs = fn(s, u)
    es = exp(f, g)
    d = same(s, f, dom, c, "member after " + name, ctx) or same(u, g, dom, c, "second member after " + name, ctx)
    if d:
        return d
    if md == "result":
        for i, r in enumerate(rs):
            mutate(r, es[i], dom, MUT[(k + i) % 4])
            d = same(s, f, dom, c, "member after layering onto result %d of %s" % (i, name), ctx) or same(u, g, dom, c, "second member after layering onto result %d of %s" % (i, name), ctx)
            for j in range(i + 1, len(rs)):
                d = d or same(rs[j], es[j], dom, rs[j].closed, "result %d of %s after layering onto result %d" % (j, name, i), ctx)
            if d:
                return d
        return None
    mutate(s, f, dom, MUT[k % 4])
    mutate(u, g, dom, MUT[(k + 1) % 4])
    for i, r in enumerate(rs):
        d = same(r, es[i], dom, r.closed, "result %d of %s after layering onto the members" % (i, name), ctx)
        if d:
            return d
    return None


def lab(d, *xs):
    return [d.label(x) for x in xs]


QUERIES = [
    ("integral", lambda s, d: s.integral(), 1), ("mean", lambda s, d: s.mean(), 1), ("median", lambda s, d: s.median(), 1), ("mode", lambda s, d: s.mode(), 1),
    ("var", lambda s, d: s.var(), 1), ("std", lambda s, d: s.std(), 1), ("min", lambda s, d: s.min(), 0), ("max", lambda s, d: s.max(), 0),
    ("value_sums", lambda s, d: s.value_sums(dropna=False), 1), ("value_sums ungrouped", lambda s, d: s.value_sums(group=False), 1),
    ("values_in_range", lambda s, d: s.values_in_range(lab(d, 0, 3), "both"), 0), ("ecdf", lambda s, d: s.ecdf([0, 1]), 1), ("percentile", lambda s, d: s.percentile([0, 25, 100]), 1),
    ("fractile", lambda s, d: s.fractile(0.3), 1), ("quantiles", lambda s, d: s.quantiles(4), 1), ("hist", lambda s, d: s.hist(), 1),
    ("hist bins", lambda s, d: s.hist(bins=[-1, 0, 2], closed="right", stat="density" if False else "frequency"), 1), ("describe", lambda s, d: s.describe(), 1),
    ("agg list", lambda s, d: s.agg(["mean", "min"], (d.label(0), d.label(4))), 1), ("agg where", lambda s, d: s.agg("max", (None, d.label(3)), "right"), 0),
    ("sample", lambda s, d: s.sample(lab(d, 0, 1, 9), include_index=True), 0), ("call", lambda s, d: s(d.label(2)), 0), ("limit", lambda s, d: s.limit(lab(d, 0, 2), "left"), 0),
    ("step_values", lambda s, d: s.step_values, 0), ("step_changes", lambda s, d: s.step_changes, 0), ("step_points", lambda s, d: s.step_points, 0), ("to_frame", lambda s, d: s.to_frame(), 0),
    ("bool", lambda s, d: bool(s), 0), ("repr", lambda s, d: (repr(s), str(s)), 0), ("identical", lambda s, d: (s.identical(s.copy()), s.identical(1)), 0),
    ("cov", lambda s, d: s.cov(s + 1, (d.label(-1), d.label(5))), 1), ("corr", lambda s, d: s.corr(s * 2, (d.label(-1), d.label(5))), 1),
    ("cov lag", lambda s, d: s.cov(s, (d.label(-1), d.label(5)), lag=d.delta(1)), 1), ("corr lag post", lambda s, d: s.corr(s, (d.label(-1), d.label(5)), lag=d.delta(1), clip="post"), 1),
    ("rolling_mean", lambda s, d: s.rolling_mean((d.delta(-1), d.delta(1))), 0), ("rolling_mean where", lambda s, d: s.rolling_mean((d.delta(0), d.delta(2)), (d.label(0), d.label(4))), 0),
    ("slice mean", lambda s, d: s.slice(lab(d, 0, 2, 3)).mean(), 0), ("slice min", lambda s, d: s.slice(lab(d, 0, 2, 3), closed="both").min(), 0),
    ("slice max", lambda s, d: s.slice(lab(d, -1, 1, 3), closed="right").max(), 0), ("slice agg", lambda s, d: s.slice(lab(d, 0, 2)).agg(["mean", "max"]), 0),
    ("slice apply mutating", lambda s, d: s.slice(lab(d, 0, 2, 4)).apply(lambda t: t.layer(d.label(0), d.label(1), 3).mean()), 0),
    ("slice layered slices", lambda s, d: [t.layer(None, None, 3) for t in s.slice(lab(d, -9, 9)).apply(lambda t: t)], 0),
    ("resample", lambda s, d: s.slice(lab(d, 0, 2, 4)).resample("max"), 0), ("resample layered", lambda s, d: s.slice(lab(d, 0, 2, 4)).resample("min").layer(None, None, 1), 0),
    ("pipe", lambda s, d: s.pipe(lambda t: t + 1), 0), ("sc.sample", lambda s, d: sc.sample([s, s], lab(d, 0, 1)), 0), ("sc.limit", lambda s, d: sc.limit({"a": s}, lab(d, 0, 1), "left"), 0),
    ("sc.sum", lambda s, d: sc.sum([s, s, s]), 0), ("sc.median", lambda s, d: sc.median([s, s + 1]), 0), ("Series accessor", lambda s, d: pd.Series([s, s], dtype="Stairs").sc.sample(lab(d, 0)), 0),
    ("masked by itself", lambda s, d: s.mask(s), 0), ("where(self)", lambda s, d: s.where(s), 0), ("fillna(self)", lambda s, d: s.fillna(s), 0),
    ("used as mask", lambda s, d: (s + 1).mask(s), 0), ("used as where", lambda s, d: (s + 1).where(s), 0), ("used as filler", lambda s, d: s.clip(d.label(0), d.label(1)).fillna(s), 0),
    ("scalar left", lambda s, d: (2 - s, 2 / s, 1 > s, 0 | s, np.float64(2) * s), 0), ("in-place looking", lambda s, d: _aug(s), 0), ("plot data", lambda s, d: s.to_frame().iloc[0], 0),
    ("step_values written", lambda s, d: _write(s), 0),
]


def _aug(s):
    t = s
    t += 1
    t *= 2
    t -= 3
    t /= 2
    t &= 1
    return t


def _write(s):
    df = s.to_frame()
    df["value"] = 5
    return df


COLL = [
    ("sc.sum", lambda s, u: [sc.sum([s, u])], lambda f, g: [M.binary("add", f, g)]),
    ("sc.sum of one", lambda s, u: [sc.sum([s]), sc.sum([u]), sc.sum([s])], lambda f, g: [f, g, f]),
    ("sc.max of one", lambda s, u: [sc.max({"a": s}), sc.min((u,))], lambda f, g: [f, g]),
    ("sc.mean twice", lambda s, u: [sc.mean([s, u]), sc.mean([s, u])], lambda f, g: [K.aggregate("mean", [f, g])] * 2),
    ("sc.logical_or", lambda s, u: [sc.logical_or([s, u]), sc.logical_and([s, u])], lambda f, g: [K.aggregate("logical_or", [f, g]), K.aggregate("logical_and", [f, g])]),
    ("array + scalar", lambda s, u: list(sc.StairsArray([s, u]) + 0), lambda f, g: [f, g]),
    ("array * 1", lambda s, u: list(sc.StairsArray([s, u]) * 1), lambda f, g: [f, g]),
    ("-array", lambda s, u: list(-sc.StairsArray([s, u])), lambda f, g: [M.unary("neg", f), M.unary("neg", g)]),
    ("array + array", lambda s, u: list(sc.StairsArray([s, u]) + sc.StairsArray([u, s])), lambda f, g: [M.binary("add", f, g)] * 2),
    ("array - Stairs", lambda s, u: list(sc.StairsArray([s, u]) - u), lambda f, g: [M.binary("sub", f, g), M.binary("sub", g, g)]),
    ("Stairs < array", lambda s, u: list(s < sc.StairsArray([s, u])), lambda f, g: [M.binary("lt", f, f), M.binary("lt", f, g)]),
    ("array.sum", lambda s, u: [sc.StairsArray([s, u]).sum(), sc.StairsArray([s]).max()], lambda f, g: [M.binary("add", f, g), f]),
    ("Series sum", lambda s, u: [pd.Series([s, u], dtype="Stairs").sum()], lambda f, g: [M.binary("add", f, g)]),
    ("fillna both", lambda s, u: [s.fillna(u), s.fillna(u), u.fillna(s)], lambda f, g: [M.binary("fillna", f, g)] * 2 + [M.binary("fillna", g, f)]),
    ("mask and where", lambda s, u: [s.mask(u), s.where(u)], lambda f, g: [M.binary("mask", f, g), M.binary("where", f, g)]),
]


def inputs(k, d, c, ctx):
    """user supplied containers are neither changed nor kept"""
    dom = DOMAINS[d]
    ctx.transitions += 1
    ctx.outcome((k, d))
    f = F(0, ((0, 1), (2, -2), (4, 1)))
    ser = pd.Series([1.0, -2.0, 1.0], index=dom.index([0, 2, 4]))
    if k == 0:  # the Series given to from_values
        keep = ser.copy()
        s = sc.Stairs.from_values(initial_value=0, values=ser, closed=c)
        s.layer(dom.label(0), dom.label(3), 1)
        if not ser.equals(keep):
            return "layering changed the Series given to from_values"
        ser.iloc[0] = 50
        return same(s, M.layer(f, [(0, 3, 1)]), dom, c, "after writing to the Series given to from_values", ctx)
    if k == 1:
        s1 = sc.Stairs.from_values(values=ser, closed=c)
        s2 = sc.Stairs.from_values(values=ser, closed=c)
        s1.layer(dom.label(0), None, 5)
        return same(s2, f, dom, c, "second function from the same Series", ctx)
    st, en, va = dom.index([0, 2]), dom.index([2, 4]), np.array([1.0, -2.0])
    if k == 2:
        a, b, v = pd.Series(st), pd.Series(en), pd.Series(va)
        ka, kb, kv = a.copy(), b.copy(), v.copy()
        s = sc.Stairs(closed=c).layer(a, b, v)
        if not (a.equals(ka) and b.equals(kb) and v.equals(kv)):
            return "layer changed its arguments"
        v.iloc[0] = 9
        a.iloc[0] = a.iloc[1]
        return same(s, F(0, ((0, 1), (2, -2), (4, 0))), dom, c, "after writing to the layered vectors", ctx)
    if k == 3:
        df = pd.DataFrame({"a": st, "b": en, "v": va})
        kd = df.copy()
        s = sc.Stairs(df, "a", "b", "v", closed=c)
        s.layer("a", "b", "v", frame=df)
        if not df.equals(kd):
            return "layer changed the frame"
        df["v"] = 100
        return same(s, F(0, ((0, 2), (2, -4), (4, 0))), dom, c, "after writing to the frame", ctx)
    if k == 4:
        a, b, v = [dom.label(0), dom.label(2)], [dom.label(2), None], [1, -2]
        ka, kb, kv = list(a), list(b), list(v)
        s = sc.Stairs(closed=c).layer(a, b, v).layer(a, b, v)
        if (a, b, v) != (ka, kb, kv):
            return "layer changed its list arguments"
        return same(s, F(0, ((0, 2), (2, -4))), dom, c, "two layers of the same lists", ctx)
    if k == 5:
        s = impl.build(f, dom, c)
        x = [dom.label(3), dom.label(0), dom.label(2)]
        kx = list(x)
        s.sample(x), s.limit(x, "left", include_index=True), s(pd.Series(x))
        if x != kx:
            return "sampling changed its argument"
        return same(s, f, dom, c, "after sampling", ctx)
    if k == 6:
        s, t = impl.build(f, dom, c), impl.build(F(1, ((2, 0),)), dom, c)
        coll = [s, t]
        arr = np.array(coll)
        sr = pd.Series(coll, dtype="Stairs")
        for x in (coll, arr, sr, dict(a=s, b=t), sc.StairsArray(arr)):
            sc.sum(x), sc.max(x), sc.sample(x, [dom.label(1)]), sc.logical_or(x)
        if not (coll[0] is s and coll[1] is t and arr[0] is s and arr[1] is t and sr[0] is s):
            return "aggregation changed the collection"
        return same(s, f, dom, c, "member", ctx) or same(t, F(1, ((2, 0),)), dom, c, "member", ctx)
    bins = [-3, 0, 2]
    s = impl.build(f, dom, c)
    ii = pd.IntervalIndex.from_breaks(dom.index([0, 2, 4]), closed="both")
    w = [dom.label(-1), dom.label(4)]
    ps = [10, 50]
    s.hist(bins=bins), s.slice(ii).hist(bins=bins), s.describe(w, ps), s.agg(["min"], w), s.cov(s, w), s.corr(s, w, lag=dom.delta(1)), s.rolling_mean([dom.delta(-1), dom.delta(1)], w)
    s.values_in_range(w)
    if bins != [-3, 0, 2] or w != [dom.label(-1), dom.label(4)] or ps != [10, 50] or list(ii) != list(pd.IntervalIndex.from_breaks(dom.index([0, 2, 4]), closed="both")):
        return "a query changed its arguments"
    return same(s, f, dom, c, "after queries", ctx)


def distobj(s, f, dom, c, k, ctx):
    """layering onto a returned distribution function changes neither the function nor later answers"""
    from .. import stats
    name = ("ecdf", "percentile", "fractile")[k]
    a, b = getattr(s, name), getattr(s, name)
    probe = [0.25, 0.75] if k else [0, 1]
    before = list(b(probe))
    a.layer(-5, 5, 3)
    ctx.transitions += 3
    if list(b(probe)) != before:
        return "a second %s object changed when the first was layered onto" % name
    if list(getattr(s, name)(probe)) != before:
        return "%s answers changed after layering onto an %s object" % (name, name)
    return (stats.check_ecdf(s, f, dom) or stats.check_fractiles(s, f, dom) or stats.check_basic(s, f, dom) or same(s, f, dom, c, "after layering onto " + name, ctx))
