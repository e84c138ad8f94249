"""C10 min / max / values_in_range over a window."""
import itertools

import numpy as np
import pandas as pd
import staircase as sc

from .. import gen, impl, stats
from .. import model as M
from ..gen import Leaf, explain  # noqa
from ..impl import val

F = M.F
CL = ("left", "right", "both", "neither")
SIDES = ("left", "right")
W = (None, -1, 0, 1, 2, 3, 4, 5)
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 11, ()
VALS_STRIDE, VALS_SKIP = 11, ('dates',)
BOUNDS = {
    "quick": "all 2-point functions over {undefined,0,1,-2} (4 materialisations cycling over the windows) and all 3-point functions over {undefined,0,1} x 36 windows (at, "
             "between, outside step points, unbounded) x 4 endpoint closednesses x 2 closed sides; all domains; all routes; default closedness; "
             "8 spellings of unbounded sides; step-free and undefined functions; long functions with every value transition x every aligned window",
    "thorough": "as quick plus every materialisation for every window, 3-point functions over 4 values and all windows in all domains",
}
RULE = "values_in_range is the exact set, min/max/agg its least/greatest element (nan for the empty set), in list, tuple and agg-list forms"
ASSUMPTIONS = ["min and max of the empty set (function undefined throughout the window) are judged as nan"]
MISS = ("none", "inf", "nan", "floatinf")


def windows(W):
    return [(a, b) for a in W for b in W if a is None or b is None or a < b]


def spaces(tier):
    ws = windows(W)
    yield "win2", ((Leaf(f, "int", c, *gen.nforms(f, gen.FORMS4)[(i + j) % len(gen.nforms(f, gen.FORMS4))]), w, i + j) for c in SIDES
                   for i, f in enumerate(gen.functions(gen.G2, gen.V4)) for j, w in enumerate(ws))
    yield "win3", ((Leaf(f, "float", SIDES[(i + j) % 2]), w, 0) for i, f in enumerate(gen.functions(gen.G3, gen.V3)) for j, w in enumerate(windows((None, 0, 1, 2, 4, 5))))
    yield "domains", ((Leaf(f, d, c), w, 0) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G2, (None, 2)) for w in windows((None, 0, 1, 2, 3)))
    yield "routes", ((Leaf(f, d, c, *a), w, 1) for d, c in (("float", "right"), ("tzfall", "left")) for f in gen.functions(gen.G2, (None, 1))
                     for a in gen.nforms(f) for w in windows((None, 0, 1, 2)))
    yield "missing", ((Leaf(f, d, c), w, m) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G2, (None, 1)) for w in ((None, 2), (0, None), (None, None))
                      for m in MISS + ("nat",) * (d not in ("int", "float")))
    yield "results", ((Leaf(f, d, c, "vlay" if len(f.steps) > 1 else "vals"), w, i % 8) for d, c in (("int", "right"), ("utc", "left"))
                      for j, f in enumerate(gen.functions(gen.G3, (None, 0, 1))) for i, w in enumerate(windows((None, 0, 2, 3))) if (i + j) % 2)
    u = gen.universal_tuple([gen.V4])[0]
    yield "universal", ((Leaf(u, d, c, *a), (p, q), 0) for d in gen.ALL_DOMS for c in SIDES for a in gen.FORMS4[::3]
                        for p in (None,) + u.pts[::3] + (1, 7) for q in u.pts[1::2] + (5, 11, None) if p is None or q is None or p < q)
    yield "long", ((L, w, k) for L in gen.long_leaves() for k, w in enumerate(((None, None), (None, 2001), (100, 4000), (3, 5300), (2600, 2601), (0, 4))))
    if tier == "thorough":
        yield "win2_full", ((Leaf(f, "int", c, *a), w, i) for i, (c, f, a) in enumerate(
            (c, f, a) for c in SIDES for f in gen.functions(gen.G2, gen.V4) for a in gen.nforms(f, gen.FORMS4)) for w in ws)
        yield "win3_full", ((Leaf(f, d, c, *a), w, i) for i, (d, c) in enumerate((("int", "left"), ("int", "right"), ("ts", "left"), ("td", "right")))
                            for f in gen.functions(gen.G3, gen.V4) for a in gen.nforms(f, gen.FORMS4) for w in windows((None, -1, 0, 1, 2, 3, 4, 5)))
        yield "domains_full", ((Leaf(f, d, c), w, 0) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G3, gen.V3) for w in ws)


def miss(kind, low):
    return {"none": None, "inf": -sc.inf if low else sc.inf, "nan": float("nan"), "floatinf": float("-inf") if low else float("inf"), "nat": pd.NaT}[kind]


OPSR = ("add", "mask", "where", "layer", "neg", "shift", "fillna", "clip")


def same_set(got, exp, what):
    g = [val(v) for v in got]
    if None in g or len(set(g)) != len(g):
        return "%s: %s has duplicates or undefined entries" % (what, g)
    e = sorted(float(v) for v in exp)
    if len(g) != len(e) or not all(M.close(a, b) for a, b in zip(sorted(g), e)):
        return "%s: %s expected %s" % (what, sorted(g), e)
    return None


def check(s, f, fclosed, dom, w, where, k, ctx):
    a, b = w
    for c in CL:
        exp = M.values_in_range(f, fclosed, a, b, c)
        d = same_set(s.values_in_range(where, c) if k % 2 else s.values_in_range(where=where, closed=c), exp, "values_in_range(%s,%s)" % (w, c))
        if d:
            return d
        lo, hi = (min(exp), max(exp)) if exp else (None, None)
        forms = [("agg min", s.agg("min", where, c), lo), ("agg max", s.agg("max", where=where, closed=c), hi)]
        if k % 3 == 0:
            r = s.agg(["max", "min"], where, c)
            forms += [("agg list max", r["max"], hi), ("agg list min", r["min"], lo)]
        for n, g, e in forms:
            if not M.close(val(g), e):
                return "%s over %s closed=%s: %r expected %r" % (n, w, c, val(g), e)
        ctx.transitions += 1 + len(forms)
        ctx.outcome((f.key(), w, c, tuple(sorted(map(float, exp)))))
    exp = M.values_in_range(f, fclosed, a, b, fclosed)
    d = same_set(s.values_in_range(where), exp, "values_in_range(%s) default closed" % (w,))
    if d:
        return d
    lo, hi = (min(exp), max(exp)) if exp else (None, None)
    if not M.close(val(s.agg("min", where)), lo) or not M.close(val(s.agg("max", where)), hi):
        return "agg min/max over %s default closed: %r %r expected %r %r" % (w, s.agg("min", where), s.agg("max", where), lo, hi)
    if a is None and b is None:
        if not M.close(val(s.min()), lo) or not M.close(val(s.max()), hi):
            return "min()/max(): %r %r expected %r %r" % (s.min(), s.max(), lo, hi)
        d = same_set(s.values_in_range(), exp, "values_in_range()")
        if d:
            return d
    ctx.transitions += 4
    return None


def run(space, case, ctx):
    from . import c08
    L, w, k = case
    dom = L.dom
    ctx.traces += 1
    s, f = gen.get(L, ctx)
    if s is None:
        return None
    where = tuple(None if x is None else dom.label(x) for x in w)
    if space == "missing":
        where = (miss(k, True) if w[0] is None else where[0], miss(k, False) if w[1] is None else where[1])
        k = 0
    elif space == "results":
        s, f = c08.result(s, f, dom, OPSR[k])
    if k % 5 == 4:
        where = list(where)
    return check(s, f, L.closed, dom, w, where, k, ctx)
