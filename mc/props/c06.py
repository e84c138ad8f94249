"""C06 clip / mask / where / isna / notna."""
import datetime

import numpy as np
import pandas as pd
import staircase as sc

from .. import gen, impl, pairs
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa

OPS = ("mask", "where")
V = (None, 0, 1, -2)
# coordinates before, at, between and after the grid points 0, 2, 4
CO = (-1, 0, 1, 2, 3, 4, 5)
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 23, ('bound_types',)
VALS_STRIDE, VALS_SKIP = 23, ()
BOUNDS = {
    "quick": "clip / where((a,b)) / mask((a,b)): all windows a<b over 7 coordinates (before, at, between, after the steps) plus missing "
             "(None, NaN, sc.inf, float inf) bounds x all functions over 2-point grids (values {undefined,0,1}) x 4 materialisations, "
             "all 3-point functions in int, all 8 domains x 2 sides, bound types (str, datetime, numpy); mask/where by a function: all "
             "pairs over 2-point grids with {undefined,0,1,-2}, forms, routes, domains, universal pair; isna/notna of all 3-point "
             "functions x 11 routes, all domains",
    "thorough": "as quick plus all windows x all 3-point functions x 11 routes, all 3-point mask pairs, all windows in every domain",
}
RULE = "a case is (operation, f, window or masker); the result table must equal the pointwise definition"


def windows(cs, missing=True):
    cs = list(cs)
    for a in ([None] if missing else []) + cs:
        for b in ([None] if missing else []) + cs:
            if a is None or b is None or a < b:
                yield a, b


KINDS = ("clip", "clipkw", "where", "mask")


def spaces(tier):
    yield "window2", ((k, w, "n", Leaf(f, "float", "left", *a)) for f in gen.functions(gen.G2, (None, 0, 1))
                      for a in gen.nforms(f, gen.FORMS4) for w in windows(CO[:5]) for k in ("clip", "where", "mask"))
    yield "window3", ((("clip", "where", "mask")[(i + j) % 3], w, "n", Leaf(f, "int", "right"))
                      for i, f in enumerate(gen.functions(gen.G3, (None, 0, 2))) for j, w in enumerate(windows(CO)))
    yield "window_domains", ((k, w, "n", Leaf(f, d, c)) for d in gen.ALL_DOMS for c in pairs.SIDES
                             for f in gen.functions(gen.G2, (None, 2)) for w in windows((-1, 0, 1, 2)) for k in ("clip", "where", "mask"))
    yield "window_routes", ((k, w, "n", Leaf(f, "ts", "right", *a)) for f in pairs.few() for a in gen.nforms(f)
                            for w in windows((-1, 0, 1, 4)) for k in ("clip", "mask"))
    yield "bound_types", ((k, w, t, Leaf(f, d, c)) for d in gen.ALL_DOMS for c in pairs.SIDES for f in pairs.few()
                          for w in windows((-1, 0, 1)) for k in KINDS for t in bound_types(d, k))
    yield from pairs.pair_spaces(OPS, tier, V, scalars=False)
    yield "na", ((o, Leaf(f, "int", "right", *a)) for f in gen.functions(gen.G3, (None, 0, 2)) for a in gen.nforms(f)
                 for o in ("isna", "notna"))
    yield "na_domains", ((o, Leaf(f, d, c, *a)) for d in gen.ALL_DOMS for c in pairs.SIDES for f in gen.functions(gen.G2, (None, 0, 2))
                         for a in gen.nforms(f, gen.FORMS4) for o in ("isna", "notna"))
    u = gen.universal_tuple([V])[0]
    yield "window_universal", ((k, w, "n", Leaf(u, d, c, *a)) for d, c in (("int", "right"), ("ts", "left"))
                               for a in gen.FORMS4 for w in windows(range(-1, 2 * len(u.steps) + 3)) for k in ("clip", "mask"))
    yield "window_long", ((k, w, "n", L) for L in gen.long_leaves() for w in ((None, 2001), (100, 4000), (5193, None), (-1, 1), (3, 5300), (2600, 2601)) for k in KINDS)
    yield "na_long", ((o, L) for L in gen.long_leaves() for o in ("isna", "notna"))
    if tier == "thorough":
        yield "window3_full", ((k, w, "n", Leaf(f, "float", "left", *a)) for f in gen.functions(gen.G3, (None, 0, 2))
                               for a in gen.nforms(f) for w in windows(CO) for k in ("clip", "where", "mask"))
        yield "window_domains_full", ((k, w, "n", Leaf(f, d, c, *a)) for d in gen.ALL_DOMS for c in pairs.SIDES
                                      for f in gen.functions(gen.G2, (None, 0, 2)) for a in gen.nforms(f, gen.FORMS4)
                                      for w in windows(CO[:5]) for k in ("clip", "where", "mask"))


def bound_types(d, k):
    if d == "int" or d == "float":
        return ("nan", "finf", "inf", "np", "np_int")
    if DOMAINS[d].tz is not None:
        return ("nat", "inf", "py", "finf")
    if d == "td":
        return ("nat", "inf", "np", "py", "finf")
    return ("nat", "inf", "str", "np", "py", "finf")


def bound(dom, x, t, side):
    if x is None:
        if t == "nan":
            return float("nan")
        if t == "finf":
            return float("inf") * side
        if t == "nat":
            return pd.NaT
        if t == "inf":
            return sc.inf if side > 0 else -sc.inf
        return None
    l = dom.label(x)
    if t == "np":
        return np.float64(l) if not dom.datelike else l.to_numpy()
    if t == "np_int":
        return np.int64(l) if float(l) == int(l) else np.float32(l)
    if t == "str":
        return str(l)
    if t == "py":
        return l.to_pydatetime() if isinstance(l, datetime.datetime) else l.to_pytimedelta()
    return l


def run(space, case, ctx):
    if space.startswith("na"):
        o, L = case
        f, fd = gen.get(L, ctx)
        if f is None:
            return None
        h, exp = impl.UN[o](f), M.unary(o, fd)
    elif space.startswith("window") or space == "bound_types":
        k, (a, b), t, L = case
        f, fd = gen.get(L, ctx)
        if f is None:
            return None
        dom = L.dom
        la, lb = bound(dom, a, t, -1), bound(dom, b, t, 1)
        if k == "clip":
            h, exp = f.clip(la, lb), M.clip(fd, a, b)
        elif k == "clipkw":
            kw = {}
            if a is not None or t != "n":
                kw["lower"] = la
            if b is not None:
                kw["upper"] = lb
            h, exp = f.clip(**kw), M.clip(fd, a, b)
        elif k == "where":
            h, exp = f.where((la, lb)), M.clip(fd, a, b)
        else:
            h, exp = f.mask((la, lb)), M.mask_interval(fd, a, b)
        if h is f:
            return "%s: returned the operand itself" % k
        o = k
    else:
        return pairs.run_pair(space, case, ctx)
    ctx.transitions += 1
    ctx.traces += 1
    ctx.outcome(exp.key())
    ctx.state("res", exp.key(), L[1])
    d = impl.compare(h, L.dom, exp, deep=space in ("window3", "window_domains", "na"))
    return d and "%s: %s" % (o, d)
