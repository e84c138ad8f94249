"""C20 shift, diff and rolling_mean."""
import datetime
import bisect
from fractions import Fraction

import numpy as np
import pandas as pd
import staircase as sc

from .. import catalog as K
from .. import gen, impl, stats
from .. import model as M
from ..domains import DOMAINS, Mismatch
from ..gen import Leaf, explain  # noqa

F = M.F
H = Fraction(1, 2)
SIDES = ("left", "right")
DS = (0, 1, -1, 2, -3, H, 7)
# l == r has no mean; trailing, leading, centred, asymmetric, not containing the focal point
WINS = ((-1, 1), (-2, 0), (0, 2), (-3, 1), (-1, 4), (1, 2), (-4, -2), (-H, H), (-9, 9))
WHERES = ((None, None), (0, 4), (None, 3), (1, None), (-1, 7), (1, 2), (0, 40), (-40, 3))
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 5, ('types',)
VALS_STRIDE, VALS_SKIP = 5, ()
BOUNDS = {
    "quick": "shift and diff: all 3-point functions over {undefined,0,1} x 7 amounts (also back and forth, composed, in 4 numeric/6 timedelta types) x materialisations x all "
             "domains x closed sides, sampled at and around every step point; rolling_mean: all 2-point and partly all 3-point functions x 9 windows x 8 'where' ranges, "
             "all domains, all materialisations, long functions containing all adjacent pairs of values; interpolation checked at three points between knots",
    "thorough": "as quick with {undefined,0,1,-2}, all windows x all ranges for all 3-point functions and all domains",
}
RULE = "shift(d)(x)=f(x-d) with the closed side kept; diff = f - shift; rolling mean: index is exactly the set of x at which a window edge meets a step point within where, values are exact window means, interpolation exact where defined"
ASSUMPTIONS = ["a window of zero length and a window on which f is nowhere defined have no mean; values there are not judged",
               "for a step-free function on an unbounded range there is no step point; the returned values must then be the constant"]


def form(f, i, forms=gen.FORMS4):
    fs = gen.nforms(f, forms)
    return fs[i % len(fs)]


def spaces(tier):
    V = (None, 0, 1) if tier == "quick" else gen.V4
    yield "shift", ((Leaf(f, d, SIDES[(i + j) % 2], *form(f, i // 2 + j)), k) for j, d in enumerate(gen.ALL_DOMS) for i, f in enumerate(gen.functions(gen.G3, V)) for k in DS[(0 if d == "int" else (i + j) % 3)::(1 if d == "int" else 3)])
    yield "routes", ((Leaf(f, d, c, *a), k) for d, c in (("int", "right"), ("tzfall", "left"), ("td", "right")) for f in K.start_functions() for a in gen.nforms(f) for k in DS)
    yield "diff", ((Leaf(f, d, SIDES[(i + j) % 2], *form(f, i // 2 + j)), k) for j, d in enumerate(gen.ALL_DOMS) for i, f in enumerate(gen.functions((0, 2) if d != "float" else gen.G3, (None, 0, 1))) for k in DS)
    yield "types", ((Leaf(f, d, c), k, t, op) for d in gen.ALL_DOMS for c in SIDES for f in K.start_functions()[:7] for k in (1, -2, 0) for t in range(6) for op in ("shift", "diff"))
    yield "compose", ((Leaf(f, d, "left", *form(f, i)), a, b) for d in ("int", "utc") for i, f in enumerate(K.start_functions()) for a in DS for b in DS)
    yield "roll2", ((Leaf(f, "float", SIDES[(i + j + k) % 2], *form(f, i // 3 + j)), w, r) for i, f in enumerate(gen.functions((0, 2), (None, 0, 2))) for j, w in enumerate(WINS) for k, r in enumerate(WHERES))
    yield "roll3", ((Leaf(f, "int" if (i + j) % 2 else "float", SIDES[i % 2], *form(f, i // 3 + j)), w, WHERES[(i * 3 + j * 5) % 8]) for i, f in enumerate(gen.functions((0, 1, 4), (None, 1, -2))) for j, w in enumerate(WINS)
                    if w != (-H, H) or not (i + j) % 2)
    yield "rolldom", ((Leaf(f, d, c), w, r) for d in gen.ALL_DOMS for c in SIDES for f in (F(0, ((0, 1), (2, 3), (3, 0))), F(None, ((0, 1), (4, None))), F(1, ((2, -2),)), F(2, ()))
                      for w in WINS[:7:2] for r in WHERES[:7:2])
    yield "rollforms", ((Leaf(f, "int", "left", *a), w, r) for f in K.start_functions() for a in gen.nforms(f) for w in WINS[:3] for r in WHERES[:4])
    u = gen.universal_tuple([gen.V4])[0]
    v = gen.universal_tuple([(0, 1, 2.5, -3)])[0]
    yield "rolluni", ((Leaf(g, d, c), w, r) for g in (u, v) for d, c in (("float", "left"), ("tzspring", "right"), ("ts", "left")) for w in WINS for r in WHERES + ((3, 17),))
    yield "shift", ((L, k) for L in gen.long_leaves() for k in DS)
    yield "diff", ((L, k) for L in gen.long_leaves() for k in DS)
    yield "rolllong", ((L, w, r) for i, L in enumerate(gen.long_leaves()) for w in (WINS[i % 3],) for r in ((None, None), (101, 3001))[:1 + i % 2])
    if tier == "thorough":
        yield "roll3_full", ((Leaf(f, d, c, *form(f, i)), w, r) for d in gen.ALL_DOMS for c in SIDES for i, f in enumerate(gen.functions((0, 1, 4), (None, 0, 2))) for w in WINS for r in WHERES if d != "int" or w != (-H, H))
        yield "shift_full", ((Leaf(f, d, c, *a), k) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G3, (None, 0, 1)) for a in gen.nforms(f, gen.FORMS4) for k in DS)


def sampled(s, e, dom, ctx):
    """the translated function sampled at, before and after each step point"""
    xs = impl.probe_points(sorted(e.pts))
    got = s.sample([dom.label(x) for x in xs])
    for x, g in zip(xs, list(got)):
        if not M.close(impl.val(g), e.sample(x, s.closed)):
            return "sample(%s): %r expected %r (%s closed)" % (x, g, e.sample(x, s.closed), s.closed)
    ctx.transitions += 1
    return None


def amount(dom, k, t):
    if not dom.datelike:
        q = dom.delta(k)
        return (q, float(q), np.int64(q) if float(q).is_integer() else np.float64(q), np.float64(q), np.float32(q), int(q) if float(q).is_integer() else q)[t]
    q = dom.delta(k)
    return (q, q.to_pytimedelta(), q.to_timedelta64(), np.timedelta64(q.value, "ns"), pd.Timedelta(q.value, unit="ns"), pd.tseries.frequencies.to_offset(q) if q.value else q)[t]


def run(space, case, ctx):
    ctx.traces += 1
    L = case[0]
    dom = L.dom
    s, f = gen.get(L, ctx)
    if s is None:
        return None
    if space.startswith("roll"):
        return rolling(s, f, dom, case[1], case[2], ctx)
    ctx.transitions += 1
    if space in ("shift", "routes", "shift_full"):
        k = case[1]
        r = s.shift(dom.delta(k))
        e = M.shift(f, k)
    elif space == "diff":
        k = case[1]
        r = s.diff(dom.delta(k))
        e = M.diff(f, k)
        d = impl.compare(s - s.shift(dom.delta(k)), dom, e)
        if d:
            return "f - f.shift: " + d
    elif space == "types":
        k, t, op = case[1:]
        r = getattr(s, op)(amount(dom, k, t))
        e = M.shift(f, k) if op == "shift" else M.diff(f, k)
    else:
        a, b = case[1:]
        r = s.shift(dom.delta(a)).shift(dom.delta(b))
        e = M.shift(f, a + b)
        d = impl.compare(s.shift(dom.delta(a)) + s.shift(dom.delta(b)), dom, M.binary("add", M.shift(f, a), M.shift(f, b)))
        if d:
            return "shift + shift: " + d
    e = e.canon()
    ctx.outcome(e.key())
    ctx.state(e.key(), L.closed, dom.name)
    if r.closed != L.closed:
        return "closed: %r expected %r" % (r.closed, L.closed)
    d = impl.compare(r, dom, e, deep=space in ("shift", "diff")) or sampled(r, e, dom, ctx)
    if d is None:
        d = impl.compare(s, dom, f)
        d = d and "operand changed: " + d
    return d and "%s: %s" % (space, d)


def wmean(c, lo, hi):
    n = t = Fraction(0)
    full = True
    xs = [lo] + list(c.pts[bisect.bisect_right(c.pts, lo):bisect.bisect_left(c.pts, hi)]) + [hi]
    for a, b in zip(xs, xs[1:]):
        v = c.at(a)
        if v is None:
            full = False
            continue
        n, t = n + Fraction(b - a), t + Fraction(v) * Fraction(b - a)
    return (t / n if n else None), full


def rolling(s, f, dom, w, where, ctx):
    l, r = w
    lo, hi = where
    c = M.clip(f, lo, hi)
    args = [(dom.delta(l), dom.delta(r))]
    if where != (None, None) or l % 2:
        args.append(tuple(None if x is None else dom.label(x) for x in where))
    ctx.transitions += 1
    got = s.rolling_mean(*args) if l % 3 else s.rolling_mean(window=list(args[0]), **({"where": args[1]} if len(args) > 1 else {}))
    if not isinstance(got, pd.Series):
        return "rolling_mean: result is %s" % type(got).__name__
    ys = [impl.val(v) for v in got.tolist()]
    if not c.pts:
        # no step point: a constant on the whole line, or undefined throughout
        return None if all(M.close(y, c.init) for y in ys) and (c.init is None or len(ys)) else "rolling_mean: values %s of a step-free function %r" % (ys, c.init)
    exp = sorted({x - q for x in c.pts for q in w})
    exp = [x for x in exp if (lo is None or x >= lo - l) and (hi is None or x <= hi - r)]
    xs = dom.decode(got.index) if len(got) else []
    ctx.state(c.key(), w, where)
    ctx.outcome(tuple(exp))
    if list(xs) != exp:
        return "rolling_mean: knots %s expected %s" % ([str(x) for x in xs], [str(x) for x in exp])
    scale = max([M.UNIT] + [abs(float(v)) for v in (c.init,) + c.vals if v is not None])
    means = []
    for x, y in zip(xs, ys):
        m, full = wmean(c, x + l, x + r)
        means.append((m, full))
        if m is not None and not stats.near(y, m, scale=scale):
            return "rolling_mean: at %s got %r expected %s" % (x, y, float(m))
    for (x0, y0, m0), (x1, y1, m1) in zip(list(zip(xs, ys, means)), list(zip(xs, ys, means))[1:]):
        for t in (Fraction(1, 2), Fraction(1, 3), Fraction(7, 8)):
            x = x0 + t * Fraction(x1 - x0)
            m, full = wmean(c, x + l, x + r)
            if full and m0[1] and m1[1]:
                v = y0 + float(t) * (y1 - y0)
                if not stats.near(v, m, scale=scale):
                    return "rolling_mean: interpolation at %s gives %r, window mean is %s" % (x, v, float(m))
    return None
