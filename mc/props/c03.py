"""C03 evaluation and structural views."""
import itertools
from fractions import Fraction

import numpy as np
import pandas as pd

from .. import gen, impl
from .. import model as M
from ..gen import Leaf, explain  # noqa
from ..impl import val

# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 7, ('labels',)
VALS_STRIDE, VALS_SKIP = 7, ()
BOUNDS = {
    "quick": "all 2-point functions over {undefined,0,1,-2} x 4 materialisations x 2 closed sides and all domains, all 3-point functions over "
             "{undefined,0,1}, all construction routes, queried at every step point, between, before and after, through 3 scalar and 10 vector "
             "shapes (sorted, reversed, repeated, odd indexes, empty; with and without include_index) for sample/call/limit; all 120 read "
             "orders of the five structural views on every materialisation; a function containing every 3-transition of values",
    "thorough": "as quick plus all 3-point functions over 4 values and 4-point functions over 3 values in all domains and all routes",
}
RULE = "every view and every evaluation, in any read order, equals the piece table the object was built to denote"
SIDES = ("left", "right")
VIEWS = ("step_values", "step_changes", "to_frame", "limit", "misc")
OPS = ("add1", "mask", "where", "layer", "clip", "fillna", "neg", "lt", "shift", "sum")


def spaces(tier):
    yield "eval2", ((Leaf(f, d, c, *a), k) for d, c in (("int", "left"), ("int", "right"), ("ts", "right")) for f in gen.functions(gen.G2, gen.V4)
                    for a in gen.nforms(f, gen.FORMS4 if d == "int" else gen.FORMS4[::2]) for k in range(2))
    yield "evaldom", ((Leaf(f, d, c), k) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G2, (None, 0, 2)) for k in range(len(KIND)))
    yield "evalkinds", ((Leaf(f, d, c, *a), k) for d, c in (("float", "left"), ("tzfall", "right")) for f in gen.functions(gen.G2, (None, 1))
                        for a in gen.nforms(f) for k in range(len(KIND)))
    yield "eval3", ((Leaf(f, "float", "right", *a), k % len(KIND)) for k, (f, a) in enumerate(
        (f, a) for f in gen.functions(gen.G3, gen.V3) for a in gen.nforms(f, gen.FORMS4)))
    yield "views", ((Leaf(f, d, c, *a), p) for d, c in (("int", "left"), ("tzspring", "right")) for f in VIEWF
                    for a in gen.nforms(f, gen.FORMS4 if d == "int" else gen.FORMS4[2:3]) for p in itertools.permutations(range(5)))
    yield "views_all", ((Leaf(f, d, c, *a), (j % 5, (j + 2) % 5, (j + 1) % 5, (j + 3) % 5, (j + 4) % 5)) for d, c in (("float", "right"), ("td", "left"))
                        for f in gen.functions(gen.G2, gen.V4) for j, a in enumerate(gen.nforms(f)))
    yield "views3", ((Leaf(f, "int", "left", *a), (j % 5, (j + 2) % 5, (j + 1) % 5, (j + 3) % 5, (j + 4) % 5)) for f in gen.functions(gen.G3, gen.V3)
                     for j, a in enumerate(gen.nforms(f, gen.FORMS4)))
    yield "results", ((Leaf(f, d, c), o, j % 5) for d, c in (("int", "right"), ("utc", "left")) for f in gen.functions(gen.G2, gen.V3)
                      for j, o in enumerate(OPS))
    yield "labels", ((Leaf(f, d, "left"), k) for d in gen.ALL_DOMS for f in gen.functions(gen.G2, (None, 1)) for k in range(6))
    u = gen.universal_tuple([gen.V4])[0]
    w = gen.universal_tuple([(None, 0, 1), (0, 1, 2)])
    yield "universal", ((Leaf(g, d, c, *a), k) for g in (u,) + w for d in gen.ALL_DOMS for c in SIDES for a in gen.FORMS4 for k in (0, 3))
    yield "evallong", ((L, k) for i, L in enumerate(gen.long_leaves()) for k in (i, (i + 5) % len(KIND)))
    yield "views_long", ((L, p) for L in gen.long_leaves() for p in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (1, 0, 2, 4, 3)))
    if tier == "thorough":
        yield "eval3_full", ((Leaf(f, d, c, *a), k) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G3, gen.V4)
                             for a in gen.nforms(f, gen.FORMS4) for k in (0, 4))
        yield "eval4", ((Leaf(f, d, "right", *a), 1) for d in gen.ALL_DOMS for f in gen.functions(gen.G4, gen.V3) for a in gen.nforms(f))
        yield "views4", ((Leaf(f, "int", "left", *a), p) for f in gen.functions(gen.G3, gen.V3) for a in gen.nforms(f, gen.FORMS4)
                         for p in itertools.permutations(range(5)))


F = M.F
VIEWF = [F(0, ((0, 1), (2, 0))), F(1, ((0, -2), (2, 1), (4, 0))), F(None, ((0, 1), (2, None))), F(0, ((0, None), (2, 2))), F(1, ((2, None),)),
         F(2, ()), F(None, ())]
KIND = ("list", "reversed", "repeated", "array", "series", "oddseries", "index", "tuple", "object", "strindexed")


def vector(dom, xs, kind):
    labels = [dom.label(x) for x in xs]
    if kind in ("list", "reversed", "repeated"):
        return labels
    if kind == "tuple":
        return tuple(labels)
    if kind == "array":
        return dom.vector(labels).values if dom.datelike and dom.tz is None else np.array(labels)
    if kind == "object":
        return np.array(labels, dtype=object) if dom.datelike else np.array(labels, dtype=float)
    if kind == "series":
        return dom.vector(labels)
    if kind == "oddseries":
        return dom.vector(labels).set_axis([7 * i + 3 for i in range(len(labels))][::-1]).rename("x")
    if kind == "strindexed":
        return dom.vector(labels).set_axis(["i%d" % (i % 3) for i in range(len(labels))])
    return pd.Index(dom.vector(labels))


def query_points(f):
    base = list(f.pts) or [0]
    xs = impl.probe_points(base)
    xs += [base[0] - Fraction(1, 4), base[-1] + 3, base[0] + Fraction(1, 2)]
    return xs


def near(got, exp):
    return M.close(val(got), exp)


def check_eval(s, f, closed, dom, xs, kind, ctx):
    """all evaluation forms at the points xs"""
    if kind == "reversed":
        xs = xs[::-1]
    elif kind == "repeated":
        xs = xs + xs[::2] + xs[:1]
    forms = [("limit left", lambda q, **k: s.limit(q, "left", **k), [f.at(x, "left") for x in xs]),
             ("limit right", lambda q, **k: s.limit(q, side="right", **k), [f.at(x, "right") for x in xs]),
             ("sample", lambda q, **k: s.sample(q, **k), [f.sample(x, closed) for x in xs]),
             ("call", lambda q, **k: s(q, **k), [f.sample(x, closed) for x in xs])]
    for name, fn, exp in forms:
        v = vector(dom, xs, kind)
        for inc in (False, True):
            got = fn(v, include_index=inc)
            ctx.transitions += 1
            if inc:
                if not isinstance(got, pd.Series):
                    return "%s include_index: %s is not a Series" % (name, type(got).__name__)
                if dom.decode(got.index) != list(xs):
                    return "%s include_index: index %r" % (name, list(got.index)[:4])
                got = got.tolist()
            elif isinstance(got, pd.Series):
                got = got.tolist()
            if len(got) != len(exp):
                return "%s: %d values for %d points" % (name, len(got), len(exp))
            for x, g, e in zip(xs, got, exp):
                if not near(g, e):
                    return "%s (%s%s) at %s: %r expected %r" % (name, kind, " include_index" if inc else "", x, val(g), e)
        e = fn(v[:0])
        if len(e) != 0:
            return "%s of an empty vector has %d values" % (name, len(e))
        for x, w in list(zip(xs, exp))[:: 1 if kind == "list" else 3]:
            l = dom.label(x)
            got = fn(l)
            ctx.transitions += 1
            if isinstance(got, (pd.Series, np.ndarray)) and np.ndim(got):
                return "%s of a scalar gives %r" % (name, got)
            if not near(got, w):
                return "%s scalar at %s: %r expected %r" % (name, x, val(got), w)
            gi = fn(l, include_index=True)
            if not isinstance(gi, pd.Series) or len(gi) != 1 or dom.decode(gi.index) != [x] or not near(gi.tolist()[0], w):
                return "%s scalar include_index at %s: %r expected %r" % (name, x, gi, w)
    return None


def check_view(k, s, f, closed, dom):
    if k == 0:
        return M.fdiff(impl.read(s, dom), f) or points_ok(s.step_values, f, dom)
    if k == 1:
        d = points_ok(s.step_changes, f, dom)
        if d is None and not f.has_und():
            d = M.fdiff(impl.read_changes(s, dom), f)
        return d
    if k == 2:
        t = impl.read_frame(s, dom)
        if t.pts != f.pts:
            return "to_frame breaks at %s expected %s" % (t.pts, f.pts)
        df = s.to_frame()
        if list(df.columns) != ["start", "end", "value"]:
            return "to_frame columns %s" % (list(df.columns),)
        return M.fdiff(t, f)
    if k == 3:
        xs = impl.probe_points(list(f.pts))
        L, R = impl.read_limits(s, dom, xs)
        for x, l, r in zip(xs, L, R):
            if not M.close(l, f.at(x, "left")) or not M.close(r, f.at(x, "right")):
                return "limits at %s: %r %r" % (x, l, r)
        return None
    if val(s.initial_value) != f.init and not M.close(val(s.initial_value), f.init):
        return "initial_value %r expected %r" % (s.initial_value, f.init)
    if s.closed != closed:
        return "closed %r" % s.closed
    n, p = s.number_of_steps, s.step_points
    if n != len(p) or n != len(f.pts):
        return "number_of_steps %r, %d step_points, expected %d" % (n, len(p), len(f.pts))
    if dom.tz is not None and len(p):
        # documented as a numpy array, which cannot carry a timezone: UTC instants
        p = pd.DatetimeIndex(p).tz_localize("UTC").tz_convert(dom.tz) if isinstance(p, np.ndarray) and p.dtype.kind == "M" else p
    if dom.decode(pd.Index(p)) != list(f.pts) if len(p) else bool(f.pts):
        return "step_points %r" % (list(p),)
    repr(s), str(s)
    return None


def points_ok(series, f, dom):
    got = dom.decode(series.index) if len(series) else []
    return None if got == list(f.pts) else "indexed by %s expected %s" % (got, f.pts)


def result(s, f, o, dom):
    l = dom.label
    if o == "add1":
        return s + 1, M.binary("add", f, M.const(1))
    if o == "mask":
        return s.mask((l(1), l(2))), M.mask_interval(f, 1, 2)
    if o == "where":
        return s.where((l(0), l(4))), M.clip(f, 0, 4)
    if o == "layer":
        return s.copy().layer(l(1), l(3), 2), M.layer(f, [(1, 3, 2)])
    if o == "clip":
        return s.clip(l(1), None), M.clip(f, 1, None)
    if o == "fillna":
        return s.fillna(3), M.binary("fillna", f, M.const(3))
    if o == "neg":
        return -s, M.unary("neg", f)
    if o == "lt":
        return s < 1, M.binary("lt", f, M.const(1))
    if o == "shift":
        return s.shift(dom.delta(2)), M.shift(f, 2)
    return s + s, M.binary("add", f, f)


def run(space, case, ctx):
    L = case[0]
    dom = L.dom
    s, f = L.fresh(), L.f.canon()
    ctx.traces += 1
    ctx.state(L)
    if space.startswith("eval") or space == "universal":
        k = case[1]
        if space == "eval2":
            kind = KIND[k] if k else "list"
            kind = KIND[(k * 3 + len(f.steps)) % len(KIND)]
        else:
            kind = KIND[k]
        ctx.outcome((f.key(), L.closed, kind))
        xs = query_points(f)
        d = check_eval(s, f, L.closed, dom, xs, kind, ctx)
        if d is None and space == "universal":
            d = next((x for x in (check_view(i, s, f, L.closed, dom) for i in range(5)) if x), None)
        return d
    if space == "labels":
        return labels(s, f, dom, L, case[1], ctx)
    if space == "results":
        r, exp = result(s, f, case[1], dom)
        ctx.outcome(exp.key())
        order = [case[2], (case[2] + 3) % 5, (case[2] + 1) % 5, (case[2] + 2) % 5, (case[2] + 4) % 5]
        for i in order:
            ctx.transitions += 1
            d = check_view(i, r, exp, L.closed, dom)
            if d:
                return "result of %s, view %s: %s" % (case[1], VIEWS[i], d)
        return check_eval(r, exp, L.closed, dom, query_points(exp), "list", ctx)
    ctx.outcome((f.key(), case[1]))
    for i in case[1] + (case[1][0],):
        ctx.transitions += 1
        d = check_view(i, s, f, L.closed, dom)
        if d:
            return "view %s (after %s): %s" % (VIEWS[i], ",".join(VIEWS[j] for j in case[1][:case[1].index(i)]) or "nothing", d)
    return None


def labels(s, f, dom, L, k, ctx):
    """the same points as other python / numpy types"""
    import datetime
    xs = [x for x in query_points(f) if not dom.datelike or Fraction(x).denominator == 1]
    for x in xs:
        l = dom.label(x)
        if not dom.datelike:
            opts = [l, float(l), np.float64(l), np.float32(l)] + ([np.int64(l), np.int32(l)] if float(l).is_integer() else [])
        elif dom.name == "td":
            opts = [l, l.to_pytimedelta(), l.to_timedelta64(), l.as_unit("s")]
        elif dom.tz is None:
            opts = [l, l.to_pydatetime(), l.to_datetime64(), l.as_unit("s")]
        else:
            opts = [l, l.to_pydatetime(), l.as_unit("s")]
        q = opts[k % len(opts)]
        ctx.transitions += 5
        ctx.outcome((x, k, dom.name))
        for got, e in ((s.limit(q, "left"), f.at(x, "left")), (s.limit(q, "right"), f.at(x)), (s.sample(q), f.sample(x, L.closed)),
                       (s(q), f.sample(x, L.closed)), (s([q])[0], f.sample(x, L.closed)), (list(s.limit([q, q], "left"))[1], f.at(x, "left"))):
            if not near(got, e):
                return "at %s given as %s: %r expected %r" % (x, type(q).__name__, val(got), e)
    return None
