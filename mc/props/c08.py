"""C08 integral, mean, var, std, value_sums."""
from fractions import Fraction

import numpy as np
import pandas as pd

from .. import gen, impl, stats
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa

F = M.F
GA, GB = (0, 2, 3, 7), (0, 1, 4, 4 + Fraction(1, 2))
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 5, ()
VALS_STRIDE, VALS_SKIP = 5, ('dates',)
BOUNDS = {
    "quick": "all functions on 4 unevenly spaced points with values {undefined,0,1,-2} (1024) with the statistics queried in 10 orders, "
             "3-point functions with fractional values, all domains x closed sides, all construction routes, every window over a 6-point window "
             "grid incl. unbounded and missing bounds through agg (str, list, callable) and clip, results of 8 operations, long functions "
             "containing every transition of values, Timedelta products/sums near the 64-bit limit",
    "thorough": "as quick plus 5-point grids, all windows of all 3-point functions in all domains and all routes",
}
RULE = "each statistic equals its defining sum over the finite defined pieces, computed in exact rationals"
ASSUMPTIONS = ["functions without a finite defined piece are outside the property and are not queried",
               "an integral beyond the range of Timedelta cannot be represented: only mean and value_sums are then compared"]
SIDES = ("left", "right")
V4 = gen.V4
OPSR = ("add", "mask", "where", "layer", "neg", "shift", "fillna", "clip")
WPTS = (None, -1, 0, 1, 3, 4, 9)


def spaces(tier):
    yield "grid4", ((Leaf(f, "int", "left", *(("vals", ""), ("vlay", ""), ("vals", "c"), ("vlay", "v"))[i % 4]) if f.steps else Leaf(f), i % 10)
                    for i, f in enumerate(gen.functions(GA, V4)))
    yield "grid3f", ((Leaf(f, "float", SIDES[i % 2]), (i * 3) % 10) for i, f in enumerate(gen.functions((0, 1, 4), (None, 0.5, -2.25, 3, 1e5))))
    yield "domains", ((Leaf(f, d, c), i % 10) for d in gen.ALL_DOMS for c in SIDES for i, f in enumerate(gen.functions((0, 2, 3), (None, 0, 2))))
    yield "routes", ((Leaf(f, d, c, *a), i % 10) for d, c in (("int", "right"), ("tzfall", "left")) for f in gen.functions((0, 2, 7), (None, 0, 1))
                     for i, a in enumerate(gen.nforms(f)))
    yield "windows", ((Leaf(f, d, c), a, b, how) for d, c in (("float", "left"), ("ts", "right")) for f in gen.functions((0, 2, 4), (None, 1, -2)[:3 if d == "float" else 2])
                      for a in WPTS for b in WPTS[::1 if d == "float" else 2] if a is None or b is None or a < b
                      for how in (((a or 0) + (b or 0) + len(f.steps)) % 4,))
    yield "results", ((Leaf(f, d, "left", "vlay" if len(f.steps) > 1 else "vals"), o) for d in ("int", "utc") for f in gen.functions((0, 2, 4), (None, 0, 1)) for o in OPSR)
    u = gen.universal_tuple([V4])[0]
    w = gen.universal_tuple([(None, 0, 1, 2.5), (0, 1)])
    yield "universal", ((Leaf(g, d, c, *a), i) for g in (u,) + w for d in gen.ALL_DOMS for c in SIDES for i, a in enumerate(gen.FORMS4))
    yield "big", ((k, j, i) for k in range(4) for j in range(3) for i in range(10))
    yield "long", ((L, i) for L in gen.long_leaves() for i in range(10))
    yield "windows_long", ((L, a, b, how) for L in gen.long_leaves() for a, b in ((None, 2001), (100, 4000), (3, 5300), (2600, 2601)) for how in range(4))
    if tier == "thorough":
        yield "grid5", ((Leaf(f, d, c), i % 10) for d, c in (("int", "left"), ("ts", "right")) for i, f in enumerate(gen.functions((0, 2, 3, 7, 12), V4)))
        yield "grid4dom", ((Leaf(f, d, c, *a), i % 10) for d in gen.ALL_DOMS for c in SIDES for i, f in enumerate(gen.functions(GA, (None, 0, 1)))
                           for a in gen.nforms(f, gen.FORMS4))
        yield "windows_full", ((Leaf(f, d, c), a, b, how) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions((0, 2, 4), (None, 1, -2))
                               for a in WPTS for b in WPTS if a is None or b is None or a < b for how in range(4))


def restricted_checks(s, f, dom, a, b, how, ctx):
    where = (None if a is None else dom.label(a), None if b is None else dom.label(b))
    w = M.clip(f, a, b)
    if not M.has_stats(w):
        return None
    if how == 0:
        return stats.check_basic(s.clip(*where), w, dom, ctx, (a or 0) % 10)
    names = ["integral", "mean", "var", "std"]
    if how == 1:
        got = {n: s.agg(n, where) for n in names}
    elif how == 2:
        got = s.agg(names, where=list(where))
        if list(got.index) != names:
            return "agg index %s" % (list(got.index),)
        got = dict(zip(names, list(got)))
    else:
        import staircase as sc
        fn = [sc.Stairs.integral, sc.Stairs.mean, sc.Stairs.var, sc.Stairs.std]
        got = dict(zip(names, list(s.agg(fn, where))))
    ctx.transitions += 4
    exp = {"integral": M.integral(w), "mean": M.mean(w), "var": M.var(w), "std": M.std(w)}
    for n in names:
        g = stats.length(got[n], dom, n) if n == "integral" else stats.number(got[n], n)
        sca = stats.scale_of(w)
        if not stats.near(g, exp[n], 1e-7 if n == "std" else 1e-9, dom.amount(sca) if n == "integral" else sca):
            return "agg %s over %s: %s expected %s" % (n, (a, b), g, float(exp[n]))
    return None


def run(space, case, ctx):
    ctx.traces += 1
    if space == "big":
        return big(*case, ctx)
    L = case[0]
    dom = L.dom
    s, f = gen.get(L, ctx)
    if s is None:
        return None
    if space.startswith("windows"):
        ctx.outcome((f.key(), case[1:3]))
        return restricted_checks(s, f, dom, case[1], case[2], case[3], ctx)
    if space == "results":
        s, f = result(s, f, dom, case[1])
        order = 0
    else:
        order = case[1]
    if not M.has_stats(f):
        return None
    ctx.outcome(f.key())
    return stats.check_basic(s, f, dom, ctx, order)


def result(s, f, dom, o):
    l = dom.label
    stats_first = f.steps and M.has_stats(f)
    if stats_first:  # a cache of the operand must not leak into the result
        s.mean(), s.var()
    if o == "add":
        return s + 2, M.binary("add", f, M.const(2))
    if o == "mask":
        return s.mask((l(1), l(3))), M.mask_interval(f, 1, 3)
    if o == "where":
        return s.where((l(-1), l(3))), M.clip(f, -1, 3)
    if o == "layer":
        return s.layer(l(1), l(9), 3), M.layer(f, [(1, 9, 3)])
    if o == "neg":
        return -s, M.unary("neg", f)
    if o == "shift":
        return s.shift(dom.delta(3)), M.shift(f, 3)
    if o == "fillna":
        return s.fillna(2), M.binary("fillna", f, M.const(2))
    return s.clip(l(-2), l(3)), M.clip(f, -2, 3)


def big(k, j, order, ctx):
    """Timedelta arithmetic near the 64-bit nanosecond range"""
    import staircase as sc
    days = (36500, 100000, 20, 50000)[k]
    vals = ((300, 400, 300), (3, 4, 2e6), (-5000, 7, 5000))[j]
    t0 = pd.Timestamp("1700-01-01") if days > 1000 else pd.Timestamp("2000-01-01")
    third = days // 3
    if t0 + pd.Timedelta(days=3 * third) > pd.Timestamp.max:
        return None
    pts = [t0 + pd.Timedelta(days=third * i) for i in range(4)]
    s = sc.Stairs.from_values(initial_value=0, values=pd.Series(list(vals) + [0], index=pd.DatetimeIndex(pts)))
    ns = third * 86400 * 10**9
    total = sum(Fraction(v) for v in vals) * ns
    fits = abs(total) < 2**63 - 2**20
    mean = sum(Fraction(v) for v in vals) / 3
    var = sum((Fraction(v) - mean) ** 2 for v in vals) / 3
    ctx.outcome((k, j, fits))
    steps = {"i": lambda: _int(s, total, fits), "m": lambda: _num(s.mean(), mean, "mean"), "v": lambda: _num(s.var(), var, "var"),
             "s": lambda: None if sum(pd.Timedelta(x).value for x in s.value_sums()) == 3 * ns else "value_sums: do not add up"}
    seqs = ("imvs", "misv", "vmi", "svmi", "iimm", "mmii", "sim", "vim", "ivm", "mvsi")
    for c in seqs[order]:
        ctx.transitions += 1
        d = steps[c]()
        if d:
            return d
    return None


def _int(s, total, fits):
    try:
        g = s.integral()
    except OverflowError:
        return None if not fits else "integral: overflow although representable"
    if not fits:
        # a silently wrapped number is not the integral
        return "integral: %r although the exact value %s ns is not representable" % (g, int(total))
    return None if abs(g.value - total) <= 1e-9 * abs(total) + 1 else "integral: %r expected %s ns" % (g, int(total))


def _num(g, e, n):
    return None if stats.near(stats.number(g, n), e) else "%s: %r expected %s" % (n, g, float(e))
