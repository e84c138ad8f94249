"""C09 ecdf, percentiles, fractiles, quantiles, median, mode, hist, describe."""
import itertools
from fractions import Fraction

from .. import gen, impl, stats
from .. import model as M
from ..gen import Leaf, explain  # noqa
from . import c08

F = M.F
H = Fraction(1, 2)
GA = (0, 2, 3, 7, 8)       # total length 8 over all pieces: dyadic shares
GB = (0, 1, 2, 4)
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 11, ('hist_long',)
VALS_STRIDE, VALS_SKIP = 11, ('dates', 'big:')
BOUNDS = {
    "quick": "all functions over 5 points at uneven spacing (lengths 2,1,4,1) with values {undefined,0,1,-2} on the four finite pieces; fractional "
             "values; all domains x closed sides and all routes; ecdf and its limits at, between and outside all values; percentile/fractile at 0, 1, "
             "1/2, 1/4, inside and exactly at every share; quantiles q in {1,2,3,4,5,8}; hist with unit bins and 9 bin sets (cutting at values, "
             "between, gapped IntervalIndex, not covering) x 2 sides x 4 stats; describe over every window of a 6-point window grid",
    "thorough": "as quick plus values {undefined,0,1,-2,0.5} and all windows in all domains, all bin sets for all domains",
}
RULE = "distribution queries equal the exact distribution of values by length"
ASSUMPTIONS = ["percentile boundaries are judged where the cumulative share is a dyadic rational (binary floats cannot hold others)",
               "stat='probability' with bins that do not cover all values: share of total length or of covered length are both accepted",
               "stat='density' follows the documented normalisation sum(value*width)=1; empty bins only (0/0) are not judged"]
SIDES = ("left", "right")
V4 = gen.V4
BINS = (None, ("breaks", (-3, -2, 0, 1, 2)), ("breaks", (0, 1)), ("breaks", (-H, H, 3 * H)), ("breaks", (-2, 1)), ("breaks", (-2, 0, H, 1, 4)),
        ("ii", ((-2, 0), (1, 2))), ("ii", ((-3, -1), (0, H), (H, 3))), ("breaks", (5, 6, 8)))
STATS = ("sum", "frequency", "density", "probability")
WPTS = (None, -1, 0, 1, 3, 5, 9)


def finite(grid, V, ends=(0,)):
    """functions whose unbounded pieces are taken from `ends`"""
    for cells in itertools.product(V, repeat=len(grid) - 1):
        for e in ends:
            yield M.from_cells((e,) + cells + (e,), grid)


def spaces(tier):
    def forms(i, f):
        return (("vals", ""), ("vlay", ""), ("vals", "c"), ("vlay", "v"))[i % 4] if f.steps else ("vals", "")

    yield "dist", ((Leaf(f, "int", "left", *forms(i, f)), q) for i, f in enumerate(finite(GA, V4, (0, None))) for q in ("ecdf", "frac", "mode"))
    yield "distf", ((Leaf(f, "float", SIDES[i % 2]), q) for i, f in enumerate(gen.functions(GB, (None, 0.5, -2.25, 3))) for q in ("ecdf", "frac", "mode"))
    yield "domains", ((Leaf(f, d, c), q) for d in gen.ALL_DOMS for c in SIDES for f in finite(GB, (None, 0, 1, 3), (None, 0)) for q in ("ecdf", "frac", "mode"))
    yield "routes", ((Leaf(f, d, c, *a), q) for d, c in (("int", "right"), ("tzfall", "left")) for f in gen.functions((0, 2, 6), (None, 0, 1))
                     for a in gen.nforms(f) for q in ("ecdf", "frac", "mode"))
    yield "hist", ((Leaf(f, "int", SIDES[i % 2]), b, c, st) for i, f in enumerate(finite(GB, V4, (0,)))
                   for b in range(len(BINS)) for c in SIDES for st in STATS)
    yield "histf", ((Leaf(f, "float", "left"), b, c, st) for f in finite(GB, (None, 0.5, -2.25, 1), (None,)) for b in range(len(BINS)) for c in SIDES for st in STATS)
    yield "histdom", ((Leaf(f, d, c), b, c2, st) for d in ("ts", "tzfix", "tzspring", "td", "float") for c in SIDES for f in finite(GB, (None, 0, 1), (1,))
                      for b in ((0, 1, 3, 6) if c == "left" else (2, 4, 7)) for c2 in SIDES for st in STATS)
    yield "describe", ((Leaf(f, "float", c), (a, b), (i + (a or 0) + (b or 0)) % 4) for c in SIDES for i, f in enumerate(gen.functions((0, 2, 4), (None, 0, 1, -2)[:3 if c == "left" else 2]))
                       for a in WPTS for b in WPTS if a is None or b is None or a < b)
    yield "describedom", ((Leaf(f, d, SIDES[i % 2]), w, i % 4) for d in gen.ALL_DOMS for i, f in enumerate(gen.functions((0, 2, 4), (None, 0, 1)))
                          for w in (None, (1, 3), (None, 4), (0, None)))
    yield "results", ((Leaf(f, d, "left", "vlay" if len(f.steps) > 1 else "vals"), o, q) for d in ("int", "utc") for f in gen.functions((0, 2, 4), (None, 0, 1))
                      for o in c08.OPSR for q in ("ecdf", "frac", "mode"))
    u = gen.universal_tuple([V4])[0]
    w = gen.universal_tuple([(None, 0, 1, 2.5), (0, 1)])
    yield "universal", ((Leaf(g, d, c, *a), q) for g in (u,) + w for d in gen.ALL_DOMS for c in SIDES for a in gen.FORMS4 for q in ("ecdf", "frac", "mode"))
    yield "long", ((L, q) for L in gen.long_leaves() for q in ("ecdf", "frac", "mode"))
    yield "hist_long", ((L, b, c2, st) for L in gen.long_leaves() for b in range(len(BINS)) for c2 in SIDES for st in STATS)
    yield "describe_long", ((L, w, k) for L in gen.long_leaves() for k, w in enumerate((None, (100, 4000), (3, None), (None, 2001))))
    if tier == "thorough":
        yield "dist_full", ((Leaf(f, d, c), q) for d, c in (("int", "left"), ("ts", "right")) for f in finite(GA + (16,), gen.V5, (0,)) for q in ("ecdf", "frac", "mode"))
        yield "hist_full", ((Leaf(f, d, c), b, c2, st) for d in gen.ALL_DOMS for c in SIDES for f in finite(GB, gen.V5, (0, None))
                            for b in range(len(BINS)) for c2 in SIDES for st in STATS)
        yield "describe_full", ((Leaf(f, d, c), (a, b), k) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions((0, 2, 4), (None, 0, 1))
                                for a in WPTS for b in WPTS if a is None or b is None or a < b for k in range(4))


PERCS = (None, [Fraction(1, 8), Fraction(1, 2)], [Fraction(0), Fraction(1)], [Fraction(5, 16)])


def run(space, case, ctx):
    L = case[0]
    dom = L.dom
    ctx.traces += 1
    s, f = gen.get(L, ctx)
    if s is None:
        return None
    if space.startswith("describe"):
        w, k = case[1], case[2]
        g = f if w is None else M.clip(f, *w)
        if not M.has_stats(g):
            return None
        ctx.outcome((g.key(), k))
        return stats.check_describe(s, g, dom, w, PERCS[k], ctx)
    if space == "results":
        s, f = c08.result(s, f, dom, case[1])
    if not M.has_stats(f):
        return None
    ctx.outcome((f.key(), case[1:]))
    if space.startswith("hist"):
        return stats.check_hist(s, f, dom, BINS[case[1]], case[2], case[3], kw=(len(f.steps) % 2 == 0), ctx=ctx)
    q = case[-1]
    if q == "ecdf":
        return stats.check_ecdf(s, f, dom, ctx)
    if q == "frac":
        return stats.check_fractiles(s, f, dom, ctx)
    ctx.transitions += 2
    return stats.check_mode(s, f, dom) or stats.check_hist(s, f, dom, None, L.closed, "sum")
