"""C11 slicing and resampling."""
import itertools
from fractions import Fraction

import numpy as np
import pandas as pd
import staircase as sc

from .. import gen, impl, stats
from .. import model as M
from ..gen import Leaf, explain  # noqa
from ..impl import val

F = M.F
H = Fraction(1, 2)
CL = ("left", "right", "both", "neither")
SIDES = ("left", "right")
P = (0, 1, 2, 3)
INT = tuple((a, b) for a in P for b in P if a < b)
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 11, ('containers', 'unbounded')
VALS_STRIDE, VALS_SKIP = 11, ('dates', 'big:')
BOUNDS = {
    "quick": "all 2-point functions over {undefined,0,1,-2}: every single slice over 7 positions x 4 closednesses, every ordered pair of slices over 4 "
             "positions (overlapping, gapped, unordered, repeated) and every set of breaks over 5 positions x 4 closednesses x 2 closed sides; 3-point "
             "functions; 8 domains, PeriodIndex of 4 frequencies, break containers; all routes; statistics mean, integral, median, mode, min, max, "
             "agg (lists), apply (with arguments), hist (5 bin sets x stats); resample with 6 statistics for every tiling",
    "thorough": "as quick plus triples of slices, 3-point functions over 4 values, all domains for all indexes",
}
RULE = "each entry equals the reference statistic of the restricted function; resample equals f outside the span and the constant inside"
ASSUMPTIONS = ["statistics of a slice on which f is nowhere defined: mean/integral must equal the same call on the clipped function; median, mode and "
               "hist raise there for a plain step function, so indexes with such slices are not judged for them"]
STAT = ("mean", "integral", "median", "mode", "min", "max")
BINS = (None, ("breaks", (-3, -1, 0, 1, 2)), ("breaks", (-H, H, 3 * H)), ("breaks", (0, 1, 4)), ("breaks", (-2, 1)))


def subsets(xs, lo=2):
    for n in range(lo, len(xs) + 1):
        yield from itertools.combinations(xs, n)


def tuples_of(breaks):
    return tuple(zip(breaks, breaks[1:]))


def spaces(tier):
    one = tuple(((a, b),) for a in (-1, 0, 1, 2, 3, 4, 5) for b in (-1, 0, 1, 2, 3, 4, 5) if a < b)
    two = tuple(itertools.product(INT, repeat=2))
    brk = tuple(subsets((-1, 0, 1, 2, 3)))
    V4 = gen.V4
    form = lambda f, i: gen.nforms(f, gen.FORMS4)[i % len(gen.nforms(f, gen.FORMS4))]  # noqa
    yield "single", ((Leaf(f, "int", SIDES[(i + j + k) % 2], *form(f, i + j)), ix, c) for i, f in enumerate(gen.functions(gen.G2, V4)) for j, ix in enumerate(one)
                     for k, c in enumerate(CL) if (i + j + k) % 2 or len(f.steps) > 1)
    yield "pairs", ((Leaf(f, "float", SIDES[(i + j) % 2], *form(f, i)), ix, CL[(i + j // 2) % 4]) for i, f in enumerate(gen.functions(gen.G2, V4)) for j, ix in enumerate(two) if (i + j) % 2)
    yield "breaks", ((Leaf(f, "int", SIDES[(i + j + k) % 2]), tuples_of(b), c) for i, f in enumerate(gen.functions(gen.G2, (None, 0, 1))) for j, b in enumerate(brk)
                     for k, c in enumerate(CL))
    yield "three", ((Leaf(f, "float", SIDES[i % 2]), ix, CL[(i + j) % 4]) for i, f in enumerate(gen.functions(gen.G3, (None, 0, 2)))
                    for j, ix in enumerate((((0, 2), (2, 4)), ((1, 3), (3, 5), (-1, 1)), ((0, 4),), ((2, 3), (2, 4), (0, 3)))))
    yield "domains", ((Leaf(f, d, c), ix, CL[(i + j) % 4]) for d in gen.ALL_DOMS for c in SIDES for i, f in enumerate(gen.functions(gen.G2, (None, 2)))
                      for j, ix in enumerate((((0, 2),), ((-1, 1), (1, 3)), ((1, 2), (0, 2)), ((0, 1), (2, 3)))))
    yield "routes", ((Leaf(f, d, c, *a), ix, cl) for d, c in (("int", "right"), ("tzfall", "left")) for f in gen.functions(gen.G2, (None, 1)) for a in gen.nforms(f)
                     for ix, cl in ((((0, 1), (1, 3)), "both"), (((1, 2), (0, 4)), "neither")))
    yield "hist", ((Leaf(f, d, SIDES[i % 2]), ix, CL[i % 4], b, cl, st) for d in ("int", "ts") for i, f in enumerate(gen.functions(gen.G2, (0, 1, -2)))
                   for ix in (((0, 2), (2, 4)), ((1, 3),), ((1, 3), (-1, 1), (0, 4))) for b in range(len(BINS)) for cl in SIDES
                   for st in (stats_for(b)[i % 2::2] if d == "int" else stats_for(b)[:: 2]))
    yield "histund", ((Leaf(f, "float", "left"), ((0, 4), (-1, 5)), "left", b, "left", "sum") for f in gen.functions((0, 1, 3, 4), (None, 0, 1.5)) for b in (0, 1, 2))
    yield "resample", ((Leaf(f, d, c, *form(f, j)), b, st, cl) for d, c in (("int", "left"), ("float", "right")) for i, f in enumerate(gen.functions(gen.G2, (None, 0, 1)))
                       for j, b in enumerate(brk) for st, cl in (((STAT[(i + j) % 6], CL[(i + 2 * j) % 4]), (STAT[(i + j + 3) % 6], "left"))))
    yield "resample3", ((Leaf(f, "int", SIDES[i % 2]), b, st, "left") for i, f in enumerate(gen.functions(gen.G3, (None, 0, 2)))
                        for b in ((0, 2, 4), (1, 3), (-1, 1, 3, 5)) for st in ("mean", "max"))
    yield "resampledom", ((Leaf(f, d, c), b, st, cl) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G2, (None, 2))
                          for b in ((0, 2), (-1, 1, 3)) for st, cl in (("mean", "left"), ("min", "right"), ("max", "both")))
    yield "period", ((Leaf(f, "ts", c), k, cl) for f in gen.functions((0, 2, 30), (None, 0, 1)) for c in SIDES for k in range(4) for cl in ("left", "right"))
    yield "containers", ((Leaf(f, d, "left"), b, k) for d in ("int", "ts", "tzfix", "td") for f in gen.functions(gen.G2, (None, 1)) for b in ((0, 1, 3), (-1, 2)) for k in range(5))
    yield "unbounded", ((Leaf(f, d, c), ix, cl) for d in ("int", "float") for c in SIDES for f in gen.functions(gen.G2, gen.V3)
                        for ix in (((None, 1), (1, None)), ((None, None),), ((None, 0), (0, 2), (2, None))) for cl in CL)
    u = gen.universal_tuple([V4])[0]
    ups = tuple(range(-1, u.pts[-1] + 2, 3))
    yield "universal", ((Leaf(u, d, c), tuples_of(ups[::k]), cl) for d in gen.ALL_DOMS for c in SIDES for k in (1, 2) for cl in CL)
    yield "universal_resample", ((Leaf(u, d, c), ups[::k][:3], st, cl) for d in gen.ALL_DOMS for c in SIDES for k in (1, 2, 4)
                                 for st, cl in (("mean", "left"), ("max", "right"), ("min", "left")))
    yield "long", ((L, tuples_of(tuple(range(-1, 5400, k))), cl) for L in gen.long_leaves((True,)) for k, cl in ((53, "left"), (260, "both"), (13, "neither"), (7, "right"))[:4 if tier != "quick" else 3])
    yield "resample_long", ((L, tuple(range(a, 5400, k)), st, "left") for L in gen.long_leaves((False,)) for a, k in ((-1, 53), (101, 100)) for st in ("mean", "max", "min"))
    if tier == "thorough":
        three = tuple(itertools.product(((0, 2), (1, 3), (0, 1), (2, 4)), repeat=3))
        yield "triples", ((Leaf(f, "int", SIDES[i % 2], *a), ix, CL[j % 4]) for i, f in enumerate(gen.functions(gen.G2, V4)) for a in gen.nforms(f, gen.FORMS4) for j, ix in enumerate(three))
        yield "full3", ((Leaf(f, "int", c), ix, cl) for f in gen.functions(gen.G3, V4) for c in SIDES for ix in one + two for cl in CL)
        yield "domains_full", ((Leaf(f, d, c), ix, cl) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G2, (None, 0, 2)) for ix in one + two for cl in CL)


def stats_for(b):
    return ("sum", "frequency", "density", "probability") if b else ("sum", "probability")


def make_index(dom, ix, closed):
    lo = lambda x: (float("-inf") if x is None else dom.label(x))  # noqa
    hi = lambda x: (float("inf") if x is None else dom.label(x))  # noqa
    return pd.IntervalIndex.from_arrays(dom.index([a for a, _ in ix]) if all(a is not None for a, _ in ix) else pd.Index([lo(a) for a, _ in ix], dtype=float),
                                        dom.index([b for _, b in ix]) if all(b is not None for _, b in ix) else pd.Index([hi(b) for _, b in ix], dtype=float), closed=closed)


def entries(r, n, index, what):
    if not isinstance(r, pd.Series) and not isinstance(r, pd.Index):
        raise stats.Mismatch("%s is %s" % (what, type(r).__name__))
    if len(r) != n:
        raise stats.Mismatch("%s has %d entries for %d slices" % (what, len(r), n))
    if isinstance(r, pd.Series) and not r.index.equals(index):
        raise stats.Mismatch("%s is indexed by %r" % (what, r.index))
    return list(r)


def check_slices(sl, s, f, fclosed, dom, ix, closed, index, ctx, which=STAT):
    n = len(ix)
    pieces = [M.clip(f, a, b) for a, b in ix]
    ok = all(M.has_stats(p) for p in pieces)
    dy = lambda p: all(stats.pow2(x) for x in stats.shares(p)) or Fraction(1, 2) not in stats.shares(p)  # noqa
    res = {}
    for st in which:
        if st in ("median", "mode") and not ok:
            continue
        r = entries(getattr(sl, st)(), n, index, st)
        ctx.transitions += 1
        res[st] = r
        for (a, b), p, g in zip(ix, pieces, r):
            w = "%s over (%s,%s) %s" % (st, a, b, closed)
            if st in ("min", "max"):
                vs = M.values_in_range(f, fclosed, a, b, closed)
                e = (min(vs) if st == "min" else max(vs)) if vs else None
                if not stats.near(stats.number(g, w), e):
                    return "%s: %r expected %r" % (w, val(g), e)
                continue
            if not M.has_stats(p):
                if st in ("mean", "integral"):
                    q = getattr(s.clip(None if a is None else dom.label(a), None if b is None else dom.label(b)), st)()
                    if not (q == g or (pd.isna(q) and pd.isna(g))):
                        return "%s: %r but the clipped function gives %r" % (w, g, q)
                continue
            if st == "mean":
                e, g2 = M.mean(p), stats.number(g, w)
            elif st == "integral":
                e, g2 = M.integral(p), stats.length(g, dom, w)
            elif st == "median":
                if not dy(p):
                    continue
                e, g2 = M.fractile(p, Fraction(1, 2)), stats.number(g, w)
            else:
                g2 = stats.number(g, w)
                if not any(stats.near(g2, m) for m in M.modes(p)):
                    return "%s: %r expected one of %s" % (w, g2, sorted(map(float, M.modes(p))))
                continue
            if not stats.near(g2, e, scale=dom.amount(M.UNIT) if st == "integral" else None):
                return "%s: %s expected %s" % (w, g2, float(e))
    # agg and apply agree with the single statistics
    names = [st for st in ("max", "mean", "min", "median") if st in res]
    if names:
        df = sl.agg(names)
        if list(df.columns) != names or not df.index.equals(index):
            return "agg: columns %s index %r" % (list(df.columns), df.index)
        one = sl.agg(names[0])
        ctx.transitions += 3
        for st in names:
            if not all(x == y or (pd.isna(x) and pd.isna(y)) for x, y in zip(list(df[st]), res[st])):
                return "agg[%s] = %s expected %s" % (st, list(df[st]), res[st])
        if not all(x == y or (pd.isna(x) and pd.isna(y)) for x, y in zip(list(one[names[0]]), res[names[0]])):
            return "agg(str) = %s" % (list(one[names[0]]),)
    if "mean" in res:
        ap = entries(sl.apply(lambda t, k, z=0: t.mean() * k + z, 2, z=1), n, index, "apply")
        for x, y in zip(ap, res["mean"]):
            if not M.close(val(x), None if val(y) is None else 2 * val(y) + 1):
                return "apply: %r for mean %r" % (x, y)
        cl = entries(sl.apply(sc.Stairs.copy), n, index, "apply(copy)")
        for t, p in zip(cl, pieces):
            d = impl.compare(t, dom, p)
            if d:
                return "slice function: " + d
            if t.closed != fclosed:
                return "slice closed %r" % t.closed
        ctx.transitions += 2
    ctx.outcome((f.key(), ix, closed))
    return None


def run(space, case, ctx):
    ctx.traces += 1
    L = case[0]
    dom = L.dom
    s, f = gen.get(L, ctx)
    if s is None:
        return None
    if space.startswith("hist"):
        return hist(s, f, dom, L.closed, *case[1:], ctx)
    if space.startswith("resample") or space == "universal_resample":
        return resample(s, f, dom, L.closed, *case[1:], ctx)
    if space == "period":
        return period(s, f, dom, L.closed, case[1], case[2], ctx)
    if space == "containers":
        b, k = case[1:]
        labels = [dom.label(x) for x in b]
        cuts = (labels, tuple(labels), pd.Index(labels), pd.Series(labels, index=[5, 3, 9][:len(labels)]), dom.index(b))[k]
        cl = CL[k % 4]
        sl = s.slice(cuts, closed=cl) if k else s.slice(cuts)
        index = make_index(dom, tuples_of(b), cl if k else "left")
        got = sl.mean().index
        if not got.equals(index):
            return "slices %r expected %r" % (got, index)
        return check_slices(sl, s, f, L.closed, dom, tuples_of(b), index.closed, index, ctx)
    ix, closed = case[1:3]
    index = make_index(dom, ix, closed)
    which = STAT if len(f.steps) % 2 or space != "single" else STAT[::-1]
    return check_slices(s.slice(index), s, f, L.closed, dom, ix, closed, index, ctx, which)


def hist(s, f, dom, fclosed, ix, closed, b, cl, st, ctx):
    pieces = [M.clip(f, x, y) for x, y in ix]
    if not all(M.has_stats(p) for p in pieces):
        return None
    index = make_index(dom, ix, closed)
    sl = s.slice(index)
    spec = BINS[b]
    kw = dict(closed=cl, stat=st)
    if spec is not None:
        kw["bins"] = [float(e) for e in spec[1]]
    h = sl.hist(**kw) if b != 1 else sl.hist(kw["bins"], cl, st)
    ctx.transitions += 1
    ctx.outcome((f.key(), ix, b, cl, st))
    if not isinstance(h, pd.DataFrame) or not h.index.equals(index):
        return "hist is %s over %r" % (type(h).__name__, getattr(h, "index", None))
    cols = list(h.columns)
    bins = [(Fraction(i.left), Fraction(i.right)) for i in cols]
    if spec is not None and bins != [(Fraction(x), Fraction(y)) for x, y in tuples_of(spec[1])]:
        return "hist bins %s" % (bins,)
    for r, p, w in zip(range(len(ix)), pieces, ix):
        exps, is_len = stats.hist_expected(p, bins, cl, st)
        if spec is None and st == "probability":
            exps = exps[:1]
        if exps is None:
            continue
        got = [stats.length(v, dom, "hist") if is_len else stats.number(v, "hist") for v in h.iloc[r].tolist()]
        if not any(all(stats.near(g, e, scale=is_len and dom.amount(M.UNIT) * 2.1) for g, e in zip(got, ex)) for ex in exps):
            return "hist(%s,%s) over %s: %s expected %s" % (st, cl, w, [g if g is None else float(g) for g in got], [float(e) for e in exps[0]])
        if spec is None:
            for v in M.value_sums(p):
                if not any(M.in_bin(v, lo, hi, cl) for lo, hi in bins):
                    return "hist: value %s in no bin" % v
    return None


def resample(s, f, dom, fclosed, b, st, cl, ctx):
    if cl == "both" and len(b) > 2:
        cl = "neither"  # slices closed on both sides share their end points, hence overlap
    ix = tuples_of(b)
    pieces = [M.clip(f, x, y) for x, y in ix]
    if st in ("median", "mode") and not all(M.has_stats(p) for p in pieces):
        return None
    if st == "integral" and dom.datelike:
        return None
    vals = []
    for (x, y), p in zip(ix, pieces):
        if st in ("min", "max"):
            vs = M.values_in_range(f, fclosed, x, y, cl)
            vals.append((min(vs) if st == "min" else max(vs)) if vs else None)
        elif not M.has_stats(p):
            if st == "integral":
                return None
            vals.append(None)
        elif st == "mode":
            vals.append(sorted(M.modes(p)))
        elif st == "median":
            if Fraction(1, 2) in stats.shares(p) and not all(stats.pow2(q) for q in stats.shares(p)):
                return None
            vals.append(M.fractile(p, Fraction(1, 2)))
        else:
            vals.append(float(M.mean(p)) if st == "mean" else float(M.integral(p) * Fraction(dom.b)))
    sl = s.slice([dom.label(x) for x in b], closed=cl)
    if len(b) % 2:
        sl.mean()
    r = sl.resample(st)
    ctx.transitions += 1
    ctx.outcome((f.key(), b, st, cl))
    if r.closed != fclosed:
        return "resample closed %r expected %r" % (r.closed, fclosed)
    if impl.compare(s, dom, f):
        return "resample changed its operand"
    choices = [v if isinstance(v, list) else [v] for v in vals]
    first = None
    for combo in itertools.islice(itertools.product(*choices), 64):
        combo = [c if c is None else float(c) for c in combo]
        xs = sorted(set(f.pts) | set(b))
        at = lambda x: (f.at(x) if x < b[0] or x >= b[-1] else next(v for (lo, hi), v in zip(ix, combo) if lo <= x < hi))  # noqa
        exp = F(f.init, [(x, at(x)) for x in xs]).canon()
        d = impl.compare(r, dom, exp, deep=True)
        if d is None:
            if not impl.read(r, dom).is_canon() and all(c is None or float(c * 16).is_integer() for c in combo):
                return "resample result has redundant step points"
            return None
        first = first or d
    return "resample(%s) over %s: %s" % (st, b, first)


FREQ = (("3h", "2021-01-30 22:30", 4), ("D", "2021-01-30", 3), ("h", "2021-01-31 00:00", 6), ("M", "2021-01", 2))


def period(s, f, dom, fclosed, k, cl, ctx):
    freq, start, n = FREQ[k]
    pi = pd.period_range(start, periods=n, freq=freq)
    st = pi.to_timestamp(how="start")
    bounds = [(p.start_time, p.end_time + pd.Timedelta(1, "ns")) for p in pi]
    co = lambda t: stats.M.Fraction(t.value - dom.origin.value, dom.unit)  # noqa
    ix = tuple((co(a), co(b)) for a, b in bounds)
    index = pd.IntervalIndex.from_tuples(bounds, closed=cl)
    sl = s.slice(pi, closed=cl)
    return check_slices(sl, s, f, fclosed, dom, ix, cl, index, ctx)
