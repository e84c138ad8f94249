"""C19 covariance and correlation over the common defined part of a window."""
import itertools
import math
from fractions import Fraction

import staircase as sc

from .. import gen, impl, stats
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa

F = M.F
H = Fraction(1, 2)
SIDES = ("left", "right")
MODES = ("pre", "post")
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 11, ()
VALS_STRIDE, VALS_SKIP = 11, ('dates',)
BOUNDS = {
    "quick": "all pairs of 2-point functions with values {undefined,0,1} and {undefined,0,2} at interleaved and coinciding points x 8 windows; 7 pairs x all "
             "28 windows of an 8-point grid x lags {0,1,-1,2,-3,1/2} x both clip modes; all materialisations; all domains and closed sides with Timedelta lags; "
             "self pairs; constants and nearly constant values that binary floats round; long pairs in which every adjacent pair of joint values "
             "{undefined,0,1,-2}^2 occurs x windows x lags",
    "thorough": "as quick with all pairs of 2-point functions over {undefined,0,1,-2} x all windows, and all lags in all domains",
}
RULE = "cov, corr equal the exact rational moments over the region where both are defined inside the window; symmetric; cov(f,f)=var(f); |corr|<=1; NaN for zero deviation"
ASSUMPTIONS = ["windows are finite, as quantified, or omitted / unbounded where the common domain is bounded; a window without any common defined part has no moments and is not judged"]
WG = (-1, 0, 1, 2, 3, 4, 5, 7)
WALL = tuple((a, b) for a in WG for b in WG if a < b)
W8 = ((-1, 5), (0, 4), (1, 3), (0, 2), (2, 7), (-1, 1), (1, 2), (3, 7))
LAGS = (0, 1, -1, 2, -3, H)
PAIRS = [(F(0, ((0, 1), (2, 3))), F(1, ((1, -2), (3, 2)))), (F(0, ((0, 1), (2, None), (4, 2))), F(0, ((1, 2), (3, 0)))), (F(None, ((0, 2), (3, 1))), F(1, ((1, 0), (2, None), (3, 3)))),
         (F(1, ((2, None),)), F(None, ((1, 1), (2, 2), (4, 0)))), (F(2, ()), F(0, ((0, 1), (2, 0)))), (F(0, ((0, None), (1, 1), (2, None), (3, 2))), F(0, ((2, 1), (3, 2), (4, 5)))),
         (F(0, ((0, 1), (1, 2), (3, -1))), F(0, ((0, -2), (1, -4), (3, 2))))]


def moments(f, g, lo, hi, lag=0, mode="pre"):
    """exact -> None (no common region) or (cov, var f, var g)"""
    if lag:
        g = M.shift(g, -lag)
        if mode == "pre":
            hi = hi - lag
    if not lo < hi:
        return None
    xs = [lo] + [x for x in M.merge((f, g)) if lo < x < hi] + [hi]
    n = sf = sg = sff = sgg = sfg = Fraction(0)
    for a, b in zip(xs, xs[1:]):
        u, v = f.at(a), g.at(a)
        if u is None or v is None:
            continue
        w, u, v = Fraction(b - a), Fraction(u), Fraction(v)
        n, sf, sg, sff, sgg, sfg = n + w, sf + u * w, sg + v * w, sff + u * u * w, sgg + v * v * w, sfg + u * v * w
    if n == 0:
        return None
    return sfg / n - sf * sg / n / n, sff / n - (sf / n) ** 2, sgg / n - (sg / n) ** 2


def spaces(tier):
    yield "pairs", ((Leaf(f, "float", SIDES[(i + j) % 2]), Leaf(g, "float", SIDES[(i + j) % 2]), W8[k], 0, "pre") for i, f in enumerate(gen.functions((0, 2), (None, 0, 1))) for gg in ((1, 3), (0, 4))
                    for j, g in enumerate(gen.functions(gg, (None, 0, 2))) for k in ((i + j) % 8, (i * 3 + j + 4) % 8)[:2 if tier != "quick" or gg[0] else 1])
    yield "windows", ((Leaf(f, "float", "left", *_form(f, i + j)), Leaf(g, "float", "left", *_form(g, i + j // 2)), w, l, m) for i, (f, g) in enumerate(PAIRS) for j, w in enumerate(WALL) for k, l in enumerate(LAGS)
                      for m in (MODES if l else MODES[:1]) if tier != "quick" or not l or (i + j + k) % 2)
    yield "domains", ((Leaf(f, d, c), Leaf(g, d, c), w, l, m) for d in gen.ALL_DOMS for c in SIDES for f, g in PAIRS[:6] for w in (W8[0], W8[4]) for l, m in ((0, "pre"), (1, "pre"), (-2, "post"), (1, "post")))
    yield "forms", ((Leaf(f, "int", "right", *a), Leaf(g, "int", "right", *b), (0, 5), l, "pre") for f, g in PAIRS[:5] for a in gen.nforms(f) for b in gen.nforms(g, gen.FORMS4) for l in (0, 1))
    yield "self", ((Leaf(f, d, SIDES[i % 2], *_form(f, i)), w, same) for d in ("int", "ts") for i, f in enumerate(gen.functions(gen.G3, (None, 0, 1))) for w in (W8[0], W8[2]) for same in (0, 1))
    yield "values", ((v, w, k, d) for v in VALS for w in ((0, 3), (0, 7), (-1, 2), (H, 3)) for k in range(6) for d in ("float", "ts"))
    yield "nowindow", ((Leaf(f, d, c, *_form(f, i)), Leaf(g, d, c, *_form(g, i + 1)), k, l, m, lo) for d, c in (("float", "left"), ("ts", "right")) for i, (f, g) in enumerate(NOWIN) for k in (range(6) if d == "float" else (0, 4))
                       for l, m in ((0, "pre"), (1, "pre"), (-2, "pre"), (2, "post"), (-H, "post")) for lo in (0, 1) if (k < 4 or lo == 0) and (l != -H or d == "float"))
    u = gen.universal_tuple([gen.V4, gen.V4])
    n = len(u[0].steps) * 2
    yield "universal", ((Leaf(u[0], d, c, *a), Leaf(u[1], d, c, *b), w, l, m) for d, c in (("int", "left"), ("tzfall", "right")) for a in gen.FORMS4[:3] for b in gen.FORMS4[::2] for w in ((0, n), (7, 100), (n // 2, n - 3))
                        for l, m in ((0, "pre"), (3, "pre"), (-2, "post"), (2, "post")))
    yield "long", ((Leaf(gen.long(0, und=u), d, c, *a), Leaf(gen.long(1), d, c, *a), w, l, m) for d, c, a in gen.LONG3 for u in (True, False) for w in ((0, 5199), (101, 3000), (-10, 700)) for l, m in ((0, "pre"), (3, "pre"), (-2, "post")))
    if tier == "thorough":
        yield "pairs_full", ((Leaf(f, "int", "left"), Leaf(g, "int", "left"), W8[k], 0, "pre") for f in gen.functions((0, 2), gen.V4) for g in gen.functions((0, 3), gen.V4) for k in range(8))
        yield "windows_full", ((Leaf(f, d, c), Leaf(g, d, c), w, l, m) for d in gen.ALL_DOMS for c in SIDES for f, g in PAIRS for w in WALL for l in LAGS for m in (MODES if l else MODES[:1]))


VALS = (0.1, 0.7, 1 / 3, -0.3, 1e6 + 0.1, 5, 0)


_B = [F(None, ((0, 1), (2, 3), (4, None))), F(None, ((-1, 2), (0, 0), (1, None), (3, 5), (5, None))), F(None, ((0, -2), (3, None)))]
NOWIN = [(a, b) for a in _B for b in _B] + [(a, b) for a in _B for b in (F(1, ((1, -2), (3, 2))), F(0, ((0, 1), (1, None), (2, 2))), F(3, ()))] + [(F(1, ((1, -2), (3, 2))), a) for a in _B] + \
    [(F(1, ((0, 2), (3, None))), F(None, ((-2, 1), (2, 4))))]


def _form(f, i):
    fs = gen.nforms(f, gen.FORMS4)
    return fs[i % len(fs)]


def check(s, u, f, g, dom, w, lag, mode, ctx, sym=True):
    e = moments(f, g, w[0], w[1], lag, mode)
    if e is None:
        return None
    cov, vf, vg = e
    kw = {"where": (dom.label(w[0]), dom.label(w[1]))}
    if lag or mode == "post":
        kw.update(lag=dom.delta(lag), clip=mode)
    big = lambda h: max([M.UNIT] + [abs(float(v)) for v in (h.init,) + h.vals if v is not None])  # noqa
    scale = big(f) * big(g)
    ctx.transitions += 2
    ctx.state(f.key(), g.key(), w, lag, mode, dom.name)
    ctx.outcome((cov, vf, vg))
    got = stats.number(s.cov(u, **kw), "cov")
    if not stats.near(got, cov, scale=scale):
        return "cov: %r expected %s" % (got, float(cov))
    ec = None if vf == 0 or vg == 0 else float(cov) / math.sqrt(float(vf) * float(vg))
    got = stats.number(s.corr(u, **kw), "corr")
    # the rounding of the moments is amplified by the division
    amp = 1.0 if ec is None else max(1.0, scale / math.sqrt(float(vf) * float(vg)))
    if not stats.near(got, ec, 1e-8, scale=amp):
        return "corr: %r expected %s" % (got, ec)
    if got is not None and abs(got) > 1 + 1e-8 * amp:
        return "corr: %r outside [-1, 1]" % got
    if mode == "pre" and lag and w[0] % 2:
        # the same with every default left out, and by position
        ctx.transitions += 2
        wh = kw["where"]
        for name, got, e, tol, sc_ in (("cov by position without clip", s.cov(u, list(wh), dom.delta(lag)), cov, 1e-9, scale),
                                       ("corr by position without clip", s.corr(u, list(wh), dom.delta(lag)), ec, 1e-8, amp)):
            if not stats.near(stats.number(got, name), e, tol, scale=sc_):
                return "%s: %r expected %s" % (name, got, e)
    if sym and not lag:
        ctx.transitions += 2
        a, b = stats.number(u.cov(s, **kw), "cov"), stats.number(u.corr(s, **kw), "corr")
        if not stats.near(a, cov, scale=scale):
            return "cov with operands exchanged: %r expected %s" % (a, float(cov))
        if not stats.near(b, ec, 1e-8, scale=amp):
            return "corr with operands exchanged: %r expected %s" % (b, ec)
    elif lag:
        # the same by shifting explicitly
        ctx.transitions += 1
        w2 = (dom.label(w[0]), dom.label(w[1] - lag if mode == "pre" else w[1]))
        a = stats.number(s.cov(u.shift(-dom.delta(lag)), w2), "cov")
        if not stats.near(a, cov, scale=scale):
            return "cov with the shifted function: %r expected %s" % (a, float(cov))
    return None


def nowindow(case, ctx):
    """windows without bounds on functions which are defined on bounded parts only"""
    A, B, k, lag, mode, swap = case
    s, f = gen.get(A, ctx)
    u, g = gen.get(B, ctx)
    if s is None or u is None:
        return None
    if swap:
        s, f, u, g = u, g, s, f
    dom = A.dom
    l1 = dom.label(1)
    where = ((), ((None, None),), ((-sc.inf, sc.inf),), ([None, sc.inf],), ((l1, None),), ((-sc.inf, l1),))[k]
    w = ((-50, 50),) * 4 + ((1, 50), (-50, 1))
    w = w[k]
    hi = w[1]
    e = moments(f, g, w[0], hi if hi == 1 else hi + (lag if mode == "pre" else 0), lag, mode)
    if e is None:
        return None
    cov, vf, vg = e
    kw = {} if not lag else {"lag": dom.delta(lag)} if mode == "pre" and k % 2 else {"lag": dom.delta(lag), "clip": mode}
    ctx.transitions += 2
    ctx.state(f.key(), g.key(), k, lag, mode, dom.name)
    ctx.outcome(e)
    got = stats.number(s.cov(u, *where, **kw), "cov")
    if not stats.near(got, cov, scale=10.0):
        return "cov over %r: %r expected %s" % (where, got, float(cov))
    ec = None if vf == 0 or vg == 0 else float(cov) / math.sqrt(float(vf) * float(vg))
    got = stats.number(s.corr(u, *where, **kw), "corr")
    return None if stats.near(got, ec, 1e-8) else "corr over %r: %r expected %s" % (where, got, ec)


def run(space, case, ctx):
    ctx.traces += 1
    if space == "self":
        L, w, same = case
        s, f = gen.get(L, ctx)
        dom = L.dom
        e = moments(f, f, *w)
        if s is None or e is None:
            return None
        where = [dom.label(x) for x in w]
        u = s if same else s.copy()
        d = check(s, u, f, f, dom, w, 0, "pre", ctx, sym=False)
        if d:
            return d
        v = stats.number(s.clip(*where).var(), "var")
        c = stats.number(s.cov(u, where), "cov")
        ctx.transitions += 2
        if not stats.near(v, c):
            return "cov(f,f): %r but var %r" % (c, v)
        r = stats.number(s.corr(u, where), "corr")
        return None if stats.near(r, None if e[1] == 0 else 1.0, 1e-8) else "corr(f,f): %r" % r
    if space == "values":
        v, w, k, d = case
        dom = DOMAINS[d]
        f = (F(v, ()), F(v, ((1, None), (2, v))), F(None, ((0, v), (9, 0))), F(v, ((1, v + 2),)), F(0, ((-2, v), (8, None))), F(v, ((1, 2 * v), (2, v))))[k]
        g = F(0.25, ((0, 0.7), (1, 0.2), (Fraction(5, 2), 3)))
        return check(impl.build(f, dom, "left"), impl.build(g, dom, "left"), f.canon(), g, dom, w, 0, "pre", ctx)
    if space == "nowindow":
        return nowindow(case, ctx)
    A, B, w, lag, mode = case
    s, f = gen.get(A, ctx)
    u, g = gen.get(B, ctx)
    if s is None or u is None:
        return None
    return check(s, u, f, g, A.dom, w, lag, mode, ctx)
