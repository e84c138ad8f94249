"""Statistics and distribution queries: observation of the implementation against the exact reference."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd
import staircase as sc

from . import model as M
from .domains import Mismatch
from .impl import val

TD = (pd.Timedelta,)


def length(q, dom, what):
    """an amount on the domain axis, in model units"""
    if dom.datelike:
        if isinstance(q, np.timedelta64):
            q = pd.Timedelta(q)
        if not isinstance(q, TD):
            raise Mismatch("%s: %r of type %s is not a Timedelta" % (what, q, type(q).__name__))
        return dom.undelta(q)
    if isinstance(q, (pd.Timedelta, np.timedelta64)):
        raise Mismatch("%s: %r is a Timedelta on a numeric domain" % (what, q))
    v = val(q)
    return None if v is None else v / float(dom.b)


def number(q, what):
    if isinstance(q, (pd.Timedelta, np.timedelta64)):
        raise Mismatch("%s: %r is not a plain number" % (what, q))
    return val(q)


def near(a, b, tol=1e-9, scale=None):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(float(a) - float(b)) <= tol * max(scale or M.UNIT, abs(float(a)), abs(float(b)))


def value_sums_of(r, dom):
    if not isinstance(r, pd.Series):
        raise Mismatch("value_sums is %s" % type(r).__name__)
    out = {}
    for k, q in zip(r.index.tolist(), list(r)):
        v = val(k)
        if v in out:
            raise Mismatch("value_sums lists %r twice" % (v,))
        out[v] = length(q, dom, "value_sums")
    return out


def same_map(got, exp, what, scale=None):
    ks = sorted(got, key=lambda v: (v is None, v or 0))
    es = sorted(exp, key=lambda v: (v is None, v or 0))
    if len(ks) != len(es) or not all(near(a, b) for a, b in zip(ks, es)):
        return "%s: keys %s expected %s" % (what, ks, [v if v is None else float(v) for v in es])
    for a, b in zip(ks, es):
        if not near(got[a], exp[b], scale=scale):
            return "%s[%s] = %s expected %s" % (what, a, got[a], exp[b])
    return None


def scale_of(f):
    return float(max([M.UNIT] + [abs(v) * (b - a) for a, b, v in f.defined_pieces()]))


def check_basic(s, f, dom, ctx=None, order=0):
    """C08: requires M.has_stats(f)"""
    sca = scale_of(f)
    integ, mean, var = M.integral(f), M.mean(f), M.var(f)
    vsca = max([M.UNIT ** 2] + [float(v) ** 2 for _, _, v in f.defined_pieces()])
    msca = max([M.UNIT] + [abs(float(v)) for _, _, v in f.defined_pieces()])

    def c_int():
        g = length(s.integral(), dom, "integral")
        return None if near(g, integ, scale=dom.amount(sca)) else "integral: %s expected %s" % (g and float(g), float(integ))

    def c_mean():
        g = number(s.mean(), "mean")
        return None if near(g, mean, scale=msca) else "mean: %r expected %s" % (g, float(mean))

    def c_var():
        g = number(s.var(), "var")
        return None if near(g, var, scale=vsca) else "var: %r expected %s" % (g, float(var))

    def c_std():
        g = number(s.std(), "std")
        # a rounding of var of relative size 1e-16*scale is amplified by the square root
        return None if near(g, math.sqrt(var), 1e-7, scale=msca) else "std: %r expected %s" % (g, math.sqrt(var))

    def c_vs():
        d = same_map(value_sums_of(s.value_sums(), dom), M.value_sums(f), "value_sums")
        if d is None:
            exp = M.value_sums(f)
            und = sum((b - a for a, b, v in f.finite_pieces() if v is None), 0)
            if und:
                exp[None] = und
            d = same_map(value_sums_of(s.value_sums(dropna=False), dom), exp, "value_sums(dropna=False)")
        return d

    checks = [c_int, c_mean, c_var, c_std, c_vs]
    for i in range(5):
        d = checks[(order + i * (1 if order < 5 else 2)) % 5]()
        if ctx:
            ctx.transitions += 1
        if d:
            return d
    return None


# ---------------------------------------------------------------- distribution
def pow2(n):
    n = Fraction(n)
    return n.denominator & (n.denominator - 1) == 0 and n.denominator < 2 ** 20


def shares(f):
    tot = M.total_length(f)
    acc, out = 0, []
    for v, ln in sorted(M.value_sums(f).items()):
        acc += ln
        out.append(Fraction(acc) / tot)
    return out


def check_ecdf(s, f, dom, ctx=None):
    vals = sorted(M.value_sums(f))
    ys = [vals[0] - 1] + [v for v in vals] + [(a + b) / 2 for a, b in zip(vals, vals[1:])] + [vals[-1] + 1]
    e = s.ecdf
    fl = [float(y) for y in ys]
    R, L, C = e.limit(fl, side="right"), e.limit(fl, side="left"), e(fl)
    for y, r, l, c, q in zip(ys, R, L, C, fl):
        er, el = M.ecdf(f, y), M.ecdf(f, y, "left")
        for n, g, x in (("ecdf", c, er), ("ecdf right limit", r, er), ("ecdf left limit", l, el), ("ecdf scalar", e(q), er)):
            if not near(number(g, n), x):
                return "%s(%s): %r expected %s" % (n, q, g, x)
        if ctx:
            ctx.transitions += 4
    return None


def probe_p(f):
    sh = shares(f)
    ps = [Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 4)]
    for a, b in zip([Fraction(0)] + sh, sh):
        ps += [(a + b) / 2, a + (b - a) * Fraction(7, 8)]
    ps += [p for p in sh]
    good = []
    for p in ps:
        if p in sh and p < 1 and not (pow2(p) and all(pow2(x) for x in sh)):
            continue  # a boundary that binary floats cannot represent
        good.append(p)
    return good


def check_fractiles(s, f, dom, ctx=None):
    ps = probe_p(f)
    lo, hi = min(M.value_sums(f)), max(M.value_sums(f))
    msca = max(M.UNIT, abs(float(lo)), abs(float(hi)))
    pv = s.percentile([float(p * 100) for p in ps])
    fv = s.fractile([float(p) for p in ps])
    for p, a, b in zip(ps, pv, fv):
        e = M.fractile(f, p)
        for n, g in (("percentile", a), ("fractile", b), ("percentile scalar", s.percentile(float(p * 100))), ("fractile scalar", s.fractile(float(p)))):
            if not near(number(g, n), e, scale=msca):
                return "%s at share %s: %r expected %s" % (n, p, g, float(e))
        if ctx:
            ctx.transitions += 4
    if Fraction(1, 2) in ps:
        g = number(s.median(), "median")
        if not near(g, M.fractile(f, Fraction(1, 2)), scale=msca):
            return "median: %r expected %s" % (g, float(M.fractile(f, Fraction(1, 2))))
    sh = shares(f)
    for q in (1, 2, 3, 4, 5, 8):
        exp = [M.fractile(f, Fraction(i, q)) for i in range(1, q)]
        got = list(s.quantiles(q))
        if len(got) != len(exp):
            return "quantiles(%d) has %d entries" % (q, len(got))
        for i, (g, e) in enumerate(zip(got, exp)):
            p = Fraction(i + 1, q)
            if p in sh and not (pow2(p) and all(pow2(x) for x in sh)):
                continue
            if not near(number(g, "quantiles"), e, scale=msca):
                return "quantiles(%d)[%d]: %r expected %s" % (q, i, g, float(e))
        if ctx:
            ctx.transitions += 1
    return None


def check_mode(s, f, dom):
    g = number(s.mode(), "mode")
    if not any(near(g, m) for m in M.modes(f)):
        return "mode: %r expected one of %s" % (g, sorted(map(float, M.modes(f))))
    return None


def hist_expected(f, bins, closed, stat):
    """-> list of admissible lists (Fractions); a length-valued flag"""
    tot = {}
    for v, ln in M.value_sums(f).items():
        for i, (lo, hi) in enumerate(bins):
            if M.in_bin(v, lo, hi, closed):
                tot[i] = tot.get(i, 0) + ln
    amounts = [Fraction(tot.get(i, 0)) for i in range(len(bins))]
    widths = [Fraction(hi) - Fraction(lo) for lo, hi in bins]
    if stat == "sum":
        return [amounts], True
    if stat == "frequency":
        return [[a / w for a, w in zip(amounts, widths)]], True
    if stat == "density":
        area = sum(a * w for a, w in zip(amounts, widths))
        if area == 0:
            return None, False
        return [[a / area for a in amounts]], False
    total, covered = M.total_length(f), sum(amounts)
    out = [[a / total for a in amounts]]
    if covered != 0 and covered != total:
        out.append([a / covered for a in amounts])
    return out, False


def unit_bins_ok(f, ii, closed):
    """unit bins: length one, contiguous, integer edges, covering the values"""
    vals = sorted(M.value_sums(f))
    for i in ii:
        if i.right - i.left != 1 or float(i.left) != int(i.left):
            return "bin %s" % (i,)
    for a, b in zip(ii, list(ii)[1:]):
        if a.right != b.left:
            return "bins not contiguous"
    for v in vals:
        if not any(M.in_bin(v, Fraction(i.left), Fraction(i.right), closed) for i in ii):
            return "value %s in no bin" % float(v)
    return None


def check_hist(s, f, dom, bins, closed, stat, kw=True, ctx=None):
    """bins: None ('unit') or ('breaks', edges) or ('ii', [(lo, hi)...])"""
    if bins is None:
        h = s.hist(closed=closed, stat=stat) if kw else s.hist("unit", closed, stat)
        if not isinstance(h.index, pd.IntervalIndex) or h.index.closed != closed:
            return "hist index %r" % (h.index,)
        d = unit_bins_ok(f, h.index, closed)
        if d:
            return "hist unit bins: " + d
        table = [(Fraction(i.left), Fraction(i.right)) for i in h.index]
    elif bins[0] == "breaks":
        edges = [float(e) if Fraction(e).denominator != 1 else int(e) for e in bins[1]]
        h = s.hist(bins=edges, closed=closed, stat=stat) if kw else s.hist(edges, closed, stat)
        table = list(zip(bins[1], bins[1][1:]))
        if [(Fraction(i.left), Fraction(i.right)) for i in h.index] != [(Fraction(a), Fraction(b)) for a, b in table] or h.index.closed != closed:
            return "hist index %r" % (h.index,)
    else:
        ii = pd.IntervalIndex.from_tuples([(float(a), float(b)) for a, b in bins[1]], closed=closed)
        h = s.hist(bins=ii, stat=stat)
        table = list(bins[1])
        if not h.index.equals(ii):
            return "hist index %r" % (h.index,)
    if ctx:
        ctx.transitions += 1
    exps, is_len = hist_expected(f, table, closed, stat)
    if exps is None:
        return None
    name = "hist(%s,%s)" % (stat, closed)
    got = [length(v, dom, name) if is_len else number(v, name) for v in list(h)]
    for e in exps:
        # a share of the total amount, truncated to the resolution of amounts
        if len(e) == len(got) and all(near(a, b, scale=is_len and dom.amount(M.UNIT) * 2.1) for a, b in zip(got, e)):
            return None
    return "%s over %s: %s expected %s" % (name, [(float(a), float(b)) for a, b in table], [x if x is None else float(x) for x in got],
                                           [float(x) for x in exps[0]])


def check_describe(s, f, dom, window, percs, ctx=None):
    """f: the function already restricted to the window"""
    kw = {}
    if window is not None:
        kw["where"] = tuple(None if x is None else dom.label(x) for x in window)
    if percs is not None:
        kw["percentiles"] = [float(p * 100) if (p * 100).denominator != 1 else int(p * 100) for p in percs]
    r = s.describe(**kw)
    if ctx:
        ctx.transitions += 1
    if not isinstance(r, pd.Series):
        return "describe gives %s" % type(r).__name__
    percs = percs if percs is not None else [Fraction(1, 4), Fraction(1, 2), Fraction(3, 4)]
    sh = shares(f)
    allv = set(v for _, _, v in f.pieces() if v is not None)
    exp = [("unique", len(M.value_sums(f))), ("mean", M.mean(f)), ("std", M.std(f)), ("min", min(allv))]
    for p in percs:
        ok = p not in sh or p >= 1 or (pow2(p) and all(pow2(x) for x in sh))
        pc = p * 100
        exp.append(("%s%%" % (int(pc) if pc.denominator == 1 else float(pc)), M.fractile(f, p) if ok else "skip"))
    exp.append(("max", max(allv)))
    if list(r.index) != [k for k, _ in exp]:
        return "describe index %s" % (list(r.index),)
    for (k, e), g in zip(exp, list(r)):
        if e == "skip":
            continue
        if k == "unique" and not all(pow2(x) for x in sh):
            continue
        if not isinstance(g, (int, float, np.number)):
            return "describe %s is a %s" % (k, type(g).__name__)
        if not near(number(g, k), e, 1e-7):
            return "describe %s: %r expected %s" % (k, g, float(e))
    return None
