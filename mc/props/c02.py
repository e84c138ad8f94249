"""C02 layering."""
import itertools

import numpy as np
import pandas as pd
import staircase as sc

from .. import gen, impl, pairs
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa
from ..model import F

NAN = float("nan")
PTS = (None, 0, 2, 4)
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 11, ('labels',)
VALS_STRIDE, VALS_SKIP = 11, ()
BOUNDS = {
    "quick": "receivers (empty, constants, undefined, all 2-point functions {undefined,0,1} in 8 materialisations incl. results of "
             "operations) x every triple over {missing,0,2,4}^2 x values {1,-2,None}; all histories of 3 scalar calls over "
             "{missing,0,2}^2 x {1,-1} with 6 read patterns in between; histories mixing scalar and vector calls of length 3; vectors of "
             "<=2 triples in 12 container kinds incl. padding, frames, odd/duplicated indexes; one call with all 27 triples in all "
             "domains; every combination of 11 start x 11 end x 8 value containers (series with 6 kinds of index, frame columns); value types; missing spellings; constructor shorthand",
    "thorough": "as quick plus histories of 4 scalar calls, vectors of 3 triples, all containers in all domains, all 3-point receivers",
}
RULE = ("after every call: layer returns the receiver and the table equals the receiver's previous table plus the sum of the triples, "
        "undefined points staying undefined")


def triples(pts, vals):
    return [(s, e, v) for s in pts for e in pts for v in vals]


def receivers():
    yield None, "new", ""
    for f in (F(2, ()), F(None, ()), F(0, ())):
        yield f, "vals", ""
    for f in gen.functions((0, 2), (None, 0, 1)):
        if f.steps:
            for r in (("vals", ""), ("vals", "c"), ("lay", ""), ("lay", "v"), ("lay", "cf"), ("vlay", ""), ("resadd", ""), ("res", "v")):
                yield (f,) + r


ALPH3 = [(s, e, v) for s in (None, 0, 2) for e in (None, 0, 2) for v in (1, -1) if not (s is None and e is None)]
READS = ("", "v", "c", "vc", "cv", "f")
KINDS = ("list", "tuple", "array", "series", "oddseries", "dupseries", "index", "frame", "framevals", "iter_mixed", "objarray", "datelist")
VKINDS = ("list", "array", "oddseries", "scalar", "none", "tuple", "int8", "uint8", "bool", "float32")
MISS = ("none", "nan", "inf", "nat", "na", "npnan")


def spaces(tier):
    yield "single", ((t, rec, d, c) for rec in receivers() for t in triples(PTS, (1, -2, None))
                     for d, c in ((("int", "left"), ("ts", "right")) if t[2] == 1 else (("float", "right"),)))
    yield "hist3", ((h, READS[(i * 7 + j) % 6] if tier == "quick" else r)
                    for i, h in enumerate(itertools.product(ALPH3, repeat=3)) for j, r in enumerate(READS[:1] if tier == "quick" else READS))
    yield "hist2", ((h, r) for h in itertools.product(ALPH3 + [(4, 2, 1), (2, 2, 1)], repeat=2) for r in READS)
    yield "mixed", ((h, rec) for rec in _mixrec() for h in itertools.product(MIX, repeat=3))
    yield "vec", ((ts, k, VKINDS[(i + j) % 10], d, c) for d, c in (("int", "left"), ("ts", "right"), ("tzfall", "left"), ("td", "left"))
                  for i, ts in enumerate(_vectors()) for j, k in enumerate(KINDS))
    yield "vecrec", ((ts, rec, KINDS[(i + j) % 10], VKINDS[(i + j) % 4], d, c) for j, rec in enumerate(receivers()) for i, ts in enumerate(_vectors())
                     for d, c in ((("int", "left"), ("ts", "right"), ("float", "left"))[(i + j) % 3],) if tier != "quick" or (i + j) % 3 == 0)
    yield "vecval", ((ts, "list", vk, "float", "left") for ts in _vectors() for vk in VKINDS)
    yield "pad", ((ts, cut, which, k, d) for d in ("int", "ts", "utc", "td") for ts in _padvectors() for cut in (0, 1, 2)
                  for which in (0, 1) for k in ("list", "series", "array"))
    yield "big", ((k, d, c, rec) for d in gen.ALL_DOMS for c in pairs.SIDES for k in KINDS for rec in range(5))
    yield "mixkinds", ((ts, ks, ke, kv, fr, d, c) for ti, ts in enumerate(_mixvectors()) for (d, c) in ((("int", "left"), ("ts", "right"), ("td", "left"), ("tzfall", "right"))
                       if tier != "quick" else ((("int", "left"), ("ts", "right"))[ti % 2],))
                       for ks in SKINDS for ke in SKINDS for kv in SVKINDS for fr in (0, 1) if fr == 0 or "col" in (ks, ke, kv))
    yield "missing", ((s, e, ms, me, d, rec) for d in ("int", "float", "ts", "tzfix", "td") for s in (None, 0) for e in (None, 2)
                      for ms in MISS for me in MISS for rec in (0, 1, 2, 4) if (s is None or ms == "none") and (e is None or me == "none"))
    yield "valtypes", ((i, s, e, w, rec) for i in range(len(VALS)) for s in (None, 0) for e in (None, 2) for w in (0, 1) for rec in range(5))
    yield "ctor", ((s, e, v, iv, c, k, d) for d in ("int", "ts") for s in (None, 0) for e in (None, 2) for v in (None, 1, -2) for iv in (0, 3, None)
                   for c in pairs.SIDES for k in ("scalar", "list", "frame"))
    yield "labels", ((s, e, v, lk, d) for d in gen.ALL_DOMS for s in (None, 0, 3) for e in (None, 2) for v in (1,) for lk in range(4))
    yield "perm", ((p, via) for base in (((0, 4, 1), (2, None, 1), (0, 2, -1)), ((None, 2, 2), (2, 4, 2), (4, None, 2)), ((0, 2, 1), (2, 0, 1), (None, 0, 1)))
                   for p in itertools.permutations(base) for via in ("s", "v", "sv"))
    yield "longvec", ((k, vk, rec, d, c) for (d, c), rec in zip((("int", "left"), ("ts", "right"), ("float", "left"), ("td", "right"), ("tzfall", "left")), range(5))
                      for k in ("list", "series", "oddseries", "frame", "array") for vk in ("list", "array", "none"))
    yield "longhist", ((r, rec, c) for r in READS for rec in range(5) for c in pairs.SIDES)
    if tier == "thorough":
        yield "hist4", ((h, READS[i % 6]) for i, h in enumerate(itertools.product(ALPH3[:14], repeat=4)))
        yield "vec3", ((ts, "list", "list", "int", "left") for ts in itertools.product(triples((None, 0, 2), (1, -2)), repeat=3))
        yield "vec_full", ((ts, k, v, d, c) for d in gen.ALL_DOMS for c in pairs.SIDES for ts in _vectors() for k in KINDS for v in VKINDS[:4])
        yield "receivers3", ((t, (f, r, m), "float", "left") for f in gen.functions(gen.G3, (None, 0, 1)) for r, m in gen.nforms(f)
                             for t in triples((None, 0, 1, 4), (1, -1)))


MIX = (("s", (0, 2, 1)), ("s", (None, 2, -1)), ("s", (2, None, 1)), ("v", ((0, 2, -1),)), ("v", ((0, 4, 1), (2, None, -1))),
       ("v", ((None, 0, 2), (None, 2, -1))), ("r", "v"), ("r", "c"), ("v", ()))


def _mixrec():
    return [(None, "new", ""), (F(1, ((0, None), (2, 1))), "vals", ""), (F(None, ((2, 0),)), "lay", ""), (F(0, ((0, 1), (2, 0))), "vals", ""),
            (F(0, ((0, 1), (2, 0))), "resadd", "v"), (F(1, ((0, 0), (2, None))), "vlay", "")]


def _vectors():
    base = triples((None, 0, 2), (1, -2))
    out = [(t,) for t in triples(PTS, (1, -2))]
    out += [p for i, p in enumerate(itertools.product(base, repeat=2)) if i % 3 == 0]
    out += [((0, 2, 1), (0, 2, 1), (0, 2, -1)), ((0, 2, 1), (2, 4, 1), (4, 6, 1)), ((4, 6, 1), (0, 2, 3), (2, 4, -1)), ((0, 4, 1), (0, 4, -1)), ()]
    return out


def _padvectors():
    return [((0, 2, 1), (2, 4, -2), (4, 6, 1)), ((None, 2, 1), (0, 4, 2), (2, None, 1)), ((4, 6, 1), (0, 2, 1), (2, 2, 1))]


SKINDS = ("list", "series", "tailseries", "headseries", "strseries", "revseries", "stepseries", "dupseries", "index", "array", "col")
SVKINDS = ("list", "tailseries", "revseries", "strseries", "array", "scalar", "none", "col")


def _mixvectors():
    return [((0, 2, 1), (2, 4, -2)), ((0, 3, 1), (1, 5, 10), (2, 4, 100)), ((None, 2, 1), (4, None, -2), (0, 3, 2)), ((2, 0, 1), (0, None, 2), (0, 0, 3))]


class RAW:  # the identity: labels are the numbers themselves
    tz, datelike = None, False
    label = staticmethod(lambda x: x)
    vector = staticmethod(pd.Series)


def mixed_column(dom, xs, kind):
    if kind not in ("tailseries", "headseries", "strseries", "revseries", "stepseries"):
        return column(dom, xs, kind)
    n = len(xs)
    if kind == "tailseries":  # the tail of a longer series: a RangeIndex which does not begin at 0
        return column(dom, [9] + list(xs), "series")[1:]
    if kind == "headseries":
        return column(dom, list(xs) + [9], "series")[:n]
    ser = column(dom, xs, "series")
    if kind == "strseries":
        ser.index = list("zyxwv")[:n]
    if kind == "revseries":
        ser.index = pd.RangeIndex(n - 1, -1, -1)
    if kind == "stepseries":
        ser.index = pd.RangeIndex(0, 2 * n, 2)
    return ser


VALS = (2, -3, 0.5, True, np.int64(2), np.float64(-0.5), np.float32(0.5), np.uint8(3), np.int8(-128), np.bool_(True), 0, -0.0, np.float16(2))


def start_receiver(rec, dom, closed):
    f, r, m = rec
    if r == "new":
        return sc.Stairs(closed=closed), F(0, ())
    return impl.clone(f, dom, closed, r, m), impl.denoted(f, dom, closed, r, m)


def lab(dom, x):
    return None if x is None else dom.label(x)


def column(dom, xs, kind):
    labels = [lab(dom, x) for x in xs]
    missing = any(x is None for x in labels)
    n = len(labels)
    if kind in ("list", "framevals") or n == 0:
        return labels
    if kind == "tuple":
        return tuple(labels)
    if kind == "datelist":
        return [(NAN if not dom.datelike else pd.NaT) if l is None else l for l in labels]
    if all(l is None for l in labels):
        ser = pd.Series([NAN] * n)
    else:
        ser = dom.vector(labels)
    if kind == "series":
        return ser
    if kind == "oddseries":
        ser.index = range(10, 10 + n)
        return ser[::-1].reindex(range(10, 10 + n))
    if kind == "dupseries":
        ser.index = [7] * n
        return ser
    if kind == "index":
        return pd.Index(ser)
    if kind == "array":
        return ser.to_numpy() if dom.tz is None else ser.array
    if kind == "objarray":
        return np.array([NAN if l is None else l for l in labels], dtype=object) if not dom.datelike else pd.Series(ser).array
    if kind == "iter_mixed":
        return ser.tolist()
    raise AssertionError(kind)


def values(vs, vk):
    """-> (argument, effective values)"""
    if vk == "scalar":
        return 2, [2] * len(vs)
    if vk == "none":
        return None, [1] * len(vs)
    if vk == "list":
        return list(vs), vs
    if vk == "tuple":
        return tuple(vs), vs
    if vk == "array":
        return np.array(vs, dtype=float), vs
    if vk == "int8":
        return np.array([-128 if v < 0 else v for v in vs], dtype="int8"), [-128 if v < 0 else v for v in vs]
    if vk == "uint8":
        return np.array([abs(v) for v in vs], dtype="uint8"), [abs(v) for v in vs]
    if vk == "bool":
        return np.array([v > 0 for v in vs], dtype=bool), [int(v > 0) for v in vs]
    if vk == "float32":
        return pd.Series(vs, dtype="float32"), vs
    s = pd.Series(vs, dtype=float)
    s.index = range(5, 5 + len(vs))
    return s, vs


def vector_layer(s, dom, ts, kind, vk):
    """-> (returned object, effective triples)"""
    starts, ends, vs = [t[0] for t in ts], [t[1] for t in ts], [t[2] for t in ts]
    if not ts:
        return s.layer([], [], [] if vk in ("list", "array", "tuple") else 1), []
    v, eff = values(vs, vk)
    tr = [(a, b, w) for a, b, w in zip(starts, ends, eff)]
    if kind in ("frame", "framevals"):
        df = pd.DataFrame({"s": pd.Series(column(dom, starts, "series")), "e": pd.Series(column(dom, ends, "series")), "w": list(eff), "z": 9})
        df.index = range(3, 3 + len(df))
        if kind == "frame":
            return s.layer("s", "e", "w", frame=df), tr
        return s.layer(start="s", end="e", value=list(eff), frame=df), tr
    return s.layer(column(dom, starts, kind), column(dom, ends, kind), v), tr


def check(s, dom, exp, ctx, deep=False):
    ctx.transitions += 1
    ctx.state(exp.key(), dom.name)
    ctx.outcome(exp.key())
    return impl.compare(s, dom, exp, deep=deep)


def run(space, case, ctx):
    ctx.traces += 1
    d = _run(space, case, ctx)
    return d and "%s: %s" % (space, d)


RECS = ((None, "new", ""), (F(0, ((0, 1), (2, 0))), "lay", ""), (F(None, ((0, 1), (4, None))), "vals", ""), (F(1, ((2, None), (4, 1))), "vals", "c"), (F(1, ((0, -2), (2, 1))), "vals", ""))
ODD = {"none": None, "nan": NAN, "nat": pd.NaT, "na": pd.NA, "npnan": np.float64("nan")}


def _run(space, case, ctx):
    if space in ("single", "receivers3"):
        (a, b, v), rec, dn, c = case
        dom = DOMAINS[dn]
        s, f = start_receiver(rec, dom, c)
        r = s.layer(lab(dom, a), lab(dom, b), v)
        if r is not s:
            return "layer did not return its receiver"
        return check(s, dom, M.layer(f, [(a, b, v)]), ctx, True)
    if space in ("hist2", "hist3", "hist4"):
        h, reads = case
        dom = DOMAINS["int"]
        s, f = sc.Stairs(), F(0, ())
        for t in h:
            r = s.layer(lab(dom, t[0]), lab(dom, t[1]), t[2])
            f = M.layer(f, [t])
            if r is not s:
                return "layer did not return its receiver"
            impl.touch(s, reads)
            if space == "hist2":
                d = check(s.copy(), dom, f, ctx)
                if d:
                    return d
        return check(s, dom, f, ctx, deep=space == "hist2")
    if space == "mixed":
        h, rec = case
        dom = DOMAINS["float"]
        s, f = start_receiver(rec, dom, "left")
        for k, a in h:
            if k == "r":
                impl.touch(s, a)
                continue
            if k == "s":
                r = s.layer(lab(dom, a[0]), lab(dom, a[1]), a[2])
                f = M.layer(f, [a])
            else:
                r, tr = vector_layer(s, dom, a, "list", "list")
                f = M.layer(f, tr)
            if r is not s:
                return "layer did not return its receiver"
            d = check(s.copy(), dom, f, ctx)
            if d:
                return "after %r: %s" % ((k, a), d)
        return check(s, dom, f, ctx, deep=True)
    if space == "vecrec":
        ts, rec, kind, vk, dn, c = case
        dom = DOMAINS[dn]
        s, f = start_receiver(rec, dom, c)
        r, tr = vector_layer(s, dom, ts, kind, vk)
        if r is not s:
            return "layer did not return its receiver"
        return check(s, dom, M.layer(f, tr), ctx, True)
    if space in ("vec", "vecval", "vec3", "vec_full"):
        ts, kind, vk, dn, c = case
        dom = DOMAINS[dn]
        s = sc.Stairs(closed=c)
        r, tr = vector_layer(s, dom, ts, kind, vk)
        if r is not s:
            return "layer did not return its receiver"
        return check(s, dom, M.layer(F(0, ()), tr), ctx)
    if space == "pad":
        ts, cut, which, kind, dn = case
        dom = DOMAINS[dn]
        n = len(ts) - cut
        starts, ends = [t[0] for t in ts], [t[1] for t in ts]
        if which:
            starts = starts[:n]
        else:
            ends = ends[:n]
        s = sc.Stairs()
        s.layer(column(dom, starts, kind), column(dom, ends, kind), [t[2] for t in ts])
        tr = [(starts[i] if i < len(starts) else None, ends[i] if i < len(ends) else None, ts[i][2]) for i in range(len(ts))]
        d = check(s, dom, M.layer(F(0, ()), tr), ctx)
        if d or cut == 0:
            return d
        # the missing column given as None altogether
        s = sc.Stairs(initial_value=1)
        if which:
            s.layer(None, column(dom, ends, kind))
            tr = [(None, e, 1) for e in ends]
        else:
            s.layer(column(dom, starts, kind))
            tr = [(x, None, 1) for x in starts]
        return check(s, dom, M.layer(F(1, ()), tr), ctx)
    if space in ("longvec", "longhist"):
        n = 1300 if space == "longvec" else 130
        # nested, overlapping, abutting, repeated, cancelling, empty, reversed and unbounded intervals
        tr = [(None if j % 97 == 5 else (j * 37) % (n * 3), None if j % 89 == 7 else (j * 37) % (n * 3) + (j * 11) % 29 - 4, 1 + j % 3 - 5 * (j % 7 == 2)) for j in range(n)]
        tr[40:44] = [(a, b, -v) for a, b, v in tr[20:24]]
        if space == "longvec":
            k, vk, ri, dn, c = case
            dom = DOMAINS[dn]
            s, f = start_receiver(RECS[ri], dom, c)
            r, tr = vector_layer(s, dom, tr, k, vk)
            return "layer did not return its receiver" if r is not s else check(s, dom, M.layer(f, tr), ctx)
        reads, ri, c = case
        dom = DOMAINS["int"]
        s, f = start_receiver(RECS[ri], dom, c)
        for j, t in enumerate(tr):
            s.layer(lab(dom, t[0]), lab(dom, t[1]), t[2])
            if j % 7 == 3:
                impl.touch(s, reads)
            if j % 20 == 19:
                d = check(s.copy(), dom, M.layer(f, tr[: j + 1]), ctx)
                if d:
                    return "after %d calls: %s" % (j + 1, d)
        return check(s, dom, M.layer(f, tr), ctx)
    if space == "mixkinds":
        ts, ks, ke, kv, fr, dn, c = case
        dom = DOMAINS[dn]
        vs = [t[2] for t in ts]
        # a frame with columns for the arguments which name one; its labels agree with no other argument
        df = pd.DataFrame({"a": pd.Series(column(dom, [t[0] for t in ts], "series")), "b": pd.Series(column(dom, [t[1] for t in ts], "series")), "v": vs})
        df.index = range(1, 1 + len(ts)) if fr else list("cba")[: len(ts)]
        start = "a" if ks == "col" else mixed_column(dom, [t[0] for t in ts], ks)
        end = "b" if ke == "col" else mixed_column(dom, [t[1] for t in ts], ke)
        if kv in ("scalar", "none"):
            vs = [1] * len(ts)
            value = None if kv == "none" else 1
        elif kv == "col":
            value = "v"
        elif kv == "array":
            value = np.array(vs)
        elif kv == "list":
            value = vs
        else:
            value = mixed_column(RAW, vs, kv)
        s = sc.Stairs(closed=c)
        r = s.layer(start, end, value, **({"frame": df} if "col" in (ks, ke, kv) else {}))
        if r is not s:
            return "layer did not return its receiver"
        exp = M.layer(F(0, ()), [(t[0], t[1], w) for t, w in zip(ts, vs)])
        d = check(s, dom, exp, ctx)
        if d or kv == "none":
            return d
        return check(sc.Stairs(**({"frame": df} if "col" in (ks, ke, kv) else {}), start=start, end=end, value=value, closed=c), dom, exp, ctx)
    if space == "big":
        kind, dn, c, ri = case
        dom = DOMAINS[dn]
        s, f = start_receiver(RECS[ri], dom, c)
        r, tr = vector_layer(s, dom, triples((None, 0, 3, 2), (1, 2, -1))[:: 1 + ri], kind, "list")
        if r is not s:
            return "layer did not return its receiver"
        return check(s, dom, M.layer(f, tr), ctx, True)
    if space == "missing":
        a, b, ms, me, dn, ri = case
        dom = DOMAINS[dn]
        s, f = start_receiver(RECS[ri], dom, "left")
        la = dom.label(a) if a is not None else (-sc.inf if ms == "inf" else ODD[ms])
        lb = dom.label(b) if b is not None else (sc.inf if me == "inf" else ODD[me])
        r = s.layer(la, lb)
        if r is not s:
            return "layer did not return its receiver"
        return check(s, dom, M.layer(f, [(a, b, 1)]), ctx)
    if space == "valtypes":
        i, a, b, w, ri = case
        dom = DOMAINS["int"]
        s, f = start_receiver(RECS[ri], dom, "left")
        v = VALS[i]
        if w:
            s.layer([lab(dom, a)], [lab(dom, b)], np.array([v]))
        else:
            s.layer(lab(dom, a), lab(dom, b), v)
        f = M.layer(f, [(a, b, float(v))])
        d = check(s, dom, f, ctx)
        return d or check(-s, dom, M.unary("neg", f), ctx)
    if space == "ctor":
        a, b, v, iv, c, k, dn = case
        dom = DOMAINS[dn]
        la, lb, i = lab(dom, a), lab(dom, b), NAN if iv is None else iv
        if k == "scalar":
            s = sc.Stairs(start=la, end=lb, value=v, initial_value=i, closed=c)
            tr = [] if a is None and b is None and v is None else [(a, b, v)]
        else:
            col = lambda x: [x, x]  # noqa
            if a is None and b is None:
                return None
            va = None if v is None else [v, v]
            if k == "list":
                s = sc.Stairs(start=None if a is None else col(la), end=None if b is None else col(lb), value=va, initial_value=i, closed=c)
            else:
                df = pd.DataFrame({"s": pd.Series(col(la)), "e": pd.Series(col(lb)), "v": pd.Series(va)}, index=[0, 1])
                s = sc.Stairs(df, "s", None if b is None else "e", None if v is None else "v", initial_value=i, closed=c)
            tr = [(a, b, v), (a, b, v)]
        if s.closed != c:
            return "closed side %r expected %r" % (s.closed, c)
        return check(s, dom, M.layer(M.const(iv), tr), ctx)
    if space == "labels":
        a, b, v, lk, dn = case
        dom = DOMAINS[dn]
        s = sc.Stairs()
        s.layer(flavour(dom, a, lk), flavour(dom, b, lk), v)
        s.layer(flavour(dom, a, lk), dom.label(5), v)
        return check(s, dom, M.layer(F(0, ()), [(a, b, v), (a, 5, v)]), ctx, True)
    if space == "perm":
        p, via = case
        dom = DOMAINS["float"]
        s = sc.Stairs()
        if via == "v":
            vector_layer(s, dom, p, "list", "list")
        else:
            for j, t in enumerate(p):
                if via == "sv" and j == 1:
                    vector_layer(s, dom, p[1:], "oddseries", "array")
                    break
                s.layer(lab(dom, t[0]), lab(dom, t[1]), t[2])
        return check(s, dom, M.layer(F(0, ()), list(p)), ctx)
    raise AssertionError(space)


def flavour(dom, x, k):
    """the same label as another python / numpy type"""
    if x is None:
        return None
    l = dom.label(x)
    if not dom.datelike:
        return (l, float(l), np.float64(l), np.int64(l) if float(l).is_integer() else l)[k]
    if dom.name == "td":
        return (l, l.to_pytimedelta(), l.to_timedelta64(), l)[k]
    if dom.tz is None:
        return (l, l.to_pydatetime(), l.to_datetime64(), l)[k]
    return (l, l.to_pydatetime(), l, l)[k]
