"""C17 every program gives images of one another in every label domain.

A program is a function of an environment (a label domain and up to three leaves built in it) and returns observations
translated back to model coordinates.  A case runs one program in every domain and compares the observations."""
import datetime
import itertools
from fractions import Fraction

import numpy as np
import pandas as pd
import staircase as sc

from .. import catalog as K
from .. import gen, impl, stats
from .. import model as M
from ..domains import DOMAINS, Mismatch
from ..gen import Leaf, explain  # noqa
from ..impl import val

F = M.F
H = Fraction(1, 2)
NAN = float("nan")
SIDES = ("left", "right")
REF = "float"
BASE = tuple(d for d in gen.ALL_DOMS if d != REF)
COARSE = ("ts4ns", "td4ns")  # hold amounts of 4 ns or so
MORE = tuple(d for d in DOMAINS if d not in gen.ALL_DOMS)


# ------------------------------------------------------------------ observations in model coordinates
def oS(s, dom):
    """step function: raw tables, nothing canonicalised"""
    f = impl.read(s, dom)
    sp = s.step_points
    idx = pd.Index(sp)
    if dom.tz is not None and len(sp):
        idx = pd.DatetimeIndex(idx).tz_localize("UTC").tz_convert(dom.origin.tz_convert(dom.tz).tz)
    pts = dom.decode(idx) if len(sp) else []
    sch = s.step_changes
    fr = impl.read_frame(s, dom)
    return ("stairs", s.closed, oV(f.init), tuple((x, oV(v)) for x, v in f.steps), tuple(pts), s.number_of_steps,
            tuple(zip(dom.decode(sch.index) if len(sch) else [], [oV(v) for v in sch.tolist()])), tuple((x, oV(v)) for x, v in fr.steps))


def oV(v):
    v = val(v)
    return v


def oN(q, dom, what="number"):
    return stats.number(q, what)


class Amount(float):
    """an amount on the domain axis, where it may have been rounded to the resolution of the labels"""

    def __new__(cls, r, dom):
        a = float.__new__(cls, r)
        a.scale = 2.1 * dom.amount(0)
        return a


def oL(q, dom, what="length"):
    if pd.api.types.is_scalar(q) and pd.isna(q):
        return None  # a missing amount may be nan or NaT
    r = stats.length(q, dom, what)
    return None if r is None else Amount(r, dom)


def oX(index, dom):
    return tuple(dom.decode(index if isinstance(index, pd.Index) else pd.Index(index))) if len(index) else ()


def oI(ii, dom):
    return (ii.closed, oX(ii.left, dom), oX(ii.right, dom))


def near(a, b):
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)):
        return a == b
    return stats.near(a, b, 1e-9, max(getattr(a, "scale", 0), getattr(b, "scale", 0), M.UNIT))


# ------------------------------------------------------------------ programs
class Env:
    def __init__(self, dom, objs):
        self.dom, self.objs = dom, objs
        self.s = objs[0]
        self.t = objs[1] if len(objs) > 1 else None

    def x(self, q):
        return None if q is None else self.dom.label(q)

    def xs(self, qs):
        return [self.dom.label(q) for q in qs]

    def w(self, a, b):
        return (self.x(a), self.x(b))


P = {}


def prog(name):
    def deco(fn):
        P[name] = fn
        return fn
    return deco


for _n, (_fi, _fm) in K.UNARY.items():
    P["u:" + _n] = lambda e, fi=_fi: oS(fi(e.s, e.dom), e.dom)
for _n, (_fi, _fm) in K.BINARY.items():
    P["b:" + _n] = lambda e, fi=_fi: oS(fi(e.s, e.t, e.dom), e.dom)

WINDOWS = ((0, 3), (None, 2), (1, None), (None, None), (-2, 1), (1, 2), (2, 4), (5, 9))
CL = ("left", "right", "both", "neither")

P["integral"] = lambda e: oL(e.s.integral(), e.dom)
P["mean"] = lambda e: oN(e.s.mean(), e.dom)
P["var"] = lambda e: oN(e.s.var(), e.dom)
P["std"] = lambda e: oN(e.s.std(), e.dom)
P["median"] = lambda e: oN(e.s.median(), e.dom)
P["mode"] = lambda e: oN(e.s.mode(), e.dom)
P["min"] = lambda e: (oN(e.s.min(), e.dom), oN(e.s.max(), e.dom))
P["bool"] = lambda e: (bool(e.s), e.s.number_of_steps, oN(e.s.initial_value, e.dom), e.s.closed)
P["self identical"] = lambda e: (bool(e.s.identical(e.s.copy())), bool(e.s.identical(e.s + 1)), bool(e.s.identical(e.s.shift(e.dom.delta(1)))))
P["identical"] = lambda e: (bool(e.s.identical(e.t)), bool(e.t.identical(e.s)))


@prog("value_sums")
def _(e):
    out = []
    for kw in ({}, {"dropna": False}, {"group": False}, {"group": False, "dropna": False}):
        r = e.s.value_sums(**kw)
        out.append(tuple((oV(k), oL(q, e.dom)) for k, q in zip(r.index.tolist(), list(r))))
    return out


@prog("ecdf")
def _(e):
    q = [-3, -2, -1, 0, 0.25, 0.5, 1, 1.5, 2, 3]
    return [tuple(oV(v) for v in e.s.ecdf(q)), tuple(oV(v) for v in e.s.ecdf.limit(q, side="left")), oV(e.s.ecdf(1))]


@prog("percentile")
def _(e):
    q = [0, 10, 30, 60, 90, 100]
    return [tuple(oV(v) for v in e.s.percentile(q)), tuple(oV(v) for v in e.s.fractile([x / 100 for x in q])), oV(e.s.percentile(70)), tuple(oV(v) for v in e.s.quantiles(3))]


def _hist(bins, closed, stat):
    def go(e):
        h = e.s.hist(bins=bins, closed=closed, stat=stat)
        f = oL if stat in ("sum", "frequency") else oN
        return [h.index.closed, tuple((float(i.left), float(i.right)) for i in h.index), tuple(f(v, e.dom) for v in list(h))]
    return go


for _st in ("sum", "frequency", "density", "probability"):
    for _i, _b in enumerate(("unit", [-3, -1, 0, 1, 3], [-0.5, 0.5, 2.25])):
        P["hist:%s:%d" % (_st, _i)] = _hist(_b, SIDES[_i % 2], _st)


def _desc(w, p):
    def go(e):
        kw = {}
        if w is not None:
            kw["where"] = e.w(*w)
        if p is not None:
            kw["percentiles"] = p
        r = e.s.describe(**kw)
        return [tuple(map(str, r.index)), tuple(oN(v, e.dom) for v in list(r))]
    return go


for _i, _w in enumerate((None,) + WINDOWS):
    P["describe:%d" % _i] = _desc(_w, (None, [5, 95])[_i % 2])


def _range(w, c):
    def go(e):
        where = e.w(*w)
        a = e.s.agg(["min", "max"], where, c)
        return [sorted([oV(v) for v in e.s.values_in_range(where, c)], key=lambda v: (v is None, v or 0)), oV(a["min"]), oV(a["max"]), oV(e.s.agg("min", where, c)),
                [oV(v) for v in e.s.agg(["mean", "std", "median"], where)] if not isinstance(e, _NoStat) else 0]
    return go


class _NoStat(Env):
    pass


for _i, _w in enumerate(WINDOWS):
    for _c in CL:
        P["range:%d:%s" % (_i, _c)] = _range(_w, _c)


def _clipped(w, how):
    def go(e):
        a, b = e.w(*w)
        if how == "clip":
            return oS(e.s.clip(a, b), e.dom)
        return oS(getattr(e.s, how)((a, b)), e.dom)
    return go


for _i, _w in enumerate(WINDOWS + ((H, H + 1),)):
    for _h in ("clip", "mask", "where"):
        P["%s:%d" % (_h, _i)] = _clipped(_w, _h)

XS = (-1, 0, H, 1, 2, 3, 4, 6)


def _xs(kind, e):
    ls = e.xs(XS)
    if kind == "array":
        return e.dom.index(XS).values if e.dom.tz is None else np.array(ls, dtype=object)
    return {"list": ls, "tuple": tuple(ls), "index": e.dom.index(XS), "series": pd.Series(ls), "oddseries": pd.Series(ls, index=range(10, 10 + len(ls))), "reversed": ls[::-1],
            "repeated": ls + ls[:3], "one": ls[2:3], "scalar": ls[4], "scalar2": ls[3], "objarray": np.array(ls + [None], dtype=object)[:-1]}[kind]


XK = ("list", "tuple", "index", "array", "series", "oddseries", "reversed", "repeated", "one", "scalar", "scalar2", "objarray")


def _evaluate(kind, how):
    def go(e):
        x = _xs(kind, e)
        fn = {"sample": lambda **k: e.s.sample(x, **k), "call": lambda **k: e.s(x, **k), "left": lambda **k: e.s.limit(x, side="left", **k), "right": lambda **k: e.s.limit(x, "right", **k)}[how]
        r, q = fn(), fn(include_index=True)
        sc_ = kind.startswith("scalar")
        return [oV(r) if sc_ else tuple(oV(v) for v in list(r)), oX(q.index, e.dom), tuple(oV(v) for v in list(q))]
    return go


for _k in XK:
    for _h in ("sample", "call", "left", "right"):
        P["%s:%s" % (_h, _k)] = _evaluate(_k, _h)

SLICES = (((0, 2), (2, 4)), ((-1, 1), (1, 3), (3, 5)), ((1, 2),), ((0, 4), (1, 3)), ((2, 3), (0, 1)), ((0, H), (H, 3)))
BREAKS = ((0, 2, 4), (-1, 1, 3, 5), (1, 2), (H, 3))


def _slice(ix, c, st):
    def go(e):
        ii = pd.IntervalIndex.from_arrays(e.dom.index([a for a, _ in ix]), e.dom.index([b for _, b in ix]), closed=c)
        sl = e.s.slice(ii)
        if st == "agg":
            r = sl.agg(["max", "min", "mean"])
            return [oI(r.index, e.dom), list(r.columns), [tuple(oN(v, e.dom) for v in r[k]) for k in r]]
        if st == "hist":
            r = sl.hist(bins=[-3, 0, 1, 2.5], stat="sum")
            return [oI(r.index, e.dom), tuple((float(i.left), float(i.right)) for i in r.columns), [tuple(oL(v, e.dom) for v in r.iloc[i].tolist()) for i in range(len(r))]]
        if st == "copy":
            r = sl.apply(sc.Stairs.copy)
            return [oI(r.index, e.dom), [oS(t, e.dom) for t in r]]
        r = getattr(sl, st)()
        return [oI(r.index, e.dom), tuple((oL if st == "integral" else oN)(v, e.dom) for v in list(r))]
    return go


for _i, _ix in enumerate(SLICES):
    for _j, _st in enumerate(("mean", "integral", "min", "max", "median", "mode", "agg", "hist", "copy")):
        P["slice:%d:%s" % (_i, _st)] = _slice(_ix, CL[(_i + _j) % 4], _st)


def _resample(b, c, st):
    def go(e):
        cuts = e.xs(b)
        sl = e.s.slice(cuts, closed=c)
        r = [oI(sl.max().index, e.dom)] if st == "max" else []
        return r + [oS(sl.resample(st), e.dom)]
    return go


for _i, _b in enumerate(BREAKS):
    for _j, _st in enumerate(("mean", "max", "min", "median", "mode")):
        P["resample:%d:%s" % (_i, _st)] = _resample(_b, ("left", "right", "neither")[(_i + _j) % 3], _st)

for _k in (0, 1, -1, 2, H, -3, 7):
    P["shift:%s" % _k] = lambda e, k=_k: oS(e.s.shift(e.dom.delta(k)), e.dom)
    P["diff:%s" % _k] = lambda e, k=_k: oS(e.s.diff(e.dom.delta(k)), e.dom)


def _roll(w, where):
    def go(e):
        kw = {} if where is None else {"where": e.w(*where)}
        r = e.s.rolling_mean(window=(e.dom.delta(w[0]), e.dom.delta(w[1])), **kw)
        if not e.s.clip(*kw.get("where", (None, None))).number_of_steps:
            return [oV(v) for v in list(r)]
        return [oX(r.index, e.dom), tuple(oN(v, e.dom) for v in list(r))]
    return go


for _i, (_w, _r) in enumerate(itertools.product(((-1, 1), (0, 2), (-3, 1), (-H, H), (1, 2)), (None, (0, 4), (None, 3), (1, None)))):
    P["roll:%d" % _i] = _roll(_w, _r)


def _cov(w, lag, clip):
    def go(e):
        kw = {"where": e.w(*w)}
        if lag is not None:
            kw.update(lag=e.dom.delta(lag), clip=clip)
        return [oN(e.s.cov(e.t, **kw), e.dom), oN(e.s.corr(e.t, **kw), e.dom)]
    return go


for _i, (_w, _l) in enumerate(itertools.product(((0, 4), (-1, 5), (1, 3), (2, 4)), ((None, None), (1, "pre"), (-1, "pre"), (1, "post"), (H, "post")))):
    P["cov:%d" % _i] = _cov(_w, *_l)


def _coll(kind, e):
    o = list(e.objs)
    return {"list": o, "dict": dict(enumerate(o)), "series": pd.Series(o, dtype="Stairs"), "array": sc.StairsArray(o)}[kind]


def _table(kind, how, q):
    def go(e):
        c = _coll(kind, e)
        x = _xs(q, e)
        if kind == "series":
            r = c.sc.sample(x) if how == "sample" else c.sc.limit(x, side=how)
        else:
            r = sc.sample(c, x) if how == "sample" else sc.limit(c, x, how)
        return [list(r.index), oX(r.columns, e.dom), [tuple(oV(v) for v in r.iloc[i].tolist()) for i in range(len(r))]]
    return go


for _i, (_k, _h, _q) in enumerate(itertools.product(("list", "dict", "series"), ("sample", "left", "right"), ("list", "index", "series", "scalar"))):
    P["table:%s:%s:%s" % (_k, _h, _q)] = _table(_k, _h, _q)
for _a in K.AGGM:
    P["aggregate:" + _a] = lambda e, a=_a: oS(K.AGGI[a](_coll("dict", e)), e.dom)
for _m in ("cov", "corr"):
    P["matrix:" + _m] = lambda e, m=_m: [tuple(oN(v, e.dom) for v in row) for row in np.asarray(getattr(sc, m)(_coll("array", e), where=e.w(0, 4))).tolist()]
P["arrayadd"] = lambda e: [oS(q, e.dom) for q in sc.StairsArray(list(e.objs)) + e.t]
P["arraymul"] = lambda e: [oS(q, e.dom) for q in 2 * sc.StairsArray(list(e.objs))]

TRIPLES = (((0, 2, 1),), ((0, 2, 1), (1, 3, -2), (2, None, 1)), ((None, 1, 2), (1, 4, 1), (0, 4, -1)), ((None, None, 1), (2, 2, 1), (4, 1, 2)), ((0, 2, 1), (2, 4, 1), (1, 2, H)), ((3, None, 1), (None, 3, -1)))
BUILD = ("scalar", "vector", "series", "index", "frame", "ctor", "ctorframe", "onto", "ontov", "array")


def _build(tr, how):
    def go(e):
        tr_ = [(e.x(a), e.x(b), float(v)) for a, b, v in tr]
        st, en, va = [a for a, _, _ in tr_], [b for _, b, _ in tr_], [v for _, _, v in tr_]
        s = e.s if how.startswith("onto") else sc.Stairs()
        full = all(a is not None for a in st) and all(b is not None for b in en)
        if how in ("scalar", "onto"):
            for a, b, v in tr_:
                s = s.layer(a, b, v)
        elif how in ("vector", "ontov"):
            s.layer(st, en, va)
        elif how == "series":
            s.layer(e.dom.vector(st).set_axis(range(5, 5 + len(st))), e.dom.vector(en), pd.Series(va))
        elif how == "index":
            s.layer(pd.Index(st) if not full else e.dom.index([a for a, _, _ in tr]), pd.Index(en) if not full else e.dom.index([b for _, b, _ in tr]), np.array(va))
        elif how == "array":
            if e.dom.tz is None and full:
                st, en = e.dom.index([a for a, _, _ in tr]).values, e.dom.index([b for _, b, _ in tr]).values
            s.layer(np.array(st, dtype=None if full and e.dom.tz is None else object), np.array(en, dtype=None if full and e.dom.tz is None else object), va)
        elif how == "frame":
            s.layer("a", "b", "v", frame=pd.DataFrame({"a": st, "b": en, "v": va}))
        elif how == "ctor":
            s = sc.Stairs(start=st, end=en, value=va)
        elif how == "ctorframe":
            s = sc.Stairs(frame=pd.DataFrame({"a": st, "b": en, "v": va}), start="a", end="b", value="v")
        return oS(s, e.dom)
    return go


for _i, _t in enumerate(TRIPLES):
    for _h in BUILD:
        # object vectors mixing None and numbers / Timedeltas are only handed over where every member is a label
        if _h in ("array",) and any(a is None or b is None for a, b, _ in _t):
            continue
        P["build:%d:%s" % (_i, _h)] = _build(_t, _h)

SINGLE = tuple(n for n in P if not n.startswith(("b:", "cov", "table", "aggregate", "matrix", "array", "identical")))
DOUBLE = tuple(n for n in P if n.startswith(("b:", "cov", "table", "aggregate", "matrix", "array", "identical")))
NEEDSTAT = ("integral", "mean", "var", "std", "median", "mode", "value_sums", "ecdf", "percentile", "hist")

# ------------------------------------------------------------------ flavours of the same label
def flavours(dom, x):
    """[(name, label)] python / numpy / pandas scalars for the same point"""
    l = dom.label(x)
    if not dom.datelike:
        out = [("label", l), ("float", float(l)), ("np.float64", np.float64(l)), ("np.float32", np.float32(l))]
        if float(l).is_integer():
            out += [("int", int(l)), ("np.int64", np.int64(l)), ("np.int32", np.int32(l)), ("np.int8", np.int8(l)), ("np.int16", np.int16(l))]
            if l >= 0:
                out += [("np.uint8", np.uint8(l)), ("np.uint64", np.uint64(l))]
        return out
    if isinstance(l, pd.Timedelta):
        return [("Timedelta", l), ("timedelta", l.to_pytimedelta()), ("timedelta64[ns]", l.to_timedelta64()), ("timedelta64[s]", l.to_timedelta64().astype("m8[s]")), ("timedelta64[m]", l.to_timedelta64().astype("m8[m]")),
                ("Timedelta[s]", l.as_unit("s")), ("Timedelta[us]", l.as_unit("us"))]
    out = [("Timestamp", l), ("datetime", l.to_pydatetime()), ("Timestamp[s]", l.as_unit("s")), ("Timestamp[us]", l.as_unit("us"))]
    if l.tz is None:
        n = l.to_datetime64()
        out += [("datetime64[ns]", n), ("datetime64[s]", n.astype("M8[s]")), ("datetime64[m]", n.astype("M8[m]")), ("datetime64[us]", n.astype("M8[us]"))]
    return out


NFL = {d: len(flavours(DOMAINS[d], 2)) for d in gen.ALL_DOMS}


def fl(dom, x, i):
    if x is None:
        return None
    fs = flavours(dom, x)
    return fs[i % len(fs)][1]


def dfl(dom, k, i):
    """flavours of a displacement"""
    q = dom.delta(k)
    if not dom.datelike:
        c = [q, float(q), np.float64(q)] + ([int(q), np.int64(q), np.int32(q)] if float(q).is_integer() else [])
    else:
        c = [q, q.to_pytimedelta(), q.to_timedelta64(), q.to_timedelta64().astype("m8[s]"), q.as_unit("s")]
    return c[i % len(c)]


# position -> (observation with the i-th flavour at every label)
U = {}


def use(name):
    def deco(fn):
        U[name] = fn
        return fn
    return deco


U["limit"] = lambda s, t, d, L, D: [tuple(oV(s.limit(L(x), side=c)) for x in XS) for c in SIDES]
U["sample"] = lambda s, t, d, L, D: [(oV(s.sample(L(x))), oV(s(L(x)))) for x in XS]
U["limit index"] = lambda s, t, d, L, D: [(oX(r.index, d), oV(r.iloc[0])) for r in [s.limit(L(x), side="left", include_index=True) for x in XS]]
U["vector"] = lambda s, t, d, L, D: [tuple(oV(v) for v in s.limit([L(x) for x in XS], side=c)) for c in SIDES]
U["vectorindex"] = lambda s, t, d, L, D: [(oX(r.index, d), tuple(oV(v) for v in r)) for r in [s.sample([L(x) for x in XS], include_index=True)]]
U["vectoruniform"] = lambda s, t, d, L, D: [tuple(oV(v) for v in s.sample(pd.Series([L(x) for x in XS])))]
U["vectorarray"] = lambda s, t, d, L, D: [tuple(oV(v) for v in s.sample(np.array([L(x) for x in XS])))]
U["vectorpdindex"] = lambda s, t, d, L, D: [tuple(oV(v) for v in s.sample(pd.Index([L(x) for x in XS])))]
U["clip"] = lambda s, t, d, L, D: [oS(s.clip(L(a), L(b)), d) for a, b in WINDOWS if a is not None or b is not None]
U["mask"] = lambda s, t, d, L, D: [oS(s.mask((L(a), L(b))), d) for a, b in WINDOWS]
U["where"] = lambda s, t, d, L, D: [oS(s.where((L(a), L(b))), d) for a, b in WINDOWS]
U["layer"] = lambda s, t, d, L, D: [oS(s.layer(L(a), L(b), 1), d) for a, b in ((0, 2), (1, None), (None, 3), (2, 4), (H, 5))]
U["layer empty"] = lambda s, t, d, L, D: [oS(sc.Stairs().layer(L(a), L(b)), d) for a, b in ((0, 2), (1, None), (None, 3), (2, 4))]
U["constructor"] = lambda s, t, d, L, D: [oS(sc.Stairs(start=L(a), end=L(b), value=2), d) for a, b in ((0, 2), (1, None), (None, 3), (2, 4))]
U["layer vector"] = lambda s, t, d, L, D: oS(s.layer([L(0), L(1), L(2)], [L(2), L(3), L(5)], [1, 2, -1]), d)
U["layer vector empty"] = lambda s, t, d, L, D: oS(sc.Stairs().layer([L(0), L(1), L(2)], [L(2), L(3), L(5)]), d)
U["layer series"] = lambda s, t, d, L, D: oS(s.layer(d.vector([L(0), L(1)]), d.vector([L(2), L(3)])), d)
U["layer frame"] = lambda s, t, d, L, D: oS(sc.Stairs(frame=pd.DataFrame({"a": [L(0), L(1)], "b": [L(2), L(3)]}), start="a", end="b"), d)
U["layer missing"] = lambda s, t, d, L, D: oS(s.layer([L(0), None], [None, L(3)], [1, 2]), d)
U["from_values"] = lambda s, t, d, L, D: oS(sc.Stairs.from_values(initial_value=0, values=pd.Series([1, 2, 0.0], index=[L(0), L(2), L(3)])), d)
U["shift"] = lambda s, t, d, L, D: [oS(s.shift(D(k)), d) for k in (1, -2, 0)]
U["diff"] = lambda s, t, d, L, D: [oS(s.diff(D(k)), d) for k in (1, -2)]
U["slice breaks"] = lambda s, t, d, L, D: [(oI(r.index, d), tuple(oV(v) for v in r)) for r in [s.slice([L(0), L(1), L(3)]).max()]]
U["rolling"] = lambda s, t, d, L, D: [(oX(r.index, d) if s.number_of_steps else 0, tuple(oV(v) for v in r)) for r in [s.rolling_mean(window=(D(-1), D(2)), where=(L(0), L(5))), s.rolling_mean(window=[D(-1), D(1)])]]
U["range"] = lambda s, t, d, L, D: [[sorted(oV(v) for v in s.values_in_range((L(a), L(b)), c)) for c in CL] + [oV(s.agg("min", (L(a), L(b))))] for a, b in WINDOWS[:5]]
U["describe"] = lambda s, t, d, L, D: [oV(v) for v in s.describe(where=(L(0), L(3)))]
U["cov"] = lambda s, t, d, L, D: [(oV(s.cov(t, where=(L(0), L(4)))), oV(s.corr(t, where=(L(0), L(4)), lag=D(1), clip="post")))]
U["sc.sample"] = lambda s, t, d, L, D: [(oX(r.columns, d), [tuple(oV(v) for v in r.iloc[i].tolist()) for i in range(2)]) for r in [sc.sample([s, t], [L(x) for x in XS]), sc.limit([s, t], L(2), side="left")]]

VALS_STRIDE, VALS_SKIP = 41, ()

BOUNDS = {
    "quick": "%d programs (every operation of the catalogue, binary operations, layering forms, evaluation shapes, statistics, distributions, windows, slicing, resampling, translations, rolling means, cov/corr, "
             "collections) x function(s) x closed sides x materialisations, each run in 8 label domains (and 27 further ones for part of them, 12 of which hold the labels in other resolutions or dtypes) and compared pairwise with the float domain; "
             "depth-2 programs; every label position x every python/numpy/pandas flavour; int and float labels mixed between operands and queries; operands of different resolution or dtype in every binary operation" % len(P),
    "thorough": "as quick with all programs x all functions x all forms in all 35 domains",
}
RULE = "observations, translated back to exact coordinates, agree: same step points, values, closed side; lengths and integrals scaled by the unit; timezone retained; a program fails in one domain iff it fails in the other"
ASSUMPTIONS = ["integrals used as values of a function (resample('integral')) and unbounded slices exist for numbers only", "step_points is documented as a numpy array, hence holds UTC instants for tz-aware domains",
               "labels are exactly representable in every domain"]


def funcs():
    return K.start_functions()


def form(f, i):
    fs = gen.nforms(f, gen.FORMS4)
    return fs[i % len(fs)]


PAIRS = tuple((K.start_functions()[i], K.start_functions()[j]) for i, j in ((3, 4), (4, 3), (5, 4), (3, 6), (9, 4), (7, 8), (1, 4), (4, 1), (2, 4), (8, 5), (6, 9), (4, 4)))
CORE2 = tuple("u:" + n for n in K.CORE_UNARY)


# thirds of a unit of length: integrals and means of it are not whole in any resolution of the domain
FRAC = M.F(0.5, ((0, 0.25), (2, 1.5), (4, 0)))


def spaces(tier):
    fs = funcs()
    th = tier == "thorough"
    yield "single", ((p, (Leaf(f, REF, SIDES[(i + j // 2) % 2], *form(f, i // 2 + j // 3)),), 0) for i, f in enumerate(fs) for j, p in enumerate(SINGLE) if th or (i + j) % 2)
    yield "double", ((p, tuple(Leaf(f, REF, SIDES[(i + j) % 2], *form(f, i + j + k)) for k, f in enumerate(fg)), 0) for i, fg in enumerate(PAIRS) for j, p in enumerate(DOUBLE) if th or (i + j) % 2 or p.startswith("b:"))
    yield "more", ((p, (Leaf(f, REF, SIDES[(i + j) % 2], *form(f, i + j // 3)),), 1) for i, f in enumerate((fs[4], FRAC, fs[9])) for j, p in enumerate(SINGLE) if th or (i + j) % 3 < (2 if i == 1 else 1))
    yield "more2", ((p, tuple(Leaf(f, REF, SIDES[i % 2], *form(f, i + j + k)) for k, f in enumerate(PAIRS[(i * 5 + j) % len(PAIRS)])), 1) for i, p in enumerate(DOUBLE) for j in range(2 if not th else 12))
    yield "depth2", ((a, b, Leaf(f, REF, SIDES[(i + j + k) % 2], *form(f, i + j))) for k, f in enumerate((fs[3], fs[4], fs[9])) for i, a in enumerate(K.CORE_UNARY) for j, b in enumerate(DEPTH2) if th or (i + j + k) % 3 == 0)
    yield "flavours", ((n, Leaf(f, d, c, *form(f, i + j)), Leaf(fs[3], d, c), i) for d in gen.ALL_DOMS for j, f in enumerate((fs[4], fs[5], fs[9], fs[2]) if th else (fs[4], fs[9])) for c in (SIDES if th else SIDES[j % 2:][:1])
                       for i in range(1, NFL[d]) for n in U)
    yield "intfloat", ((o, Leaf(f, "int", c, *form(f, i)), Leaf(g, "int", c, *form(g, i // 2)), k) for c in SIDES for i, (f, g) in enumerate(PAIRS) for o in K.BINARY for k in (1, 2, 3) if th or (i + k + (c == "left")) % 2)
    yield "dtypes", ((o, Leaf(f, d, c, *form(f, i)), Leaf(g, d, c, *form(g, i // 2)), h, k) for j, d in enumerate(RECAST) for c in SIDES for i, (f, g) in enumerate(PAIRS + ((FRAC, PAIRS[0][1]), (PAIRS[1][0], FRAC))) for n, o in enumerate(K.BINARY) for m, h in enumerate(RECAST[d]) for k in (1, 2, 3) if th or (i + j + k + n + m + (c == "left")) % 6 == 0)
    yield "intfloatquery", ((n, Leaf(f, d, "left", *form(f, i)), i) for d in ("int", "float") for i, f in enumerate(fs) for n in U)
    if th:
        yield "single_full", ((p, (Leaf(f, REF, c, *a),), 1) for f in fs for c in SIDES for a in gen.nforms(f, gen.FORMS4) for p in SINGLE)
        yield "depth2_full", ((a, b, Leaf(f, REF, c, *form(f, i))) for f in fs for c in SIDES for i, a in enumerate(K.UNARY) for b in DEPTH2)


DEPTH2 = CORE2 + ("integral", "var", "value_sums", "percentile", "describe:1", "range:0:both", "sample:index", "left:list", "slice:1:integral", "slice:3:agg", "resample:1:mean", "roll:1", "hist:sum:1", "build:1:onto", "build:1:ontov", "hist:frequency:0")


def at(leaf, d):
    return Leaf(leaf.f, d, *leaf[2:])


def outcome(p, leaves, d, first=None):
    dom = DOMAINS[d]
    try:
        objs = [at(l, d).fresh() for l in leaves]
        if first:
            objs[0] = K.UNARY[first][0](objs[0], dom)
        return ("ok", P[p](Env(dom, objs)))
    except Mismatch as e:
        return ("mismatch", str(e))
    except Exception as e:
        return ("raises", "%s: %s" % (type(e).__name__, str(e)[:120]))


def same(ref, got, d, what):
    if got[0] == "mismatch":
        return "%s in %s: %s" % (what, d, got[1])
    if got[0] != ref[0]:
        return "%s: %s gives %s but %s gives %s" % (what, REF, str(ref)[:200], d, str(got)[:200])
    if ref[0] == "ok" and not near(ref[1], got[1]):
        return "%s: %s gives %s but %s gives %s" % (what, REF, str(ref[1])[:300], d, str(got[1])[:300])
    return None


def run(space, case, ctx):
    ctx.traces += 1
    ctx.outcome((space, case))
    if space.startswith(("single", "double", "more", "depth2")):
        first = None
        if space.startswith("depth2"):
            first, p, L = case
            leaves, doms = (L,), BASE
        else:
            p, leaves, k = case
            doms = MORE if k else BASE
            if p.startswith("hist:"):
                doms = [d for d in doms if d not in COARSE]  # truncated amounts are normalised
        ref = outcome(p, leaves, REF, first)
        ctx.state(p, first, leaves)
        if ref[0] == "mismatch":
            return "%s in %s: %s" % (p, REF, ref[1])
        if ref[0] == "raises":
            ctx.bump("programs_failing_in_every_domain")
        for d in doms:
            ctx.transitions += 1
            r = same(ref, outcome(p, leaves, d, first), d, p if not first else first + " then " + p)
            if r:
                return r
        return None
    if space == "flavours":
        n, A, B, i = case
        dom = A.dom
        ctx.transitions += 2
        ctx.state(n, A, i)
        ref = use_of(n, A, B, lambda x: None if x is None else dom.label(x), dom.delta)
        return flav(n, A, B, ref, lambda x: fl(dom, x, i), lambda k: dfl(dom, k, i), "%s with %s labels" % (n, flavours(dom, 2)[i % NFL[dom.name]][0]))
    if space == "intfloat":
        o, A, B, k = case
        ctx.transitions += 2
        dom = A.dom
        s, t = A.fresh(), B.fresh()
        u, v = floated(s, k & 1), floated(t, k & 2)
        e = oS(K.BINARY[o][0](s, t, dom), dom)
        g = oS(K.BINARY[o][0](u, v, dom), dom)
        return None if near(e, g) else "%s with integer labels %s, with float labels in %s: %s" % (o, e, ("", "the left operand", "the right operand", "both")[k], g)
    if space == "dtypes":
        o, A, B, h, k = case
        ctx.transitions += 4
        dom = A.dom
        s, t = A.fresh(), B.fresh()
        u, v = recast(s, h, k & 1), recast(t, h, k & 2)
        for a, b in ((s, u), (t, v)):
            if a.identical(b) is not True or b.identical(a) is not True:
                return "not identical to the same function with labels held as %s" % h
        e = oS(K.BINARY[o][0](s, t, dom), dom)
        g = oS(K.BINARY[o][0](u, v, dom), dom)
        return None if near(e, g) else "%s is %s, but with labels held as %s in %s: %s" % (o, e, h, ("", "the left operand", "the right operand", "both")[k], g)
    if space == "intfloatquery":
        n, A, i = case
        dom = A.dom
        ctx.transitions += 2
        B = Leaf(funcs()[3], A[1], A.closed)
        ref = use_of(n, A, B, lambda x: None if x is None else dom.label(x), dom.delta)
        num = lambda y: y if y is None else float(y) if dom.name == "int" else int(y) if float(y).is_integer() else y  # noqa
        return flav(n, A, B, ref, lambda x: num(None if x is None else dom.label(x)), lambda k: num(dom.delta(k)), n + " with labels of the other numeric type")
    raise AssertionError(space)


def floated(s, yes):
    """the same function built from float labels"""
    if not yes or not s.number_of_steps:
        return s
    v = s.step_values
    return sc.Stairs.from_values(initial_value=s.initial_value, values=pd.Series(v.values, index=v.index.astype(float)), closed=s.closed)


RECAST = {d: ("s", "us") for d in ("ts", "utc", "tzfall", "td")}
RECAST.update(int=("int8", "uint64", "Int64", "float32"), float=("float32", "Float64"))


def recast(s, h, yes):
    """the same function built from labels of another resolution or dtype"""
    if not yes or not s.number_of_steps:
        return s
    v = s.step_values
    x = v.index
    if h in ("s", "us"):
        x = x.as_unit(h)
    elif x.min() >= (0 if h[0] in "uU" else -128) and x.max() < 128:
        x = x.astype(h)
    return sc.Stairs.from_values(initial_value=s.initial_value, values=pd.Series(v.values, index=x), closed=s.closed)


def use_of(n, A, B, L, D):
    try:
        return ("ok", U[n](A.fresh(), B.fresh(), A.dom, L, D))
    except Mismatch as e:
        return ("mismatch", str(e))
    except Exception as e:
        return ("raises", "%s: %s" % (type(e).__name__, str(e)[:120]))


def flav(n, A, B, ref, L, D, what):
    got = use_of(n, A, B, L, D)
    if got[0] == "mismatch":
        return "%s (%s): %s" % (what, A[1], got[1])
    if ref[0] != got[0]:
        return "%s (%s): %s expected %s" % (what, A[1], str(got)[:200], str(ref)[:200])
    if ref[0] == "ok" and not near(ref[1], got[1]):
        return "%s (%s): %s expected %s" % (what, A[1], str(got[1])[:300], str(ref[1])[:300])
    return None
