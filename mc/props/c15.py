"""C15 the closed side is preserved; opposite sides are never silently merged."""
import copy
import itertools
import pickle

import numpy as np
import pandas as pd
import staircase as sc
from staircase.core.exceptions import ClosedMismatchError

from .. import catalog as K
from .. import gen, impl
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa
from . import c13

F = M.F
SIDES = ("left", "right")
NAN = float("nan")
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 17, ()
VALS_STRIDE, VALS_SKIP = 17, ('dates',)
BOUNDS = {
    "quick": "46 unary operations + 30 further spellings x 10 functions x 4 materialisations x both sides x domains, with the side read from .closed and from "
             "sampling at every step point; all programs of 2 unary operations; every binary operator in 3 spellings, masking, filling, cov, corr and all "
             "aggregations x both sides of each operand x {steps, step-free by construction, step-free by computation, undefined}; aggregations of <=3 members in 6 containers; "
             "StairsArray operators; scalars of 8 types; programs combining a result with a further operand; every query and slicing on both sides",
    "thorough": "as quick in all domains, with all materialisations of both operands and aggregations of <=4 members",
}
RULE = ("a result has the side of its operand(s) with steps (the receiver's if none has steps); two operands with steps on opposite sides raise ClosedMismatchError; "
        "nothing else raises it; values are those of the pointwise definition on the common side")
ASSUMPTIONS = ["'the receiver' of a reflected method (radd ...) and of a collection aggregation without any steps is not determined by the statement: either side is accepted there"]


def opp(c):
    return "right" if c == "left" else "left"


# ---------------------------------------------------------------- operands
def freeforms():
    """step-free functions: (model, how it is obtained)"""
    return [("const", F(1, ())), ("const", F(0, ())), ("const", F(None, ())), ("layered", F(2, ())), ("computed", F(0, ())), ("undone", F(1, ())), ("masked away", F(None, ()))]


FREE = freeforms()


def free(k, dom, closed):
    how, f = FREE[k]
    if how == "const":
        return sc.Stairs(initial_value=impl.num(f.init), closed=closed), f
    if how == "layered":
        return sc.Stairs(closed=closed).layer(None, None, 1).layer([None], [None], [1]), f
    base = impl.build(F(1, ((0, 2), (2, 1))), dom, closed)
    if how == "computed":
        return base * 0, f
    if how == "undone":
        return base.layer(dom.label(0), dom.label(2), -1), f
    return base.mask((None, None)), f


def has_steps(f):
    return bool(f.canon().steps)


def steps_list():
    return [f for f in K.start_functions() if f.steps]


# ---------------------------------------------------------------- spellings not in the catalogue
def _lab(d, *xs):
    return tuple(None if x is None else d.label(x) for x in xs)


EXTRA = {
    "mask(None,None)": (lambda s, d: s.mask((None, None)), lambda f: F(None, ())),
    "where(None,None)": (lambda s, d: s.where((None, None)), lambda f: f),
    "where(,2)": (lambda s, d: s.where(_lab(d, None, 2)), lambda f: M.clip(f, None, 2)),
    "where(1,)": (lambda s, d: s.where(_lab(d, 1, None)), lambda f: M.clip(f, 1, None)),
    "clip()": (lambda s, d: s.clip(), lambda f: f),
    "clip kw": (lambda s, d: s.clip(lower=d.label(1)), lambda f: M.clip(f, 1, None)),
    "clip far": (lambda s, d: s.clip(d.label(50), d.label(60)), lambda f: M.clip(f, 50, 60)),
    "mask far": (lambda s, d: s.mask(_lab(d, 50, 60)), lambda f: M.mask_interval(f, 50, 60)),
    "mask 1": (lambda s, d: s.mask(sc.Stairs(initial_value=1)), lambda f: F(None, ())),
    "mask 0": (lambda s, d: s.mask(sc.Stairs()), lambda f: f),
    "where 1": (lambda s, d: s.where(sc.Stairs(initial_value=1)), lambda f: f),
    "where 0": (lambda s, d: s.where(sc.Stairs()), lambda f: F(None, ())),
    "fillna const": (lambda s, d: s.fillna(sc.Stairs(initial_value=3)), lambda f: M.binary("fillna", f, M.const(3))),
    "fillna undefined": (lambda s, d: s.fillna(sc.Stairs(initial_value=NAN)), lambda f: f),
    "copy.copy": (lambda s, d: copy.copy(s), lambda f: f), "deepcopy": (lambda s, d: copy.deepcopy(s), lambda f: f), "pickle": (lambda s, d: pickle.loads(pickle.dumps(s)), lambda f: f),
    "isna isna": (lambda s, d: s.isna().isna(), lambda f: F(0, ())),
    "layer scalar": (lambda s, d: s.copy().layer(d.label(0), d.label(2), 1), lambda f: M.layer(f, [(0, 2, 1)])),
    "layer all": (lambda s, d: s.copy().layer(None, None, 1), lambda f: M.layer(f, [(None, None, 1)])),
    "layer empty": (lambda s, d: s.copy().layer([], [], []), lambda f: f),
    "sum of one": (lambda s, d: sc.sum([s]), lambda f: f), "max of self": (lambda s, d: sc.max([s, s]), lambda f: f),
    "rsub": (lambda s, d: s.rsubtract(1), lambda f: M.binary("sub", M.const(1), f)), "rdiv": (lambda s, d: s.rdivide(1), lambda f: M.binary("div", M.const(1), f)),
    "rand": (lambda s, d: s.logical_rand(1), lambda f: M.binary("and", M.const(1), f)), "+nan": (lambda s, d: s + NAN, lambda f: F(None, ())),
    "nan+": (lambda s, d: NAN + s, lambda f: F(None, ())), "np+": (lambda s, d: np.float64(1) + s, lambda f: M.binary("add", f, M.const(1))),
    "np>": (lambda s, d: np.int64(1) > s, lambda f: M.binary("lt", f, M.const(1))), "== nan": (lambda s, d: s == NAN, lambda f: F(None, ())),
    "& nan": (lambda s, d: s & NAN, lambda f: F(None, ())), "* nan": (lambda s, d: s * NAN, lambda f: F(None, ())),
    "s-s": (lambda s, d: s - s, lambda f: M.binary("sub", f, f)), "s==s": (lambda s, d: s == s, lambda f: M.binary("eq", f, f)),
    "mask self": (lambda s, d: s.mask(s), lambda f: M.binary("mask", f, f)), "fill self": (lambda s, d: s.fillna(s), lambda f: f),
    "slice apply": (lambda s, d: s.slice(list(_lab(d, -9, 40))).apply(lambda t: t).iloc[0], lambda f: M.clip(f, -9, 40)),
    "xor": (lambda s, d: s.logical_xor(sc.Stairs(initial_value=1)), lambda f: M.binary("xor", f, M.const(1))),
}
OPS1 = dict(K.UNARY)
OPS1.update(EXTRA)
RESAMPLE = [n for n in OPS1 if n.startswith("resample")]
SC = (1, 0, NAN, 2.5, True, np.int64(1), np.float32(0.5), np.bool_(False))
OPS2 = tuple(impl.BIN)
SPELL = ("op", "method", "rmethod")


def spaces(tier):
    fs = K.start_functions()
    ss = steps_list()
    doms = gen.ALL_DOMS if tier == "thorough" else ("int", "ts", "tzfall")
    yield "unary", ((Leaf(f, d, c, *a), o) for d in doms for f in fs for i, a in enumerate(gen.nforms(f, gen.FORMS4)) for c in SIDES for j, o in enumerate(OPS1)
                    if d == "int" or tier == "thorough" or (i + j) % 4 == 0)
    yield "unaryfree", ((k, d, c, o) for d in ("int", "tzfix") for k in range(len(FREE)) for c in SIDES for o in OPS1)
    yield "two", ((Leaf(f, "int", "right", *gen.nforms(f, gen.FORMS4)[(i + j) % len(gen.nforms(f, gen.FORMS4))]), a, b) for i, a in enumerate(OPS1) for j, b in enumerate(OPS1)
                  for f in (ss[1:2] if tier == "quick" else ss))
    yield "scalar", ((Leaf(f, "float", c, *a), o, i, rev) for f in ss[::2] + fs[:3] for a in gen.nforms(f, gen.FORMS4)[:2] for c in SIDES for o in OPS2[:13] for i in range(len(SC)) for rev in (0, 1))
    yield "pairs", ((Leaf(f, d, cf, *fa), Leaf(g, d, cg, *ga), o, SPELL[(i + j + k) % 3]) for d in (("int",) if tier == "quick" else ("int", "ts", "tzspring")) for i, f in enumerate(ss) for j, g in enumerate(ss)
                    for fa, ga in (((("vals", ""), ("vlay", "")) if (i + j) % 2 else (("vlay", "v"), ("vals", "c"))),) for cf in SIDES for cg in SIDES for k, o in enumerate(OPS2))
    yield "pairdoms", ((Leaf(f, d, cf), Leaf(g, d, cg), o, SPELL[(i + k) % 3]) for d in gen.ALL_DOMS[1:] for i, (f, g) in enumerate(((ss[1], ss[2]), (ss[3], ss[0]))) for cf in SIDES for cg in SIDES for k, o in enumerate(OPS2))
    yield "free1", ((Leaf(f, "int", cf, *a), k, cg, o, rev, SPELL[(i + k) % 3]) for i, f in enumerate(ss[::2]) for a in gen.nforms(f, gen.FORMS4)[::2] for cf in SIDES for k in range(len(FREE)) for cg in SIDES
                    for o in OPS2 for rev in (0, 1))
    yield "free2", ((k, c, m, e, o, sp) for k in range(len(FREE)) for c in SIDES for m in range(len(FREE)) for e in SIDES for o in OPS2 for sp in SPELL[:2])
    yield "moments", ((Leaf(f, d, cf), g, cg, w, lag, clip, cor, rev) for d in ("int", "ts") for f in ss for g in list(ss[::2]) + list(range(len(FREE))) for cf in SIDES for cg in SIDES
                      for w, lag, clip in ((0, 0, "pre"), (1, 0, "pre"), (1, 1, "pre"), (1, -1, "post")) for cor in (0, 1) for rev in (0, 1) if (d == "int" or w + lag == 2) and (tier != "quick" or (w + lag + cor + rev + len(f.steps)) % 2))
    mem = [("f", 0), ("f", 2), ("f", 3), ("c", 0), ("c", 2), ("c", 4)]
    yield "agg", ((ms, cs, K_AGG[(i + j) % 7] if tier == "quick" and len(ms) == 3 else None, CONT[(i + j) % 6]) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
                  for i, ms in enumerate(itertools.product(mem, repeat=n)) for j, cs in enumerate(itertools.product(SIDES, repeat=n)))
    yield "arrays", ((Leaf(f, "int", cf), Leaf(g, "int", cg), Leaf(h, "int", ch), o, k) for f in ss[::3] for g in ss[1::3] for h in (ss[0], ss[4]) for cf in SIDES for cg in SIDES for ch in SIDES
                     for o in AOPS for k in range(4))
    yield "then", ((Leaf(f, "int", c, *gen.nforms(f, gen.FORMS4)[(i + j) % 4]), a, b, k, rev) for c in SIDES for f in ss[1:4:2] for i, a in enumerate(OPS1) for j, b in enumerate(OPS2) for k in (0, 1) for rev in ((i + j) % 2,) if tier != "quick" or (i // 2 + j + k) % 2)
    yield "queries", ((Leaf(f, d, c, *a), q) for d in ("int", "ts") for c in SIDES for f in fs for a in gen.nforms(f, gen.FORMS4)[:2] for q in range(len(c13.QUERIES)))
    yield "coll", ((Leaf(f, d, c), Leaf(g, d, c), k) for d in ("int", "tzfix") for c in SIDES for f in fs for g in fs[::2] for k in range(len(c13.COLL)))
    yield "slices", ((Leaf(f, d, c), kc, b, q) for d in ("int", "utc") for c in SIDES for f in fs for kc in ("left", "right", "both", "neither") for b in range(3) for q in range(6))
    yield "build", ((d, c, k) for d in gen.ALL_DOMS for c in SIDES for k in range(9))


K_AGG = tuple(K.AGGM)
CONT = ("list", "tuple", "dict", "array", "series", "sa")
AOPS = ("add", "sub", "mul", "div", "lt", "ge", "eq", "ne")


# ---------------------------------------------------------------- judging
def judge(r, e, side, dom, ctx, what):
    """side: the required side, or None when not determined"""
    ctx.transitions += 1
    if not isinstance(r, sc.Stairs):
        return "%s: result is %s" % (what, type(r).__name__)
    if side is not None and r.closed != side:
        return "closed side of %s: %r expected %r" % (what, r.closed, side)
    if r.closed not in SIDES:
        return "closed side of %s: %r" % (what, r.closed)
    if e is None:
        return None
    d = impl.compare(r, dom, e)
    if d:
        return "%s: %s" % (what, d)
    xs = list(e.pts)
    ctx.state(e.key(), r.closed)
    if xs:
        got = [impl.val(v) for v in list(r.sample([dom.label(x) for x in xs]))]
        exp = [e.sample(x, r.closed) for x in xs]
        for x, g, w in zip(xs, got, exp):
            if not M.close(g, w):
                return "sample at step point %s of %s (%s closed): %r expected %r" % (x, what, r.closed, g, w)
    return None


def mismatch(fn, what, ctx):
    ctx.transitions += 1
    ctx.bump("mismatch_required")
    try:
        r = fn()
    except ClosedMismatchError:
        return None
    except Exception as e:
        return "mismatch %s: %s instead of ClosedMismatchError" % (what, type(e).__name__)
    return "mismatch %s: %s returned instead of ClosedMismatchError" % (what, type(r).__name__)


def spelled(o, s, u, sp):
    if sp == "method" and o in impl.METHOD:
        return getattr(s, impl.METHOD[o])(u)
    if sp == "rmethod" and o in impl.RMETHOD:
        return getattr(u, impl.RMETHOD[o])(s)
    return impl.BIN[o](s, u)


def pair(s, f, u, g, o, sp, dom, ctx):
    fs, gs = has_steps(f), has_steps(g)
    what = "%s (%s)" % (o, sp)
    if fs and gs and s.closed != u.closed:
        return mismatch(lambda: spelled(o, s, u, sp), what, ctx)
    side = s.closed if fs else u.closed if gs else (s.closed if not (sp == "rmethod" and o in impl.RMETHOD) else s.closed if s.closed == u.closed else None)
    return judge(spelled(o, s, u, sp), M.binary(o, f, g), side, dom, ctx, what)


def container(k, objs):
    if k == "list":
        return list(objs)
    if k == "tuple":
        return tuple(objs)
    if k == "dict":
        return {"k%d" % i: o for i, o in enumerate(objs)}
    if k == "array":
        a = np.empty(len(objs), dtype=object)
        a[:] = objs
        return a
    if k == "series":
        return pd.Series(list(objs), index=range(5, 5 + len(objs)), dtype="Stairs")
    return sc.StairsArray(list(objs))


def run(space, case, ctx):
    ctx.traces += 1
    ctx.outcome((space, case))
    if space == "unary":
        L, o = case
        return unary(L.fresh(), L.f.canon(), L.dom, L.closed, o, ctx)
    if space == "unaryfree":
        k, d, c, o = case
        s, f = free(k, DOMAINS[d], c)
        return unary(s, f, DOMAINS[d], c, o, ctx)
    if space == "two":
        L, a, b = case
        s, f, dom = L.fresh(), L.f.canon(), L.dom
        r = OPS1[a][0](s, dom)
        e = OPS1[a][1](f) if not a.startswith("resample") else None
        d = judge(r, e, L.closed, dom, ctx, a)
        if d:
            return d
        e2 = OPS1[b][1](e) if e is not None and not b.startswith("resample") and K.exact(e) else None
        return judge(OPS1[b][0](r, dom), e2, L.closed, dom, ctx, "%s;%s" % (a, b))
    if space == "scalar":
        L, o, i, rev = case
        s, f = L.fresh(), L.f.canon()
        c = SC[i]
        cm = M.const(None if c != c else float(c))
        r = impl.BIN[o](c, s) if rev else impl.BIN[o](s, c)
        return judge(r, M.binary(o, cm, f) if rev else M.binary(o, f, cm), L.closed, L.dom, ctx, "%s with scalar %r" % (o, c))
    if space in ("pairs", "pairdoms"):
        A, B, o, sp = case
        return pair(A.fresh(), A.f.canon(), B.fresh(), B.f.canon(), o, sp, A.dom, ctx)
    if space == "free1":
        L, k, c, o, rev, sp = case
        u, g = free(k, L.dom, c)
        if rev:
            return pair(u, g, L.fresh(), L.f.canon(), o, sp, L.dom, ctx)
        return pair(L.fresh(), L.f.canon(), u, g, o, sp, L.dom, ctx)
    if space == "free2":
        k, c, m, e, o, sp = case
        dom = DOMAINS["int"]
        (s, f), (u, g) = free(k, dom, c), free(m, dom, e)
        return pair(s, f, u, g, o, sp, dom, ctx)
    if space == "moments":
        return moments(*case, ctx)
    if space == "agg":
        return agg(*case, ctx)
    if space == "arrays":
        return arrays(*case, ctx)
    if space == "then":
        L, a, b, k, rev = case
        s, f, dom = L.fresh(), L.f.canon(), L.dom
        r = OPS1[a][0](s, dom)
        e = OPS1[a][1](f) if not a.startswith("resample") or L.closed == "left" else impl.read(r, dom).canon()
        if not K.exact(e):
            return None
        g = steps_list()[2 * k]
        c2 = L.closed if k == 0 else opp(L.closed)
        u = impl.build(g, dom, c2, *("vals", "vlay")[k:k + 1])
        if rev:
            return pair(u, g, r, e, b, "op", dom, ctx)
        return pair(r, e, u, g, b, "op", dom, ctx)
    if space == "queries":
        L, q = case
        name, fn, need = c13.QUERIES[q]
        s, f = L.fresh(), L.f.canon()
        if need and not M.has_stats(f):
            return None
        if L.closed == "right" and name.startswith("slice") and "closed" in name:
            pass
        fn(s, L.dom)
        return judge(s, f, L.closed, L.dom, ctx, "operand after " + name)
    if space == "coll":
        A, B, k = case
        name, fn, exp = c13.COLL[k]
        s, u = A.fresh(), B.fresh()
        rs, es = fn(s, u), exp(A.f.canon(), B.f.canon())
        for r, e in zip(rs, es):
            d = judge(r, e, A.closed, A.dom, ctx, name)
            if d:
                return d
        return None
    if space == "slices":
        return slices(*case, ctx)
    return build(*case, ctx)


def unary(s, f, dom, c, o, ctx):
    fi, fm = OPS1[o]
    r = fi(s, dom)
    e = None if o in RESAMPLE and c == "right" else fm(f)
    return judge(r, e, c, dom, ctx, o) or judge(s, f, c, dom, ctx, "operand after " + o)


def moments(L, g, cg, w, lag, clip, cor, rev, ctx):
    dom = L.dom
    s, f = L.fresh(), L.f.canon()
    if isinstance(g, int):
        u, g = free(g, dom, cg)
    else:
        u = impl.build(g, dom, cg)
    name = "corr" if cor else "cov"
    kw = {}
    if w:
        kw["where"] = (dom.label(-2), dom.label(7))
    if lag:
        kw.update(lag=dom.delta(lag), clip=clip)
    a, b = (u, s) if rev else (s, u)

    def go():
        return getattr(a, name)(b, **kw)

    if has_steps(f) and has_steps(g) and s.closed != u.closed:
        return mismatch(go, name, ctx) or (mismatch(lambda: getattr(sc, name)([a, b], where=kw["where"]), "sc." + name, ctx) if w else None)
    ctx.transitions += 1
    try:
        go()
    except ClosedMismatchError:
        return "%s: mismatch raised for a step-free or consistent operand" % name
    except Exception:
        # windows without a finite defined region have no statistics; only the mismatch matters here
        if w and not lag and M.has_stats(M.clip(M.binary("add", f, g), -2, 7)):
            raise
    return None


def agg(ms, cs, only, cont, ctx):
    dom = DOMAINS["int"]
    ss = steps_list()
    objs, fs = [], []
    for (k, i), c in zip(ms, cs):
        if k == "f":
            objs.append(impl.build(ss[i], dom, c, "vals" if (i + len(objs)) % 2 else "vlay"))
            fs.append(ss[i])
        else:
            o, f = free(i, dom, c)
            objs.append(o)
            fs.append(f)
    sides = {o.closed for o, f in zip(objs, fs) if has_steps(f)}
    for name in (K_AGG if only is None else (only,)):
        coll = container(cont, objs)
        if len(sides) == 2:
            d = mismatch(lambda: K.AGGI[name](coll), name, ctx)
        else:
            side = next(iter(sides)) if sides else cs[0] if len(set(cs)) == 1 else None
            d = judge(K.AGGI[name](coll), K.aggregate(name, fs), side, dom, ctx, "%s of %s" % (name, cont))
        if d:
            return d
    return None


def arrays(A, B, C, o, k, ctx):
    dom = A.dom
    s, u, h = A.fresh(), B.fresh(), C.fresh()
    f, g, e = A.f.canon(), B.f.canon(), C.f.canon()
    arr = sc.StairsArray([s, u])
    pairs = [((s, f), (h, e)), ((u, g), (h, e))]
    if k == 0:
        fn = lambda: impl.BIN[o](arr, h)  # noqa
    elif k == 1:
        fn = lambda: impl.BIN[o](arr, [h, h])  # noqa
    elif k == 2:
        fn = lambda: impl.BIN[o](arr, sc.StairsArray([h, h]))  # noqa
    else:
        pairs = [(y, x) for x, y in pairs]
        fn = lambda: impl.BIN[o](h, arr)  # noqa
    if any(x[0].closed != y[0].closed for x, y in pairs):
        return mismatch(fn, "array " + o, ctx)
    r = fn()
    if len(r) != 2:
        return "array %s: %d elements" % (o, len(r))
    for ri, (x, y) in zip(r, pairs):
        d = judge(ri, M.binary(o, x[1], y[1]), x[0].closed, dom, ctx, "element of array " + o)
        if d:
            return d
    return None


def slices(L, kc, b, q, ctx):
    """slicing any function with any kind of interval never raises a mismatch and resample keeps the side"""
    dom = L.dom
    s, f = L.fresh(), L.f.canon()
    br = ((0, 2, 4), (-1, 1), (1, 2, 3, 9))[b]
    # disjoint intervals
    iv = [(dom.label(x), dom.label(y)) for x, y in zip(br, br[1:])]
    if kc == "both":
        iv = iv[::2]
    ii = pd.IntervalIndex.from_tuples(iv, closed=kc)
    sl = s.slice(ii)
    ctx.transitions += 1
    if q < 4:
        st = ("max", "min", "mean", "median")[q]
        ok = all(M.has_stats(M.clip(f, dom_inv(dom, i.left), dom_inv(dom, i.right))) for i in ii)
        if q >= 2 and not ok:
            return None
        r = sl.resample(st)
        return judge(r, None, L.closed, dom, ctx, "resample(%s) of %s slices" % (st, kc)) or judge(s, f, L.closed, dom, ctx, "operand after resample")
    if q == 4:
        sl.max(), sl.min(), sl.agg(["min", "max"])
    else:
        for t in sl.apply(lambda t: t):
            if t.closed != L.closed:
                return "closed side of a slice: %r" % t.closed
    return None


def dom_inv(dom, label):
    return dom.decode(pd.Index([label]))[0]


def build(d, c, k, ctx):
    """construction routes keep the requested side"""
    dom = DOMAINS[d]
    l = dom.label
    if k == 0:
        return judge(sc.Stairs(closed=c), F(0, ()), c, dom, ctx, "Stairs(closed)")
    if k == 1:
        return judge(sc.Stairs(start=l(0), end=l(2), closed=c), F(0, ((0, 1), (2, 0))), c, dom, ctx, "Stairs(start, end)")
    if k == 2:
        return judge(sc.Stairs(start=[l(0), l(2)], end=[l(2), l(3)], value=[1, 2], closed=c, initial_value=1), F(1, ((0, 2), (2, 3), (3, 1))), c, dom, ctx, "Stairs(vectors)")
    if k == 3:
        df = pd.DataFrame({"a": dom.index([0, 2]), "b": dom.index([2, 4])})
        return judge(sc.Stairs(df, "a", "b", closed=c), F(0, ((0, 1), (4, 0))), c, dom, ctx, "Stairs(frame)")
    if k == 4:
        return judge(sc.Stairs.from_values(0, pd.Series([1, 0], index=dom.index([0, 2])), closed=c), F(0, ((0, 1), (2, 0))), c, dom, ctx, "from_values")
    if k == 5:
        return judge(sc.Stairs(initial_value=2, closed=c), F(2, ()), c, dom, ctx, "constant")
    if k == 6:
        return judge(sc.Stairs(closed=c).layer(None, l(0)), F(1, ((0, 0),)), c, dom, ctx, "layer")
    if k == 7:
        s = sc.Stairs(closed=c)
        s.layer(l(0), l(2)).layer(l(0), l(2), -1).layer([l(1)], [l(2)])
        return judge(s, F(0, ((1, 1), (2, 0))), c, dom, ctx, "layers")
    return judge(sc.Stairs.from_values(0, pd.Series([0, 0], index=dom.index([0, 2])), closed=c), F(0, ()), c, dom, ctx, "from_values of a constant")
