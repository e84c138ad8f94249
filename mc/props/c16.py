"""C16 results depend only on the functions denoted and compose without errors."""
import copy
import itertools

import numpy as np
import pandas as pd
import staircase as sc

from .. import catalog as K
from .. import gen, impl, stats
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa
from ..impl import val

F = M.F
SIDES = ("left", "right")
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 29, ()
VALS_STRIDE, VALS_SKIP = 29, ('big:',)
BOUNDS = {
    "quick": "breadth-first exploration of implementation states: from 8 functions, value-built or change-built, every sequence of 3 steps over 16 operations "
             "and 5 reads, states merged by complete structural snapshots; half of all programs of 2 of the 46 unary operations (all in thorough); every operation on each of 11 "
             "provenances (and both operands); every tree (f.g).h and f.(g.h) over 13 binary operations; op-read-op programs over 8 reads; 40 scalar "
             "types x every scalar position; all statistics on every provenance; 3 domains",
    "thorough": "as quick with depth 4, all 46 unary operations at depth 3, all 20 binary operations in trees over 5 functions, all 8 domains",
}
RULE = "each result equals the step-by-step pointwise definition, whatever built the operands and whatever was read before; no internal error"
ASSUMPTIONS = ["values stay small dyadic rationals, so every intermediate is exact; programs leaving that set are cut there (counted)"]
TREEF = [F(0, ((0, 1), (2, -2))), F(1, ((0, None), (2, 0), (4, 1))), F(None, ((1, 2),)), F(2, ())]


def form(f, i, forms=gen.FORMS4):
    fs = gen.nforms(f, forms)
    return fs[i % len(fs)]


def spaces(tier):
    starts = K.start_functions()
    un = tuple(K.UNARY)
    core = tuple(o for o in K.CORE_UNARY if not o.startswith("resample"))
    depth = 3 if tier == "quick" else 4
    yield "bfs", ((Leaf(f, d, SIDES[i % 2], *a), o, depth) for d in (("int", "ts") if tier == "quick" else ("int", "ts", "tzfall", "td"))
                  for i, f in enumerate(starts[3:9] if tier == "quick" and d == "int" else starts[4:10:4] if tier == "quick" else starts) for a in gen.nforms(f, gen.FORMS4[:1 + 3 * (tier != "quick")] if i % 2 else gen.FORMS4[2:4 if tier != "quick" else 3])
                  for o in core + ("read values", "read changes", "read mean"))
    yield "two", ((Leaf(f, "int", "left", *form(f, i + j)), a, b) for i, a in enumerate(un) for j, b in enumerate(un) for k, f in enumerate(starts[3:]) if tier != "quick" or (i + j + k) % 2)
    yield "prov1", ((Leaf(f, d, "left", *a), o) for d in ("float", "tzfix", "td") for f in starts for a in gen.nforms(f)[:: 1 if d == "float" else 3] for o in un)
    yield "prov2", ((Leaf(f, d, "left", *a), Leaf(g, d, "left", *form(g, i + j)), o) for d in ("int", "tzspring") for f in starts[3:9:1] for g in starts[::2 if d == "int" else 4]
                    for i, a in enumerate(gen.nforms(f)) for j, o in enumerate(K.BINARY))
    yield "prov2r", ((Leaf(g, d, "right", *form(g, i + j)), Leaf(f, d, "right", *a), o) for d in ("float",) for f in starts[3:9:1] for g in starts[::2]
                     for i, a in enumerate(gen.nforms(f)) for j, o in enumerate(K.BINARY))
    cb = K.CORE_BINARY if tier == "quick" else tuple(K.BINARY)
    tf = TREEF if tier == "quick" else TREEF + [F(None, ((0, 0.5), (4, None)))]
    yield "tree", ((t, tuple(Leaf(x, "int", "left", *form(x, i + j + k)) for k, x in enumerate(fs)), a, b) for fs in itertools.product(tf, repeat=3)
                   if any(x.steps for x in fs) for i, a in enumerate(cb) for j, b in enumerate(cb) for t in ((((i + j) // 2) % 2,) if tier == "quick" else (0, 1)) if tier != "quick" or (i + j + sum(len(x.steps) for x in fs)) % 2)
    yield "opreadop", ((Leaf(f, "int", "left", *form(f, i + j)), a, r, b) for i, a in enumerate(core) for r in K.READS for j, b in enumerate(core)
                       for f in (starts[4:7] if tier == "quick" else starts))
    yield "shared", ((Leaf(f, "int", "left", *a), o, u) for f in starts[3:] for a in gen.nforms(f, gen.FORMS4) for o in K.BINARY for u in ("same", "copy", "view"))
    yield "scalars", ((i, v, pos) for v in (2, 0, 1, -1) for i in range(len(scalar_types(v))) for pos in range(len(POS)))
    yield "queries", ((Leaf(f, d, c, *a), q) for d, c in (("int", "left"), ("utc", "right")) for f in gen.functions((0, 2, 6), (None, 0, 1)) if M.has_stats(f)
                      for a in gen.nforms(f)[:: 1 if d == "int" else 4] for q in ("basic", "ecdf", "frac", "hist", "desc"))
    yield "resultqueries", ((Leaf(f, d, "left"), o, q) for d in ("int", "ts") for f in starts[3:] for o in un for q in ("basic", "frac", "hist", "eval"))
    if tier == "thorough":
        yield "three", ((Leaf(f, "int", "left", *form(f, i + j + k)), a, b, c) for i, a in enumerate(un) for j, b in enumerate(un) for k, c in enumerate(un) for f in starts[3:8])
        yield "prov1_full", ((Leaf(f, d, c, *a), o) for d in gen.ALL_DOMS for c in SIDES for f in gen.functions(gen.G2, gen.V3) for a in gen.nforms(f)
                             for o in un if not o.startswith("resample"))


def scalar_types(v):
    c = [float(v), np.float64(v), np.float32(v), np.float16(v)]
    if float(v).is_integer():
        c += [int(v), np.int64(v), np.int32(v), np.int16(v), np.int8(v)]
        if v >= 0:
            c += [np.uint8(v), np.uint16(v), np.uint32(v), np.uint64(v)]
    if v in (0, 1):
        c += [bool(v), np.bool_(v)]
    return c


def _ops_pos():
    out = []
    for op in ("add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "xor"):
        out.append(("f %s c" % op, lambda s, c, op=op: impl.BIN[op](s, c), lambda f, c, op=op: M.binary(op, f, M.const(c))))
        out.append(("c %s f" % op, lambda s, c, op=op: impl.BIN[op](c, s), lambda f, c, op=op: M.binary(op, M.const(c), f)))
        out.append(("f.%s(c)" % op, lambda s, c, op=op: getattr(s, impl.METHOD[op])(c), lambda f, c, op=op: M.binary(op, f, M.const(c))))
        if op in impl.RMETHOD:
            out.append(("f.r%s(c)" % op, lambda s, c, op=op: getattr(s, impl.RMETHOD[op])(c), lambda f, c, op=op: M.binary(op, M.const(c), f)))
    out.append(("fillna", lambda s, c: s.fillna(c), lambda f, c: M.binary("fillna", f, M.const(c))))
    out.append(("layer scalar", lambda s, c: s.copy().layer(-3, 1, c), lambda f, c: M.layer(f, [(M.Fraction(1, 2), M.Fraction(5, 2), c)])))
    out.append(("layer vector", lambda s, c: s.copy().layer([-3, -2], [1, 2], [c, c]), lambda f, c: M.layer(f, [(M.Fraction(1, 2), M.Fraction(5, 2), c), (1, 3, c)])))
    out.append(("initial", lambda s, c: s + sc.Stairs(initial_value=c), lambda f, c: M.binary("add", f, M.const(c))))
    out.append(("constructor", lambda s, c: s * sc.Stairs(start=-3, end=1, value=c), lambda f, c: M.binary("mul", f, M.layer(F(0, ()), [(M.Fraction(1, 2), M.Fraction(5, 2), c)]))))
    out.append(("from_values", lambda s, c: s - sc.Stairs.from_values(initial_value=c, values=pd.Series(np.array([0, c], dtype=np.asarray(c).dtype), index=[-3, 1])),
                lambda f, c: M.binary("sub", f, F(c, ((M.Fraction(1, 2), 0), (M.Fraction(5, 2), c))).canon())))
    out.append(("identical", lambda s, c: sc.Stairs(initial_value=int((s * 0 + c).fillna(c).identical(c))), lambda f, c: F(1, ())))
    return out


POS = _ops_pos()


def check(r, exp, dom, closed, what, ctx, deep=False):
    ctx.transitions += 1
    d = impl.compare(r, dom, exp, deep)
    if d is None and exp.steps and r.closed != closed:
        d = "closed side %r expected %r" % (r.closed, closed)
    return d and "%s: %s" % (what, d)


def apply_unary(s, f, o, dom):
    fi, fm = K.UNARY[o]
    return fi(s, dom), fm(f)


def run(space, case, ctx):
    ctx.traces += 1
    if space == "bfs":
        return bfs(*case, ctx)
    if space == "scalars":
        i, v, pos = case
        c = scalar_types(v)[i]
        name, fi, fm = POS[pos]
        for f in (F(0, ((0, 1), (2, -2), (4, 1))), F(1, ((0, None), (2, 0))), F(None, ((2, 1),)), F(1, ())):
            for a in gen.nforms(f, gen.FORMS4[::2]):
                s = impl.clone(f, "int", "left", *a)
                ctx.outcome((f.key(), v, pos))
                d = check(fi(s, c), fm(f, v), DOMAINS["int"], "left", "%s with c=%s(%r)" % (name, type(c).__name__, c), ctx)
                if d:
                    return d
        return None
    if space == "tree":
        return tree(*case, ctx)
    L = case[0]
    dom = L.dom
    s, f = gen.get(L, ctx)
    if s is None:
        return None
    if space in ("two", "three"):
        for n, o in enumerate(case[1:]):
            s, f = apply_unary(s, f, o, dom)
            if not K.exact(f):
                ctx.bump("cut_inexact")
                return check(s, f, dom, L.closed, o, ctx)
        ctx.outcome(f.key())
        ctx.state(f.key())
        return check(s, f, dom, L.closed, " then ".join(case[1:]), ctx)
    if space.startswith("prov1"):
        r, e = apply_unary(s, f, case[1], dom)
        ctx.outcome((e.key(), dom.name))
        return check(r, e, dom, L.closed, case[1], ctx, deep=True)
    if space.startswith("prov2"):
        t, g = gen.get(case[1], ctx)
        if t is None:
            return None
        fi, fm = K.BINARY[case[2]]
        e = fm(f, g)
        ctx.outcome((e.key(), dom.name))
        return check(fi(s, t, dom), e, dom, L.closed, case[2], ctx)
    if space == "shared":
        # the very same object (or objects sharing structure) on both sides
        fi, fm = K.BINARY[case[1]]
        t = s if case[2] == "same" else s.copy() if case[2] == "copy" else copy.copy(s)
        e = fm(f, f)
        return check(fi(s, t, dom), e, dom, L.closed, case[1] + " with itself", ctx) or check(s, f, dom, L.closed, "operand after " + case[1], ctx)
    if space == "opreadop":
        s, f = apply_unary(s, f, case[1], dom)
        if not K.exact(f):
            return None
        K.READS[case[2]](s)
        s, f = apply_unary(s, f, case[3], dom)
        ctx.outcome(f.key())
        return check(s, f, dom, L.closed, "%s, read %s, %s" % case[1:], ctx)
    if space in ("queries", "resultqueries"):
        if space == "resultqueries":
            s, f = apply_unary(s, f, case[1], dom)
            if not K.exact(f):
                return None
        ctx.outcome((f.key(), case[-1]))
        return query(s, f, dom, L.closed, case[-1], ctx)
    raise AssertionError(space)


def query(s, f, dom, closed, q, ctx):
    if q == "eval":
        xs = impl.probe_points(list(f.pts))
        ls, rs = impl.read_limits(s, dom, xs)
        ctx.transitions += 2
        for x, l, r in zip(xs, ls, rs):
            if not M.close(l, f.at(x, "left")) or not M.close(r, f.at(x)):
                return "limits at %s: %r %r expected %r %r" % (x, l, r, f.at(x, "left"), f.at(x))
        vs = M.values_in_range(f, closed, None, None, closed)
        if not M.close(val(s.min()), min(vs) if vs else None) or not M.close(val(s.max()), max(vs) if vs else None):
            return "min/max: %r %r" % (s.min(), s.max())
        return None
    if not M.has_stats(f):
        return None
    if q == "basic":
        return stats.check_basic(s, f, dom, ctx)
    if q == "ecdf":
        return stats.check_ecdf(s, f, dom, ctx)
    if q == "frac":
        return stats.check_fractiles(s, f, dom, ctx)
    if q == "hist":
        return stats.check_mode(s, f, dom) or stats.check_hist(s, f, dom, None, closed, "sum", ctx=ctx) or stats.check_hist(
            s, f, dom, ("breaks", (-1, 0, 1, 3)), closed, "probability", ctx=ctx)
    return stats.check_describe(s, f, dom, None, None, ctx)


def tree(t, leaves, a, b, ctx):
    dom = leaves[0].dom
    objs, fs = [], []
    for L in leaves:
        s, f = gen.get(L, ctx)
        if s is None:
            return None
        objs.append(s)
        fs.append(f)
    (ai, am), (bi, bm) = K.BINARY[a], K.BINARY[b]
    if t == 0:
        m1 = am(fs[0], fs[1])
        if not K.exact(m1):
            ctx.bump("cut_inexact")
            return None
        r, e = bi(ai(objs[0], objs[1], dom), objs[2], dom), bm(m1, fs[2])
    else:
        m1 = bm(fs[1], fs[2])
        if not K.exact(m1):
            ctx.bump("cut_inexact")
            return None
        r, e = ai(objs[0], bi(objs[1], objs[2], dom), dom), am(fs[0], m1)
    ctx.outcome(e.key())
    ctx.state(e.key())
    return check(r, e, dom, "left", ("(f %s g) %s h" if t == 0 else "f %s (g %s h)") % (a, b), ctx)


def bfs(L, first, depth, ctx):
    """all sequences of `depth` transitions starting with `first`, merging structurally equal implementation states"""
    dom = L.dom
    s, f = gen.get(L, ctx)
    if s is None:
        return None
    alphabet = [o for o in K.CORE_UNARY if not o.startswith("resample")] + ["read values", "read changes", "read frame", "read mean", "read bool"]
    seen = set()
    frontier = [(s, f, ())]
    for level in range(depth):
        nxt = []
        for s, f, path in frontier:
            for o in ([first] if level == 0 else alphabet):
                if o.startswith("read "):
                    t, g = copy.deepcopy(s), f
                    if o == "read mean" and not M.has_stats(f):
                        continue
                    K.READS[o[5:]](t)
                else:
                    t, g = apply_unary(s, f, o, dom)
                d = check(t, g, dom, L.closed, " ; ".join(path + (o,)), ctx) if level < depth - 1 or not o.startswith("read") else None
                if d:
                    return d
                if level == depth - 1 or not K.exact(g):
                    continue
                k = hash((impl.snapshot(t), g.key()))
                if k in seen:
                    ctx.bump("merged_states")
                    continue
                seen.add(k)
                ctx.state(k)
                ctx.outcome(g.key())
                nxt.append((t, g, path + (o,)))
        frontier = nxt
    return None
