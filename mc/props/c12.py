"""C12 minimal form; identical() decides equality; algebraic identities; bool."""
import copy
import itertools

import numpy as np
import pandas as pd
import staircase as sc

from .. import catalog as K
from .. import gen, impl
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa

F = M.F
NAN = float("nan")
SIDES = ("left", "right")
EPS = 2.0 ** -40
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 31, ()
VALS_STRIDE, VALS_SKIP = 31, ('dates',)
BOUNDS = {
    "quick": "minimality of the result of every one of the 46 unary and 20+ binary operations on all 2-point functions over {undefined,0,1,-2} / all pairs "
             "over {undefined,0,1} in 4 materialisations, of every third 2-operation program, of redundant from_values tables and cancelling layer histories (<=3 "
             "calls), in 8 domains; breadth-first over implementation states to depth 3 with minimality, bool and identical checked in every state; identical "
             "over all pairs of 2-point functions in 4x4 materialisations incl. values 2^-40 apart, scalars, step-free operands; 43 algebraic identities over "
             "all pairs of 2-point functions / a quarter of the triples of 8 functions; bool of every function in every form",
    "thorough": "as quick with depth 4, 3-point functions, all 11 provenances in the identical products, identities over all triples of 2-point functions",
}
RULE = "raw step points strictly increase and each is a change (exact comparison); identical == equality of the denoted functions"
ASSUMPTIONS = ["exactly representable values (small dyadic rationals); Percentiles/Fractiles/ECDF objects live on the probability axis and are not judged"]


def form(f, i, forms=gen.FORMS4):
    fs = gen.nforms(f, forms)
    return fs[i % len(fs)]


SCAL = (0, 1, -2, NAN, 0.5, True)
TRI = [F(0, ((0, 1), (2, -2))), F(1, ((0, None), (2, 0), (4, 1))), F(None, ((1, 2),)), F(2, ()), F(0, ((0, 0.5), (1, 0), (4, 1))), F(None, ()), F(0, ()),
       F(-1, ((2, None), (4, -2)))]


def spaces(tier):
    un, bi = tuple(K.UNARY), tuple(K.BINARY)
    yield "unary", ((Leaf(f, "int", "left", *form(f, i + j)), o) for i, f in enumerate(gen.functions(gen.G2, gen.V4)) for j, o in enumerate(un))
    yield "unaryd", ((Leaf(f, d, "left", *form(f, i + j)), o) for d in gen.ALL_DOMS for i, f in enumerate(K.start_functions()) for j, o in enumerate(un) if (i + j) % 2)
    yield "binary", ((Leaf(f, "int", "left", *form(f, i + k)), Leaf(g, "int", "left", *form(g, j)), o) for i, f in enumerate(gen.functions(gen.G2, (None, 0, 1)))
                     for j, g in enumerate(gen.functions((0, 4), (None, 0, 1))) for k, o in enumerate(bi) if (i + j + k) % 2 or tier != "quick")
    yield "two", ((Leaf(f, "int", "left", *form(f, i + j)), a, b) for f in K.start_functions()[4:10:2 if tier == "quick" else 1] for i, a in enumerate(un) for j, b in enumerate(un)
                  if (i + j) % 3 == 0 or tier != "quick")
    yield "redundant", ((init, cells, c, j) for init in (None, 0, 1) for cells in itertools.product((None, 0, 1), repeat=4) for c in SIDES for j in range(2))
    A = [(a, b, v) for a, b in ((None, 2), (0, 2), (0, 4), (2, 4), (2, None), (0, None)) for v in (1, -1)]
    yield "layers", ((h, init, r) for h in itertools.product(A, repeat=3) for init, r in ((0, ""), (1, "v")))
    yield "ident", ((Leaf(f, "int", c, *form(f, i + j)), Leaf(g, "int", c, *form(g, j // 2))) for c in ("left",) for i, f in enumerate(gen.functions(gen.G2, gen.V3 + (1 + EPS,)))
                    for j, g in enumerate(gen.functions(gen.G2, gen.V3 + (1 + EPS,))))
    yield "identforms", ((Leaf(f, d, "right", *a), Leaf(g, d, "right", *b)) for d in ("float", "tzfall") for f in K.start_functions() for g in near_misses(f)
                         for a in gen.nforms(f) for b in (gen.nforms(g)[::2] if d == "float" else gen.nforms(g, gen.FORMS4)[::2]))
    yield "identpts", ((Leaf(f, d, "left", *a), Leaf(g, d, "left", *b)) for d in gen.ALL_DOMS for f in gen.functions(gen.G2, (None, 1))
                       for g in gen.functions((0, 3), (None, 1)) for a, b in ((form(f, 0), form(g, 0)), (form(f, 2), form(g, 3))))
    yield "identscalar", ((Leaf(f, "int", "left", *a), i) for f in gen.functions(gen.G2, (None, 0, 1)) for a in gen.nforms(f, gen.FORMS4) for i in range(len(SCAL)))
    yield "bool", ((Leaf(f, d, c, *a), 0) for d, c in (("int", "left"), ("tzfix", "right")) for f in gen.functions(gen.G2, (None, 0, 1, 1 + EPS))
                   for a in gen.nforms(f))
    tri = list(itertools.product(range(len(TRI)), repeat=3))
    yield "identities", (tuple(Leaf(TRI[x], "int", "left", *form(TRI[x], x + n + k)) for k, x in enumerate(t)) for n, t in enumerate(tri) if any(TRI[x].steps for x in t)
                         and (tier != "quick" or n % 4 == 1))
    yield "identitiesd", (tuple(Leaf(TRI[x], d, "right", *form(TRI[x], x + n)) for x in t) for d in gen.ALL_DOMS for n, t in enumerate(tri[:: 41]) if any(TRI[x].steps for x in t))
    yield "pairid", ((Leaf(f, "float", "right", *form(f, i + j)), Leaf(g, "float", "right", *form(g, j))) for i, f in enumerate(gen.functions(gen.G2, (None, 0, 1)))
                     for j, g in enumerate(gen.functions(gen.G2, (None, 0, 2))))
    yield "bfs", ((Leaf(f, "int", "left", *form(f, 3 * i)), o, 3 if tier == "quick" else 4) for i, f in enumerate(K.start_functions()[3:9:1 if tier != "quick" else 2])
                  for o in K.CORE_UNARY)
    yield "identforms", ((Leaf(f, d, c, *a), Leaf(g, d, c, *b)) for d, c, a in gen.LONG3 for b in gen.FORMS4 for u in (True, False) for f in (gen.long(0, und=u),) for g in long_misses(f))
    yield "unaryd", ((L, o) for L in gen.long_leaves() for o in un if L.closed == "left" or not o.startswith("resample"))
    if tier == "thorough":
        yield "unary3", ((Leaf(f, "int", "left", *a), o) for f in gen.functions(gen.G3, gen.V3) for a in gen.nforms(f) for o in un)
        yield "ident_full", ((Leaf(f, "int", "left", *a), Leaf(g, "int", "left", *b)) for f in gen.functions(gen.G2, gen.V3) for g in gen.functions(gen.G2, gen.V3)
                             for a in gen.nforms(f) for b in gen.nforms(g))
        fs = list(gen.functions((0, 2), (None, 0, 1)))
        yield "identities_full", (tuple(Leaf(x, "int", "left", *form(x, i + k)) for k, x in enumerate(t)) for i, t in enumerate(itertools.product(fs, repeat=3)) if any(x.steps for x in t))


def near_misses(f):
    """f itself and functions that differ from it in exactly one respect"""
    out = [f, F(2.0 if f.init is None else None, f.steps).canon(), F((f.init or 0) + EPS, f.steps).canon()]
    for i in range(len(f.steps)):
        x, v = f.steps[i]
        for w in (None, (v or 0) + EPS, 7):
            out.append(F(f.init, f.steps[:i] + ((x, w),) + f.steps[i + 1:]).canon())
        out.append(F(f.init, f.steps[:i] + ((x + M.Fraction(1, 2), v),) + f.steps[i + 1:]).canon())
        out.append(F(f.init, f.steps[:i] + f.steps[i + 1:]).canon())
    seen = []
    for g in out:
        if g not in seen:
            seen.append(g)
    return seen


def long_misses(f):
    """f and functions that differ from it at one place near either end or in the middle"""
    out = [f, F(f.init + EPS, f.steps)]
    for i in (0, len(f.steps) // 2, len(f.steps) - 1):
        x, v = f.steps[i]
        out += [F(f.init, f.steps[:i] + ((x, w),) + f.steps[i + 1:]).canon() for w in (None, (v or 0) + EPS)]
        out += [F(f.init, f.steps[:i] + ((x + M.Fraction(1, 2), v),) + f.steps[i + 1:]).canon(), F(f.init, f.steps[:i] + f.steps[i + 1:]).canon()]
    return out


def minimal(s, dom, closed=None):
    """None or a complaint.  Exact: raw labels strictly increase, raw values really change."""
    got = impl.read(s, dom)
    prev = got.init
    for x, v in got.steps:
        if M.same(v, prev):
            return "redundant step point at %s (value %r on both sides)" % (x, v)
        prev = v
    n = s.number_of_steps
    if n != len(got.steps):
        return "number_of_steps %r but %d step values" % (n, len(got.steps))
    ch = s.step_changes
    if len(ch) != n or len(s.step_points) != n:
        return "%d step_changes, %d step_points for %d steps" % (len(ch), len(s.step_points), n)
    for x, c in zip(got.pts, ch.tolist()):
        if impl.val(c) == 0 and got.at(x, "left") is not None and got.at(x) is not None:
            return "step change of 0 at %s" % (x,)
    if len(s.to_frame()) != n + 1:
        return "to_frame has %d rows for %d steps" % (len(s.to_frame()), n)
    return None


def judge(r, e, dom, what, ctx):
    """r must be minimal, denote e, and identical() must agree with a freshly built equal / slightly different function"""
    ctx.transitions += 1
    d = minimal(r, dom)
    if d is None:
        got = impl.read(r, dom)
        if got.key() != e.canon().key() and not M.feq(got, e):
            d = "denotes %r expected %r" % (got, e)
    return d and "%s: %s" % (what, d)


def ident_all(a, b, equal, what):
    for n, g in (("f.identical(g)", a.identical(b)), ("g.identical(f)", b.identical(a))):
        if bool(g) != equal:
            return "%s %s is %r" % (what, n, g)
    return None


def run(space, case, ctx):
    ctx.traces += 1
    if space == "redundant":
        init, cells, c, j = case
        dom = DOMAINS[("int", "ts")[j]]
        f = F(init, zip((0, 1, 3, 4), cells))
        s = impl._from_values(f, dom, c)
        ctx.outcome(f.canon().key())
        return judge(s, f.canon(), dom, "from_values", ctx) or ident_all(s, impl.build(f.canon(), dom, c), True, "from_values") or judge(-s, M.unary("neg", f.canon()), dom, "-from_values", ctx)
    if space == "layers":
        h, init, r = case
        dom = DOMAINS["int"]
        s = sc.Stairs(initial_value=init)
        f = F(init, ())
        for a, b, v in h:
            s.layer(K.L(dom, a), K.L(dom, b), v)
            f = M.layer(f, [(a, b, v)])
            impl.touch(s, r)
        ctx.outcome(f.key())
        ctx.state(f.key())
        return judge(s, f, dom, "layering", ctx) or ident_all(s, impl.clone(f, dom, "left", "vals"), True, "layered and value-built twin:")
    L = case[0]
    dom = L.dom
    s, f = gen.get(L, ctx)
    if s is None:
        return None
    if space.startswith("unary") or space == "two":
        for o in case[1:]:
            fi, fm = K.UNARY[o]
            s, f = fi(s, dom), fm(f)
            if not K.exact(f):
                ctx.bump("cut_inexact")
                return None
            d = judge(s, f, dom, o, ctx)
            if d:
                return d
        ctx.outcome(f.key())
        t = impl.clone(f, dom, "left", "vals")
        return ident_all(s, t, True, "result of %s and its value-built twin:" % (case[1:],))
    if space == "binary":
        t, g = gen.get(case[1], ctx)
        if t is None:
            return None
        fi, fm = K.BINARY[case[2]]
        e = fm(f, g)
        if not K.exact(e):
            return None
        r = fi(s, t, dom)
        ctx.outcome(e.key())
        return judge(r, e, dom, case[2], ctx) or ident_all(r, impl.clone(e, dom, "left", "vals"), True, case[2])
    if space in ("ident", "identforms", "identpts", "ident_full"):
        t, g = gen.get(case[1], ctx)
        if t is None:
            return None
        ctx.transitions += 4
        ctx.outcome((f.key(), g.key()))
        eq = f.key() == g.key()
        return ident_all(s, t, eq, "%r / %r:" % (f, g)) or ident_all(s, s, True, "reflexive") or ident_all(s, t, eq, "second query %r / %r:" % (f, g))
    if space == "identscalar":
        c = SCAL[case[1]]
        cm = None if c != c else float(c)
        ctx.transitions += 2
        eq = not f.steps and M.same(f.init, cm)
        r = s.identical(c)
        if bool(r) != eq:
            return "identical(%r) is %r for %r" % (c, r, f)
        t = sc.Stairs(initial_value=c)
        return ident_all(s, t, eq, "constant %r" % c)
    if space == "bool":
        ctx.transitions += 3
        e = f.key() == F(1, ()).key()
        if bool(s) is not e:
            return "bool is %r for %r" % (bool(s), f)
        r = s == s
        if bool(r) is not (not f.has_und()):
            return "bool(f == f) is %r for %r" % (bool(r), f)
        u = s * 0 + 1
        if bool(u) is not (not f.has_und()):
            return "bool(f*0+1) is %r for %r" % (bool(u), f)
        return None
    if space == "pairid":
        t, g = gen.get(case[1], ctx)
        return pair_identities(s, t, f, g, dom, ctx)
    if space.startswith("identities"):
        objs = [gen.get(x, ctx)[0] for x in case]
        return identities(*objs, dom, ctx)
    return bfs(s, f, dom, case[1], case[2], ctx)


def pair_identities(f, g, mf, mg, dom, ctx):
    one = f * 0 + 1
    laws = [
        ("f+g = g+f", f + g, g + f), ("f*g = g*f", f * g, g * f), ("f-g = -(g-f)", f - g, -(g - f)), ("f-f = 0 on dom f", f - f, f * 0),
        ("~~f = make_boolean(f)", ~~f, f.make_boolean()), ("f.mask(g) = f.where(~g)", f.mask(g), f.where(~g)), ("f.where(g) = f.mask(~g)", f.where(g), f.mask(~g)),
        ("De Morgan &", ~(f & g), ~f | ~g), ("De Morgan |", ~(f | g), ~f & ~g), ("f^g", f ^ g, (f | g) & ~(f & g)),
        ("f<g = g>f", f < g, g > f), ("f<=g = ~(f>g)", f <= g, ~(f > g)), ("f!=g = ~(f==g)", f != g, ~(f == g)),
        ("f+0", f + 0, f), ("f*1", f * 1, f), ("f/1", f / 1, f), ("-(-f)", -(-f), f), ("copy", f.copy(), f), ("isna = ~notna", f.isna(), ~f.notna()),
        ("fillna(f) of f", f.fillna(f), f), ("f+g-g on dom g", (f + g) - g, f + g * 0), ("2f = f+f", f * 2, f + f), ("f/f on dom", (f / f).fillna(0), (f != 0).fillna(0)),
        ("min+max = sum", sc.min([f, g]) + sc.max([f, g]), f + g), ("fold", sc.sum([f, g]), f + g), ("mean", sc.mean([f, g]) * 2, f + g), ("one", one.fillna(1), 1),
    ]
    ctx.transitions += len(laws)
    ctx.outcome((mf.key(), mg.key()))
    for n, a, b in laws:
        if not a.identical(b):
            return "%s: not identical" % n
        if not isinstance(b, int):
            if not b.identical(a):
                return "%s: not identical (swapped)" % n
        d = minimal(a, dom)
        if d:
            return "%s: %s" % (n, d)
    return None


def identities(f, g, h, dom, ctx):
    laws = [("(f+g)+h", (f + g) + h, f + (g + h)), ("(f*g)*h", (f * g) * h, f * (g * h)), ("f*(g+h)", f * (g + h), f * g + f * h), ("f-(g+h)", f - (g + h), (f - g) - h),
            ("(f&g)&h", (f & g) & h, f & (g & h)), ("(f|g)|h", (f | g) | h, f | (g | h)), ("(f^g)^h", (f ^ g) ^ h, f ^ (g ^ h)),
            ("f&(g|h)", f & (g | h), (f & g) | (f & h)), ("f|(g&h)", f | (g & h), (f | g) & (f | h)), ("mask mask", f.mask(g).mask(h), f.mask(g | h)),
            ("where where", f.where(g).where(h), f.where(g & h)), ("fillna fillna", f.fillna(g).fillna(h), f.fillna(g.fillna(h))),
            ("sum", sc.sum([f, g, h]), f + g + h), ("max", sc.max([f, g, h]), sc.max([sc.max([f, g]), h])), ("min", sc.min([f, g, h]), -sc.max([-f, -g, -h])),
            ("or", sc.logical_or([f, g, h]), f | g | h), ("and", sc.logical_and([f, g, h]), f & g & h), ("lt shift", (f + h) < (g + h), (f < g) + h * 0)]
    ctx.transitions += len(laws)
    for n, a, b in laws:
        ctx.outcome(n)
        if not a.identical(b) or not b.identical(a):
            return "%s: not identical" % n
        d = minimal(a, dom) or minimal(b, dom)
        if d:
            return "%s: %s" % (n, d)
    return None


def bfs(s, f, dom, first, depth, ctx):
    seen = set()
    frontier = [(s, f, ())]
    for level in range(depth):
        nxt = []
        for s, f, path in frontier:
            for o in ([first] if level == 0 else K.CORE_UNARY + ("read values", "read changes")):
                if o.startswith("read "):
                    if level == depth - 1:
                        continue
                    t, g = copy.deepcopy(s), f
                    K.READS[o[5:]](t)
                else:
                    fi, fm = K.UNARY[o]
                    t, g = fi(s, dom), fm(f)
                    if not K.exact(g):
                        ctx.bump("cut_inexact")
                        continue
                ctx.transitions += 1
                got = impl.read(copy.deepcopy(t), dom)
                if got.key() != g.canon().key():
                    return "%s: %s" % (" ; ".join(path + (o,)), "not minimal" if M.feq(got, g) else "denotes %r expected %r" % (got, g))
                if bool(t) is not (g.key() == F(1, ()).key()):
                    return "%s: bool is %r" % (" ; ".join(path + (o,)), bool(t))
                if level == depth - 1:
                    continue
                k = hash((impl.snapshot(t), g.key()))
                if k in seen:
                    ctx.bump("merged_states")
                    continue
                seen.add(k)
                ctx.state(k)
                ctx.outcome(g.key())
                d = ident_all(t, impl.clone(g, dom, "left", "vals"), True, " ; ".join(path + (o,)))
                if d:
                    return d
                nxt.append((t, g, path + (o,)))
        frontier = nxt
    return None
