"""Shared case spaces and runner for the pointwise binary operators."""
import numpy as np

from . import gen, impl
from . import model as M
from .gen import Leaf

NAN = float("nan")
SCALARS = (0, 1, -2, 0.5, NAN, True, False, np.int64(2), np.int64(0), np.float64(-0.5), np.float32(2), np.uint8(1),
           np.int8(-2), np.bool_(True), np.float64(NAN), -0.0)
SIDES = ("left", "right")


def few():
    F = M.F
    return [F(0, ((0, 1), (2, 0))), F(1, ((0, -2), (2, 1), (4, 0))), F(None, ((0, 1), (2, None))),
            F(0, ((0, None), (2, 2))), F(2, ()), F(0, ()), F(None, ())]


def pair_spaces(ops, tier, V=gen.V4, scalars=True, W=(None, 0, 1), heavy=1):
    """V: values of the exhaustive 2-point pairs, W: values of the 3-point pairs / form products.
    heavy > 1 thins nothing but selects smaller products for expensive operators."""
    yield "pairs2", ((o, Leaf(f), Leaf(g)) for f in gen.functions(gen.G2, V) for g in gen.functions(gen.G2, V) for o in ops)
    if heavy == 1:
        yield "pairs3", ((o, Leaf(f, "float", "right"), Leaf(g, "float", "right")) for f in gen.functions(gen.G3, (None, 0, 2))
                         for g in gen.functions((0, 2), W) for o in ops)
    yield "interleave", ((o, Leaf(f, "int", "right"), Leaf(g, "int", "right"))
                         for f in gen.functions((0, 4), W) for g in gen.functions((2, 6), W) for o in ops)
    yield "forms", ((o, Leaf(f, "float", "left", *a), Leaf(g, "float", "left", *b))
                    for f in gen.functions((0,), (None, 0, 1)) for g in gen.functions((0,) if heavy > 1 else gen.G2, W)
                    for a in gen.nforms(f, gen.FORMS4) for b in gen.nforms(g, gen.FORMS4) for o in ops)
    yield "domains", ((o, Leaf(f, d, c), Leaf(g, d, c)) for d in gen.ALL_DOMS for c in SIDES
                      for f in gen.functions(gen.G2, (None, 2)) for g in gen.functions((0, 4), (None, 0) if heavy == 1 else (0, 1))
                      for o in ops)
    yield "routes", ((o, Leaf(f, d, c, *a), Leaf(g, d, c, *b)) for d, c in (("int", "right"), ("ts", "left"))
                     for f in few() for g in few() for a in gen.nforms(f)[::heavy] for b in gen.nforms(g)[:: 3 * heavy] for o in ops)
    if scalars:
        yield "scalar", ((o, i, rev, (i + len(f.steps)) % 2, Leaf(f, "int", "left", *a)) for f in gen.functions(gen.G2, V[:3])
                         for a in gen.nforms(f, gen.FORMS4) for i in range(len(SCALARS)) for rev in (0, 1)
                         for o in ops)
        yield "scalar3", ((o, i, rev, 0, Leaf(f, d, c)) for d, c in (("float", "right"), ("tzfix", "left"), ("td", "right"))
                          for f in gen.functions(gen.G3, (None, 0, 1)) for i in (0, 2, 4) for rev in (0, 1) for o in ops)
    u = gen.universal_tuple([V, V])
    yield "universal", ((o, Leaf(u[0], d, c, *a), Leaf(u[1], d, c, *b)) for d, c in (("int", "left"), ("ts", "right"))
                        for a in gen.FORMS4 for b in gen.FORMS4 for o in ops)
    yield "universal_domains", ((o, Leaf(u[0], d, c), Leaf(u[1], d, c)) for d in gen.ALL_DOMS for c in SIDES for o in ops)
    yield "long", ((o, Leaf(f, d, c, *a), Leaf(g, d, c, *b)) for d, c, a, b in LONGFORMS
                   for f, g in ((gen.long(0), gen.long(1)), (gen.long(2, und=False), gen.long(1, und=False)), (gen.long(2), gen.long(0, 3)), (gen.long(1, 3, False), gen.long(0, und=False))) for o in ops)
    if tier == "thorough":
        yield "pairs3_full", ((o, Leaf(f, "int", "left", "vals", ""), Leaf(g, "int", "left", "vlay", ""))
                              for f in gen.functions(gen.G3, V) for g in gen.functions(gen.G3, V) for o in ops)
        yield "forms_full", ((o, Leaf(f, "int", "right", *a), Leaf(g, "int", "right", *b))
                             for f in gen.functions(gen.G2, (None, 0, 1)) for g in gen.functions(gen.G2, (None, 0, 1))
                             for a in gen.nforms(f) for b in gen.nforms(g) for o in ops)
        yield "domains_full", ((o, Leaf(f, d, c, *a), Leaf(g, d, c, *b)) for d in gen.ALL_DOMS for c in SIDES
                               for f in gen.functions(gen.G2, (None, 0, 2)) for g in gen.functions(gen.G2, (None, 0, 2))
                               for a in gen.nforms(f, gen.FORMS4) for b in gen.nforms(g, gen.FORMS4) for o in ops)


LONGFORMS = (("int", "left", ("vals", ""), ("vlay", "v")), ("ts", "right", ("vals", "c"), ("vals", "")), ("float", "right", ("vlay", ""), ("vlay", "")))
DEEP = ("pairs2", "scalar3", "domains", "interleave", "universal_domains", "long")


def apply_binary(o, f, g, sp):
    """three spellings of f o g for step functions"""
    if sp == 1 and o in impl.METHOD:
        return getattr(f, impl.METHOD[o])(g)
    if sp == 2 and o in impl.RMETHOD:
        return getattr(g, impl.RMETHOD[o])(f)
    return impl.BIN[o](f, g)


def run_pair(space, case, ctx, follow=None):
    if space.startswith("scalar"):
        o, i, rev, sp, L = case
        f, fd = gen.get(L, ctx)
        if f is None:
            return None
        c = SCALARS[i]
        cm = None if c != c else float(c)
        if rev:
            if sp and o in impl.RMETHOD:
                h = getattr(f, impl.RMETHOD[o])(c)
            else:
                h = impl.BIN[o](c, f)
            exp = M.binary(o, M.const(cm), fd)
        else:
            h = getattr(f, impl.METHOD[o])(c) if sp else impl.BIN[o](f, c)
            exp = M.binary(o, fd, M.const(cm))
        dom = L.dom
    else:
        o, Lf, Lg = case
        f, fd = gen.get(Lf, ctx)
        g, gd = gen.get(Lg, ctx)
        if f is None or g is None:
            return None
        h = apply_binary(o, f, g, (len(fd.steps) + 2 * len(gd.steps)) % 3)
        exp = M.binary(o, fd, gd)
        dom = Lf.dom
    ctx.transitions += 1
    ctx.traces += 1
    ctx.state("res", exp.key(), dom.name)
    d = impl.compare(h, dom, exp, deep=space in DEEP)
    ctx.outcome(exp.key())
    if d is None and follow is not None:
        d = follow(h, exp, dom, ctx)
    return d and "%s: %s" % (o, d)


def follow_up(h, exp, dom, ctx):
    """the result is an ordinary step function: every kind of further operation completes and is right"""
    x = (exp.pts[0] if exp.pts else 0)
    checks = []
    checks.append(("h + h", h + h, M.binary("add", exp, exp)))
    checks.append(("h * 3 - h", h * 3 - h, M.pointwise(M.strict(lambda a: a * 2), exp)))
    checks.append(("~h", ~h, M.unary("invert", exp)))
    checks.append(("h.mask(h)", h.mask(h), M.binary("mask", exp, exp)))
    checks.append(("h.fillna(7)", h.fillna(7), M.binary("fillna", exp, M.const(7))))
    if not h.identical(h.copy()):
        return "h.identical(h.copy()) is False"
    k = h.copy()
    k.layer(dom.label(x), dom.label(x + 3), 2)
    checks.append(("layer", k, M.layer(exp, [(x, x + 3, 2)])))
    ctx.transitions += len(checks)
    for n, r, e in checks:
        d = impl.compare(r, dom, e)
        if d:
            return "follow-up %s: %s" % (n, d)
    vals = h.step_values
    if len(vals) and vals.dtype.kind not in "iuf":
        return "values of the result have dtype %s" % vals.dtype
    return None
