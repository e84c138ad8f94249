"""C01 arithmetic is pointwise."""
import itertools

import numpy as np

from .. import gen, impl
from .. import model as M
from ..gen import Leaf, explain  # noqa
from ..pairs import LONGFORMS

OPS = ("add", "sub", "mul", "div")
NAN = float("nan")
SCALARS = (0, 1, -2, 0.5, -0.0, NAN, True, np.int64(2), np.int64(0), np.float64(-0.5), np.float32(2), np.float64(NAN))
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 31, ()
VALS_STRIDE, VALS_SKIP = 31, ()
BOUNDS = {
    "quick": "all pairs over 2-point grids with values {undefined,0,1,-2} (x16 materialisation pairs for {undefined,0,1}); "
             "all pairs over 3-point grids with {undefined,1,-2}; interleaved 2+2 points; 8 label domains x 2 closed sides x "
             "pairs over {undefined,0,2}; 11 construction routes; 12 scalars x both orders x 3 spellings over 3-point grids; one pair "
             "holding every adjacent joint transition (256+ pieces)",
    "thorough": "as quick plus all pairs over 3-point grids with values {undefined,0,1,-2} and all 11x11 route pairs over 2-point grids",
}
RULE = "a case is (f, g, op) or (f, scalar, op, order, spelling); expected table computed from what the operands denote"


def spaces(tier):
    yield "pairs2", ((o, Leaf(f), Leaf(g)) for f in gen.functions(gen.G2, gen.V4)
                     for g in gen.functions(gen.G2, gen.V4) for o in OPS)
    yield "forms", ((o, Leaf(f, "float", "left", *a), Leaf(g, "float", "left", *b))
                    for f in gen.functions(gen.G2, gen.V3) for g in gen.functions(gen.G2, gen.V3)
                    for a in gen.nforms(f, gen.FORMS4) for b in gen.nforms(g, gen.FORMS4) for o in OPS)
    yield "interleave", ((o, Leaf(f, "int", "right"), Leaf(g, "int", "right"))
                         for f in gen.functions((0, 4), gen.V4) for g in gen.functions((2, 6), gen.V3) for o in OPS)
    yield "pairs3", ((o, Leaf(f), Leaf(g)) for f in gen.functions(gen.G3, (None, 1, -2))
                     for g in gen.functions(gen.G3, (None, 1, -2)) for o in OPS)
    yield "domains", ((o, Leaf(f, d, c), Leaf(g, d, c)) for d in gen.ALL_DOMS for c in ("left", "right")
                      for f in gen.functions(gen.G2, (None, 2)) for g in gen.functions((0, 4), (None, 0, 1)[:2 + (d == "ts")])
                      for o in OPS)
    yield "routes", ((o, Leaf(f, d, c, *a), Leaf(g, d, c, *b)) for d, c in (("int", "right"), ("ts", "left"), ("tzfall", "left"))
                     for f in _few() for g in _few() for a in gen.nforms(f) for b in gen.nforms(g)[:: 3] for o in OPS)
    yield "fraction", ((o, Leaf(f, "float", "left", r), Leaf(g, "float", "left", r)) for r in ("vals", "lay")
                       for f in gen.functions(gen.G2, (0.1, -0.3, 1e6)) for g in gen.functions(gen.G2, (0.7, -1e-3, 0)) for o in OPS)
    yield "scalar", ((o, i, rev, sp, Leaf(f, "int", "left", *a)) for f in gen.functions(gen.G2, gen.V4)
                     for a in gen.nforms(f, gen.FORMS4) for i in range(len(SCALARS)) for rev in (0, 1) for sp in ((0, 1) if i < 2 else (i % 2,)) for o in OPS)
    yield "scalar3", ((o, i, rev, 0, Leaf(f, d, c)) for d, c in (("float", "right"), ("tzfix", "left"), ("td", "right"))
                      for f in gen.functions(gen.G3, gen.V3) for i in (0, 2, 3, 5) for rev in (0, 1) for o in OPS)
    yield "neg", ((Leaf(f, d, c, *a),) for d in gen.ALL_DOMS for c in ("left", "right")
                  for f in gen.functions(gen.G2, gen.V3) for a in gen.nforms(f, gen.FORMS4))
    yield "negroutes", ((Leaf(f, "float", "right", *a),) for f in gen.functions(gen.G2, gen.V4) for a in gen.nforms(f))
    u = gen.universal_tuple([gen.V4, gen.V4])
    yield "universal", ((o, Leaf(u[0], d, c, *a), Leaf(u[1], d, c, *b)) for d, c in (("int", "left"), ("ts", "right"))
                        for a in gen.FORMS4 for b in gen.FORMS4 for o in OPS)
    yield "universal_domains", ((o, Leaf(u[0], d, c), Leaf(u[1], d, c)) for d in gen.ALL_DOMS for c in ("left", "right") for o in OPS)
    v = gen.universal_tuple([gen.V4[1:], gen.V4[1:]])
    yield "universal_defined", ((o, Leaf(v[0], "int", "left", *a), Leaf(v[1], "int", "left", *b))
                                for a in gen.FORMS for b in gen.FORMS for o in OPS)
    yield "long", ((o, Leaf(f, d, c, *a), Leaf(g, d, c, *b)) for d, c, a, b in LONGFORMS
                   for f, g in ((gen.long(0), gen.long(1)), (gen.long(2, und=False), gen.long(1, und=False)), (gen.long(2), gen.long(0, 3)), (gen.long(1, 3, False), gen.long(0, und=False))) for o in OPS)
    yield "scalar_long", ((o, i, rev, 0, Leaf(gen.long(0, und=u), "int", "left", *a)) for u in (True, False) for a in gen.FORMS4 for i in (0, 2, 3, 5) for rev in (0, 1) for o in OPS)
    if tier == "thorough":
        yield "pairs3_full", ((o, Leaf(f, "float"), Leaf(g, "float")) for f in gen.functions(gen.G3, gen.V4)
                              for g in gen.functions(gen.G3, gen.V4) for o in OPS)
        yield "forms_full", ((o, Leaf(f, "int", "right", *a), Leaf(g, "int", "right", *b))
                             for f in gen.functions(gen.G2, gen.V3) for g in gen.functions(gen.G2, gen.V3)
                             for a in gen.nforms(f) for b in gen.nforms(g) for o in OPS)
        yield "domains_full", ((o, Leaf(f, d, c, *a), Leaf(g, d, c, *b)) for d in gen.ALL_DOMS for c in ("left", "right")
                               for f in gen.functions(gen.G2, (None, 0, 2)) for g in gen.functions(gen.G2, (None, 0, 2))
                               for a in gen.nforms(f, gen.FORMS4) for b in gen.nforms(g, gen.FORMS4) for o in OPS)


def _few():
    from ..model import F
    return [F(0, ((0, 1), (2, 0))), F(1, ((0, -2), (2, 1), (4, 0))), F(None, ((0, 1), (2, None))),
            F(0, ((0, None), (2, 2))), F(2, ()), F(0, ()), F(None, ())]


def run(space, case, ctx):
    if space.startswith("neg"):
        f, fd = gen.get(case[0], ctx)
        if f is None:
            return None
        h = -f if hash(case) % 2 else f.negate()
        exp = M.unary("neg", fd)
        dom = case[0].dom
    elif space.startswith("scalar"):
        o, i, rev, sp, L = case
        f, fd = gen.get(L, ctx)
        if f is None:
            return None
        c = SCALARS[i]
        cm = None if c != c else float(c)
        if rev:
            h = impl.BIN[o](c, f) if not sp else getattr(f, impl.RMETHOD[o])(c)
            exp = M.binary(o, M.const(cm), fd)
        else:
            h = impl.BIN[o](f, c) if not sp else getattr(f, impl.METHOD[o])(c)
            exp = M.binary(o, fd, M.const(cm))
        dom = L.dom
    else:
        o, Lf, Lg = case
        f, fd = gen.get(Lf, ctx)
        g, gd = gen.get(Lg, ctx)
        if f is None or g is None:
            return None
        sp = (len(fd.steps) + 2 * len(gd.steps)) % 3
        h = (impl.BIN[o](f, g) if sp == 0 else getattr(f, impl.METHOD[o])(g) if sp == 1 else getattr(g, impl.RMETHOD[o])(f))
        exp = M.binary(o, fd, gd)
        dom = Lf.dom
    ctx.transitions += 1
    ctx.traces += 1
    ctx.state("res", exp.key(), dom.name)
    d = impl.compare(h, dom, exp, deep=space in ("pairs2", "scalar3", "domains", "neg", "universal_domains", "long", "scalar_long"))
    ctx.outcome((exp.key()))
    return d and "%s: %s" % (case[0] if isinstance(case[0], str) else "neg", d)
