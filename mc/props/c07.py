"""C07 fillna."""
import numpy as np

from .. import gen, impl, pairs
from .. import model as M
from ..gen import Leaf, explain  # noqa

V = (None, 0, 1, -2)
METHODS = ("ffill", "pad", "bfill", "backfill")
FILL = (0, 1, -3, 0.5, True, np.int64(4), np.float32(0.5), np.uint8(3), float("nan"), np.bool_(True))
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 11, ()
VALS_STRIDE, VALS_SKIP = 11, ()
BOUNDS = {
    "quick": "methods x all 4-point functions {undefined,0,1} and all 3-point functions {undefined,0,1,-2} x 11 routes, all domains and "
             "sides; 10 scalar fill values x all 2-point functions x 4 forms; step-function fill: all 2-point pairs {undefined,0,1,-2}, "
             "forms, routes, domains, universal pair",
    "thorough": "as quick plus all 3-point pairs, 11x11 routes, 4x4 forms in every domain, methods on all 5-point functions",
}
RULE = "a case is (fill value / method / function, f); the result table must equal the definition pointwise"


def spaces(tier):
    yield "method4", ((m, Leaf(f, "float", "right")) for f in gen.functions(gen.G4, (None, 0, 1)) for m in METHODS)
    yield "method_routes", ((m, Leaf(f, "int", "left", *a)) for f in gen.functions(gen.G3, V) for a in gen.nforms(f) for m in METHODS[::2])
    yield "method_domains", ((m, Leaf(f, d, c, *a)) for d in gen.ALL_DOMS for c in pairs.SIDES for f in gen.functions(gen.G2, (None, 0, 2))
                             for a in gen.nforms(f, gen.FORMS4) for m in ("pad", "backfill"))
    yield "scalar", ((i, Leaf(f, "int", "left", *a)) for f in gen.functions(gen.G2, V) for a in gen.nforms(f, gen.FORMS4)
                     for i in range(len(FILL)))
    yield "scalar_domains", ((i, Leaf(f, d, c)) for d in gen.ALL_DOMS for c in pairs.SIDES for f in gen.functions(gen.G2, V) for i in (0, 2, 3))
    yield "scalar_routes", ((i, Leaf(f, "ts", "right", *a)) for f in gen.functions(gen.G3, (None, 0, 1)) for a in gen.nforms(f) for i in (0, 3))
    yield from pairs.pair_spaces(("fillna",), tier, V, scalars=False)
    yield "inverse", (("fillna", Leaf(f, "int", "right", *a), Leaf(g, "int", "right", *b)) for f in gen.functions((0, 2), (None, 1))
                      for g in gen.functions((1, 2, 3), (None, 5)) for a in gen.nforms(f, gen.FORMS4) for b in gen.nforms(g, gen.FORMS4[:2]))
    u = gen.universal_tuple([V])[0]
    yield "method_universal", ((m, Leaf(u, d, c, *a)) for d in gen.ALL_DOMS for c in pairs.SIDES for a in gen.FORMS4 for m in METHODS)
    yield "scalar_universal", ((i, Leaf(u, d, c, *a)) for d in gen.ALL_DOMS for c in pairs.SIDES for a in gen.FORMS4 for i in range(len(FILL)))
    yield "method_long", ((m, L) for L in gen.long_leaves((True,)) for m in METHODS)
    yield "scalar_long", ((i, L) for L in gen.long_leaves((True,)) for i in range(len(FILL)))
    if tier == "thorough":
        yield "method5", ((m, Leaf(f, "float", "right", *a)) for f in gen.functions((0, 1, 2, 5, 6), (None, 0, 1))
                          for a in gen.nforms(f, gen.FORMS4) for m in METHODS)


def run(space, case, ctx):
    if not space.startswith(("method", "scalar")):
        return pairs.run_pair(space, case, ctx)
    m, L = case
    f, fd = gen.get(L, ctx)
    if f is None:
        return None
    if space.startswith("method"):
        h, exp = f.fillna(m), (M.ffill if m in ("ffill", "pad") else M.bfill)(fd)
    else:
        v = FILL[m]
        h, exp = f.fillna(v), M.binary("fillna", fd, M.const(None if v != v else float(v)))
    ctx.transitions += 1
    ctx.traces += 1
    ctx.outcome(exp.key())
    ctx.state("res", exp.key(), L[1])
    d = impl.compare(h, L.dom, exp, deep="domains" in space or space == "method4")
    return d and "%s: %s" % (m if isinstance(m, str) else "scalar", d)
