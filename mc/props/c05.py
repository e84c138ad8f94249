"""C05 logical operators act on truthiness and propagate undefinedness."""
from .. import gen, impl, pairs
from .. import model as M
from ..gen import Leaf, explain  # noqa

OPS = ("and", "or", "xor")
V = (None, 0, 1, -2)
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 23, ()
VALS_STRIDE, VALS_SKIP = 23, ()
BOUNDS = {
    "quick": "&,|,^ x (all pairs over 2-point grids with {undefined,0,1,-2}; 3-point against 2-point; interleaved grids; 4x4 "
             "materialisation pairs; 8 domains x 2 sides; 11 routes; 16 scalars x both orders x spellings; one pair holding every "
             "adjacent joint transition); ~ and make_boolean on all 3-point functions x 11 routes and all domains/sides",
    "thorough": "as quick plus all 3-point pairs with {undefined,0,1,-2}, all 11x11 route pairs and 4x4 forms in every domain",
}
RULE = "a case is (operator, f, g or scalar) or (~/make_boolean, f); result table = pointwise truth table of what the operands denote"


def spaces(tier):
    yield from pairs.pair_spaces(OPS, tier, V, W=(None, 0, -2))
    yield "tiny", ((o, Leaf(f, "float"), Leaf(g, "float")) for f in gen.functions((0,), (5e-324, 0.0, -0.0, 1e300, 0.5))
                   for g in gen.functions((2,), (0.0, -1e-300, -0.0)) for o in OPS)
    yield "unary", ((o, Leaf(f, "int", "right", *a)) for f in gen.functions(gen.G3, (None, 0, 0.5, -1)) for a in gen.nforms(f)
                    for o in ("invert", "make_boolean"))
    yield "unary_domains", ((o, Leaf(f, d, c, *a)) for d in gen.ALL_DOMS for c in pairs.SIDES for f in gen.functions(gen.G2, (None, 0, 2))
                            for a in gen.nforms(f, gen.FORMS4) for o in ("invert", "make_boolean"))
    yield "follow", ((o, Leaf(f), Leaf(g)) for f in gen.functions(gen.G2, (None, 0, 2)) for g in gen.functions((2,), (None, 0, 2)) for o in OPS)
    yield "scalar_follow", ((o, i, rev, 0, Leaf(f, "ts", "right", *a)) for f in gen.functions(gen.G2, (None, 0, 2))
                            for a in gen.nforms(f, (("vals", ""), ("lay", ""))) for i in (0, 1, 4) for rev in (0, 1) for o in OPS)


def run(space, case, ctx):
    if space.startswith("unary"):
        o, L = case
        f, fd = gen.get(L, ctx)
        if f is None:
            return None
        h = f.invert() if o == "invert" and len(fd.steps) % 2 else impl.UN[o](f)
        exp = M.unary(o, fd)
        ctx.transitions += 1
        ctx.traces += 1
        ctx.outcome(exp.key())
        d = impl.compare(h, L.dom, exp, deep=True)
        return d and "%s: %s" % (o, d)
    return pairs.run_pair(space, case, ctx, pairs.follow_up if "follow" in space else None)
