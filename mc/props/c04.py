"""C04 relational operators are pointwise 0/1 indicators."""
from .. import gen, pairs
from ..gen import Leaf, explain  # noqa

OPS = ("lt", "le", "gt", "ge", "eq", "ne")
V = (None, 0, 1, -2)
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 29, ()
VALS_STRIDE, VALS_SKIP = 29, ('near',)
BOUNDS = {
    "quick": "6 relations x (all pairs over 2-point grids with {undefined,0,1,-2}; 3-point against 2-point with {undefined,0,1|2}; "
             "interleaved grids; 4x4 materialisation pairs; 8 domains x 2 sides; 11 routes; 16 scalars x both orders x operator/method "
             "spelling; one pair holding every adjacent joint transition); follow-up operations on every result of the smaller spaces",
    "thorough": "as quick plus all 3-point pairs with {undefined,0,1,-2}, all 11x11 route pairs and 4x4 forms in every domain",
}
RULE = "a case is (relation, f, g or scalar); the result table must equal the pointwise 0/1 table computed from what the operands denote"


def spaces(tier):
    yield from pairs.pair_spaces(OPS, tier, V)
    yield "near", ((o, Leaf(f, "float"), Leaf(g, "float")) for f in gen.functions((0,), (0.1, 0.3, 1e300, -1e300, 5e-324))
                   for g in gen.functions((2,), (0.1, 0.30000000000000004, 1e300, -0.0)) for o in OPS)
    yield "follow", ((o, Leaf(f), Leaf(g)) for f in gen.functions(gen.G2, (None, 0, 1)) for g in gen.functions((2,), (None, 0, 1)) for o in OPS)
    yield "scalar_follow", ((o, i, rev, 0, Leaf(f, "ts", "right", *a)) for f in gen.functions(gen.G2, (None, 0, 1))
                            for a in gen.nforms(f, (("vals", ""), ("lay", ""))) for i in (0, 1, 4, 9) for rev in (0, 1) for o in OPS)


def run(space, case, ctx):
    return pairs.run_pair(space, case, ctx, pairs.follow_up if "follow" in space else None)
