"""Deterministic enumeration helpers."""
import itertools

from . import impl
from . import model as M
from .domains import BASE, DOMAINS
from .model import F

G2, G3, G4 = (0, 2), (0, 2, 4), (0, 2, 4, 6)
V3 = (None, 0, 1)
V4 = (None, 0, 1, -2)
V5 = (None, 0, 1, -2, 0.5)
ALL_DOMS = BASE
# (route, materialisation): change-only, value-only, both forms reached from either side, results, ...
FORMS4 = (("vals", ""), ("vals", "c"), ("vlay", ""), ("vlay", "v"))
FORMS = FORMS4 + (("lay", ""), ("lay", "v"), ("vec", ""), ("ivals", ""), ("res", ""), ("resadd", "c"), ("copy", ""))


def functions(grid, V):
    """every function that is constant between grid points, values from V (None = undefined)"""
    for cells in itertools.product(V, repeat=len(grid) + 1):
        yield M.from_cells(cells, grid)


def nforms(f, forms=FORMS):
    """forms that make sense for f (a step-free function has fewer distinct ones)"""
    if not f.steps:
        return [x for x in forms if x[0] in ("vals", "lay", "vec") and x[1] == ""]
    return forms


class Leaf(tuple):
    """(F key, domain name, closed, route, mat) - picklable, printable"""
    __slots__ = ()

    def __new__(cls, f, dom="int", closed="left", route="vals", mat=""):
        return tuple.__new__(cls, (f.key(), dom, closed, route, mat))

    def __getnewargs__(self):
        return (self.f, self[1], self[2], self[3], self[4])

    @property
    def f(self):
        return F(*self[0])

    @property
    def dom(self):
        return DOMAINS[self[1]]

    @property
    def closed(self):
        return self[2]

    def obj(self):
        return impl.clone(self.f, self[1], self[2], self[3], self[4])

    def fresh(self):
        return impl.build(self.f, self[1], self[2], self[3], self[4])

    def denoted(self):
        return impl.denoted(self.f, self[1], self[2], self[3], self[4])


def get(leaf, ctx):
    """(private object, denoted function) or (None, None) when the library cannot build the operand
    (operand construction is decided by the properties about construction, not by the caller)."""
    try:
        d = leaf.denoted()
        o = leaf.obj()
    except Exception as e:
        ctx.skip("operand not built: %s" % type(e).__name__)
        return None, None
    if not M.feq(d, leaf.f):
        ctx.bump("operands_denoting_something_else_than_intended")
    ctx.state("op", d.key(), leaf[1], leaf[2], leaf[3], leaf[4])
    return o, d


def de_bruijn_cells(alphabet):
    """A cyclic-free sequence over `alphabet` in which every ordered pair of symbols occurs adjacently."""
    k = len(alphabet)
    edges = {i: list(range(k - 1, -1, -1)) for i in range(k)}
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if edges[v]:
            stack.append(edges[v].pop())
        else:
            out.append(stack.pop())
    return [alphabet[i] for i in reversed(out)]


def universal_tuple(Vs):
    """Functions f1..fn over one long grid such that every adjacent pair of joint cell values occurs."""
    cells = de_bruijn_cells(list(itertools.product(*Vs)))
    grid = [2 * i for i in range(len(cells) - 1)]
    return tuple(M.from_cells([c[j] for c in cells], grid) for j in range(len(Vs)))


def long(i=0, n=1300, und=True):
    """A function with about n steps, dozens of distinct values, plateaus and (und) gaps: exceeds any small-size special case.
    Different i share some step points and interleave at others."""
    cells, grid = [3 - i], []
    for j in range(n):
        v = ((j * (7 + 2 * i) + i) % 61) - 20
        if und and (j + 3 * i) % 13 < 2:
            v = None
        elif j % 5 == 4:
            v = cells[-1]
        cells.append(v)
        grid.append(2 * (2 * j + ((j + i) % 2)))
    return M.from_cells(cells, grid)


LONG3 = (("int", "left", ("vals", "")), ("ts", "right", ("vlay", "v")), ("float", "right", ("vals", "c")))


def long_leaves(und=(True, False), doms=LONG3):
    return [Leaf(long(i, und=u), d, c, *a) for i, (d, c, a) in enumerate(doms) for u in und]


def describe_leaf(l):
    f = l.f
    return "Stairs[%s closed=%s built by %s%s]: %s towards -inf%s" % (
        l[1], l[2], l[3], " then read:" + l[4] if l[4] else "", f.init,
        "".join(", %s from %s" % (v, l.dom.label(x)) for x, v in f.steps))


def explain(space, case):
    def show(o):
        if isinstance(o, Leaf):
            return describe_leaf(o)
        if isinstance(o, tuple):
            return "(" + ", ".join(show(x) for x in o) + ")"
        return repr(o)
    return show(case)


def scalars_key(c):
    return "%s(%r)" % (type(c).__name__, c)
