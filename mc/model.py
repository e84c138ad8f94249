"""Reference model: finite piece tables over exact coordinates.  No numpy, no pandas.

A step function is F(init, steps): `init` is the value towards -inf, `steps` a tuple of (x, v) with
strictly increasing exact coordinates x (int / Fraction) and v the value on [x, next x) (right limit).
None is "undefined".  F is canonical iff no step repeats the value before it.
"""
import bisect
import math
from fractions import Fraction

UND = None
UNIT = 1.0  # values of this size are ordinary: comparisons allow for rounding relative to it


def same(a, b):
    """Canonical-form equality of two piece values (exact)."""
    if a is None or b is None:
        return a is None and b is None
    return a == b


def close(a, b, tol=1e-9, scale=None):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        if a == b:
            return True
        return abs(a - b) <= tol * max(scale or UNIT, abs(a), abs(b))
    except (TypeError, OverflowError):
        return False


class F:
    __slots__ = ("init", "steps", "_pts")

    def __init__(self, init=0, steps=()):
        self.init = init
        self.steps = tuple(steps)
        self._pts = None

    def canon(self):
        out = []
        prev = self.init
        for x, v in self.steps:
            if not same(v, prev):
                out.append((x, v))
                prev = v
        return F(self.init, out)

    def is_canon(self):
        prev = self.init
        px = None
        for x, v in self.steps:
            if same(v, prev) or (px is not None and not px < x):
                return False
            prev, px = v, x
        return True

    @property
    def pts(self):
        if self._pts is None:
            self._pts = tuple([x for x, _ in self.steps])
        return self._pts

    @property
    def vals(self):
        return tuple(v for _, v in self.steps)

    def at(self, x, side="right"):
        i = (bisect.bisect_right if side == "right" else bisect.bisect_left)(self.pts, x)
        return self.steps[i - 1][1] if i else self.init

    def sample(self, x, closed="left"):
        return self.at(x, "right" if closed == "left" else "left")

    def pieces(self):
        """[(lo or None, hi or None, value)] tiling the line."""
        lo, v, out = None, self.init, []
        for x, w in self.steps:
            out.append((lo, x, v))
            lo, v = x, w
        out.append((lo, None, v))
        return out

    def finite_pieces(self):
        return [(a, b, v) for a, b, v in self.pieces() if a is not None and b is not None]

    def defined_pieces(self):
        return [(a, b, v) for a, b, v in self.finite_pieces() if v is not None]

    def key(self):
        return (self.init, self.steps)

    def __eq__(self, o):
        return isinstance(o, F) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "F(%r, %r)" % (self.init, self.steps)

    def has_und(self):
        return self.init is None or any(v is None for v in self.vals)


def const(c):
    return F(c, ())


def from_cells(cells, grid):
    """cells[0] towards -inf, cells[i] on [grid[i-1], grid[i])"""
    return F(cells[0], zip(grid, cells[1:])).canon()


def merge(fs):
    return sorted({x for f in fs for x in f.pts})


def pointwise(op, *fs):
    """op maps tuple of values to a value"""
    xs = merge(fs)
    return F(op(*[f.init for f in fs]), [(x, op(*[f.at(x) for f in fs])) for x in xs]).canon()


def strict(op):
    """undefined if any argument undefined"""
    def g(*vs):
        if any(v is None for v in vs):
            return None
        return op(*vs)
    return g


def feq(a, b):
    """Equality of two functions (up to value tolerance) at all points."""
    if not close(a.init, b.init):
        return False
    for x in merge((a, b)):
        if not close(a.at(x), b.at(x)):
            return False
    return True


def fdiff(a, b, scale=None):
    """A human readable first difference."""
    if not close(a.init, b.init, scale=scale):
        return "towards -inf: got %r expected %r" % (a.init, b.init)
    for x in merge((a, b)):
        if not close(a.at(x), b.at(x), scale=scale):
            return "from x=%s on: got %r expected %r" % (x, a.at(x), b.at(x))
    return None


def _div(a, b):
    return None if b == 0 else a / b


ARITH = {"add": strict(lambda a, b: a + b), "sub": strict(lambda a, b: a - b),
         "mul": strict(lambda a, b: a * b), "div": strict(_div)}
REL = {"lt": strict(lambda a, b: int(a < b)), "le": strict(lambda a, b: int(a <= b)),
       "gt": strict(lambda a, b: int(a > b)), "ge": strict(lambda a, b: int(a >= b)),
       "eq": strict(lambda a, b: int(a == b)), "ne": strict(lambda a, b: int(a != b))}
LOGIC = {"and": strict(lambda a, b: int(a != 0 and b != 0)), "or": strict(lambda a, b: int(a != 0 or b != 0)),
         "xor": strict(lambda a, b: int((a != 0) != (b != 0)))}
BINARY = {}
BINARY.update(ARITH)
BINARY.update(REL)
BINARY.update(LOGIC)
BINARY["mask"] = lambda a, g: a if (g is not None and g == 0) else None
BINARY["where"] = lambda a, g: a if (g is not None and g != 0) else None
BINARY["fillna"] = lambda a, g: g if a is None else a
UNARY = {"neg": strict(lambda a: -a), "invert": strict(lambda a: int(a == 0)),
         "make_boolean": strict(lambda a: int(a != 0)),
         "isna": lambda a: int(a is None), "notna": lambda a: int(a is not None),
         "copy": lambda a: a}


def binary(name, f, g):
    return pointwise(BINARY[name], f, g)


def unary(name, f):
    return pointwise(UNARY[name], f)


def indicator(a, b):
    """+1 from a on (None = -inf), -1 from b on (None = inf)."""
    return layer(const(0), [(a, b, 1)])


def layer(f, triples):
    triples = [(s, e, 1 if v is None else v) for s, e, v in triples]

    def total(x):
        t = 0
        for s, e, v in triples:
            if s is None or (x is not None and x >= s):
                t += v
            if e is not None and x is not None and x >= e:
                t -= v
        return t

    xs = sorted(set(f.pts) | {s for s, _, _ in triples if s is not None} | {e for _, e, _ in triples if e is not None})
    add = strict(lambda a, b: a + b)
    return F(add(f.init, total(None)), [(x, add(f.at(x), total(x))) for x in xs]).canon()


def clip(f, a, b):
    """restrict to [a, b); None = unrestricted."""
    xs = sorted(set(f.pts) | {x for x in (a, b) if x is not None})
    init = f.init if a is None else None
    st = [(x, f.at(x) if (a is None or x >= a) and (b is None or x < b) else None) for x in xs]
    return F(init, st).canon()


def mask_interval(f, a, b):
    return binary("mask", f, indicator(a, b))


def ffill(f):
    out, last = [], f.init
    for x, v in f.steps:
        last = v if v is not None else last
        out.append((x, last))
    return F(f.init, out).canon()


def bfill(f):
    vals = [f.init] + list(f.vals)
    nxt = None
    for i in range(len(vals) - 1, -1, -1):
        if vals[i] is None:
            vals[i] = nxt
        else:
            nxt = vals[i]
    return F(vals[0], zip(f.pts, vals[1:])).canon()


def shift(f, d):
    return F(f.init, [(x + d, v) for x, v in f.steps])


def diff(f, d):
    return binary("sub", f, shift(f, d))


# ---------------------------------------------------------------- statistics (exact rationals)
def fr(v):
    return Fraction(v)


def value_sums(f):
    d = {}
    for a, b, v in f.defined_pieces():
        d[fr(v)] = d.get(fr(v), 0) + (b - a)
    return d


def total_length(f):
    return sum((b - a for a, b, _ in f.defined_pieces()), 0)


def has_stats(f):
    return bool(f.defined_pieces())


def integral(f):
    return sum((fr(v) * (b - a) for a, b, v in f.defined_pieces()), Fraction(0))


def mean(f):
    n = total_length(f)
    return None if n == 0 else integral(f) / n


def var(f):
    m = mean(f)
    n = total_length(f)
    return sum(((fr(v) - m) ** 2 * (b - a) for a, b, v in f.defined_pieces()), Fraction(0)) / n


def std(f):
    return math.sqrt(var(f))


def ecdf(f, y, side="right"):
    n = total_length(f)
    return Fraction(sum((ln for v, ln in value_sums(f).items() if v < y or (side == "right" and v == y)), 0)) / n


def fractile(f, p):
    """Midpoint of lower and upper p-quantiles, exactly."""
    p = Fraction(p)
    items = sorted(value_sums(f).items())
    n = total_length(f)
    if p <= 0:
        return items[0][0]
    if p >= 1:
        return items[-1][0]
    acc = 0
    lo = hi = None
    for v, ln in items:
        acc += ln
        share = Fraction(acc) / n
        if lo is None and share >= p:
            lo = v
        if hi is None and share > p:
            hi = v
    return (lo + hi) / 2


def modes(f):
    d = value_sums(f)
    m = max(d.values())
    return {v for v, ln in d.items() if ln == m}


def in_bin(v, lo, hi, closed):
    return lo <= v < hi if closed == "left" else lo < v <= hi


def values_in_range(f, fclosed, lo, hi, closed):
    """Set of values at defined points of the interval (None = unbounded)."""
    out = set()

    def take(v):
        if v is not None:
            out.add(v)

    # interior: every piece whose open interior meets (lo, hi)
    for a, b, v in f.pieces():
        left = a if lo is None else (lo if a is None else max(a, lo))
        right = b if hi is None else (hi if b is None else min(b, hi))
        if left is None or right is None or left < right:
            take(v)
    # step points strictly inside carry a value of an adjacent piece, already present
    if lo is not None and closed in ("left", "both"):
        take(f.sample(lo, fclosed))
    if hi is not None and closed in ("right", "both"):
        take(f.sample(hi, fclosed))
    return out


def cov(f, g, lo, hi, lag=0, mode="pre"):
    if lag != 0:
        if mode == "pre" and hi is not None:
            hi = hi - lag
        g = shift(g, -lag)
    both = pointwise(lambda a, b: None if a is None or b is None else 0, f, g)
    if lo is not None or hi is not None:
        both = clip(both, lo, hi)
    ff = pointwise(lambda a, m: None if m is None else a, f, both)
    gg = pointwise(lambda a, m: None if m is None else a, g, both)
    fg = pointwise(strict(lambda a, b: fr(a) * fr(b)), ff, gg)
    # lengths must come from the common refinement including unbounded trimming of each
    return ff, gg, fg
