"""C14 statistics after any interleaving of queries and layer calls equal those of a fresh equal function."""
import copy
import pickle
from fractions import Fraction

import numpy as np
import pandas as pd
import staircase as sc

from .. import gen, impl, stats
from .. import model as M
from ..domains import DOMAINS
from ..gen import Leaf, explain  # noqa

F = M.F
# cases repeated on labels held in other resolutions and dtypes (engine.held_cases)
HELD_STRIDE, HELD_SKIP = 37, ()
VALS_STRIDE, VALS_SKIP = 37, ('big:',)
BOUNDS = {
    "quick": "7 starting functions x 4 materialisations; all histories query;layer;query over 33 queries and 26 layer calls (scalar, vector, frame, one/two-sided, "
             "unbounded, empty, zero, cancelling, invisible, failing), query;layer;undo;query, query;query;layer;all queries, layer;query;layer;all; "
             "explicit-state search over 4 layers x 8 queries to depth 4 with every query asked in every state; copies (copy, deepcopy, pickle) of "
             "queried objects; earlier distribution objects held across layers; all domains and closed sides",
    "thorough": "as quick with the state search to depth 7, all histories of two queries, layer, query, layer and every query, in all domains",
}
RULE = "each answer equals that of a freshly built equal function (which is itself validated against the exact reference), and no query changes the function"
ASSUMPTIONS = ["a query that a function without finite defined piece does not support may raise; it is then part of the history but not judged"]
SIDES = ("left", "right")


# ---------------------------------------------------------------- queries
def _l(d, *xs):
    return [None if x is None else d.label(x) for x in xs]


def _dist(e, probe):
    return (list(e(probe)), list(e.limit(probe, side="left")), e.step_values)


Q = {
    "integral": (1, lambda s, d: s.integral()), "mean": (1, lambda s, d: s.mean()), "var": (1, lambda s, d: s.var()), "std": (1, lambda s, d: s.std()),
    "min": (0, lambda s, d: s.min()), "max": (0, lambda s, d: s.max()),
    "value_sums": (1, lambda s, d: s.value_sums()), "value_sums(na)": (1, lambda s, d: s.value_sums(dropna=False)),
    "values": (0, lambda s, d: s.values_in_range().tolist() if hasattr(s.values_in_range(), "tolist") else s.values_in_range()),
    "ecdf": (1, lambda s, d: _dist(s.ecdf, [-2, -0.5, 0, 1, 1.5, 3])), "ecdf scalar": (1, lambda s, d: s.ecdf(1)),
    "percentile": (1, lambda s, d: _dist(s.percentile, [0, 10, 45, 90, 100])), "percentile scalar": (1, lambda s, d: s.percentile(35)),
    "fractile": (1, lambda s, d: _dist(s.fractile, [0, 0.1, 0.45, 0.9, 1])), "quantiles": (1, lambda s, d: s.quantiles(7)),
    "median": (1, lambda s, d: s.median()), "mode": (1, lambda s, d: s.mode()),
    "hist": (1, lambda s, d: s.hist()), "hist bins": (1, lambda s, d: s.hist(bins=[-4, -1, 0, 2, 5], closed="right", stat="frequency")),
    "hist prob": (1, lambda s, d: s.hist(bins=[-9, 0, 9], stat="probability")), "hist density": (1, lambda s, d: s.hist(bins=[-9, 1, 9], stat="density")),
    "describe": (1, lambda s, d: s.describe()), "describe window": (2, lambda s, d: s.describe(_l(d, -1, 5), percentiles=[15, 85])),
    "agg": (1, lambda s, d: s.agg(["integral", "mean", "max", "min", "median"])), "agg window": (2, lambda s, d: s.agg(["mean", "std", "mode"], _l(d, -1, 5))),
    "values window": (0, lambda s, d: list(s.values_in_range(_l(d, 0, 2), "left"))), "values window both": (0, lambda s, d: list(s.values_in_range(_l(d, 0, 2), closed="both"))),
    "values window2": (0, lambda s, d: list(s.values_in_range(where=_l(d, 1, None), closed="right"))),
    "extremes window": (0, lambda s, d: (s.agg("max", _l(d, 0, 2), "left"), s.agg("max", _l(d, 0, 2), "both"), s.agg("min", _l(d, 0, 2), "neither"), s.agg(["min", "max"], _l(d, None, 1)))),
    "quantiles 3": (1, lambda s, d: s.quantiles(3)), "agg median window": (2, lambda s, d: s.agg(["median", "integral", "var"], _l(d, -1, 5))),
    "describe pct": (1, lambda s, d: s.describe(percentiles=[5, 95])),
    "cov": (2, lambda s, d: s.cov(s, _l(d, -1, 5))),
}
NAMES = tuple(Q)
# reads of the function itself, usable inside histories
R = {"step_values": lambda s, d: s.step_values, "step_changes": lambda s, d: s.step_changes, "to_frame": lambda s, d: s.to_frame(), "bool": lambda s, d: bool(s),
     "call": lambda s, d: s(d.label(1)), "plus": lambda s, d: s + 1, "rolling": lambda s, d: s.rolling_mean((d.delta(-1), d.delta(1))),
     "slice mean": lambda s, d: s.slice(_l(d, 0, 2, 3)).mean()}


def ask(q, s, dom):
    return norm(Q[q][1](s, dom))


def norm(x):
    if isinstance(x, pd.Series):
        return ("series", tuple(norm(v) for v in x.index), tuple(norm(v) for v in x))
    if isinstance(x, (list, tuple, np.ndarray, pd.Index)):
        return tuple(norm(v) for v in x)
    if isinstance(x, pd.Interval):
        return (norm(x.left), norm(x.right), x.closed)
    if isinstance(x, (pd.Timedelta, np.timedelta64)):
        return ("td", pd.Timedelta(x).value)
    if isinstance(x, pd.Timestamp):
        return ("ts", x.value)
    if isinstance(x, str):
        return x
    return impl.val(x)


def alike(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(M.UNIT, abs(a), abs(b))
    return a == b and type(a) is type(b)


def askable(q, f):
    need = Q[q][0]
    return need == 0 or (M.has_stats(f) and (need == 1 or M.has_stats(M.clip(f, -1, 5))))


_fresh = {}


def quick_dist(s, f):
    for p in (10, 45, 90):
        e = M.fractile(f, Fraction(p, 100))
        if p / 100 not in map(float, stats.shares(f)) and not (stats.near(impl.val(s.percentile(p)), e) and stats.near(impl.val(s.fractile(p / 100)), e)):
            return "percentile: %d" % p
    return None if stats.near(impl.val(s.ecdf(0)), M.ecdf(f, 0)) else "ecdf: at 0"


def expected(q, f, dom, closed):
    """the answer of a fresh equal function, validated against the exact reference the first time"""
    key = (f.key(), dom.name, closed)
    if key not in _fresh:
        if len(_fresh) > 20000:
            _fresh.clear()
        _fresh[key] = {}
        if M.has_stats(f):
            s = impl.build(f, dom, closed)
            d = stats.check_basic(s, f, dom) or stats.check_mode(s, f, dom) or quick_dist(s, f)
            if d:
                _fresh[key]["bad"] = d
    m = _fresh[key]
    if "bad" in m:
        raise AssertionError("a fresh function itself answers wrongly: %s" % m["bad"])
    if q not in m:
        m[q] = ask(q, impl.build(f, dom, closed), dom)
    return m[q]


# ---------------------------------------------------------------- layers
def _frame(s, d, rows):
    df = pd.DataFrame({"a": d.vector([d.label(a) for a, _, _ in rows]), "b": d.vector([d.label(b) for _, b, _ in rows]), "v": [v for *_, v in rows]})
    return s.layer("a", "b", "v", frame=df)


def _frame2(s, d, rows):
    df = pd.DataFrame({"a": d.vector([d.label(a) for a, _, _ in rows]), "b": d.vector([d.label(b) for _, b, _ in rows])})
    return s.layer(start="a", end="b", frame=df)


def _scalar(*t):
    return (t,), lambda s, d: s.layer(*(_l(d, t[0], t[1])), t[2])


def _vec(*tr, conv=list):
    return tr, lambda s, d: s.layer(conv(_l(d, *[a for a, _, _ in tr])), conv(_l(d, *[b for _, b, _ in tr])), conv([v for *_, v in tr]))


def _each(*tr):
    def go(s, d):
        for a, b, v in tr:
            s.layer(*_l(d, a, b), v)
    return tr, go


MUT = {
    "s13": _scalar(1, 3, 1), "s13-": _scalar(1, 3, -1), "s02": _scalar(0, 2, 3), "s1_": _scalar(1, None, 2), "s_2": _scalar(None, 2, 1), "s__": _scalar(None, None, 2),
    "s zero": _scalar(1, 3, 0), "s empty": _scalar(2, 2, 5), "s onpoint": _scalar(0, 4, -1), "s default": (((1, 2, 1),), lambda s, d: s.layer(*_l(d, 1, 2))),
    "s noargs": (((None, None, 1),), lambda s, d: s.layer()), "s kw": (((0, None, 1),), lambda s, d: s.layer(start=d.label(0))),
    "v1": _vec((1, 3, 1)), "v1-": _vec((1, 3, -1)), "v2": _vec((0, 2, 1), (1, 4, 2)), "v2-": _vec((0, 2, -1), (1, 4, -2)), "v open": _vec((0, None, 1), (None, 2, -1)),
    "v series": _vec((0, 1, 2), (2, 3, -2), conv=pd.Series), "v empty": ((), lambda s, d: s.layer([], [], [])),
    "v cancel": _vec((0, 2, 1), (0, 2, -1)), "v default": (((0, 2, 1), (1, 3, 1)), lambda s, d: s.layer(_l(d, 0, 1), _l(d, 2, 3))),
    "v start only": (((0, None, 1), (1, None, 1)), lambda s, d: s.layer(_l(d, 0, 1))), "v end only": (((None, 2, 1), (None, 3, 1)), lambda s, d: s.layer(end=_l(d, 2, 3))),
    "frame": (((0, 1, 2), (1, 3, -2)), lambda s, d: _frame(s, d, ((0, 1, 2), (1, 3, -2)))), "frame novalue": (((0, 1, 1), (1, 3, 1)), lambda s, d: _frame2(s, d, ((0, 1, 1), (1, 3, 1)))),
    "twice": _each((1, 3, 2), (1, 3, -2)),
}
MNAMES = tuple(MUT)
INV = {"s13": "s13-", "s13-": "s13", "v1": "v1-", "v1-": "s13", "v2": "v2-", "v2-": "v2", "s zero": "s zero", "s empty": "v empty", "v empty": "v cancel", "v cancel": "s zero"}


def _fail(kind):
    def go(s, d):
        try:
            if kind == 0:
                s.layer(_l(d, 0, 1), _l(d, 2), [1])
            elif kind == 1:
                s.layer("a", "b", frame=pd.DataFrame({"a": [1]}))
            else:
                s.layer(object(), d.label(1))
        except Exception:
            return
    return go


def undo(s, d, tr):
    """the opposite of a layer call, one scalar layer per row"""
    for a, b, v in tr:
        s.layer(*_l(d, a, b), -v)


def starts():
    return [F(0, ()), F(None, ()), F(0, ((0, 1), (2, 0))), F(1, ((0, -2), (2, 1), (4, 0))), F(0, ((0, None), (2, 2), (4, 1))), F(None, ((0, 1), (1, 3), (3, None))), F(2, ((2, 0),))]


HIST_Q = ("integral", "mean", "var", "max", "value_sums", "ecdf", "percentile", "fractile", "median", "mode", "hist", "describe", "min")
BFS_Q = ("integral", "mean", "ecdf", "percentile", "fractile", "hist", "max", "median")
BFS_M = ("s13", "s13-", "v2", "s__")


def spaces(tier):
    st = starts()
    yield "qmq", ((Leaf(f, "int", SIDES[(i + j + k) % 2], *gen.nforms(f, gen.FORMS4)[(i + j + k) % len(gen.nforms(f, gen.FORMS4))]), q, m, NAMES[(j * 7 + k * 3) % len(NAMES)])
                  for i, f in enumerate(st) for j, q in enumerate(NAMES + tuple(R)) for k, m in enumerate(MNAMES))
    yield "all", ((Leaf(f, "int", "left", *a), q, m) for f in st for a in gen.nforms(f, gen.FORMS4) for q in HIST_Q for m in MNAMES if tier != "quick" or (len(q) + 3 * len(m) + len(a[0]) + len(a[1])) % 8 == 0)
    yield "undo", ((Leaf(f, "float", "left", *a), q, m, p) for f in st for a in gen.nforms(f, gen.FORMS4)[:2] for q in HIST_Q for m in MNAMES for p in (0, 1))
    yield "qq", ((Leaf(f, "int", "left"), a, b, m) for i, f in enumerate(st[3:5]) for j, a in enumerate(NAMES) for k, b in enumerate(NAMES) for m in (MNAMES[(i + 3 * j + 5 * k) % len(MNAMES)],) if tier != "quick" or (i + j + k) % 2)
    yield "mqm", ((Leaf(f, "int", "left"), m, q, n) for i, f in enumerate(st[:5:2]) for j, m in enumerate(MNAMES) for k, q in enumerate(HIST_Q) for n in (MNAMES[(i + 2 * j + 3 * k) % len(MNAMES)],))
    yield "search", ((Leaf(f, "int", "left", *a), x, y, 4 if tier == "quick" else 7) for i, f in enumerate(st[2:6] if tier != "quick" else st[3:5]) for a in (gen.FORMS4[:2] if tier != "quick" else (gen.FORMS4[i],)) for x in BFS_M + BFS_Q for y in BFS_M + BFS_Q)
    yield "fail", ((Leaf(f, d, "left"), q, k) for d in ("int", "ts") for f in st for q in HIST_Q for k in range(3))
    yield "copies", ((Leaf(f, d, c), q, k, m) for d, c in (("int", "left"), ("tzfix", "right")) for f in st for q in HIST_Q for k in range(3) for m in (MNAMES[::5] if d == "int" else MNAMES[2::9]))
    yield "held", ((Leaf(f, "int", "left"), k, m) for f in st if M.has_stats(f) for k in range(3) for m in MNAMES)
    yield "domains", ((Leaf(f, d, c), q, m) for d in gen.ALL_DOMS for c in SIDES for f in st[2:6] for q in ("integral", "mean", "percentile", "hist", "max") for m in MNAMES[(len(q)) % 3::3])
    if tier == "thorough":
        yield "qmq_full", ((Leaf(f, d, "left", *a), q, m, r) for d in ("int", "utc") for f in st for a in gen.nforms(f, gen.FORMS4)[:2] for q in NAMES for m in MNAMES for r in NAMES)
        yield "qqmqm", ((Leaf(f, "int", "left"), a, b, m, q, n) for f in st[2:6] for a in HIST_Q for b in HIST_Q for m in MNAMES[::3] for q in HIST_Q[::2] for n in MNAMES[1::5])
        yield "all_domains", ((Leaf(f, d, c), q, m) for d in gen.ALL_DOMS for c in SIDES for f in st for q in HIST_Q for m in MNAMES)


class Sys:
    def __init__(self, L, ctx, s=None, f=None):
        self.dom, self.closed, self.ctx = L.dom, L.closed, ctx
        self.f = (f or L.f).canon()
        self.s = s if s is not None else L.fresh()
        self.log = []

    def do(self, a):
        """perform one action of the history; -> None or a description of a wrong answer"""
        self.log.append(a)
        self.ctx.transitions += 1
        if a in MUT:
            tr, fn = MUT[a]
            fn(self.s, self.dom)
            self.f = M.layer(self.f, tr)
            return None
        if a in R:
            R[a](self.s, self.dom)
            return None
        if not askable(a, self.f):
            try:
                Q[a][1](self.s, self.dom)
            except Exception:
                pass
            return None
        got, exp = ask(a, self.s, self.dom), expected(a, self.f, self.dom, self.closed)
        self.ctx.outcome((a, self.f.key()))
        if not alike(got, exp):
            return "%s: %s after %s, a fresh equal function gives %s" % (a, str(got)[:150], ", ".join(self.log[:-1]), str(exp)[:150])
        return None

    def all(self, rot=0):
        for i in range(len(NAMES)):
            d = self.do(NAMES[(rot + i) % len(NAMES)])
            if d:
                return d
        return None

    def end(self):
        self.ctx.state(self.f.key(), tuple(self.log[-2:]))
        d = impl.compare(self.s, self.dom, self.f)
        return d and "function: after %s: %s" % (", ".join(self.log), d)


def run(space, case, ctx):
    L = case[0]
    dom = L.dom
    ctx.traces += 1
    y = Sys(L, ctx)
    if space == "search":
        return search(y, *case[1:], ctx)
    if space in ("qmq", "qmq_full", "qqmqm"):
        for a in case[1:]:
            d = y.do(a)
            if d:
                return d
        if space == "qqmqm":
            d = y.all(len(case[1]))
        elif space == "qmq":
            d = y.do(case[1]) if case[1] in Q else y.do("mean")
        return d or y.end()
    if space in ("all", "all_domains", "domains"):
        return y.do(case[1]) or y.do(case[2]) or y.do(case[1]) or (y.all(len(case[2])) if space != "domains" else None) or y.end()
    if space == "undo":
        q, m, p = case[1:]
        d = y.do(q) or y.do(m)
        if d:
            return d
        if p:
            d = y.do(q)
        if m in INV and MUT[INV[m]][0] == tuple((a, b, -v) for a, b, v in MUT[m][0]):
            d = d or y.do(INV[m])
        else:
            y.log.append("undo " + m)
            undo(y.s, dom, MUT[m][0])
            y.f = M.layer(y.f, [(a, b, -v) for a, b, v in MUT[m][0]])
        return d or y.do(q) or y.end()
    if space == "qq":
        a, b, m = case[1:]
        return y.do(a) or y.do(b) or y.do(m) or y.do(b) or y.do(a) or y.do(m) or y.do("integral") or y.do(b) or y.do(a) or y.end()
    if space == "mqm":
        m, q, n = case[1:]
        return y.do(m) or y.do(q) or y.do(n) or y.do(q) or y.do("mean") or y.do("percentile") or y.end()
    if space == "fail":
        q, k = case[1:]
        d = y.do(q)
        y.log.append("failing layer %d" % k)
        _fail(k)(y.s, dom)
        y.f = impl.read(y.s, dom).canon()
        return d or y.do(q) or y.do("s13") or y.do(q) or y.end()
    if space == "copies":
        q, k, m = case[1:]
        d = y.do(q)
        if k == 0:
            t = y.s.copy()
        elif k == 1:
            t = copy.deepcopy(y.s)
        else:
            t = pickle.loads(pickle.dumps(y.s))
        z = Sys(L, ctx, t, y.f)
        z.log = y.log + [("copy", "deepcopy", "pickle")[k]]
        d = d or z.do(q) or z.do(m) or z.do(q) or y.do(q) or y.do("s02") or y.do(q) or z.do(q)
        return d or z.end() or y.end()
    # held: distribution objects obtained before a layer keep their answers, later ones are up to date
    k, m = case[1:]
    name = ("ecdf", "percentile", "fractile")[k]
    obj = getattr(y.s, name)
    probe = ([-2, 0, 1, 3], [0, 10, 45, 100], [0, 0.1, 0.45, 1])[k]
    before = norm(_dist(obj, probe))
    d = y.do(name) or y.do(m) or y.do(name)
    if d:
        return d
    if not alike(norm(_dist(obj, probe)), before):
        return "%s object obtained before layer %s changed its answers" % (name, m)
    return y.end()


def search(y, a, b, depth, ctx):
    """explicit-state search: states are complete structural snapshots of the object, transitions the 12 actions;
    the first two actions are given by the case, the rest of the tree is explored breadth first with merging"""
    for x in (a, b):
        d = y.do(x)
        if d:
            return d
    seen = {impl.snapshot(y.s)}
    frontier = [(y.s, y.f, y.log)]
    for level in range(2, depth):
        nxt = []
        for s, f, log in frontier:
            for x in BFS_M + (BFS_Q if level < depth - 1 else ()):
                z = Sys.__new__(Sys)
                z.dom, z.closed, z.ctx, z.f, z.s, z.log = y.dom, y.closed, ctx, f, copy.deepcopy(s), list(log)
                if z.f.vals and max([abs(v) for v in z.f.vals if v is not None] or [0]) > 9:
                    continue
                d = z.do(x)
                if d:
                    return d
                k = impl.snapshot(z.s)
                if k in seen:
                    continue
                seen.add(k)
                ctx.state(k)
                nxt.append((z.s, z.f, z.log))
        frontier = nxt
    # every query in every state of the last level
    for i, (s, f, log) in enumerate(frontier):
        z = Sys.__new__(Sys)
        z.dom, z.closed, z.ctx, z.f, z.s, z.log = y.dom, y.closed, ctx, f, copy.deepcopy(s), list(log)
        for j in range(len(BFS_Q)):
            d = z.do(BFS_Q[(i + j) % len(BFS_Q)])
            if d:
                return d
        d = z.end()
        if d:
            return d
    ctx.bump("search_leaf_states", len(frontier))
    return None
