"""Everything that touches the implementation: construction routes, observation, snapshots, op calls.

Only public API is used, except `snapshot`, which walks whatever attributes an object happens to have
without naming any of them (it is used only to merge states that are structurally equal)."""
import copy
import math
import operator
import types

import numpy as np
import pandas as pd
import staircase as sc

from . import model as M
from .domains import DOMAINS, Mismatch
from .model import F

NAN = float("nan")


def num(v):
    """model value -> scalar argument"""
    return NAN if v is None else v


def val(v):
    """implementation value -> model value"""
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, (list, np.ndarray, pd.Series)):
        raise Mismatch("value %r is not a scalar" % (v,))
    if v is pd.NA or v is pd.NaT or v is None:
        return None
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    try:
        f = float(v)
    except (TypeError, ValueError):
        raise Mismatch("value %r of type %s is not a number" % (v, type(v).__name__))
    if f != f:
        return None
    if math.isinf(f):
        return "inf" if f > 0 else "-inf"
    return f


# ------------------------------------------------------------------ construction routes
def _from_values(f, dom, closed, dtype=float):
    vals = [num(v) for v in f.vals]
    return sc.Stairs.from_values(initial_value=num(f.init), closed=closed,
                                 values=pd.Series(vals, index=dom.index(f.pts), dtype=dtype))


def _undefined_intervals(f):
    return [(a, b) for a, b, v in f.pieces() if v is None]


def _lab(dom, x):
    return None if x is None else dom.label(x)


def _apply_undefined(s, f, dom):
    for a, b in _undefined_intervals(f):
        s = s.mask((_lab(dom, a), _lab(dom, b)))
    return s


def _zero(v):
    return 0 if v is None else v


def _norm(f):
    """Equal functions are built from the same python numbers (1, 1.0 and True compare equal, objects built from them differ)."""
    n = lambda v: None if v is None else int(v) if float(v).is_integer() and abs(v) < 2 ** 53 else float(v)  # noqa
    return F(n(f.init), [(x, n(v)) for x, v in f.steps])


def build(f, dom, closed="left", route="vals", mat=""):
    """A fresh implementation object denoting f.  Raises whatever the library raises."""
    if isinstance(dom, str):
        dom = DOMAINS[dom]
    f = _norm(f)
    if not f.steps:
        s = sc.Stairs(initial_value=num(f.init), closed=closed)
        if route in ("lay", "vec") and f.init is not None:
            s = sc.Stairs(closed=closed)
            s = s.layer(None, None, f.init) if route == "lay" else s.layer([None], [None], [f.init])
    elif route == "vals":
        s = _from_values(f, dom, closed)
    elif route == "ivals":
        ints = all(v is not None and float(v).is_integer() for v in f.vals)
        s = _from_values(f, dom, closed, int if ints else float)
    elif route == "lay":
        # one scalar layer per step, value change at each point, running to +inf
        s = sc.Stairs(initial_value=_zero(f.init), closed=closed)
        prev = _zero(f.init)
        for x, v in f.steps:
            if _zero(v) != prev:
                s.layer(dom.label(x), None, _zero(v) - prev)
            prev = _zero(v)
        s = _apply_undefined(s, f, dom)
    elif route == "vec":
        # one vector layer call holding one interval per non-zero piece
        st, en, va = [], [], []
        for a, b, v in f.pieces():
            if v:
                st.append(_lab(dom, a))
                en.append(_lab(dom, b))
                va.append(v)
        s = sc.Stairs(closed=closed)
        if st:
            s.layer(dom.vector(st) if any(x is not None for x in st) else st,
                    dom.vector(en) if any(x is not None for x in en) else en, va)
        s = _apply_undefined(s, f, dom)
    elif route == "vlay":
        # value-built (possibly partly undefined) receiver that was layered afterwards
        x0 = f.pts[0]
        g = M.pointwise(lambda a, b: None if a is None else a - b, f, M.indicator(x0, None))
        s = build(g, dom, closed, "vals")
        s.layer(dom.label(x0), None, 1)
    elif route == "res":
        g = F(None if f.init is None else f.init * 2, [(x, None if v is None else v * 2) for x, v in f.steps])
        s = _from_values(g, dom, closed) / 2
    elif route == "resadd":
        # sum of two value-built functions that both have steps
        x0, w = f.pts[0], M.indicator(f.pts[0], f.pts[-1] + 1)
        g = M.pointwise(lambda a, b: None if a is None else a - b, f, w)
        s = build(g, dom, closed, "vals") + _from_values(w, dom, closed)
    elif route == "copy":
        s = _from_values(f, dom, closed).copy()
    else:
        raise AssertionError(route)
    touch(s, mat)
    return s


def touch(s, mat):
    for c in mat:
        if c == "v":
            s.step_values
        elif c == "c":
            s.step_changes
        elif c == "f":
            s.to_frame()


_proto = {}
_twin = {}


def clone(f, dom, closed="left", route="vals", mat=""):
    """A pristine private object (deep copy of a never used prototype)."""
    key = (f.key(), dom if isinstance(dom, str) else dom.name, closed, route, mat)
    p = _proto.get(key)
    if p is None:
        if len(_proto) > 20000:
            _proto.clear()
        p = _proto[key] = build(f, dom, closed, route, mat)
    return copy.deepcopy(p)


def denoted(f, dom, closed="left", route="vals", mat=""):
    """The function a leaf built this way really denotes (read off a twin that is never used as operand)."""
    if isinstance(dom, str):
        dom = DOMAINS[dom]
    key = (f.key(), dom.name, closed, route, mat)
    t = _twin.get(key)
    if t is None:
        if len(_twin) > 50000:
            _twin.clear()
        t = _twin[key] = read(build(f, dom, closed, route, mat), dom).canon()
    return t


# ------------------------------------------------------------------ observation
def read(s, dom):
    """Primary view: initial value + right limits at the step points.  Not canonicalised."""
    if not isinstance(s, sc.Stairs):
        raise Mismatch("result is %s, not a step function" % type(s).__name__)
    sv = s.step_values
    if len(sv) == 0:
        return F(val(s.initial_value), ())
    xs = dom.decode(sv.index)
    for a, b in zip(xs, xs[1:]):
        if not a < b:
            raise Mismatch("step points do not strictly increase: %s" % (xs,))
    return F(val(s.initial_value), zip(xs, [val(v) for v in sv.tolist()]))


def read_changes(s, dom):
    """Second view, for everywhere defined functions: initial value plus running sum of step_changes."""
    scg = s.step_changes
    iv = val(s.initial_value)
    if len(scg) == 0:
        return F(iv, ())
    xs = dom.decode(scg.index)
    out, t = [], iv
    for x, c in zip(xs, scg.tolist()):
        c = val(c)
        t = t + c if isinstance(c, float) and isinstance(t, (int, float)) else None
        out.append((x, t))
    return F(iv, out)


def read_frame(s, dom):
    """Third view: the piece table of to_frame()."""
    df = s.to_frame()
    st, en, va = df["start"].tolist(), df["end"].tolist(), [val(v) for v in df["value"].tolist()]
    if not (len(st) and st[0] is not None and repr_inf(st[0]) == "-inf" and repr_inf(en[-1]) == "inf"):
        raise Mismatch("to_frame does not span (-inf, inf): %r .. %r" % (st[0], en[-1]))
    if len(st) == 1:
        return F(va[0], ())
    a, b = dom.decode(pd.Index(st[1:])), dom.decode(pd.Index(en[:-1]))
    if a != b:
        raise Mismatch("to_frame rows do not tile: starts %s ends %s" % (a, b))
    for x, y in zip(a, a[1:]):
        if not x < y:
            raise Mismatch("to_frame rows not in strictly increasing order: %s" % (a,))
    return F(va[0], zip(a, va[1:]))


def repr_inf(v):
    if isinstance(v, float) and math.isinf(v):
        return "inf" if v > 0 else "-inf"
    return str(v)


def read_limits(s, dom, xs, vector=True):
    """Evaluate both one sided limits at every x of xs."""
    labels = [dom.label(x) for x in xs]
    if vector:
        return ([val(v) for v in list(s.limit(labels, side="left"))],
                [val(v) for v in list(s.limit(labels, side="right"))])
    return ([val(s.limit(l, side="left")) for l in labels], [val(s.limit(l, side="right")) for l in labels])


def compare(s, dom, expected, deep=False, changes=True):
    """None or a description of how s differs from the expected function.  deep adds evaluation by limit."""
    got = read(s, dom)
    d = M.fdiff(got, expected)
    if d:
        return d
    if changes and not expected.has_und():
        # a running sum carries the rounding of the largest value it passed through
        scale = max([M.UNIT] + [abs(v) for v in (expected.init,) + expected.vals])
        d = M.fdiff(read_changes(s, dom), expected, scale)
        if d:
            return "step_changes: " + d
    if deep:
        d = M.fdiff(read_frame(s, dom), expected)
        if d:
            return "to_frame: " + d
        base = sorted(set(M.merge((got, expected))))
        xs = probe_points(base)
        if xs:
            L, R = read_limits(s, dom, xs)
            for x, l, r in zip(xs, L, R):
                if not M.close(l, expected.at(x, "left")):
                    return "limit(%s,'left') = %r expected %r" % (x, l, expected.at(x, "left"))
                if not M.close(r, expected.at(x, "right")):
                    return "limit(%s,'right') = %r expected %r" % (x, r, expected.at(x, "right"))
    return None


def probe_points(base):
    if not base:
        return [0]
    xs = [base[0] - 1]
    for a, b in zip(base, base[1:]):
        xs += [a, M.Fraction(a + b) / 2]
    return xs + [base[-1], base[-1] + 1]


# ------------------------------------------------------------------ operations
BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
       "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
       "eq": operator.eq, "ne": operator.ne,
       "and": operator.and_, "or": operator.or_, "xor": operator.xor,
       "mask": lambda f, g: f.mask(g), "where": lambda f, g: f.where(g), "fillna": lambda f, g: f.fillna(g)}
METHOD = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "and": "logical_and",
          "or": "logical_or", "xor": "logical_xor"}
METHOD.update({k: k for k in ("lt", "le", "gt", "ge", "eq", "ne")})
RMETHOD = {"add": "radd", "sub": "rsubtract", "mul": "rmultiply", "div": "rdivide",
           "and": "logical_rand", "or": "logical_ror", "xor": "logical_rxor"}
UN = {"neg": operator.neg, "invert": operator.invert, "make_boolean": lambda f: f.make_boolean(),
      "isna": lambda f: f.isna(), "notna": lambda f: f.notna(), "copy": lambda f: f.copy()}


# ------------------------------------------------------------------ structural snapshots
def snapshot(o, _seen=None):
    """Hashable, complete structural description of an object graph (no attribute is named)."""
    if _seen is None:
        _seen = {}
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, float):
        return ("float", repr(o))
    if isinstance(o, (np.generic,)):
        return (type(o).__name__, repr(o))
    if id(o) in _seen:
        return ("ref", _seen[id(o)][0])
    _seen[id(o)] = (len(_seen), o)  # holding o keeps its id from being reused
    if isinstance(o, pd.DataFrame):
        return ("df", snapshot(o.index, _seen), tuple(map(str, o.columns)),
                tuple((str(o.dtypes.iloc[i]), tuple(map(repr, o.iloc[:, i].tolist()))) for i in range(o.shape[1])))
    if isinstance(o, pd.Series):
        return ("ser", snapshot(o.index, _seen), str(o.name), str(o.dtype), tuple(map(repr, o.tolist())))
    if isinstance(o, pd.Index):
        return ("idx", type(o).__name__, str(o.dtype), str(o.name), tuple(map(repr, o.tolist())))
    if isinstance(o, np.ndarray):
        return ("arr", str(o.dtype), o.shape, tuple(map(repr, o.ravel().tolist())))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snapshot(x, _seen) for x in o))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), snapshot(v, _seen)) for k, v in sorted(o.items(), key=lambda kv: repr(kv[0]))))
    if isinstance(o, (types.FunctionType, types.MethodType, type)):
        return ("fn", getattr(o, "__qualname__", repr(o)))
    if isinstance(o, (pd.Timestamp, pd.Timedelta)):
        return (type(o).__name__, repr(o))
    d = dict(getattr(o, "__dict__", {}))
    for slot in [s for k in type(o).__mro__ for s in getattr(k, "__slots__", ())]:
        if isinstance(slot, str) and hasattr(o, slot):
            d[slot] = getattr(o, slot)
    if not d:
        return ("obj", type(o).__name__, repr(o) if type(o).__repr__ is not object.__repr__ else "")
    return ("obj", type(o).__name__, tuple((k, snapshot(v, _seen)) for k, v in sorted(d.items())))
