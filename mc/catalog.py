"""The catalogue of public operations returning step functions, each with its pointwise definition.

Parameters are model coordinates, so every entry can be replayed in every label domain."""
import operator
from fractions import Fraction

import numpy as np
import pandas as pd
import staircase as sc

from . import impl
from . import model as M
from .model import F

NAN = float("nan")


def L(dom, x):
    return None if x is None else dom.label(x)


def _sc(op, c, rev=False):
    cm = None if c != c else c
    if rev:
        return (lambda s, d: impl.BIN[op](c, s)), (lambda f: M.binary(op, M.const(cm), f))
    return (lambda s, d: impl.BIN[op](s, c)), (lambda f: M.binary(op, f, M.const(cm)))


def _un(op):
    return (lambda s, d: impl.UN[op](s)), (lambda f: M.unary(op, f))


def _clip(a, b):
    return (lambda s, d: s.clip(L(d, a), L(d, b))), (lambda f: M.clip(f, a, b))


def _mask(a, b):
    return (lambda s, d: s.mask((L(d, a), L(d, b)))), (lambda f: M.mask_interval(f, a, b))


def _where(a, b):
    return (lambda s, d: s.where((L(d, a), L(d, b)))), (lambda f: M.clip(f, a, b))


def _fill(v):
    return (lambda s, d: s.fillna(v)), (lambda f: M.binary("fillna", f, M.const(v)))


def _shift(k):
    return (lambda s, d: s.shift(d.delta(k))), (lambda f: M.shift(f, k))


def _diff(k):
    return (lambda s, d: s.diff(d.delta(k))), (lambda f: M.diff(f, k))


def _lay(*tr):
    def go(s, d):
        s = s.copy()
        for a, b, v in tr:
            s.layer(L(d, a), L(d, b), v)
        return s

    return go, (lambda f: M.layer(f, tr))


def _vlay(*tr):
    return (lambda s, d: s.copy().layer([L(d, a) for a, _, _ in tr], [L(d, b) for _, b, _ in tr], [v for _, _, v in tr])), (lambda f: M.layer(f, tr))


def _strictly(fn):
    return M.strict(fn)


def _median(vs):
    vs = sorted(vs)
    n = len(vs)
    return vs[n // 2] if n % 2 else (vs[n // 2 - 1] + vs[n // 2]) / 2


AGGM = {"sum": _strictly(lambda *v: sum(v)), "min": _strictly(lambda *v: min(v)), "max": _strictly(lambda *v: max(v)),
        "mean": _strictly(lambda *v: sum(v) / len(v)), "median": _strictly(lambda *v: _median(v)),
        "logical_or": _strictly(lambda *v: int(any(x != 0 for x in v))), "logical_and": _strictly(lambda *v: int(all(x != 0 for x in v)))}
AGGI = {k: getattr(sc, k) for k in AGGM}


def aggregate(name, fs):
    return M.pointwise(AGGM[name], *fs)


def _resample(b, st):
    def model(f):
        vals = []
        for x, y in zip(b, b[1:]):
            # slices are left closed; the functions in the explorations are too, or the value is that of the interior
            vs = M.values_in_range(f, "left", x, y, "left")
            vals.append((min(vs) if st == "min" else max(vs)) if vs else None)
        xs = sorted(set(f.pts) | set(b))
        return F(f.init, [(x, f.at(x) if x < b[0] or x >= b[-1] else next(v for lo, hi, v in zip(b, b[1:], vals) if lo <= x < hi)) for x in xs]).canon()

    return (lambda s, d: s.slice([d.label(x) for x in b]).resample(st)), model


# name -> (implementation(s, dom), model(f)); all deterministic
UNARY = {
    "neg": _un("neg"), "invert": _un("invert"), "boolean": _un("make_boolean"), "isna": _un("isna"), "notna": _un("notna"), "copy": _un("copy"),
    "+2": _sc("add", 2), "-1": _sc("sub", 1), "1-": _sc("sub", 1, True), "*0": _sc("mul", 0), "*-2": _sc("mul", -2), "0.5*": _sc("mul", 0.5, True),
    "/2": _sc("div", 2), "/0": _sc("div", 0), "2/": _sc("div", 2, True), "+nan": _sc("add", NAN),
    ">0": _sc("gt", 0), "1>=": _sc("ge", 1, True), "<1": _sc("lt", 1), "<=0": _sc("le", 0), "==1": _sc("eq", 1), "!=0": _sc("ne", 0),
    "&1": _sc("and", 1), "0|": _sc("or", 0, True), "^1": _sc("xor", 1),
    "clip(1,3)": _clip(1, 3), "clip(0,)": _clip(0, None), "clip(,2)": _clip(None, 2), "clip(-1,2)": _clip(-1, 2),
    "mask(0,2)": _mask(0, 2), "mask(,1)": _mask(None, 1), "mask(2,)": _mask(2, None),
    "where(1,4)": _where(1, 4), "where(0,2)": _where(0, 2),
    "fillna(0)": _fill(0), "fillna(-2)": _fill(-2),
    "ffill": ((lambda s, d: s.fillna("ffill")), M.ffill), "bfill": ((lambda s, d: s.fillna("bfill")), M.bfill),
    "pad": ((lambda s, d: s.fillna("pad")), M.ffill), "backfill": ((lambda s, d: s.fillna("backfill")), M.bfill),
    "shift(1)": _shift(1), "shift(-2)": _shift(-2), "diff(2)": _diff(2), "diff(-1)": _diff(-1), "shift(0)": _shift(0),
    "layer(1,3)": _lay((1, 3, 1)), "layer(0,2)x2": _lay((0, 2, -1), (0, 4, 2)), "layer(,2)": _lay((None, 2, 1)), "vlayer": _vlay((0, 2, 1), (2, 4, -1), (1, None, 2)),
    "resample(max)": _resample((0, 2, 4), "max"), "resample(min)": _resample((1, 3), "min"),
    "pipe": ((lambda s, d: s.pipe(lambda t, k: t + k, 1)), lambda f: M.binary("add", f, M.const(1))),
}


def _bin(op):
    return (lambda s, t, d: impl.BIN[op](s, t)), (lambda f, g: M.binary(op, f, g))


def _agg(name):
    return (lambda s, t, d: AGGI[name]([s, t])), (lambda f, g: aggregate(name, [f, g]))


BINARY = {op: _bin(op) for op in impl.BIN}
BINARY.update({"agg_" + n: _agg(n) for n in AGGM})
# a smaller alphabet that exercises every internal branch (value path, change path, masking, constants, re-labelling)
CORE_UNARY = ("neg", "invert", "isna", "1-", "*0", "2/", ">0", "^1", "clip(1,3)", "mask(0,2)", "where(0,2)", "fillna(-2)", "ffill", "shift(1)",
              "diff(2)", "layer(1,3)", "layer(,2)", "resample(max)")
CORE_BINARY = ("add", "sub", "mul", "div", "lt", "eq", "and", "xor", "mask", "where", "fillna", "agg_max", "agg_sum")
READS = {"values": lambda s: s.step_values, "changes": lambda s: s.step_changes, "frame": lambda s: s.to_frame(), "count": lambda s: s.number_of_steps,
         "mean": lambda s: s.mean(), "min": lambda s: s.min(), "bool": lambda s: bool(s), "repr": lambda s: repr(s)}


def dyadic(v):
    return v is None or (float(v) * 4096).is_integer() and abs(v) < 2 ** 20


def exact(f):
    """all values are small dyadic rationals: every intermediate of every operation is exact in binary floats"""
    return dyadic(f.init) and all(dyadic(v) for v in f.vals)


def start_functions():
    return [F(0, ()), F(1, ()), F(None, ()), F(0, ((0, 1), (2, 0))), F(1, ((0, -2), (2, 1), (4, 0))), F(None, ((0, 1), (2, None))), F(0, ((0, None), (2, 2))),
            F(1, ((2, None),)), F(None, ((0, 2),)), F(0.5, ((0, None), (2, 0), (4, None)))]
