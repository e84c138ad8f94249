"""Label domains: order preserving affine maps  x -> origin + x * unit  from exact model coordinates."""
import datetime
import zoneinfo
from fractions import Fraction

import numpy as np
import pandas as pd


class Mismatch(Exception):
    """An observation that no function over the domain could produce."""


class Domain:
    name = None
    datelike = False
    tz = None
    unit = 0  # ns

    def __repr__(self):
        return self.name

    def label(self, x):
        raise NotImplementedError

    def delta(self, d):
        raise NotImplementedError

    def undelta(self, q):
        raise NotImplementedError

    def decode(self, index):
        raise NotImplementedError

    def index(self, xs):
        return pd.Index([self.label(x) for x in xs])

    def vector(self, labels):
        """labels, or missing ones, as a vector of starts, ends or cuts"""
        return pd.Series(labels)

    def amount(self, scale):
        """the scale against which to compare amounts: Timedeltas are whole nanoseconds"""
        return max(scale, 0.501e9 / self.unit) if self.unit else scale


class Num(Domain):
    """numbers: label = a + x*b (python ints or dyadic floats)"""

    def __init__(self, name, a, b, kind):
        self.name, self.a, self.b, self.kind = name, a, b, kind

    def label(self, x):
        y = Fraction(self.a) + Fraction(x) * Fraction(self.b)
        if self.kind == "int" and y.denominator == 1:
            return int(y)
        return float(y)

    def delta(self, d):
        y = Fraction(d) * Fraction(self.b)
        if self.kind == "int" and y.denominator == 1:
            return int(y)
        return float(y)

    def undelta(self, q):
        return Fraction(float(q)) / Fraction(self.b) if np.isfinite(float(q)) else None

    def decode(self, index):
        if index.dtype.kind not in "iuf":
            out = []
            for v in index:
                if isinstance(v, bool) or not isinstance(v, (int, float, np.integer, np.floating)):
                    raise Mismatch("label %r of type %s in a numeric domain" % (v, type(v).__name__))
                out.append(v)
        else:
            out = index.tolist()
        res = []
        for v in out:
            if v != v or v in (float("inf"), float("-inf")):
                raise Mismatch("step point %r" % (v,))
            y = (Fraction(v) - Fraction(self.a)) / Fraction(self.b)
            res.append(int(y) if y.denominator == 1 else y)
        return res


class Narrow(Num):
    """numbers held, wherever they fit, in a narrow, unsigned or nullable dtype"""

    def __init__(self, name, a, b, kind, dtype):
        Num.__init__(self, name, a, b, kind)
        self.dtype = dtype

    def index(self, xs):
        return pd.Index(self.vector(Num.index(self, xs)))

    def vector(self, labels):
        v = pd.Series(labels)
        if not len(v) or v.isna().all() or (v.isna().any() and self.dtype[0] in "iu"):
            return v
        if self.kind == "int" and (v.dropna() % 1 != 0).any():
            return v
        lo, hi = (-2.0 ** 20, 2.0 ** 20) if self.kind == "float" else (np.iinfo(self.dtype.lower()).min, np.iinfo(self.dtype.lower()).max)
        return v.astype(self.dtype) if v.min() >= lo and v.max() <= hi else v


def _exact(n, d):
    y = Fraction(n, d)
    return int(y) if y.denominator == 1 else y


class Stamp(Domain):
    datelike = True

    def __init__(self, name, origin, unit_min, tz=None, ns=0):
        self.name = name
        self.origin = pd.Timestamp(origin, tz="UTC") if tz else pd.Timestamp(origin)
        self.tz = tz
        self.unit = int(unit_min * 60) * 10**9 + ns  # ns

    def label(self, x):
        ns = Fraction(x) * self.unit
        t = self.origin + pd.Timedelta(int(ns), unit="ns")
        return t.tz_convert(self.tz) if self.tz else t

    def index(self, xs):
        if not len(xs):
            return pd.DatetimeIndex([], tz=self.tz)
        return pd.DatetimeIndex([self.label(x) for x in xs])

    def delta(self, d):
        return pd.Timedelta(int(Fraction(d) * self.unit), unit="ns")

    def undelta(self, q):
        return None if pd.isna(q) else _exact(pd.Timedelta(q).value, self.unit)

    def decode(self, index):
        if not isinstance(index, pd.DatetimeIndex):
            if len(index) == 0:
                return []
            if not all(isinstance(v, (pd.Timestamp, datetime.datetime, np.datetime64)) for v in index):
                raise Mismatch("labels %r are not timestamps" % (list(index)[:3],))
            index = pd.DatetimeIndex(list(index))
        if (index.tz is None) != (self.tz is None):
            raise Mismatch("timezone not retained: index tz is %r, expected %r" % (index.tz, self.tz))
        if self.tz is not None:
            if str(index.tz) != str(self.origin.tz_convert(self.tz).tz):
                raise Mismatch("timezone not retained: index tz is %r, expected %r" % (index.tz, self.tz))
            index = index.tz_convert("UTC")
        if index.hasnans:
            raise Mismatch("NaT step point")
        vals = index.as_unit("ns").asi8
        o = self.origin.value
        return [_exact(int(v) - o, self.unit) for v in vals]


def coarse(v):
    """the same instant(s) in the coarsest resolution that holds them"""
    ns = v.dropna().as_unit("ns").asi8 if isinstance(v, pd.Index) else np.array([v.as_unit("ns").value])
    for u, k in (("s", 10 ** 9), ("ms", 10 ** 6), ("us", 10 ** 3)):
        if not (ns % k).any():
            return v.as_unit(u)
    return v.as_unit("ns")


class Coarse:
    def vector(self, labels):
        v = pd.Series(labels)
        return v if v.isna().all() else pd.Series(coarse(pd.Index(v)))


class CoarseStamp(Coarse, Stamp):
    """labels, and indexes of labels, are held in the coarsest resolution which represents them: whole seconds in [s]"""

    def label(self, x):
        return coarse(Stamp.label(self, x))

    def index(self, xs):
        return coarse(Stamp.index(self, xs))

    def delta(self, d):
        return coarse(Stamp.delta(self, d))


class Delta(Domain):
    datelike = True

    def __init__(self, name, origin_min, unit_min, ns=0):
        self.name = name
        self.origin = int(origin_min * 60) * 10**9
        self.unit = int(unit_min * 60) * 10**9 + ns

    def label(self, x):
        return pd.Timedelta(int(self.origin + Fraction(x) * self.unit), unit="ns")

    def index(self, xs):
        return pd.TimedeltaIndex([self.label(x) for x in xs])

    delta = Stamp.delta
    undelta = Stamp.undelta

    def decode(self, index):
        if not isinstance(index, pd.TimedeltaIndex):
            if len(index) == 0:
                return []
            if not all(isinstance(v, (pd.Timedelta, datetime.timedelta, np.timedelta64)) for v in index):
                raise Mismatch("labels %r are not timedeltas" % (list(index)[:3],))
            index = pd.TimedeltaIndex(list(index))
        if index.hasnans:
            raise Mismatch("NaT step point")
        return [_exact(int(v) - self.origin, self.unit) for v in index.as_unit("ns").asi8]


class CoarseDelta(Coarse, Delta):
    def label(self, x):
        return coarse(Delta.label(self, x))

    def index(self, xs):
        return coarse(Delta.index(self, xs))

    def delta(self, d):
        return coarse(Delta.delta(self, d))


DOMAINS = {
    # coordinate 2 is label 0 in int / float / td (falsy labels);
    # even coordinates are grid points, odd coordinates lie strictly between them
    "int": Num("int", -4, 2, "int"),
    "float": Num("float", -1, Fraction(1, 2), "float"),
    "ts": Stamp("ts", "2021-01-30 22:30", 90),
    "tzfix": Stamp("tzfix", "2021-05-01 03:00", 60, tz=datetime.timezone(datetime.timedelta(hours=5, minutes=30))),
    "utc": Stamp("utc", "2021-05-01 03:00", 60, tz="UTC"),
    # US/Eastern falls back at 06:00 UTC on 2021-11-07: labels straddle the repeated wall-clock hour
    "tzfall": Stamp("tzfall", "2021-11-07 04:30", 30, tz="US/Eastern"),
    # Europe/London springs forward at 01:00 UTC on 2021-03-28
    "tzspring": Stamp("tzspring", "2021-03-28 00:00", 30, tz="Europe/London"),
    "td": Delta("td", -60, 30),
}
NUMERIC = ("int", "float")

# further affine maps, used where the change of domain itself is the property (C17)
EXTRA = {
    "int1": Num("int1", 0, 1, "int"),
    "intbig": Num("intbig", 10 ** 12, 16, "int"),
    "floatbig": Num("floatbig", 2 ** 20, Fraction(1, 16), "float"),
    "floatneg": Num("floatneg", -Fraction(1000, 1), 64, "float"),
    # label 0 of the clock (the epoch) lies inside
    "epoch": Stamp("epoch", "1969-12-31 22:00", 60),
    "nanos": Stamp("nanos", "2021-01-01 00:00:00.000000001", 0, ns=5040),
    "micros": Stamp("micros", "2021-01-01 00:00:00.000008", 0, ns=28000),
    "months": Stamp("months", "1990-01-15", 60 * 24 * 31),
    "tzpy": Stamp("tzpy", "2021-11-07 00:30", 30, tz=datetime.timezone.utc),
    "tzzone": Stamp("tzzone", "2021-10-30 23:00", 30, tz=zoneinfo.ZoneInfo("Europe/London")),
    "tzyears": Stamp("tzyears", "2015-03-01 06:00", 60 * 24 * 60, tz="Australia/Sydney"),
    "tdneg": Delta("tdneg", -100000, 1440),
    # even coordinates are whole seconds, held as [s]; other ones need a finer resolution
    "tsunit": CoarseStamp("tsunit", "2021-01-30 22:30", 0, ns=5 * 10 ** 8),
    "tzunit": CoarseStamp("tzunit", "2021-11-07 05:29:59", 0, tz="US/Eastern", ns=18005 * 10 ** 8),
    "tdunit": CoarseDelta("tdunit", 0, 0, ns=5 * 10 ** 8),
    "tsfine": CoarseStamp("tsfine", "2021-01-30 22:30", 0, ns=1155 * 500000 * 1001),
    "tdns": Delta("tdns", 0, 0, ns=5040),
    # value x length is not a whole number of nanoseconds
    "ts4ns": Stamp("ts4ns", "2021-01-01 00:00:00.000000001", 0, ns=4),
    "td4ns": Delta("td4ns", 0, 0, ns=4),
}
# numeric step points held in other dtypes: arithmetic on them leaves the range of the dtype
NARROW = {
    "int8": Narrow("int8", 60, 8, "int", "int8"),
    "int16": Narrow("int16", -32700, 8, "int", "int16"),
    "uint8": Narrow("uint8", 8, 4, "int", "uint8"),
    "uint64": Narrow("uint64", 2, 2, "int", "uint64"),
    "Int64": Narrow("Int64", -4, 2, "int", "Int64"),
    "UInt8": Narrow("UInt8", 4, 16, "int", "UInt8"),
    "float32": Narrow("float32", -2 ** 12, Fraction(1, 8), "float", "float32"),
    "Float64": Narrow("Float64", -1, Fraction(1, 2), "float", "Float64"),
}
EXTRA.update(NARROW)
BASE = tuple(DOMAINS)
DOMAINS.update(EXTRA)
# the domains whose labels are held in another resolution or dtype, by the domain they can stand in for
_dates = ("tsunit", "tsfine", "tzunit", "tdunit")
HELD = dict.fromkeys(("int", "float"), tuple(x for t in zip(NARROW, _dates * 2) for x in t))
HELD.update(dict.fromkeys(("tzfix", "utc", "tzfall", "tzspring"), ("tzunit",)), ts=("tsunit", "tsfine", "ts4ns"), td=("tdunit", "td4ns"))
