"""Stand-in for the part of pandas the code under test uses (pandas is not installed here)."""
import bz2
import csv
import gzip
import io
import math
import os
import pickle
import random
import re
from collections import namedtuple
from datetime import datetime, timedelta, timezone

import numpy as np
from stubgap import guard

NA = NaN = float("nan")
NaT = None
Timestamp, Timedelta = datetime, timedelta
_COMMON = """abs add add_prefix add_suffix agg aggregate align all any apply applymap asfreq asof assign astype at at_time attrs
axes between_time bfill bool boxplot clip combine combine_first compare convert_dtypes copy corr corrwith count cov cummax
cummin cumprod cumsum describe diff div divide dot drop drop_duplicates droplevel dropna dtypes duplicated empty eq equals
eval ewm expanding explode ffill fillna filter first first_valid_index flags floordiv from_dict from_records ge get groupby
gt head hist iat idxmax idxmin iloc index infer_objects info insert interpolate isetitem isin isna isnull items iterrows
itertuples join keys kurt kurtosis last last_valid_index le loc lt map mask max mean median melt memory_usage merge min mod
mode mul multiply ndim ne nlargest notna notnull nsmallest nunique pad pct_change pipe pivot pivot_table plot pop pow prod
product quantile query radd rank rdiv reindex reindex_like rename rename_axis reorder_levels replace resample reset_index
rfloordiv rmod rmul rolling round rpow rsub rtruediv sample select_dtypes sem set_axis set_flags set_index shape shift size
skew sort_index sort_values sparse squeeze stack std style sub subtract sum swapaxes swaplevel tail take to_clipboard to_csv
to_dict to_excel to_feather to_frame to_hdf to_html to_json to_latex to_list to_markdown to_numpy to_orc to_parquet
to_period to_pickle to_records to_sql to_stata to_string to_timestamp to_xarray to_xml transform transpose truediv truncate
tz_convert tz_localize unique unstack update value_counts values var where xs T argmax argmin argsort array autocorr between
case_when cat dt dtype hasnans is_monotonic_decreasing is_monotonic_increasing is_unique item name nbytes ravel repeat
searchsorted str tolist view cumcount get_group groups indices ngroup ngroups nth ohlc"""
_gap_series, _gap_frame, _gap_group = guard("Series", _COMMON), guard("DataFrame", _COMMON), guard("GroupBy", _COMMON)
_gap_index = guard("Index", _COMMON + " difference intersection union get_loc get_indexer to_series")
_gap_str, _gap_dt, _gap_pandas = guard("str"), guard("dt"), guard("pandas")


def __getattr__(name):
    _gap_pandas(name)
    raise AttributeError(name)


class StringDtype(object):
    pass


class DType(object):
    """The type of a column: compares like the numpy one."""

    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, other):
        if isinstance(other, DType):
            return self.kind == other.kind
        names = {"i": (int, "int", "int64", "int32", "i8"), "f": (float, "float", "float64", "f8"), "b": (bool, "bool"),
                 "M": ("datetime64[ns]", datetime), "O": (object, str, "object", "O", StringDtype)}
        return any(other is x or (isinstance(x, str) and isinstance(other, str) and other == x) for x in names[self.kind])

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.kind)

    @property
    def name(self):
        return {"i": "int64", "f": "float64", "b": "bool", "M": "datetime64[ns]", "O": "object"}[self.kind]

    def __repr__(self):
        return "dtype('%s')" % self.name
    __str__ = lambda self: self.name


def _missing(x):
    return x is None or (isinstance(x, float) and x != x)


isna = isnull = lambda x: x._each(_missing) if isinstance(x, Series) else _missing(x)
notna = notnull = lambda x: x._each(lambda v: not _missing(v)) if isinstance(x, Series) else not _missing(x)


def _plain(obj):
    if isinstance(obj, Series):
        return list(obj._v)
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    return obj


def _kind(values):
    seen = {type(v) for v in values}
    if not seen:
        return "O"
    if seen == {bool}:
        return "b"
    if seen == {int}:
        return "i"
    if seen <= {int, float, type(None)} and float in seen:
        return "f"
    if seen <= {datetime, type(None)}:
        return "M"
    return "O"


def _settle(values):
    """Integers among floats become floats, as in a column."""
    if _kind(values) == "f":
        return [NaN if v is None else float(v) for v in values]
    return values


def _div(a, b):
    if isinstance(a, timedelta):
        return a / b
    try:
        return a / b
    except ZeroDivisionError:
        return NaN if a == 0 or a != a else math.copysign(math.inf, a)


class Index(list):
    def __getattr__(self, name):
        _gap_index(name)
        raise AttributeError(name)

    name = None

    def tolist(self): return list(self)
    to_list = tolist
    def to_numpy(self): return np.array(list(self))
    values = property(lambda self: np.array(list(self)))
    def map(self, fun): return Index(fun[x] if isinstance(fun, dict) else fun(x) for x in self)
    def isin(self, values): return np.array([x in values for x in self])
    def unique(self): return Index(dict.fromkeys(self))
    def astype(self, kind): return Index(kind(x) for x in self)
    shape = property(lambda self: (len(self),))
    size = property(lambda self: len(self))
    empty = property(lambda self: not len(self))
    str = property(lambda self: StrAccessor(Series(list(self))))


class Labels(object):
    """Series.loc and DataFrame.loc"""

    def __init__(self, obj, by_position=False):
        self.obj, self.pos = obj, by_position

    def _rows(self, key):
        n, labels = len(self.obj.index), self.obj.index
        key = _plain(key) if not isinstance(key, (Index, list, tuple)) else list(key)
        if isinstance(key, slice):
            if self.pos or all(x is None for x in (key.start, key.stop)):
                return list(range(n))[key]
            start = labels.index(key.start) if key.start is not None else 0
            stop = len(labels) - labels[::-1].index(key.stop) if key.stop is not None else n
            return list(range(start, stop))[::key.step]
        if isinstance(key, list):
            if key and all(isinstance(k, bool) for k in key) or not key:
                return [i for i, k in enumerate(key) if k]
            if self.pos:
                return [range(n)[k] for k in key]
            missing = [k for k in key if k not in set(labels)]
            if missing:
                raise KeyError("%r not in index" % (missing,))
            return [i for k in key for i, x in enumerate(labels) if x == k]
        if self.pos:
            return range(n)[key]
        found = [i for i, x in enumerate(labels) if x == key]
        if not found:
            raise KeyError(key)
        return found[0]

    def __getitem__(self, key):
        if isinstance(self.obj, Series):
            rows = self._rows(key)
            return self.obj._take(rows) if isinstance(rows, list) else self.obj._v[rows]
        cols = None
        if isinstance(key, tuple):
            key, cols = key
        rows = self._rows(key)
        frame = self.obj
        if cols is not None:
            if self.pos:
                names = frame.columns[cols] if isinstance(cols, (int, slice)) else [frame.columns[c] for c in cols]
            else:
                names = list(frame.columns) if isinstance(cols, slice) else cols
            part = frame[names if isinstance(names, str) else list(names)]
        else:
            part = frame
        if isinstance(rows, list):
            return part._take(rows)
        if isinstance(part, Series):
            return part._v[rows]
        return part._row(rows)

    def __setitem__(self, key, value):
        frame, cols = self.obj, None
        if isinstance(frame, Series):
            rows = self._rows(key)
            rows = rows if isinstance(rows, list) else [rows]
            for n, i in enumerate(rows):
                frame._v[i] = _plain(value)[n] if isinstance(value, (list, Series, np.ndarray)) else value
            frame._v[:] = _settle(frame._v)
            return
        if isinstance(key, tuple):
            key, cols = key
        rows = self._rows(key)
        rows = rows if isinstance(rows, list) else [rows]
        cols = [cols] if isinstance(cols, str) else list(frame.columns if cols is None or isinstance(cols, slice) else cols)
        if self.pos:
            cols = [frame.columns[c] if isinstance(c, int) else c for c in cols]
        for c in cols:
            if c not in frame._c:
                frame._c[c] = [NaN] * len(frame.index)
            column = frame._c[c]
            if isinstance(value, Series):
                known = dict(zip(value.index, value._v))
                for i in rows:
                    column[i] = known.get(frame.index[i], NaN)
            else:
                for n, i in enumerate(rows):
                    column[i] = value[n] if isinstance(value, (list, np.ndarray)) else value
            frame._c[c] = _settle(column)


class StrAccessor(object):
    def __getattr__(self, name):
        _gap_str(name)
        raise AttributeError(name)

    def __init__(self, series):
        self.s = series

    def contains(self, pat, case=True, regex=True, na=None, flags=0):
        rule = re.compile(pat if regex else re.escape(pat), flags | (0 if case else re.IGNORECASE))
        return self.s._each(lambda v: bool(rule.search(v)) if isinstance(v, str) else (NaN if na is None else na))

    def lower(self): return self.s._each(lambda v: v.lower())
    def upper(self): return self.s._each(lambda v: v.upper())
    def strip(self): return self.s._each(lambda v: v.strip())
    def len(self): return self.s._each(len)
    def startswith(self, x): return self.s._each(lambda v: v.startswith(x))
    def endswith(self, x): return self.s._each(lambda v: v.endswith(x))
    def split(self, sep=None, n=-1, expand=False): return self.s._each(lambda v: v.split(sep, n if n else -1))
    def find(self, x): return self.s._each(lambda v: v.find(x))
    def get(self, i): return self.s._each(lambda v: v[i] if -len(v) <= i < len(v) else NaN)
    __getitem__ = get
    def replace(self, a, b, regex=False): return self.s._each(lambda v: re.sub(a, b, v) if regex else v.replace(a, b))


class DtAccessor(object):
    def __getattr__(self, name):
        _gap_dt(name)
        raise AttributeError(name)

    def __init__(self, series):
        self.s = series
    day = property(lambda self: self.s._each(lambda v: v.day))
    month = property(lambda self: self.s._each(lambda v: v.month))
    year = property(lambda self: self.s._each(lambda v: v.year))
    hour = property(lambda self: self.s._each(lambda v: v.hour))
    week = weekofyear = property(lambda self: self.s._each(lambda v: v.isocalendar()[1]))
    date = property(lambda self: self.s._each(lambda v: v.date()))
    dayofyear = property(lambda self: self.s._each(lambda v: v.timetuple().tm_yday))


class Series(object):
    def __init__(self, data=(), index=None, dtype=None, name=None):
        if isinstance(data, dict):
            index, data = list(data.keys()) if index is None else index, list(data.values())
        if isinstance(data, Series):
            index = list(data.index) if index is None else index
            name = data.name if name is None else name
        data = _plain(data)
        if isinstance(data, (int, float, str, bool)) and index is not None:
            data = [data] * len(index)
        self._v = _settle(list(data))
        self.index = Index(index if index is not None else range(len(self._v)))
        self.name = name
        if dtype is not None:
            self._v = self.astype(dtype)._v

    def _each(self, fun):
        return Series([fun(v) for v in self._v], self.index, name=self.name)

    def _take(self, rows):
        return Series([self._v[i] for i in rows], [self.index[i] for i in rows], name=self.name)

    def _op(self, fun, other, fill=None):
        if isinstance(other, Series):
            if list(other.index) == list(self.index):
                return Series([fun(a, b) for a, b in zip(self._v, other._v)], self.index, name=self.name)
            mine, theirs = dict(zip(self.index, self._v)), dict(zip(other.index, other._v))
            labels = list(dict.fromkeys(list(self.index) + list(other.index)))
            return Series([fun(mine[k], theirs[k]) if k in mine and k in theirs else NaN for k in labels], labels)
        if isinstance(other, (list, np.ndarray)):
            return Series([fun(a, b) for a, b in zip(self._v, _plain(other))], self.index, name=self.name)
        return self._each(lambda a: fun(a, other))

    def __add__(self, o): return self._op(lambda a, b: a + b, o)
    def __radd__(self, o): return self._op(lambda a, b: b + a, o)
    def __sub__(self, o): return self._op(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._op(lambda a, b: b - a, o)
    def __mul__(self, o): return self._op(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._op(lambda a, b: b * a, o)
    def __truediv__(self, o): return self._op(_div, o)
    def __rtruediv__(self, o): return self._op(lambda a, b: _div(b, a), o)
    def __floordiv__(self, o): return self._op(lambda a, b: a // b, o)
    def __mod__(self, o): return self._op(lambda a, b: a % b, o)
    def __pow__(self, o): return self._op(lambda a, b: a ** b, o)
    def __neg__(self): return self._each(lambda a: -a)
    def __abs__(self): return self._each(abs)
    abs = __abs__
    def __lt__(self, o): return self._op(lambda a, b: a < b, o)
    def __le__(self, o): return self._op(lambda a, b: a <= b, o)
    def __gt__(self, o): return self._op(lambda a, b: a > b, o)
    def __ge__(self, o): return self._op(lambda a, b: a >= b, o)
    def __eq__(self, o): return self._op(lambda a, b: a == b, o)
    def __ne__(self, o): return self._op(lambda a, b: a != b, o)
    def __and__(self, o): return self._op(lambda a, b: bool(a and b), o)
    def __rand__(self, o): return self._op(lambda a, b: bool(a and b), o)
    def __or__(self, o): return self._op(lambda a, b: bool(a or b), o)
    def __ror__(self, o): return self._op(lambda a, b: bool(a or b), o)
    def __invert__(self): return self._each(lambda a: not a)
    __hash__ = None
    add, sub, mul, div, truediv = __add__, __sub__, __mul__, __truediv__, __truediv__
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous")

    def __len__(self): return len(self._v)
    def __iter__(self): return iter(list(self._v))
    def __contains__(self, key): return key in self.index
    def __repr__(self): return "Series(%r)" % (self._v,)

    def __getattr__(self, name):
        if not name.startswith("_") and name in self.index:
            return self[name]
        _gap_series(name)
        raise AttributeError(name)

    def __getitem__(self, key):
        if isinstance(key, slice):
            return self._take(list(range(len(self._v)))[key])
        if isinstance(key, (int, str)) and not isinstance(key, bool) or isinstance(key, (float, tuple, datetime)):
            return Labels(self)[key]
        return Labels(self)[key]

    def __setitem__(self, key, value):
        if isinstance(key, (int, str)) and key not in self.index:
            self._v.append(value)
            self.index.append(key)
        else:
            Labels(self)[key] = value

    loc = property(lambda self: Labels(self))
    iloc = property(lambda self: Labels(self, True))
    at = loc
    iat = iloc
    str = property(lambda self: StrAccessor(self))
    dt = property(lambda self: DtAccessor(self))
    values = property(lambda self: self.to_numpy())
    dtype = property(lambda self: DType(_kind(self._v)))
    shape = property(lambda self: (len(self._v),))
    size = property(lambda self: len(self._v))
    empty = property(lambda self: not self._v)

    def tolist(self): return list(self._v)
    to_list = tolist
    def to_numpy(self, dtype=None): return np.array(list(self._v), dtype)
    def items(self): return zip(self.index, self._v)
    iteritems = items
    def to_dict(self): return dict(zip(self.index, self._v))
    def keys(self): return self.index
    def get(self, key, default=None): return self[key] if key in self.index else default
    def copy(self, deep=True): return Series(list(self._v), list(self.index), name=self.name)
    def head(self, n=5): return self._take(list(range(len(self)))[:n])
    def tail(self, n=5): return self._take(list(range(len(self)))[-n:] if n else [])
    def _some(self): return [v for v in self._v if not _missing(v)]
    def sum(self): return sum(self._some())
    def count(self): return len(self._some())
    def max(self): return max(self._some(), default=NaN)
    def min(self): return min(self._some(), default=NaN)
    def any(self): return any(self._v)
    def all(self): return all(self._v)

    def mean(self):
        some = self._some()
        return sum(some) / len(some) if some else NaN

    def std(self, ddof=1):
        some, m = self._some(), self.mean()
        return math.sqrt(sum((v - m) ** 2 for v in some) / (len(some) - ddof)) if len(some) > ddof else NaN

    def median(self):
        return self.quantile(.5)

    def quantile(self, q=.5):
        some = sorted(self._some())
        if not some:
            return NaN
        pos = q * (len(some) - 1)
        low = int(pos)
        return some[low] + (some[min(low + 1, len(some) - 1)] - some[low]) * (pos - low)

    def unique(self):
        return np.ndarray._wrap(list(dict.fromkeys(self._v)))

    def nunique(self): return len(set(self._some()))

    def value_counts(self, sort=True, ascending=False, normalize=False):
        counts = {}
        for v in self._some():
            counts[v] = counts.get(v, 0) + 1
        keys = sorted(counts, key=lambda k: counts[k] if ascending else -counts[k]) if sort else list(counts)
        total = sum(counts.values()) if normalize else 0
        return Series([counts[k] / total if normalize else counts[k] for k in keys], keys, name=self.name)

    def astype(self, kind, copy=True):
        name = kind if isinstance(kind, str) else getattr(kind, "__name__", str(kind))
        if name.startswith(("int", "uint")):
            def conv(v):
                if _missing(v) or v in (math.inf, -math.inf):
                    raise ValueError("Cannot convert non-finite values (NA or inf) to integer")
                return int(v)
        elif name.startswith("float"):
            conv = float
        elif name.startswith("bool"):
            conv = bool
        elif name.startswith("str"):
            conv = str
        elif name.startswith("datetime"):
            return to_datetime(self, unit="ms" if "ms" in name else "ns")
        else:
            return self.copy()
        return self._each(conv)

    def map(self, fun, na_action=None):
        if isinstance(fun, (dict, Series)):
            known = dict(fun.items())
            return self._each(lambda v: known.get(v, NaN))
        return self._each(fun)

    def apply(self, fun, *args, **kwargs):
        return self._each(lambda v: fun(v, *args, **kwargs))

    def isin(self, values):
        values = set(_plain(values))
        return self._each(lambda v: v in values)

    def between(self, a, b): return self._each(lambda v: a <= v <= b)
    def isna(self): return self._each(_missing)
    isnull = isna
    def notna(self): return self._each(lambda v: not _missing(v))
    notnull = notna
    def fillna(self, value, inplace=False): return self._each(lambda v: value if _missing(v) else v)
    def dropna(self): return self._take([i for i, v in enumerate(self._v) if not _missing(v)])
    def round(self, n=0): return self._each(lambda v: round(v, n) if isinstance(v, float) and math.isfinite(v) else v)
    def cumsum(self):
        out, tot = [], 0
        for v in self._v:
            tot += v
            out.append(tot)
        return Series(out, self.index, name=self.name)

    def replace(self, to_replace=None, value=None, inplace=False):
        known = dict(to_replace) if isinstance(to_replace, dict) else {to_replace: value}
        out = [known.get(v, v) for v in self._v]
        if inplace:
            self._v[:] = out
            return None
        return Series(out, self.index, name=self.name)

    def duplicated(self, keep="first"):
        counts, seen, out = {}, set(), []
        for v in self._v:
            counts[v] = counts.get(v, 0) + 1
        if keep == "last":
            for v in reversed(self._v):
                out.append(v in seen)
                seen.add(v)
            return Series(out[::-1], self.index)
        for v in self._v:
            out.append(counts[v] > 1 if keep is False else v in seen)
            seen.add(v)
        return Series(out, self.index)

    def drop_duplicates(self): return self[~self.duplicated()]

    def sort_values(self, ascending=True, inplace=False):
        return self._take(sorted(range(len(self)), key=lambda i: self._v[i], reverse=not ascending))

    def sort_index(self, ascending=True):
        return self._take(sorted(range(len(self)), key=lambda i: self.index[i], reverse=not ascending))

    def reset_index(self, drop=False, inplace=False, name=None):
        if drop:
            return Series(list(self._v), name=self.name)
        return DataFrame({"index": list(self.index), name or self.name or 0: list(self._v)})

    def rename(self, name=None, inplace=False):
        self.name = name if inplace else self.name
        return None if inplace else Series(list(self._v), list(self.index), name=name)

    def idxmax(self): return self.index[self._v.index(self.max())]
    def idxmin(self): return self.index[self._v.index(self.min())]
    def to_frame(self, name=None): return DataFrame({name or self.name: list(self._v)}, index=list(self.index))
    def groupby(self, by): return DataFrame({"by": _plain(by), "v": self._v}).groupby("by")["v"]


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        cols, rows = {}, 0
        columns = list(columns) if columns is not None else None
        if isinstance(data, DataFrame):
            index = list(data.index) if index is None else index
            data = {k: list(v) for k, v in data._c.items()}
        if isinstance(data, np.ndarray):
            data = data.tolist()
        if data is None:
            data = []
        if isinstance(data, dict):
            if any(isinstance(v, Series) for v in data.values()) and index is None:
                index = list(next(v for v in data.values() if isinstance(v, Series)).index)
            rows = max([len(v) for v in data.values() if hasattr(v, "__len__") and not isinstance(v, str)], default=len(index or []))
            for k, v in data.items():
                v = _plain(v)
                cols[k] = list(v) if not isinstance(v, (int, float, str, bool)) and hasattr(v, "__iter__") else [v] * rows
            if len({len(v) for v in cols.values()}) > 1:
                raise ValueError("All arrays must be of the same length")
            if columns is not None:
                cols = {k: cols.get(k, [NaN] * rows) for k in columns}
        else:
            data = [_plain(r) for r in data]
            rows = len(data)
            if data and isinstance(data[0], dict):
                names = columns or list(dict.fromkeys(k for r in data for k in r))
                cols = {k: [r.get(k, NaN) for r in data] for k in names}
            else:
                data = [list(r) if isinstance(r, (list, tuple)) else [r] for r in data]
                width = len(data[0]) if data else 0
                names = columns if columns is not None else list(range(width))
                if any(len(r) != len(names) for r in data):
                    raise ValueError("%d columns passed, passed data had %d columns" % (len(names), width))
                cols = {k: [r[i] for r in data] for i, k in enumerate(names)}
        self.__dict__["_c"] = {k: _settle(v) for k, v in cols.items()}
        self.__dict__["index"] = Index(index if index is not None else range(rows))

    @classmethod
    def _of(cls, cols, index):
        out = cls()
        out.__dict__["_c"] = {k: _settle(list(v)) for k, v in cols.items()}
        out.__dict__["index"] = Index(index)
        return out

    def _take(self, rows):
        out = self._of({k: [v[i] for i in rows] for k, v in self._c.items()}, [self.index[i] for i in rows])
        out.index.name = self.index.name
        return out

    def _row(self, i):
        return Series([v[i] for v in self._c.values()], list(self._c), name=self.index[i])

    def _become(self, other):
        self.__dict__["_c"], self.__dict__["index"] = other._c, other.index
        return None

    @property
    def columns(self):
        return Index(self._c)

    @columns.setter
    def columns(self, names):
        self.__dict__["_c"] = dict(zip(names, self._c.values()))

    def __getattr__(self, name):
        if name.startswith("__") or "_c" not in self.__dict__:
            raise AttributeError(name)
        if name in self._c:
            return self[name]
        _gap_frame(name)
        raise AttributeError("'DataFrame' object has no attribute '%s'" % name)

    def __setattr__(self, name, value):
        if name == "columns":
            type(self).columns.fset(self, value)
        elif name == "index":
            self.__dict__["index"] = Index(_plain(value))
        elif name in self._c:
            self[name] = value
        else:
            self.__dict__[name] = value

    def __getstate__(self): return {"_c": self._c, "index": self.index}
    def __setstate__(self, state): self.__dict__.update(state)

    def __getitem__(self, key):
        if isinstance(key, (str, int)) and not isinstance(key, bool):
            if key not in self._c:
                raise KeyError(key)
            # the values are shared, as those of a column are
            out = Series.__new__(Series)
            out.__dict__.update(_v=self._c[key], index=self.index, name=key)
            return out
        if isinstance(key, slice):
            return self._take(list(range(len(self)))[key])
        names = _plain(key)
        if isinstance(names, (list, Index, tuple)):
            if len(names) and all(isinstance(x, bool) for x in names) or isinstance(key, Series):
                return self._take([i for i, x in enumerate(names) if x])
            return self._of({k: self[k]._v for k in names}, self.index)
        raise KeyError(key)

    def __setitem__(self, key, value):
        if isinstance(key, (list, Index)):
            for k, v in zip(key, value._c.values() if isinstance(value, DataFrame) else value):
                self[k] = v
            return
        if isinstance(key, Series):
            self._become(self.where(~key, value))
            return
        if isinstance(value, Series) and list(value.index) != list(self.index) and len(self._c):
            known = dict(zip(value.index, value._v))
            value = [known.get(k, NaN) for k in self.index]
        value = _plain(value)
        if isinstance(value, str) or not hasattr(value, "__iter__"):
            value = [value] * len(self.index)
        value = list(value)
        if self._c and len(value) != len(self.index):
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(value), len(self.index)))
        if not self._c:
            self.__dict__["index"] = Index(range(len(value)))
        self._c[key] = _settle(value)

    def __delitem__(self, key): del self._c[key]
    def __contains__(self, key): return key in self._c
    def __iter__(self): return iter(list(self._c))
    def __len__(self): return len(self.index)
    def __repr__(self): return "DataFrame(%r)" % (self._c,)

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous")

    def pop(self, key):
        out = self[key].copy()
        del self._c[key]
        return out

    loc = property(lambda self: Labels(self))
    iloc = property(lambda self: Labels(self, True))
    at = loc
    iat = iloc
    shape = property(lambda self: (len(self.index), len(self._c)))
    size = property(lambda self: len(self.index) * len(self._c))
    empty = property(lambda self: not self._c or not len(self.index))
    dtypes = property(lambda self: Series([DType(_kind(v)) for v in self._c.values()], list(self._c)))
    values = property(lambda self: self.to_numpy())

    def to_numpy(self): return np.array([list(r) for r in zip(*self._c.values())])
    def keys(self): return self.columns
    def items(self): return ((k, self[k]) for k in self._c)
    def get(self, key, default=None): return self[key] if key in self._c else default
    def copy(self, deep=True): return self._of(self._c, self.index)
    def head(self, n=5): return self._take(list(range(len(self)))[:n])
    def tail(self, n=5): return self._take(list(range(len(self)))[-n:] if n else [])

    def itertuples(self, index=True, name="Pandas"):
        names = (["Index"] if index else []) + [str(c) for c in self._c]
        rows = zip(*([list(self.index)] if index else []), *self._c.values())
        if name is None:
            return rows
        kind = namedtuple(name, names, rename=True)
        return (kind(*r) for r in rows)

    def iterrows(self): return ((self.index[i], self._row(i)) for i in range(len(self)))

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [dict(zip(self._c, r)) for r in zip(*self._c.values())]
        if orient == "list":
            return {k: list(v) for k, v in self._c.items()}
        return {k: dict(zip(self.index, v)) for k, v in self._c.items()}

    def reindex(self, labels=None, index=None, columns=None, method=None):
        labels = list(self.index) if labels is None and index is None else list(labels if labels is not None else index)
        if len(set(self.index)) != len(self.index):
            raise ValueError("cannot reindex on an axis with duplicate labels")
        at = {k: i for i, k in enumerate(self.index)}
        cols = {k: ([self._c[k][at[x]] if x in at else NaN for x in labels] if k in self._c else [NaN] * len(labels))
                for k in (self._c if columns is None else columns)}
        out = self._of(cols, labels)
        out.index.name = getattr(index if labels is None else labels, "name", None) or self.index.name
        return out

    def reindex_like(self, other, method=None):
        return self.reindex(other.index, columns=list(other._c))

    def set_index(self, key, inplace=False, drop=True):
        if isinstance(key, str):
            out = self._of({k: v for k, v in self._c.items() if k != key or not drop}, self._c[key])
            out.index.name = key
        else:
            out = self._of(self._c, _plain(key))
            out.index.name = getattr(key, "name", None)
        return self._become(out) if inplace else out

    def reset_index(self, drop=False, inplace=False):
        cols = {} if drop else {self.index.name or "index": list(self.index)}
        cols.update(self._c)
        out = self._of(cols, range(len(self.index)))
        return self._become(out) if inplace else out

    def sort_values(self, by, ascending=True, inplace=False, ignore_index=False, kind=None):
        by = [by] if isinstance(by, str) else list(by)
        flags = [ascending] * len(by) if isinstance(ascending, bool) else list(ascending)
        rows = list(range(len(self)))
        for name, up in reversed(list(zip(by, flags))):
            column = self._c[name]
            some = [i for i in rows if not _missing(column[i])]
            some.sort(key=lambda i: column[i], reverse=not up)
            rows = some + [i for i in rows if _missing(column[i])]
        out = self._take(rows)
        if ignore_index:
            out = out.reset_index(drop=True)
        return self._become(out) if inplace else out

    def sort_index(self, ascending=True, inplace=False):
        out = self._take(sorted(range(len(self)), key=lambda i: self.index[i], reverse=not ascending))
        return self._become(out) if inplace else out

    def round(self, n=0): return self._of({k: self[k].round(n)._v for k in self._c}, self.index)
    def astype(self, kind): return self._of({k: self[k].astype(kind[k] if isinstance(kind, dict) else kind)._v
                                             if not isinstance(kind, dict) or k in kind else v for k, v in self._c.items()}, self.index)
    def mean(self): return Series([self[k].mean() for k in self._c], list(self._c))
    def sum(self): return Series([self[k].sum() for k in self._c], list(self._c))
    def max(self): return Series([self[k].max() for k in self._c], list(self._c))
    def min(self): return Series([self[k].min() for k in self._c], list(self._c))

    def drop(self, labels=None, axis=0, columns=None, index=None, inplace=False, errors="raise"):
        if columns is None and axis in (1, "columns"):
            columns = labels
        elif columns is None and index is None:
            index = labels
        out = self
        if columns is not None:
            columns = [columns] if isinstance(columns, str) else list(columns)
            out = self._of({k: v for k, v in out._c.items() if k not in columns}, out.index)
        if index is not None:
            index = list(index) if hasattr(index, "__iter__") else [index]
            out = out._take([i for i, k in enumerate(out.index) if k not in index])
        return self._become(out) if inplace else out

    def rename(self, columns=None, inplace=False, **_):
        fun = columns if callable(columns) else lambda k: columns.get(k, k)
        out = self._of({fun(k): v for k, v in self._c.items()}, self.index)
        return self._become(out) if inplace else out

    def assign(self, **cols):
        out = self.copy()
        for k, v in cols.items():
            out[k] = v(out) if callable(v) else v
        return out

    def dropna(self, inplace=False, subset=None):
        cols = [self._c[k] for k in (subset or self._c)]
        out = self._take([i for i in range(len(self)) if not any(_missing(c[i]) for c in cols)])
        return self._become(out) if inplace else out

    def fillna(self, value, inplace=False):
        out = self._of({k: [value if _missing(x) else x for x in v] for k, v in self._c.items()}, self.index)
        return self._become(out) if inplace else out

    def drop_duplicates(self, subset=None, keep="first", inplace=False):
        names = [subset] if isinstance(subset, str) else list(subset or self._c)
        seen, rows = set(), []
        order = range(len(self)) if keep == "first" else reversed(range(len(self)))
        for i in order:
            key = tuple(self._c[k][i] for k in names)
            if key not in seen:
                seen.add(key)
                rows.append(i)
        out = self._take(sorted(rows))
        return self._become(out) if inplace else out

    def apply(self, fun, axis=0):
        if axis in (1, "columns"):
            return Series([fun(self._row(i)) for i in range(len(self))], list(self.index))
        return Series([fun(self[k]) for k in self._c], list(self._c))

    def sample(self, n=None, frac=None, random_state=None):
        rows = list(range(len(self)))
        random.Random(random_state).shuffle(rows)
        return self._take(rows[:int(round(frac * len(rows))) if frac is not None else n if n is not None else 1])

    def join(self, other, how="left", on=None):
        if isinstance(other, Series):
            other = other.to_frame()
        if set(self._c) & set(other._c):
            raise ValueError("columns overlap but no suffix specified: %r" % sorted(set(self._c) & set(other._c)))
        labels = list(self.index)
        if how == "outer" and list(other.index) != labels:
            labels = sorted(set(labels) | set(other.index))
        elif how == "inner":
            labels = [k for k in labels if k in other.index]
        mine, theirs = {k: i for i, k in enumerate(self.index)}, {k: i for i, k in enumerate(other.index)}
        cols = {k: [v[mine[x]] if x in mine else NaN for x in labels] for k, v in self._c.items()}
        cols.update({k: [v[theirs[x]] if x in theirs else NaN for x in labels] for k, v in other._c.items()})
        return self._of(cols, labels)

    def merge(self, right, how="inner", on=None, suffixes=("_x", "_y")):
        if how not in ("inner", "left"):
            _gap_frame("merge")
        names = [on] if isinstance(on, str) else list(on or [k for k in self._c if k in right._c])
        at = {}
        for i in range(len(right)):
            at.setdefault(tuple(right._c[k][i] for k in names), []).append(i)
        rows = []
        for i in range(len(self)):
            found = at.get(tuple(self._c[k][i] for k in names), [None] if how == "left" else [])
            rows += [(i, j) for j in found]
        out = {}
        for k, v in self._c.items():
            both = k in right._c and k not in names
            out[k + suffixes[0] if both else k] = [v[i] for i, _ in rows]
        for k, v in right._c.items():
            if k not in names:
                out[k + suffixes[1] if k in self._c else k] = [NaN if j is None else v[j] for _, j in rows]
        return self._of(out, list(range(len(rows))))

    def append(self, other, ignore_index=False): return concat([self, other], ignore_index=ignore_index)
    def groupby(self, by, sort=True, as_index=True): return GroupBy(self, by, sort)
    def isnull(self): return self._of({k: [_missing(x) for x in v] for k, v in self._c.items()}, self.index)
    isna = isnull

    def to_csv(self, path_or_buf=None, index=True, header=True, compression="infer", sep=","):
        out = io.StringIO()
        writer = csv.writer(out, lineterminator="\n", delimiter=sep)
        if header:
            writer.writerow(([""] if index else []) + list(self._c))
        for i, row in enumerate(zip(*self._c.values())):
            writer.writerow(([self.index[i]] if index else []) + ["" if _missing(v) else v for v in row])
        text = out.getvalue()
        if path_or_buf is None:
            return text
        if hasattr(path_or_buf, "write"):
            path_or_buf.write(text)
            return None
        with _open(path_or_buf, "wt", compression) as f:
            f.write(text)

    def _cells(self, index):
        rows = [([""] if index else []) + [str(c) for c in self._c]]
        for i, row in enumerate(zip(*self._c.values())):
            rows.append(([str(self.index[i])] if index else []) + ["NaN" if _missing(v) else str(v) for v in row])
        return rows

    def _text(self, text, buf):
        if buf is None:
            return text
        if hasattr(buf, "write"):
            buf.write(text)
            return None
        with open(buf, "w") as f:
            f.write(text)

    def to_latex(self, buf=None, index=True, **_):
        lines = [" & ".join(row) + " \\\\\n" for row in self._cells(index)]
        return self._text("\\begin{tabular}\n" + "".join(lines) + "\\end{tabular}\n", buf)

    def to_html(self, buf=None, index=True, **_):
        lines = ["<tr>" + "".join("<td>%s</td>" % c for c in row) + "</tr>\n" for row in self._cells(index)]
        return self._text("<table>\n" + "".join(lines) + "</table>\n", buf)

    def corr(self, method="pearson"):
        names = [k for k in self._c if _kind(self._c[k]) in "if"]
        cols = {}
        for a in names:
            cols[a] = []
            for b in names:
                rows = [(x, y) for x, y in zip(self._c[a], self._c[b]) if not _missing(x) and not _missing(y)]
                mx, my = (sum(r[i] for r in rows) / len(rows) if rows else NaN for i in (0, 1))
                sx, sy = (math.sqrt(sum((r[i] - m) ** 2 for r in rows)) for i, m in ((0, mx), (1, my)))
                cols[a].append(sum((x - mx) * (y - my) for x, y in rows) / (sx * sy) if len(rows) > 1 and sx * sy else NaN)
        return self._of(cols, names)

    def to_feather(self, path, **_):
        if list(self.index) != list(range(len(self))):
            raise ValueError("feather does not support serializing a non-default index for the index")
        if not all(isinstance(c, str) for c in self._c):
            raise ValueError("feather must have string column names")
        data = b"FEA1" + pickle.dumps({k: list(v) for k, v in self._c.items()})
        if hasattr(path, "write"):
            path.write(data)
        else:
            with open(path, "wb") as f:
                f.write(data)

    def to_pickle(self, path, compression="infer"):
        with _open(path, "wb", compression) as f:
            pickle.dump(self, f)


class GroupBy(object):
    def __init__(self, frame, by, sort=True, column=None):
        self.frame, self.by, self.column = frame, by, column
        keys = list(zip(*[frame._c[k] for k in by])) if isinstance(by, list) else _plain(frame[by] if isinstance(by, str) else by)
        self.rows = {}
        for i, k in enumerate(keys):
            if not _missing(k):
                self.rows.setdefault(k, []).append(i)
        if sort:
            self.rows = {k: self.rows[k] for k in sorted(self.rows)}

    def __iter__(self):
        for k, rows in self.rows.items():
            part = self.frame._take(rows)
            yield k, part if self.column is None else part[self.column]

    def __len__(self): return len(self.rows)

    def __getitem__(self, column):
        out = GroupBy.__new__(GroupBy)
        out.__dict__.update(self.__dict__, column=column)
        return out

    def __getattr__(self, name):
        if name in self.frame._c:
            return self[name]
        _gap_group(name)
        raise AttributeError(name)

    groups = property(lambda self: {k: Index(self.frame.index[i] for i in r) for k, r in self.rows.items()})
    def get_group(self, key): return self.frame._take(self.rows[key])
    def size(self): return Series([len(r) for r in self.rows.values()], list(self.rows))
    def ngroups(self): return len(self.rows)

    def _agg(self, fun):
        if isinstance(self.column, str):
            return Series([fun(v) for _, v in self], list(self.rows), name=self.column)
        names = [c for c in self.frame._c if c != self.by]
        return DataFrame._of({c: [fun(v[c]) for _, v in self] for c in names}, list(self.rows))

    def sum(self): return self._agg(lambda s: s.sum())
    def mean(self): return self._agg(lambda s: s.mean())
    def count(self): return self._agg(lambda s: s.count())
    def max(self): return self._agg(lambda s: s.max())
    def min(self): return self._agg(lambda s: s.min())
    def nunique(self): return self._agg(lambda s: s.nunique())
    def first(self): return self._agg(lambda s: s._v[0])
    def last(self): return self._agg(lambda s: s._v[-1])
    def apply(self, fun): return Series([fun(v) for _, v in self], list(self.rows))

    def cumcount(self):
        out = [0] * len(self.frame)
        for rows in self.rows.values():
            for n, i in enumerate(rows):
                out[i] = n
        return Series(out, list(self.frame.index))


def _open(path, mode, compression="infer"):
    path = os.fspath(path)
    if compression == "infer":
        compression = "gzip" if path.endswith(".gz") else "bz2" if path.endswith(".bz2") else None
    kwargs = {"newline": "", "encoding": "utf-8"} if "t" in mode else {}
    return {"gzip": gzip.open, "bz2": bz2.open}.get(compression, open)(path, mode, **kwargs)


def _parse(cells):
    """The values of a column of text."""
    filled = [c for c in cells if c not in ("", "NaN", "nan", "NA", "null")]
    for conv in (int, float):
        try:
            out = {c: conv(c) for c in set(filled) if "_" not in c}
        except ValueError:
            continue
        if len(out) == len(set(filled)):
            return [out.get(c, NaN) for c in cells]
    if filled and set(filled) <= {"True", "False"}:
        return [c == "True" if c in ("True", "False") else NaN for c in cells]
    return [c if c in set(filled) else NaN for c in cells]


def read_csv(source, index_col=None, compression="infer", sep=",", usecols=None, nrows=None, dtype=None, **kwargs):
    if hasattr(source, "read"):
        text = source.read()
        text = text.decode("utf-8") if isinstance(text, bytes) else text
    else:
        with _open(source, "rt", compression) as f:
            text = f.read()
    rows = list(csv.reader(io.StringIO(text), delimiter=sep))
    if not rows:
        raise EmptyDataError("No columns to parse from file")
    head, rows = rows[0], [r for r in rows[1:] if r]
    if nrows is not None:
        rows = rows[:nrows]
    cells = {name: [r[i] if i < len(r) else "" for r in rows] for i, name in enumerate(head)}
    cols = {name if name else "Unnamed: %d" % i: _parse(cells[name]) for i, name in enumerate(head)}
    if usecols is not None:
        cols = {k: v for k, v in cols.items() if k in usecols}
    out = DataFrame._of(cols, range(len(rows)))
    if index_col not in (None, False):
        out = out.set_index(out.columns[index_col] if isinstance(index_col, int) else index_col)
    if dtype is not None:
        out = out.astype(dtype)
    return out


class EmptyDataError(ValueError):
    pass


def read_pickle(path, compression="infer"):
    with _open(path, "rb", compression) as f:
        return pickle.load(f)


def read_feather(path, columns=None, **_):
    if hasattr(path, "read"):
        data = path.read()
    else:
        with open(path, "rb") as f:
            data = f.read()
    if data[:4] != b"FEA1":
        raise ValueError("Not a Feather V1 or Arrow IPC file")
    cols = pickle.loads(data[4:])
    return DataFrame({k: cols[k] for k in (columns or cols)})


def to_datetime(obj, unit="ns", format=None, **kwargs):
    def one(v):
        if _missing(v) or isinstance(v, datetime):
            return v
        if isinstance(v, str):
            return datetime.strptime(v, format) if format else datetime.fromisoformat(v)
        scale = {"s": 1, "ms": 1e-3, "us": 1e-6, "ns": 1e-9, "D": 86400}[unit]
        return datetime(1970, 1, 1) + timedelta(seconds=v * scale)
    if isinstance(obj, Series):
        return obj._each(one)
    if isinstance(obj, (list, np.ndarray)):
        return Index(one(v) for v in obj)
    return one(obj)


def to_numeric(obj, errors="raise"):
    return Series(_parse([str(v) for v in _plain(obj)]), getattr(obj, "index", None))


def concat(objs, ignore_index=False, axis=0, sort=False, **kwargs):
    objs = list(objs)
    if not objs:
        raise ValueError("No objects to concatenate")
    if isinstance(objs[0], Series):
        return Series([v for o in objs for v in o._v], None if ignore_index else [k for o in objs for k in o.index])
    if axis in (1, "columns"):
        out = objs[0]
        for o in objs[1:]:
            out = out.join(o, how="outer")
        return out
    names = list(dict.fromkeys(k for o in objs for k in o._c))
    cols = {k: [v for o in objs for v in o._c.get(k, [NaN] * len(o))] for k in names}
    labels = [k for o in objs for k in o.index]
    return DataFrame._of(cols, range(len(labels)) if ignore_index else labels)


def unique(values): return Series(values).unique()
