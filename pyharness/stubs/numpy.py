"""Stand-in for the little of numpy the code under test uses (numpy is not installed here)."""
import builtins as _b
import math as _m

from stubgap import guard as _guard

_gap, _gap_array = _guard("numpy"), _guard("ndarray", """argpartition base byteswap choose clip compress conj conjugate
cumprod cumsum data diagonal dot dump dumps flags flat getfield imag itemsize nbytes partition prod ptp put ravel real repeat resize
round searchsorted setfield setflags sort squeeze strides swapaxes take tobytes tofile trace transpose var view""")


def __getattr__(name):
    if name == "bool":
        return _b.bool
    _gap(name)
    raise AttributeError(name)

nan, inf, pi, e = float("nan"), float("inf"), _m.pi, _m.e
int8 = int16 = int32 = int64 = intp = uint8 = uint16 = uint32 = uint64 = int_ = int
float16 = float32 = float64 = float_ = float
bool_, str_, object_ = bool, str, object
newaxis = None


def _cast(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, str):
        if dtype.startswith(("int", "uint")):
            return int
        if dtype.startswith("float"):
            return float
        if dtype.startswith("bool"):
            return bool
        if dtype in ("str", "object"):
            return {"str": str}.get(dtype)
    return dtype if dtype in (int, float, bool, str) else None


def _plain(obj):
    if isinstance(obj, ndarray):
        return obj.tolist()
    if isinstance(obj, (list, tuple)):
        return [_plain(x) for x in obj]
    return obj


def _deep(fun, obj):
    return [_deep(fun, x) for x in obj] if isinstance(obj, list) else fun(obj)


def _pair(fun, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == len(b):
            return [_pair(fun, x, y) for x, y in zip(a, b)]
        if len(a) == 1:
            return [_pair(fun, a[0], y) for y in b]
        if len(b) == 1:
            return [_pair(fun, x, b[0]) for x in a]
        raise ValueError("operands could not be broadcast together")
    if isinstance(a, list):
        return [_pair(fun, x, b) for x in a]
    if isinstance(b, list):
        return [_pair(fun, a, y) for y in b]
    return fun(a, b)


def _div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return nan if a == 0 or a != a else _m.copysign(inf, a)


class ndarray(object):
    def __getattr__(self, name):
        _gap_array(name)
        raise AttributeError(name)

    def __init__(self, data, cast=None):
        data = _plain(data)
        self._d = _deep(cast, data) if cast else data
        flat = self._flat(self._d)
        if cast is None and _b.any(isinstance(x, float) for x in flat) and \
                _b.all(isinstance(x, (int, float)) for x in flat):
            self._d = _deep(float, self._d)

    @staticmethod
    def _flat(d):
        if isinstance(d, list):
            return [y for x in d for y in ndarray._flat(x)]
        return [d]

    @property
    def shape(self):
        out, d = [], self._d
        while isinstance(d, list):
            out.append(len(d))
            if not d:
                break
            d = d[0]
        return tuple(out)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(self._flat(self._d))

    @property
    def dtype(self):
        flat = self._flat(self._d)
        return type(flat[0]) if flat else float

    @property
    def T(self):
        return ndarray([list(x) for x in zip(*self._d)]) if self.ndim == 2 else self

    def tolist(self):
        return _deep(lambda x: x, self._d)

    to_list = tolist

    def __len__(self):
        return len(self._d)

    @staticmethod
    def _wrap(d):
        if not isinstance(d, list):
            return d
        out = ndarray.__new__(ndarray)
        out._d = d
        return out

    def __iter__(self):
        for x in self._d:
            yield self._wrap(x)

    def _index(self, idx):
        if isinstance(idx, ndarray):
            idx = idx.tolist()
        if isinstance(idx, list):
            if idx and _b.all(isinstance(x, bool) for x in idx):
                return [i for i, x in enumerate(idx) if x]
        return idx

    def __getitem__(self, idx):
        if isinstance(idx, tuple):
            rows, cols = idx
            part = self[rows]
            if isinstance(rows, (list, ndarray)) and isinstance(cols, (list, ndarray)):
                return ndarray([self._d[r][c] for r, c in zip(self._index(rows), self._index(cols))])
            if isinstance(rows, int):
                return part[cols]
            return ndarray([self._wrap(row)[cols] for row in part._d])
        idx = self._index(idx)
        if isinstance(idx, list):
            return ndarray([self._d[i] for i in idx])
        return self._wrap(self._d[idx])

    def __setitem__(self, idx, value):
        value = _plain(value)
        if isinstance(idx, tuple):
            rows, cols = idx
            if isinstance(rows, (list, ndarray)):
                rows, cols = self._index(rows), self._index(cols)
                if isinstance(cols, int):
                    cols = [cols] * len(rows)
                for n, (r, c) in enumerate(zip(rows, cols)):
                    self._d[r][c] = value[n] if isinstance(value, list) else value
            else:
                self._wrap(self._d[rows])[cols] = value
            return
        idx = self._index(idx)
        if isinstance(idx, slice):
            idx = list(range(*idx.indices(len(self._d))))
        if isinstance(idx, list):
            for n, i in enumerate(idx):
                self._d[i] = value[n] if isinstance(value, list) else value
        else:
            old = self._d[idx]
            if isinstance(old, list):
                old[:] = value if isinstance(value, list) else [value] * len(old)
            else:
                self._d[idx] = float(value) if isinstance(old, float) else value

    def _op(self, fun, other):
        return ndarray(_pair(fun, self._d, _plain(other)))

    def __add__(self, o): return self._op(lambda a, b: a + b, o)
    def __radd__(self, o): return self._op(lambda a, b: b + a, o)
    def __sub__(self, o): return self._op(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._op(lambda a, b: b - a, o)
    def __mul__(self, o): return self._op(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._op(lambda a, b: b * a, o)
    def __truediv__(self, o): return self._op(_div, o)
    def __rtruediv__(self, o): return self._op(lambda a, b: _div(b, a), o)
    def __floordiv__(self, o): return self._op(lambda a, b: a // b, o)
    def __mod__(self, o): return self._op(lambda a, b: a % b, o)
    def __pow__(self, o): return self._op(lambda a, b: a ** b, o)
    def __neg__(self): return ndarray(_deep(lambda a: -a, self._d))
    def __abs__(self): return ndarray(_deep(_b.abs, self._d))
    def __lt__(self, o): return self._op(lambda a, b: a < b, o)
    def __le__(self, o): return self._op(lambda a, b: a <= b, o)
    def __gt__(self, o): return self._op(lambda a, b: a > b, o)
    def __ge__(self, o): return self._op(lambda a, b: a >= b, o)
    def __eq__(self, o): return self._op(lambda a, b: a == b, o)
    def __ne__(self, o): return self._op(lambda a, b: a != b, o)
    def __and__(self, o): return self._op(lambda a, b: a and b, o)
    def __or__(self, o): return self._op(lambda a, b: a or b, o)
    def __invert__(self): return ndarray(_deep(lambda a: not a, self._d))
    __hash__ = None

    def _inplace(self, new):
        self._d[:] = new._d
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self._flat(self._d)[0])

    def __contains__(self, value):
        return value in self._flat(self._d)

    def __repr__(self):
        return "array(%r)" % (self._d,)

    def copy(self):
        return ndarray(self.tolist())

    def astype(self, dtype, *args, **kwargs):
        return ndarray(self.tolist(), _cast(dtype))

    def flatten(self):
        return ndarray(self._flat(self.tolist()))

    ravel = flatten

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        flat = self._flat(self.tolist())
        known = 1
        for s in shape:
            if s != -1:
                known *= s
        shape = [s if s != -1 else len(flat) // known for s in shape]

        def build(level):
            if level == len(shape):
                return flat.pop(0)
            return [build(level + 1) for _ in range(shape[level])]
        return ndarray(build(0))

    def fill(self, value):
        self._d[:] = _deep(lambda _: value, self._d)

    def _reduce(self, fun, axis=None):
        if axis is None or self.ndim == 1:
            return fun(self._flat(self._d))
        if axis in (1, -1):
            return ndarray([fun(row) for row in self._d])
        return ndarray([fun(list(col)) for col in zip(*self._d)])

    def sum(self, axis=None): return self._reduce(_b.sum, axis)
    def max(self, axis=None): return self._reduce(_b.max, axis)
    def min(self, axis=None): return self._reduce(_b.min, axis)
    def mean(self, axis=None): return self._reduce(lambda x: _b.sum(x) / len(x) if x else nan, axis)
    def any(self, axis=None): return self._reduce(_b.any, axis)
    def all(self, axis=None): return self._reduce(_b.all, axis)
    def argmax(self, axis=None): return self._reduce(lambda x: x.index(_b.max(x)), axis)
    def argmin(self, axis=None): return self._reduce(lambda x: x.index(_b.min(x)), axis)

    def std(self, axis=None):
        def one(x):
            m = _b.sum(x) / len(x)
            return _m.sqrt(_b.sum((v - m) ** 2 for v in x) / len(x))
        return self._reduce(one, axis)

    def argsort(self, *args, **kwargs):
        return ndarray(sorted(range(len(self._d)), key=self._d.__getitem__))

    def item(self, *args):
        return self._flat(self._d)[args[0] if args else 0]

    def nonzero(self):
        return (ndarray([i for i, x in enumerate(self._d) if x]),)


def array(obj, dtype=None, *args, **kwargs):
    if not isinstance(obj, (ndarray, list, tuple)) and hasattr(obj, "__iter__") and not isinstance(obj, (str, dict)):
        obj = list(obj)
    return ndarray(obj, _cast(dtype))


asarray = array


def full(shape, value, dtype=None):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)

    def build(level):
        if level == len(shape):
            return value
        return [build(level + 1) for _ in range(shape[level])]
    return ndarray(build(0), _cast(dtype))


def zeros(shape, dtype=float): return full(shape, 0., dtype)
def ones(shape, dtype=float): return full(shape, 1., dtype)
def empty(shape, dtype=float): return full(shape, 0., dtype)
def zeros_like(a, dtype=None, **_): return full(array(a).shape, 0, dtype)
def ones_like(a, dtype=None, **_): return full(array(a).shape, 1, dtype)


def _corners(keep):
    def fun(n, k=0, m=None):
        at = [(r, c) for r in range(n) for c in range(n if m is None else m) if keep(r, c, k)]
        return ndarray([r for r, _ in at]), ndarray([c for _, c in at])
    return fun


triu_indices, tril_indices = _corners(lambda r, c, k: c - r >= k), _corners(lambda r, c, k: c - r <= k)
def triu_indices_from(a, k=0): return triu_indices(a.shape[0], k, a.shape[1])
def tril_indices_from(a, k=0): return tril_indices(a.shape[0], k, a.shape[1])


def arange(*args): return ndarray(list(range(*args)))
def argmax(a, axis=None): return array(a).argmax(axis)
def argmin(a, axis=None): return array(a).argmin(axis)
def max(a, axis=None): return array(a).max(axis)
def min(a, axis=None): return array(a).min(axis)
def sum(a, axis=None): return array(a).sum(axis)
def mean(a, axis=None): return array(a).mean(axis)
def std(a, axis=None): return array(a).std(axis)
def any(a, axis=None): return array(a).any(axis)
def all(a, axis=None): return array(a).all(axis)
def argsort(a, *args, **kwargs): return array(a).argsort()
def sort(a): return ndarray(sorted(_plain(a)))
def unique(a): return ndarray(sorted(set(array(a).flatten().tolist())))
def copy(a): return array(a).copy()
def reshape(a, shape): return array(a).reshape(shape)
def ravel(a): return array(a).ravel()
def transpose(a): return array(a).T
def array_equal(a, b): return _plain(a) == _plain(b)


amax, amin = max, min


def _each(fun):
    def wrapped(a):
        a = _plain(a)
        return ndarray(_deep(fun, a)) if isinstance(a, list) else fun(a)
    return wrapped


abs = absolute = _each(_b.abs)
sqrt = _each(_m.sqrt)
exp = _each(_m.exp)
log = _each(_m.log)
floor = _each(lambda x: float(_m.floor(x)))
ceil = _each(lambda x: float(_m.ceil(x)))
isnan = _each(lambda x: x != x)


def round(a, decimals=0):
    return _each(lambda x: _b.round(x, decimals))(a)


def maximum(a, b): return ndarray(a)._op(_b.max, b)
def minimum(a, b): return ndarray(a)._op(_b.min, b)
def add(a, b): return array(a) + b


def expand_dims(a, axis):
    a = _plain(a)
    return ndarray([a]) if axis == 0 else ndarray([[x] for x in a])


def where(cond, *args):
    cond = _plain(cond)
    if not args:
        return (ndarray([i for i, x in enumerate(cond) if x]),)
    a, b = (_plain(x) if isinstance(x, (list, ndarray)) else [x] * len(cond) for x in args)
    return ndarray([x if c else y for c, x, y in zip(cond, a, b)])


flatnonzero = lambda a: where(a)[0]


def append(a, values, axis=None):
    values = _plain(values)
    return ndarray(_plain(a) + (values if isinstance(values, list) else [values]))


def concatenate(arrays, axis=0):
    return ndarray([x for a in arrays for x in _plain(a)])


vstack = lambda arrays: concatenate([a if array(a).ndim == 2 else [a] for a in arrays])
stack = lambda arrays, axis=0: ndarray([_plain(a) for a in arrays])
hstack = concatenate


def delete(a, idx, axis=None):
    out = _plain(a)
    del out[idx]
    return ndarray(out)


def insert(a, idx, value, axis=None):
    out = _plain(a)
    out.insert(idx, value)
    return ndarray(out)


def array_split(a, n):
    a = _plain(a)
    size, extra = divmod(len(a), n)
    out, pos = [], 0
    for i in range(n):
        step = size + (1 if i < extra else 0)
        out.append(ndarray(a[pos:pos + step]))
        pos += step
    return out


def eye(n, *args, **kwargs):
    return ndarray([[1. if i == j else 0. for j in range(n)] for i in range(n)])


def isclose(a, b, rtol=1e-5, atol=1e-8):
    return _b.abs(a - b) <= atol + rtol * _b.abs(b)


def quantile(a, q):
    values = sorted(array(a).flatten().tolist())
    if not values:
        raise IndexError("index -1 is out of bounds for axis 0 with size 0")
    at = q * (len(values) - 1)
    low = int(_m.floor(at))
    high = _b.min(low + 1, len(values) - 1)
    return values[low] + (values[high] - values[low]) * (at - low)


def percentile(a, q): return quantile(a, q / 100.)
def median(a): return quantile(a, .5)


def histogram(a, bins=10, range=None):
    vals = [float(v) for v in array(a).flatten().tolist()]
    lo, hi = (_b.min(vals), _b.max(vals)) if vals else (0., 1.)
    if range is not None:
        lo, hi = range
    if lo == hi:
        lo, hi = lo - .5, hi + .5
    edges = [lo + (hi - lo) * i / bins for i in _b.range(bins)] + [hi]
    counts = [0] * bins
    for v in vals:
        for i in _b.range(bins):
            if edges[i] <= v and (v < edges[i + 1] or i == bins - 1 and v <= hi):
                counts[i] += 1
                break
    return ndarray(counts), ndarray(edges)


def cumsum(a):
    out, total = [], 0
    for x in array(a).flatten().tolist():
        total += x
        out.append(total)
    return ndarray(out)


def savez(path, **arrays):
    import pickle
    path = str(path)
    with open(path if path.endswith(".npz") else path + ".npz", "wb") as f:
        pickle.dump({k: (array(v).tolist()) for k, v in arrays.items()}, f)


savez_compressed = savez


def load(path, *args, **kwargs):
    import pickle
    with open(str(path), "rb") as f:
        return {k: ndarray(v) for k, v in pickle.load(f).items()}
