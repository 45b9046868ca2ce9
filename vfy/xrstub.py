"""Assumed contract of xarray: DataArray and Dataset as named-dimension containers (as far as used), of
numpy.datetime64 scalars and of datetime.fromtimestamp. Trusted."""
import datetime as _dt
from fractions import Fraction

from . import terms as T
from . import engine as E
from . import symnp as N
from .terms import Poly, ZERO, ONE, const, band, eq, le, lt, ge, gt, Unsupported
from .engine import Num, SBool, topoly, ctx, SymSeq
from .symnp import SymArray, NP, DType

UNITS = {"s": 1, "ms": Fraction(1, 10**3), "us": Fraction(1, 10**6), "ns": Fraction(1, 10**9), "m": 60, "h": 3600,
         "D": 86400}
MAKE = {}             # "time": constructor of datetime values from seconds since 1970 (set by the contracts)


class TD64:
    def __init__(self, x, unit="us"):
        self.p = topoly(x) * const(Fraction(UNITS[unit]))

    def __truediv__(self, o):
        if isinstance(o, TD64):
            return Num(self.p / o.p)
        r = TD64(0, "s")
        r.p = self.p / topoly(o)
        return r


    def astype(self, d):
        if d in ("timedelta64[us]", "m8[us]"):
            return self
        if d in ("timedelta64[s]", "m8[s]"):
            return TD64(Num(T.floor(self.p)), "s")
        if d in ("timedelta64[ms]", "m8[ms]"):
            return TD64(Num(T.floor(self.p * 1000)), "ms")
        raise Unsupported("timedelta64 conversion to %r" % (d,))

    def item(self):
        return MAKE["delta"](self.p)

    tolist = item


class DT64:
    """numpy.datetime64 scalar of microsecond (or finer) resolution"""

    def __init__(self, x, unit=None):
        if isinstance(x, str):
            d = _dt.datetime.fromisoformat(x) - _dt.datetime(1970, 1, 1)
            self.p = const(Fraction(d // _dt.timedelta(microseconds=1), 10**6))
        elif hasattr(x, "p") and isinstance(x, _dt.datetime):
            self.p = x.p
        else:
            self.p = topoly(x) * const(Fraction(UNITS[unit]))

    def __sub__(self, o):
        r = TD64(0, "s")
        if isinstance(o, DT64):
            r.p = self.p - o.p
            return r
        raise Unsupported("datetime64 arithmetic")

    def astype(self, d):
        if d in ("datetime64[us]", "M8[us]"):
            return self
        if d in ("datetime64[s]", "M8[s]"):
            return DT64(Num(T.floor(self.p)), "s")
        if d in ("datetime64[ms]", "M8[ms]"):
            return DT64(Num(T.floor(self.p * 1000)), "ms")
        raise Unsupported("datetime64 conversion to %r" % (d,))

    def item(self):
        return MAKE["time"](self.p)

    tolist = item

    @property
    def dtype(self):
        return DType("M")


N._NP.datetime64 = DT64
N._NP.timedelta64 = TD64


class _DT(_dt.datetime):
    """datetime.datetime with symbolic conversions"""
    def __new__(cls, *a, **kw):
        d = _dt.datetime(*a, **kw)
        t = d - _dt.datetime(1970, 1, 1, tzinfo=d.tzinfo)
        p = const(Fraction(t // _dt.timedelta(microseconds=1), 10**6))
        return Aware(p) if d.tzinfo is not None else MAKE["time"](p)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if tz is not _dt.timezone.utc:
            raise Unsupported("local time")
        return Aware(topoly(t))

    @classmethod
    def utcfromtimestamp(cls, t):
        return MAKE["time"](topoly(t))

    @staticmethod
    def __vinstance__(x):
        return isinstance(x, _dt.datetime)


class Aware:
    """datetime with time zone UTC"""

    def __init__(self, p):
        self.p = p

    def replace(self, **kw):
        if kw != {"tzinfo": None}:
            raise Unsupported("datetime.replace")
        return MAKE["time"](self.p)


class DatetimeModule:
    datetime = _DT
    timedelta = _dt.timedelta
    timezone = _dt.timezone
    UTC = _dt.timezone.utc


class Seq(list):
    pass


class Values:
    """n-dimensional values: shape, element function, kind"""

    def __init__(self, shape, get, kind):
        self.shape, self.get, self.kind = tuple(shape), get, kind


def values_of(data):
    if isinstance(data, DataArray):
        return data._v
    if isinstance(data, Values):
        return data
    if isinstance(data, (SymSeq, list, tuple)):
        n = data.n if isinstance(data, SymSeq) else const(len(data))
        if n.const() != 0:
            at = (lambda i: data.fn(i)) if isinstance(data, SymSeq) else (lambda i: _pick(data, i))
            c = n.const()
            first = data.fn(ZERO) if isinstance(data, SymSeq) else data[0]
            if isinstance(first, _dt.datetime):
                return Values((n,), lambda ix: at(ix[0]), "M")
            if first is None or isinstance(first, str):
                return Values((n,), lambda ix: at(ix[0]), "O")
        a = NP._arr(data)
    else:
        if isinstance(data, _dt.datetime):
            return Values((), lambda ix: data, "M")
        a = NP._arr(data)
    f = a.reader()
    return Values(a._shape, f, a.kind)


def _pick(l, i):
    c = i.const()
    if c is not None:
        return l[int(c)]
    for k in range(len(l) - 1):
        if ctx().decide(eq(i, const(k))):
            return l[k]
    return l[-1]


class DataArray:
    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, _coords=None):
        self._v = values_of(data)
        nd = len(self._v.shape)
        if dims is None:
            if isinstance(data, DataArray):
                dims = data.dims
            elif isinstance(coords, dict) and len(coords) == nd:
                dims = list(coords)
            elif nd == 0:
                dims = ()
            else:
                raise Unsupported("DataArray with default dimension names")
        if isinstance(dims, str):
            dims = (dims,)
        dims = tuple(dims)
        if len(dims) != nd:
            raise ValueError("different number of dimensions on data and dims")
        if len(set(dims)) != nd:
            raise ValueError("duplicate dimension names")
        self.dims = dims
        self.name = name
        self.attrs = dict(attrs or {})
        self._coords = dict(_coords or {})
        for k, v in (coords or {}).items():
            self._coords[k] = as_variable(k, v)

    @property
    def values(self):
        v = self._v
        if v.kind == "M":
            if v.shape == ():
                return DT64(v.get(()))
            raise Unsupported("array of datetime64")
        if v.kind == "O":
            raise Unsupported("array of objects")
        return SymArray(v.shape, v.kind, lambda i: v.get(i))

    data = values

    def to_numpy(self): return self.values
    def __symarray__(self): return self.values

    def __topoly__(self):
        if self.dims:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return topoly(self.values.item())

    @property
    def ndim(self): return len(self.dims)

    @property
    def shape(self): return tuple(Num(x) for x in self._v.shape)

    @property
    def size(self):
        r = ONE
        for x in self._v.shape:
            r = r * x
        return Num(r)

    @property
    def sizes(self): return dict(zip(self.dims, self.shape))

    @property
    def dtype(self): return DType(self._v.kind)

    @property
    def coords(self):
        return Coords({k: DataArray(v._v, dims=v.dims, name=k, attrs=v.attrs, _coords=self._coords if k not in v.dims else
                                    {k: v}) for k, v in self._coords.items() if set(v.dims) <= set(self.dims)})

    def __symlen__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return Num(self._v.shape[0])

    def item(self):
        return self.values.item()

    def isel(self, indexers=None, drop=False, **kw):
        ix = dict(indexers or {}, **kw)
        for d in ix:
            if d not in self.dims:
                raise ValueError("Dimensions %r do not exist" % (d,))
        v = take(self, ix)
        cs = {k: take(c, {d: i for d, i in ix.items() if d in c.dims}) for k, c in self._coords.items()}
        if drop:
            cs = {k: c for k, c in cs.items() if c.dims or not self._coords[k].dims}
        return DataArray(v._v, dims=v.dims, name=self.name, attrs=self.attrs, _coords=cs)

    def __getitem__(self, i):
        if isinstance(i, dict):
            return self.isel(i)
        if isinstance(i, str):
            return self.coords[i]
        if isinstance(i, (int, Num)):
            return self.isel({self.dims[0]: i})
        raise Unsupported("DataArray indexing")

    def to_dataset(self, name=None):
        n = name or self.name
        if n is None:
            raise ValueError("unable to convert unnamed DataArray to a Dataset without providing an explicit name")
        return Dataset({n: self}, {k: c for k, c in self._coords.items()})

    def squeeze(self):
        return self.isel({d: 0 for d, n in zip(self.dims, self._v.shape) if ctx().decide(eq(n, ONE))})

    def _bin(self, o, f):
        if isinstance(o, DataArray) and (self.dims or o.dims):
            raise Unsupported("DataArray arithmetic")
        b = o.values if isinstance(o, DataArray) else o
        r = f(self.values, b)
        return DataArray(r, dims=self.dims)

    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)

    def all(self):
        return self.values.all()

    def __bool__(self):
        raise Unsupported("truth of DataArray")


def take(a, ix):
    """integer selection along named dimensions"""
    v, dims = a._v, a.dims
    sel = {}
    for d, i in ix.items():
        n = v.shape[dims.index(d)]
        p = topoly(i)
        if ctx().decide(lt(p, ZERO)):
            p = p + n
        if not ctx().decide(band(ge(p, ZERO), lt(p, n))):
            raise IndexError("index is out of bounds")
        sel[d] = p
    keep = [d for d in dims if d not in sel]

    def get(idx):
        m = dict(zip(keep, idx))
        return v.get(tuple(sel[d] if d in sel else m[d] for d in dims))
    return DataArray(Values([n for d, n in zip(dims, v.shape) if d in keep], get, v.kind), dims=keep, attrs=a.attrs)


def as_variable(k, v):
    if isinstance(v, DataArray):
        return DataArray(v._v, dims=v.dims, attrs=v.attrs, name=k)
    if isinstance(v, tuple) and 2 <= len(v) <= 4 and not isinstance(v[1], (int, float, Num)):
        return DataArray(v[1], dims=v[0], attrs=v[2] if len(v) > 2 else None, name=k)
    vals = values_of(v)
    if len(vals.shape) == 0:
        return DataArray(vals, dims=(), name=k)
    if len(vals.shape) == 1:
        return DataArray(vals, dims=(k,), name=k)
    raise ValueError("Could not convert tuple/array into a variable without dimension names")


class Coords(dict):
    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return dict.__getitem__(self, k)


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        cs = {k: as_variable(k, v) for k, v in (coords or {}).items()}
        vs = {}
        for k, v in (data_vars or {}).items():
            if isinstance(v, DataArray):
                for q, w in v._coords.items():
                    cs.setdefault(q, w)
            vs[k] = as_variable(k, v)
        self._cs, self._vs = cs, vs
        self.attrs = dict(attrs or {})
        self._sizes = {}
        for k, v in list(cs.items()) + list(vs.items()):
            for d, n in zip(v.dims, v._v.shape):
                if d in self._sizes:
                    if not N.same_dim(n, self._sizes[d]):
                        raise ValueError("conflicting sizes for dimension %r" % d)
                else:
                    self._sizes[d] = n

    def _names(self):
        return list(self._vs) + list(self._cs)

    def __contains__(self, k):
        return k in self._vs or k in self._cs

    def __iter__(self):
        return iter(self._vs)

    def _all(self):
        r = dict(self._cs)
        return r

    def __getitem__(self, k):
        if k in self._vs:
            v = self._vs[k]
        elif k in self._cs:
            v = self._cs[k]
        else:
            raise KeyError(k)
        return DataArray(v._v, dims=v.dims, name=k, attrs=v.attrs,
                         _coords={q: c for q, c in self._cs.items() if set(c.dims) <= set(v.dims)})

    @property
    def coords(self):
        return Coords({k: self[k] for k in self._cs})

    @property
    def data_vars(self):
        return Coords({k: self[k] for k in self._vs})

    variables = property(lambda self: Coords({k: self[k] for k in self._names()}))

    @property
    def sizes(self): return {d: Num(n) for d, n in self._sizes.items()}
    dims = sizes

    def squeeze(self):
        drop = [d for d, n in self._sizes.items() if ctx().decide(eq(n, ONE))]
        f = lambda v: take(v, {d: 0 for d in drop if d in v.dims})
        r = Dataset.__new__(Dataset)
        r._cs = {k: f(v) for k, v in self._cs.items()}
        r._vs = {k: f(v) for k, v in self._vs.items()}
        r.attrs = self.attrs
        r._sizes = {d: n for d, n in self._sizes.items() if d not in drop}
        return r

    def isel(self, indexers=None, **kw):
        ix = dict(indexers or {}, **kw)
        r = Dataset.__new__(Dataset)
        f = lambda v: take(v, {d: i for d, i in ix.items() if d in v.dims})
        r._cs = {k: f(v) for k, v in self._cs.items()}
        r._vs = {k: f(v) for k, v in self._vs.items()}
        r.attrs = self.attrs
        r._sizes = {d: n for d, n in self._sizes.items() if d not in ix}
        return r
