"""Assumed contracts of the libraries used by the code under verification.

Everything in this file (and symnp.py) is *trusted*: it states what NumPy/SciPy/spharm/... do, over the reals."""
import functools as _ft
import itertools as _it
import types
from fractions import Fraction

from . import terms as T
from . import engine as E
from . import symnp as N
from . import solver as S
from .terms import (Poly, B, TRUE, FALSE, ZERO, ONE, const, band, bor, bnot, eq, le, lt, ge, gt, ite, subst, substb,
                    is_var, gfresh, fresh, Unsupported)
from .engine import Num, SBool, topoly, tob, ctx, SymSeq, generic_eval, truth
from .symnp import SymArray, NP, axis_norm, DType, dim

for _n in ("RFFT", "IRFFT", "HILBERT", "G2S", "S2G", "DL", "DP", "WA", "WB", "GX", "GY", "CWT"):
    T.register_linear(_n)


def _dl_hook(sargs, binders, res, sort):
    # the n = 0 component of any divergence or vorticity is zero
    return ZERO if sargs[-1] is ZERO else None


T.register_linear("DL", _dl_hook)
T.register_linear("DP", _dl_hook)


class Module(types.SimpleNamespace):
    """Library module: attributes without a contract are undecided (Unsupported); attributes that do not
    exist in the real library raise AttributeError as they would at run time"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = self.__dict__.get("_real")
        if real is not None:
            import importlib
            try:
                m = importlib.import_module(real)
            except Exception:
                m = None
            if m is not None:
                if hasattr(m, name):
                    raise Unsupported("%s.%s has no dependency contract" % (real, name))
                try:
                    importlib.import_module(real + "." + name)
                except ImportError:
                    raise AttributeError("module %r has no attribute %r" % (real, name))
        raise Unsupported("%s has no dependency contract" % name)


# -- numpy.fft / numpy.linalg ------------------------------------------------------------------------
class _FFT:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("numpy.fft.%s has no dependency contract" % name)

    def rfft(self, a, n=None, axis=-1, norm=None):
        if norm is not None:
            raise Unsupported("fft norm")
        a = NP._arr(a)
        ax = axis_norm(axis, a.ndim)[0]
        m = a._shape[ax]
        if n is not None and not N.same_dim(topoly(n), m):
            raise Unsupported("rfft with n != length")
        f = a.reader()
        sh = list(a._shape)
        sh[ax] = T.floor(m / 2) + 1

        def g(i):
            v = gfresh("ft")
            return T.lin("RFFT", (i[ax],), [(v, m)], f(i[:ax] + (v,) + i[ax + 1:]), "c")
        return SymArray(sh, "c", g)

    def irfft(self, a, n=None, axis=-1, norm=None):
        if norm is not None:
            raise Unsupported("fft norm")
        a = NP._arr(a)
        ax = axis_norm(axis, a.ndim)[0]
        m = a._shape[ax]
        n = (m - 1) * 2 if n is None else topoly(n)
        f = a.reader()
        sh = list(a._shape)
        sh[ax] = n
        if not N.same_dim(T.floor(n / 2) + 1, m):
            raise Unsupported("irfft with truncation or padding")

        def g(i):
            v = gfresh("ft")
            return T.lin("IRFFT", (i[ax], n), [(v, m)], f(i[:ax] + (v,) + i[ax + 1:]), "R")
        return SymArray(sh, "f", g)


class _Linalg:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("numpy.linalg.%s has no dependency contract" % name)

    def norm(self, a, ord=None, axis=None):
        if ord is not None or axis is not None:
            raise Unsupported("norm options")
        return NP.sqrt(NP.sum(NP.abs(a) * NP.abs(a)))


N._NP.fft = _FFT()
N._NP.linalg = _Linalg()


# -- scipy ----------------------------------------------------------------------------------------------
class Interp1d:
    """scipy.interpolate.interp1d: opaque interpolation functional of nodes and values"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.x, self.y = NP._arr(x), NP._arr(y)
        self.kind = kind
        self.axis = axis_norm(axis, self.y.ndim)[0]
        if self.x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if not N.same_dim(self.x._shape[0], self.y._shape[self.axis]):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.opts = (bounds_error is None, fill_value is None, bool(assume_sorted))
        if not isinstance(kind, (str, int)):
            raise Unsupported("interpolation kind")
        ctx().ex.shared.setdefault("interp1d", []).append(self)

    def __call__(self, q):
        q = NP._arr(q)
        fq, fx, fy = q.reader(), self.x.reader(), self.y.reader()
        ax = self.axis
        n = self.x._shape[0]
        name = "INTERP1D:%s:%s" % (self.kind, "" if self.opts == (True, True, False) else str(self.opts))
        sh = self.y._shape[:ax] + q._shape + self.y._shape[ax + 1:]
        nq = q.ndim

        T.register_linear(name)               # every interpolation scheme is linear in the values

        def g(i):
            v, w = gfresh("n"), gfresh("n")
            pre, mid, post = i[:ax], i[ax:ax + nq], i[ax + nq:]
            nodes = T.fn("NODES", [], [([(v, n)], fx((v,)))])
            return T.lin(name, (fq(mid), nodes), [(w, n)], fy(pre + (w,) + post), "R")
        r = SymArray(sh, "f", g)
        return r if sh else r


def _window(name, m, sym):
    m = topoly(m)
    if ctx().decide(lt(m, ZERO)):
        raise ValueError("Window length M must be a non-negative integer")
    nm = "WINDOW:%s:%s" % (name, "sym" if sym else "periodic")
    return SymArray((m,), "f", lambda i: T.app(nm, [m, i[0]]))


def get_window(window, Nx, fftbins=True):
    if not isinstance(window, str):
        raise Unsupported("window specification %r" % (window,))
    return _window(canon_window(window), Nx, not truth(fftbins))


def canon_window(w):
    return {"hanning": "hann", "box": "boxcar", "ones": "boxcar", "rect": "boxcar", "rectangular": "boxcar",
            "han": "hann"}.get(w, w)


def hann(M, sym=True):
    return _window("hann", M, truth(sym))


def boxcar(M, sym=True):
    return NP.ones((M,))


def ext_index(i, n, mode):
    """boundary extension of an index"""
    if mode in ("wrap", "grid-wrap"):
        return E.pmod(i, n)
    if mode in ("reflect", "grid-mirror", "symm"):
        m = E.pmod(i, n * 2)
        return ite(lt(m, n), m, n * 2 - 1 - m)
    raise Unsupported("boundary mode %r" % (mode,))


def _convolve_nd(x, w, mode, centre):
    x, w = NP._arr(x), NP._arr(w)
    if x.ndim != w.ndim:
        raise RuntimeError("filter weights array has incorrect shape.")
    fx, fw = x.reader(), w.reader()
    axes = [k for k in range(x.ndim) if w._shape[k] is not ONE]
    if x.kind in ("i", "b", "n"):
        # the output has the type of the input: integer input is truncated
        kind = x.kind
    else:
        kind = "f"
    bs = [(gfresh("cv"), w._shape[k]) for k in axes]

    def g(i):
        wi, xi = [], []
        q = 0
        for k in range(x.ndim):
            if k in axes:
                v = bs[q][0]
                q += 1
                wi.append(v)
                xi.append(ext_index(i[k] + centre(w._shape[k]) - v, x._shape[k], mode))
            else:
                wi.append(ZERO)
                xi.append(i[k])
        b = fw(tuple(wi)) * fx(tuple(xi))
        return T.psum(bs, b) if bs else b
    r = SymArray(x._shape, "f", g)
    return r if kind == "f" else r.astype("int" if kind != "n" else N.DType("n"))


def nd_convolve(input, weights, output=None, mode="reflect", cval=0.0, origin=0, axes=None):
    if output is not None or origin != 0 or axes is not None:
        raise Unsupported("convolve options")
    return _convolve_nd(input, weights, mode, lambda W: T.floor(W / 2))


def nd_convolve1d(input, weights, axis=-1, output=None, mode="reflect", cval=0.0, origin=0):
    x = NP._arr(input)
    w = NP._arr(weights)
    if output is not None or origin != 0 or w.ndim != 1:
        raise Unsupported("convolve1d options")
    ax = axis_norm(axis, x.ndim)[0]
    key = tuple(slice(None) if k == ax else None for k in range(x.ndim))
    return _convolve_nd(x, w[key], mode, lambda W: T.floor(W / 2))


def convolve2d(in1, in2, mode="full", boundary="fill", fillvalue=0):
    if mode != "same" or boundary not in ("wrap", "symm"):
        raise Unsupported("convolve2d mode %r" % ((mode, boundary),))
    a, b = NP._arr(in1), NP._arr(in2)
    if a.ndim != 2 or b.ndim != 2:
        raise ValueError("convolve2d inputs must both be 2-D arrays")
    # (the result has the common type)
    k = N.up(a.kind, b.kind)
    return _convolve_nd(a.astype(N.DType(k)) if a.kind != k else a, b, boundary, lambda W: T.floor((W - 1) / 2))


def hilbert(x, N=None, axis=-1):
    if N is not None:
        raise Unsupported("hilbert N")
    a = NP._arr(x)
    ax = axis_norm(axis, a.ndim)[0]
    f = a.reader()

    def g(i):
        v = gfresh("hb")
        return T.lin("HILBERT", (i[ax],), [(v, a._shape[ax])], f(i[:ax] + (v,) + i[ax + 1:]), "c")
    return SymArray(a._shape, "c", g)


# -- spharm ---------------------------------------------------------------------------------------------
def nspec(ntrunc):
    return (ntrunc + 1) * (ntrunc + 2) / 2


def spec_n(nt, s):
    return ZERO if s is ZERO else T.app("SPECN", [nt, s], "i")


def spec_m(nt, s):
    return ZERO if s is ZERO else T.app("SPECM", [nt, s], "i")


# 0 <= m <= n <= ntrunc; n = 0 exactly at index 0
S.APP_AXIOMS["SPECN"] = lambda za, r: [r >= 0, (r == 0) == (za[1] == 0)]
S.APP_AXIOMS["NTHTRUE"] = lambda za, r: [r >= 0, S.z3.Implies(za[2] > 0, r < za[2])]
S.APP_AXIOMS["SPECM"] = lambda za, r: [r >= 0]


def getspecindx(ntrunc):
    nt = topoly(ntrunc)
    n = nspec(nt)
    return (SymArray((n,), "i", lambda i: spec_m(nt, i[0])), SymArray((n,), "i", lambda i: spec_n(nt, i[0])))


class Spharmt:
    """spharm.Spharmt: the transforms as linear operators between grid (nlat x nlon) and spectral coefficients"""

    def __init__(self, nlon, nlat, rsphere=6.3712e6, gridtype="regular", legfunc="stored"):
        self.nlon, self.nlat, self.rsphere = nlon, nlat, rsphere
        self.gridtype = gridtype
        self.legfunc = legfunc
        if gridtype not in ("regular", "gaussian"):
            raise ValueError('gridtype must be "regular" or "gaussian"')
        self._n = (topoly(nlat), topoly(nlon))
        self._r = topoly(rsphere)
        self._g = ONE if gridtype == "regular" else ZERO

    def _field(self, x, what):
        if not isinstance(x, SymArray):
            if not isinstance(x, N.MaskedSel):
                raise AttributeError("%r object has no attribute 'shape'" % type(x).__name__)
            x = NP._arr(x)
        if x.ndim != 2:
            if x.ndim == 3:
                raise Unsupported("3-d transform")
            raise ValueError(what + " needs a rank two or three array")
        if not N.same_dim(x._shape[0], self._n[0]) or not N.same_dim(x._shape[1], self._n[1]):
            raise ValueError(what + " got an array of incorrect size")
        if x.kind == "c":
            raise Unsupported("transform of complex field")
        return x.reader()

    def _nt(self, ntrunc):
        if ntrunc is None:
            return self._n[0] - 1
        nt = topoly(ntrunc)
        if not ctx().decide(band(ge(nt, ZERO), le(nt, self._n[0] - 1))):
            raise ValueError("ntrunc out of range")
        return nt

    def _g2s(self, name, f, nt, s, scale=False):
        v, w = gfresh("gj"), gfresh("gi")
        return T.lin(name, (self._g, nt, s), [(v, self._n[0]), (w, self._n[1])], f((v, w)), "c")

    def _s2g(self, name, f, ns, j, i):
        v = gfresh("sp")
        return T.lin(name, (self._g,) + self._n + (j, i), [(v, ns)], f((v,)), "R")

    def _spec(self, x):
        if not isinstance(x, SymArray):
            raise AttributeError("%r object has no attribute 'shape'" % type(x).__name__)
        if x.ndim != 1:
            raise Unsupported("spectral array rank")
        return x.reader(), x._shape[0]

    def grdtospec(self, datagrid, ntrunc=None):
        f = self._field(datagrid, "grdtospec")
        nt = self._nt(ntrunc)
        return SymArray((nspec(nt),), "c", lambda i: self._g2s("G2S", f, nt, i[0]))

    def spectogrd(self, dataspec):
        f, n = self._spec(dataspec)
        return SymArray(self._n, "f", lambda i: self._s2g("S2G", f, n, i[0], i[1]))

    def getvrtdivspec(self, ugrid, vgrid, ntrunc=None):
        # vrt = (d/dl v - d/dp u) / r,   div = (d/dl u + d/dp v) / r
        fu, fv = self._field(ugrid, "getvrtdivspec"), self._field(vgrid, "getvrtdivspec")
        if getattr(vgrid, "kind", None) == "n":
            # v is negated in its own type
            fv = (lambda f: lambda i: -E.overflow(-f(i)))(fv)
        nt = self._nt(ntrunc)
        r = self._r
        vrt = SymArray((nspec(nt),), "c", lambda i: (self._g2s("DL", fv, nt, i[0]) - self._g2s("DP", fu, nt, i[0])) / r)
        div = SymArray((nspec(nt),), "c", lambda i: (self._g2s("DL", fu, nt, i[0]) + self._g2s("DP", fv, nt, i[0])) / r)
        return vrt, div

    def getuv(self, vrtspec, divspec):
        if isinstance(vrtspec, SymArray) and isinstance(divspec, SymArray) and vrtspec.ndim != divspec.ndim:
            raise ValueError("vrtspec, divspec must be same size in getuv!")
        f, n = self._spec(vrtspec)
        g, m = self._spec(divspec)
        if not N.same_dim(n, m):
            raise ValueError("vrtspec,divspec must be same size")
        r = self._r
        u = SymArray(self._n, "f", lambda i: r * (self._s2g("WA", g, n, *i) - self._s2g("WB", f, n, *i)))
        v = SymArray(self._n, "f", lambda i: r * (self._s2g("WA", f, n, *i) + self._s2g("WB", g, n, *i)))
        return u, v

    def getgrad(self, chispec):
        f, n = self._spec(chispec)
        r = self._r
        return (SymArray(self._n, "f", lambda i: self._s2g("GX", f, n, *i) / r),
                SymArray(self._n, "f", lambda i: self._s2g("GY", f, n, *i) / r))


# -- functools / itertools ---------------------------------------------------------------------------------
def _same_key(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is not type(y) and not isinstance(x, (Num, int, float)):
            return False
        if not truth(x == y):
            return False
    return True


def lru_cache(maxsize=128, typed=False):
    """functools.lru_cache: a call may return the stored result of any earlier call with equal arguments"""
    def deco(f):
        memo = []

        @_ft.wraps(f)
        def wrapper(*args, **kw):
            key = args + tuple(sorted(kw.items()))
            for k, r in memo:
                if _same_key(k, key):
                    # still stored?  (eviction depends on the history)
                    if ctx().fork():
                        return r
                    break
            r = f(*args, **kw)
            memo.append((key, r))
            return r
        wrapper.cache_clear = memo.clear
        wrapper.cache_info = lambda: None
        wrapper.__wrapped__ = f
        return wrapper
    if callable(maxsize) and not isinstance(maxsize, (Num, int)):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


class CachedProperty:
    def __init__(self, f):
        self.f = f
        self.__doc__ = f.__doc__

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, o, cls=None):
        if o is None:
            return self
        d = o.__dict__
        if self.name not in d:
            d[self.name] = self.f(o)
        return d[self.name]


def chain(*its):
    seqs = []
    for x in its:
        m = type(x).__iter__ if hasattr(type(x), "__iter__") else None
        if isinstance(m, types.FunctionType) and not isinstance(x, SymSeq) and not E._isarr(x):
            x = m(x)
        if E._isarr(x):
            x = x.as_seq()
        seqs.append(x)
    if not any(isinstance(x, SymSeq) for x in seqs):
        return _it.chain(*seqs)
    out = None
    for x in seqs:
        if not isinstance(x, SymSeq):
            l = list(x)
            x = SymSeq(const(len(l)), lambda i, l=l: _pick(l, i))
        out = x if out is None else _cat(out, x)
    return SymSeq(out.n, out.fn, "iter")


def _pick(l, i):
    c = i.const()
    if c is not None:
        return l[int(c)]
    r = l[-1]
    for k in reversed(range(len(l) - 1)):
        if ctx().decide(eq(i, const(k))):
            return l[k]
    return r


def _cat(a, b):
    def at(i):
        if ctx().decide(lt(i, a.n)):
            return a.fn(i)
        return b.fn(i - a.n)
    return SymSeq(a.n + b.n, at)


def make(extra=None):
    """Fresh set of dependency stubs"""
    signal = Module(_real="scipy.signal", get_window=get_window, convolve2d=convolve2d, hilbert=hilbert,
                    windows=Module(_real="scipy.signal.windows", hann=hann, get_window=get_window, boxcar=boxcar))
    ndimage = Module(_real="scipy.ndimage", convolve=nd_convolve, convolve1d=nd_convolve1d)
    interpolate = Module(_real="scipy.interpolate", interp1d=Interp1d)
    scipy = Module(_real="scipy", signal=signal, ndimage=ndimage, interpolate=interpolate)
    functools = Module(_real="functools", lru_cache=lru_cache, cache=lru_cache(None) and (lambda f: lru_cache(None)(f)),
                       partial=_ft.partial, wraps=_ft.wraps, reduce=_ft.reduce, cached_property=CachedProperty,
                       total_ordering=_ft.total_ordering)
    itertools = Module(_real="itertools", chain=chain, product=product, repeat=_it.repeat, count=_it.count,
                       zip_longest=_it.zip_longest, islice=_it.islice)
    warnings = Module(_real="warnings", warn=lambda *a, **k: None, catch_warnings=NP.errstate,
                      simplefilter=lambda *a, **k: None)
    spharm = Module(Spharmt=Spharmt, getspecindx=getspecindx)
    d = {
        "numpy": NP, "numpy.fft": NP.fft, "scipy": scipy, "scipy.signal": signal, "scipy.ndimage": ndimage,
        "scipy.signal.windows": signal.windows, "scipy.interpolate": interpolate, "spharm": spharm,
        "functools": functools, "itertools": itertools, "warnings": warnings,
    }
    if extra:
        d.update(extra)
    for heavy in ("matplotlib", "matplotlib.pyplot", "matplotlib.ticker", "xarray", "pywt", "falwa",
                  "falwa.barotropic_field"):
        if heavy not in d:
            d[heavy] = Module()
    return d


def product(*its, repeat=1):
    if repeat != 1:
        raise Unsupported("product repeat")
    if len(its) == 1 and isinstance(its[0], E.Star):
        return star_product(its[0].seq)
    seqs = []
    for x in its:
        if E._isarr(x):
            x = x.as_seq()
        seqs.append(x)
    if not any(isinstance(x, SymSeq) for x in seqs):
        return _it.product(*seqs)
    seqs = [x if isinstance(x, SymSeq) else _fixed(list(x)) for x in seqs]
    n = ONE
    for s in seqs:
        n = n * s.n

    def at(i):
        # the last factor varies fastest
        out = []
        for s in reversed(seqs[1:]):
            q = T.floor(i / s.n)
            out.append(s.fn(i - q * s.n))
            i = q
        return (seqs[0].fn(i),) + tuple(reversed(out))
    return SymSeq(n, at, "iter")


def star_product(seqs):
    """product of a symbolic number of sequences: tuple k holds item DIGIT(k, d) of sequence d; by contract of
    itertools.product the tuples are the members of the product in lexicographic order of their indices"""
    h = getattr(ctx().ex, "star_product", None)
    if h is None:
        raise Unsupported("product of a symbolic number of sequences")
    n, digit = h(seqs)
    return SymSeq(n, lambda k: SymSeq(seqs.n, lambda d: seqs.fn(d).fn(digit(k, d)), "tuple"), "iter")


def _fixed(l):
    return SymSeq(const(len(l)), lambda i: _pick(l, i))
