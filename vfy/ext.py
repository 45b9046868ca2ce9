"""Extended real numbers: a finite value, +-infinity or not-a-number, each decided by a condition"""
from . import terms as T
from .terms import const, ZERO, ONE, TRUE, FALSE, band, bor, bnot, eq, ne, lt, le, gt, ge, ite, subst, substb
from . import engine as E
from .engine import Num, SBool, topoly, Unsupported, psign


class Ext:
    _is_ext = True
    __array_priority__ = 50

    def __init__(self, p, s=ZERO, nan=FALSE):
        self.p, self.s, self.nan = p, s, nan

    @staticmethod
    def of(v):
        if isinstance(v, Ext):
            return v
        p = topoly(v)
        if p is T.INF:
            return Ext(ZERO, ONE)
        if p is -T.INF:
            return Ext(ZERO, const(-1))
        if T.single_atom(T.INF) in p.fv:
            raise Unsupported("infinite term")
        return Ext(p)

    def _ok(self, o):
        return isinstance(o, (Num, int, float, Ext, SBool))

    def isinf(self):
        return band(ne(self.s, ZERO), bnot(self.nan))

    def isnan(self):
        return self.nan

    @property
    def real(self): return self

    @property
    def imag(self): return Num(ZERO)

    def _bin(self, o, f, swap=False):
        if E._isarr(o) or not self._ok(o):
            return NotImplemented
        o = Ext.of(o)
        return f(o, self) if swap else f(self, o)

    def __add__(self, o): return self._bin(o, _add)
    def __radd__(self, o): return self._bin(o, _add, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: _add(a, -b))
    def __rsub__(self, o): return self._bin(o, lambda a, b: _add(a, -b), True)
    def __mul__(self, o): return self._bin(o, _mul)
    def __rmul__(self, o): return self._bin(o, _mul, True)
    def __truediv__(self, o): return self._bin(o, _div)
    def __rtruediv__(self, o): return self._bin(o, _div, True)
    def __neg__(self): return Ext(-self.p, -self.s, self.nan)
    def __pos__(self): return self

    def __abs__(self):
        return Ext(T.absr(self.p), ite(ne(self.s, ZERO), ONE, ZERO), self.nan)

    def _cmp(self, o, f):
        if E._isarr(o) or not self._ok(o):
            return NotImplemented
        return SBool(f(self, Ext.of(o)))

    def __lt__(self, o): return self._cmp(o, _lt)
    def __gt__(self, o): return self._cmp(o, lambda a, b: _lt(b, a))
    def __le__(self, o): return self._cmp(o, lambda a, b: bor(_lt(a, b), _eq(a, b)))
    def __ge__(self, o): return self._cmp(o, lambda a, b: bor(_lt(b, a), _eq(a, b)))

    def __eq__(self, o):
        r = self._cmp(o, _eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: bnot(_eq(a, b)))
        return True if r is NotImplemented else r

    def __hash__(self):
        raise Unsupported("hash of a number")

    def __bool__(self):
        raise Unsupported("truth of an extended real")

    def __subst__(self, mp, memo=None):
        return Ext(subst(self.p, mp), subst(self.s, mp), substb(self.nan, mp))

    def __merge__(self, c, o):
        o = Ext.of(o)
        return Ext(ite(c, self.p, o.p), ite(c, self.s, o.s), T.bite(c, self.nan, o.nan))

    def __repr__(self):
        return "Ext(%s, %s, %s)" % (T.show(self.p), T.show(self.s), T.showb(self.nan))

    def item(self): return self

    def astype(self, d, **k): return self


def _fin(a):
    return eq(a.s, ZERO)


def _add(a, b):
    fa, fb = _fin(a), _fin(b)
    return Ext(a.p + b.p, ite(fa, b.s, a.s), bor(a.nan, b.nan, band(bnot(fa), bnot(fb), ne(a.s, b.s))))


def _sgn(a):
    return ite(_fin(a), psign(a.p), a.s)


def _mul(a, b):
    fa, fb = _fin(a), _fin(b)
    fin = band(fa, fb)
    s = ite(fin, ZERO, _sgn(a) * _sgn(b))
    return Ext(a.p * b.p, s, bor(a.nan, b.nan, band(bnot(fin), bor(band(fa, eq(a.p, ZERO)), band(fb, eq(b.p, ZERO))))))


def _div(a, b):
    fa, fb = _fin(a), _fin(b)
    s = ite(band(bnot(fa), fb), a.s * psign(b.p), ZERO)
    # division by zero is reported like nan
    nan = bor(a.nan, b.nan, band(bnot(fa), bnot(fb)), band(fb, eq(b.p, ZERO)))
    return Ext(ite(fb, a.p / b.p, ZERO), s, nan)


def _lt(a, b):
    fa, fb = _fin(a), _fin(b)
    return band(bnot(a.nan), bnot(b.nan), bor(lt(a.s, b.s), band(fa, fb, lt(a.p, b.p))))


def _eq(a, b):
    fa, fb = _fin(a), _fin(b)
    return band(bnot(a.nan), bnot(b.nan), eq(a.s, b.s), bor(bnot(fa), eq(a.p, b.p)))
