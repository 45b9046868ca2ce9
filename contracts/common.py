"""Contracts shared between properties (spec functions and callee contracts)"""
import datetime

from vfy.unit import *


def use_area(pkg, g):
    """callee contract of Grid.gridpoint_area (proved in C02): positive areas, one per latitude"""
    def area(self):
        if self is not g.grid:
            raise Unsupported("gridpoint_area of another grid")
        return SymArray((g.nlat,), "f", lambda i: area_term(g, i[0]))
    return replace(pkg, "grid.Grid.gridpoint_area", area)


def area_term(g, j):
    return app("AREA", [topoly(j)])


D.S.APP_AXIOMS["AREA"] = lambda za, r: [r > 0]


def region(pkg, g, name="reg"):
    """an arbitrary region: any index vectors into the grid"""
    c = ctx()
    nj = T.var(name + "_nj", "i", pos=True)
    ni = T.var(name + "_ni", "i", pos=True)
    for n, m in ((nj, g.nlat), (ni, g.nlon)):
        c.require(ge(n, ONE))
        c.require(le(n, m))
    J = uarray(name + "_J", (nj,), "i")
    I = uarray(name + "_I", (ni,), "i")
    v = gfresh("q")
    c.require(forall([(v, nj)], band(ge(J.get((v,)), ZERO), lt(J.get((v,)), g.nlat))))
    v = gfresh("q")
    c.require(forall([(v, ni)], band(ge(I.get((v,)), ZERO), lt(I.get((v,)), g.nlon))))
    r = pkg.grid.GridRegion(g.grid, J, I)
    return r, nj, ni, (lambda k: J.get((topoly(k),))), (lambda k: I.get((topoly(k),)))


def vsum(n, f):
    v = gfresh("s")
    return psum([(v, topoly(n))], topoly(f(v)))


def vsum2(n, m, f):
    v, w = gfresh("s"), gfresh("s")
    return psum([(v, topoly(n)), (w, topoly(m))], topoly(f(v, w)))


def rejected(name, thunk):
    prove_raises(name, Exception, thunk)


class Sp:
    """The reference transforms of a grid: spharm's transforms for its size, radius and truncation"""

    def __init__(self, g):
        self.g = g
        self.sp = D.Spharmt(Num(g.nlon), Num(g.nlat), rsphere=Num(g.r), gridtype="regular")
        self.nt = Num(g.nt)

    def s(self, f): return self.sp.grdtospec(f, self.nt)
    def g_(self, f): return self.sp.spectogrd(f)
    def vd(self, u, v): return self.sp.getvrtdivspec(u, v.astype("float"), self.nt)
    def uv(self, vo, di): return self.sp.getuv(vo, di)
    def grad(self, f): return self.sp.getgrad(self.s(f))

    def lam(self, s):
        """-eigenvalue of the Laplacian: n(n+1)/r^2"""
        n = D.spec_n(self.g.nt, topoly(s))
        return n * (n + 1) / self.g.r / self.g.r

    def spec(self, f):
        """spectral array with the given coefficients"""
        return SymArray((self.g.ns,), "c", lambda i: f(i[0]))


def grids(pkg):
    """a grid with default and with given truncation"""
    return [("", G(pkg)), ("ntrunc: ", G(pkg, "t", ntrunc="sym"))]


# -- times ------------------------------------------------------------------------------------------------
class Delta(datetime.timedelta):
    """a timedelta: an opaque number of seconds"""

    def __new__(cls, p):
        o = datetime.timedelta.__new__(cls)
        o.p = topoly(p)
        return o

    # days, seconds and microseconds: the parts of the (whole number of microseconds in the) interval
    @property
    def days(self): return Num(T.floor(self.p / 86400))

    @property
    def seconds(self): return Num(T.floor(self.p) - T.floor(self.p / 86400) * 86400)

    @property
    def microseconds(self): return Num((self.p - T.floor(self.p)) * 10**6)

    def __repr__(self):
        return "<timedelta>"

    def total_seconds(self):
        return Num(self.p)

    def _d(self, o):
        p = interval(o)
        if p is None:
            raise TypeError("unsupported operand type(s): 'timedelta' and %r" % type(o).__name__)
        return p

    def __bool__(self): return bool(SBool(bnot(eq(self.p, ZERO))))

    def __add__(self, o):
        p = interval(o)
        return NotImplemented if p is None else Delta(self.p + p)
    __radd__ = __add__

    def __sub__(self, o):
        p = interval(o)
        return NotImplemented if p is None else Delta(self.p - p)

    def __rsub__(self, o):
        p = interval(o)
        return NotImplemented if p is None else Delta(p - self.p)

    def __neg__(self): return Delta(-self.p)
    def __pos__(self): return self
    def __abs__(self): return Delta(T.absr(self.p))

    def __mul__(self, o):
        if isinstance(o, (Num, int, float)):
            return Delta(self.p * topoly(o))
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = interval(o)
        if p is not None:
            return Num(self.p / p)
        return Delta(self.p / topoly(o)) if isinstance(o, (Num, int, float)) else NotImplemented

    def __floordiv__(self, o):
        p = interval(o)
        if p is None:
            raise Unsupported("interval // number")
        return Num(T.floor(self.p / p))

    def __mod__(self, o): return Delta(self.p - T.floor(self.p / self._d(o)) * self._d(o))
    def __divmod__(self, o): return self // o, self % o

    def _no(self, *a):
        raise Unsupported("operation of a timedelta")
    __rtruediv__ = __rfloordiv__ = __rmod__ = __rdivmod__ = __reduce__ = _no

    def __lt__(self, o): return SBool(lt(self.p, self._d(o)))
    def __le__(self, o): return SBool(le(self.p, self._d(o)))
    def __gt__(self, o): return SBool(gt(self.p, self._d(o)))
    def __ge__(self, o): return SBool(ge(self.p, self._d(o)))
    def __eq__(self, o): return False if interval(o) is None else SBool(eq(self.p, interval(o)))
    def __ne__(self, o): return True if interval(o) is None else SBool(bnot(eq(self.p, interval(o))))
    __hash__ = object.__hash__


def interval(o):
    """seconds of a timedelta (None: not a timedelta)"""
    if isinstance(o, Delta):
        return o.p
    if isinstance(o, datetime.timedelta):
        return const(Fraction(o // datetime.timedelta(microseconds=1), 10**6))
    return None


class Time(datetime.datetime):
    """a datetime"""

    def __new__(cls, p):
        o = datetime.datetime.__new__(cls, 2000, 1, 1)
        o.p = topoly(p)
        return o

    def __repr__(self):
        return "<datetime>"
    __str__ = isoformat = strftime = __repr__

    def _t(self, o):
        if not isinstance(o, Time):
            raise TypeError("can't compare datetime to %r" % type(o).__name__)
        return o.p

    def __add__(self, o):
        p = interval(o)
        return NotImplemented if p is None else Time(self.p + p)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Time):
            return Delta(self.p - o.p)
        p = interval(o)
        return NotImplemented if p is None else Time(self.p - p)

    def _no(self, *a):
        raise Unsupported("operation of a datetime")
    timestamp = timetuple = toordinal = date = time = timetz = replace = astimezone = weekday = isoweekday = ctime = _no
    __format__ = __rsub__ = __reduce__ = _no
    year = month = day = hour = minute = second = microsecond = property(_no)

    def __lt__(self, o): return SBool(lt(self.p, self._t(o)))
    def __le__(self, o): return SBool(le(self.p, self._t(o)))
    def __gt__(self, o): return SBool(gt(self.p, self._t(o)))
    def __ge__(self, o): return SBool(ge(self.p, self._t(o)))
    def __eq__(self, o): return SBool(eq(self.p, o.p)) if isinstance(o, Time) else False
    def __ne__(self, o): return SBool(bnot(eq(self.p, o.p))) if isinstance(o, Time) else True
    __hash__ = object.__hash__


def prove_time(name, got, want):
    """equal point in time of the same kind"""
    if isinstance(want, Time):
        if not isinstance(got, Time):
            ctx().violated(name, "not a datetime: %r" % type(got))
            return
        prove_eq(name, got.p, want.p)
    else:
        if isinstance(got, (Time, Delta)) or not isinstance(got, (Num, int, float)):
            ctx().violated(name, "not a number: %r" % type(got))
            return
        prove_eq(name, got, want)


def clock(c, kind):
    """(time, step) makers: numbers, or datetimes with timedelta steps"""
    if kind == "number":
        return (lambda n: Num(T.var(n))), (lambda n: Num(T.var(n)))
    return (lambda n: Time(T.var(n))), (lambda n: Delta(T.var(n)))


def seconds(d):
    return d.p if isinstance(d, (Delta, Time)) else topoly(d)


# -- quadrature and interpolation as functionals --------------------------------------------------------------
def column(n, f):
    """token standing for the values f(0), ..., f(n-1) of one column"""
    v = gfresh("k")
    return fn("COLUMN", [], [([(v, topoly(n))], topoly(f(v)))])


def qm_term(g, method, y, z):
    """meridional quadrature of the columns y, z (functions of the latitude index; z None: everywhere)"""
    name = "QM:" + method
    T.register_linear(name)              # linear in the integrand
    v = gfresh("k")
    return T.lin(name, (column(g.nlat, z if z is not None else (lambda j: ONE)),), [(v, g.nlat)], topoly(y(v)), "R")


def use_quad_meridional(pkg, g):
    """callee contract of quad_meridional (C03): one functional of the columns of y and z for each longitude, linear
    in y; z omitted means everywhere; wrong latitude counts and unknown schemes are rejected"""
    def qm(self, y, z=None, method="sptrapz"):
        if self is not g.grid:
            raise Unsupported("quad_meridional of another grid")
        y = NP.asarray(y)
        if y.ndim != 2 or not ctx().decide(eq(y._shape[0], g.nlat)):
            raise AssertionError("shape mismatch in meridional dimension")
        if method not in ("sptrapz", "boxcount"):
            raise ValueError("unknown quadrature scheme")
        w = y._shape[1]
        fy = y.reader()
        if z is None:
            fz = lambda i: ONE
        else:
            z = NP.asarray(z)
            zs = N.bshape(y._shape, z._shape)
            if len(zs) != 2 or not all(N.same_dim(a, b) for a, b in zip(zs, y._shape)):
                raise Unsupported("domain of another shape")
            rz = z.reader()
            fz = lambda i: rz(N.bidx(i, z._shape, y._shape))
        return SymArray((w,), "f", lambda i: qm_term(g, method, lambda j: fy((j, i[0])), lambda j: fz((j, i[0]))))
    return replace(pkg, "grid.Grid.quad_meridional", qm)


def quad_term(g, w, method, y, z):
    """surface integral (C03): r*dlam times the sum of the meridional integrals"""
    return g.r * g.dlam * vsum(w, lambda i: qm_term(g, method, lambda j: y(j, i), lambda j: z(j, i)))


def interp_spec(n, lat, val, poles, q, kind="linear"):
    """kind-interpolation at latitude q of the values val(k) at lat(k), k < n, with the pole values at +-90
    (input at or beyond the poles is replaced by them)"""
    n = topoly(n)
    la = SymArray((n,), "f", lambda i: topoly(lat(i[0])))
    va = SymArray((n,), "f", lambda i: topoly(val(i[0])))
    inner = N.opaque_positions(abs(la) < 90)
    m = inner._shape[0]
    pos = inner.reader()
    pick = lambda first, f, last: (lambda k: ite(ge(k, m + 1), topoly(last),
                                                 ite(lt(k, ONE), topoly(first), topoly(f(pos((k - 1,)))))))
    x, y = pick(const(90), lambda k: la.get((k,)), const(-90)), pick(poles[0], lambda k: va.get((k,)), poles[1])
    v, w = gfresh("n"), gfresh("n")
    nodes = fn("NODES", [], [([(v, m + 2)], x(v))])
    name = "INTERP1D:%s:" % kind
    T.register_linear(name)
    return T.lin(name, (topoly(q), nodes), [(w, m + 2)], y(w), "R")
