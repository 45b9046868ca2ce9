"""shared generators for the concrete contract checks"""
import numpy as np
import barotropic as bt
import spharm
from base import *

_grids = {}
_nts = {}


def make_grid(c, n=None, ntrunc=True, sizes=(4, 5, 6, 8, 9, 10, 12, 15, 18)):
    if n is None:
        n = c.pick("N", sizes)
    r = c.pick("r", [6371200., 1., 3.5e6, 2e7])
    om = c.pick("omega", [7.292e-5, 1.4584e-4, 3e-5, -2e-5])
    nt = None
    if ntrunc and n > 2:
        nt = c.pick("ntrunc", [None, None, n - 1, max(1, n // 2)])
    key = (n, r, om, nt)
    if key not in _grids:
        _grids[key] = bt.Grid(180. / n, rsphere=r, omega=om, ntrunc=nt)
        _nts[id(_grids[key])] = nt
    g = _grids[key]
    for k, v in vars(g).items():
        if isinstance(v, np.ndarray):
            c.guard("grid." + k, v)
    return g


def ntrunc_of(g):
    """truncation of a grid, known from how it was made"""
    nt = _nts.get(id(g))
    return g.nlat - 1 if nt is None else nt


def smooth(c, g, amp=1., name=None):
    """a smooth random field resolved by the grid"""
    n = g.nlat - 1
    nt = ntrunc_of(g)
    import spharm
    m, nn = spharm.getspecindx(nt)
    s = (c.np.normal(size=m.shape) + 1j * c.np.normal(size=m.shape)) / (1. + nn) ** 1.5
    s[m == 0] = s[m == 0].real
    f = g.to_grid(s.astype(np.complex64)).astype(np.float64)
    f = amp * f / max(1e-30, np.abs(f).max())
    return c.guard(name, f) if name else f


def noise(c, shape, amp=1., name=None):
    f = amp * c.np.normal(size=shape)
    return c.guard(name, f) if name else f


def areas(g):
    n = g.nlat - 1
    mid = np.pi / 2 - (np.arange(n) + .5) * np.pi / n
    s = np.concatenate([[1.], np.sin(mid), [-1.]])
    return g.rsphere**2 * (np.pi / n) * (s[:-1] - s[1:])


def random_region(c, g):
    kind = c.pick("region", ["all", "wrap", "plain", "N", "point", "lonpoint"])
    d = 180 / (g.nlat - 1)
    if kind == "all":
        return g.region[:, :]
    if kind == "N":
        return g.region[:, c.pick("h", "NS")]
    a, b = c.int("a", 0, g.nlon - 1), c.int("b", 0, g.nlon - 1)
    if kind == "wrap":
        a, b = max(a, b), min(a, b)
    if kind == "plain":
        a, b = min(a, b), max(a, b)
    p, q = sorted([c.int("p", 0, g.nlat - 1), c.int("q", 0, g.nlat - 1)])
    lat = slice(90 - q * d - 1e-6, 90 - p * d + 1e-6)
    if kind == "point":
        return g.region[g.lon[a], g.lat[p]]
    if kind == "lonpoint":
        return g.region[g.lon[a], lat]
    return g.region[a * d - 1e-6:b * d + 1e-6, lat]


_sp = {}


class Ref:
    """the spherical harmonic transforms for a grid, made from spharm directly"""

    def __init__(self, g):
        n = g.nlat - 1
        self.n = n
        self.nt = ntrunc_of(g)
        key = (n, g.rsphere)
        if key not in _sp:
            _sp[key] = spharm.Spharmt(2 * n, n + 1, rsphere=g.rsphere, gridtype="regular")
        self.sp = _sp[key]
        m, k = spharm.getspecindx(self.nt)
        self.lam = k * (k + 1.) / g.rsphere**2

    def s(self, f): return self.sp.grdtospec(f, self.nt)
    def g(self, s): return self.sp.spectogrd(s.astype(np.complex64))

    def vd(self, u, v):
        return self.sp.getvrtdivspec(np.asarray(u, np.float64), np.asarray(v, np.float64), self.nt)

    def uv(self, vo, di=None):
        vo = vo.astype(np.complex64)
        return self.sp.getuv(vo, np.zeros_like(vo) if di is None else di.astype(np.complex64))

    def fcor2(self, g):
        n = self.n
        return 2 * g.omega * np.sin(np.pi / 2 - np.arange(n + 1) * np.pi / n)[:, None] * np.ones(2 * n)


def random_state(c, g, name="pv", t=0., kind=None):
    """a state with a random smooth PV of the magnitude of the planetary vorticity"""
    R = Ref(g)
    amp = c.pick(name + ".amp", [.3, 1., 3.])
    q = R.fcor2(g) + amp * abs(g.omega) * smooth(c, g)
    c.guard(name, q)
    return bt.State(g, t, pv=q), q


def segments(r, phi, y, z):
    """integral of r cos(phi) y over z >= 0 between neighbouring latitudes (axis 0), y and z linear between them; exact
    splitting at the root of z, Gauss-Legendre quadrature on the piece"""
    xg, wg = np.polynomial.legendre.leggauss(20)
    y, z = np.asarray(y, float), np.asarray(z, float)
    x = phi[:, None] * np.ones(y.shape)
    xu, xl, yu, yl, zu, zl = x[:-1], x[1:], y[:-1], y[1:], z[:-1], z[1:]
    root = xu + (xl - xu) * zu / np.where(zu == zl, 1., zu - zl)
    lo = np.where((zl < 0) & (zu >= 0), root, xl)
    hi = np.where((zu < 0) & (zl >= 0), root, xu)
    p = .5 * (hi - lo) * xg[:, None, None] + .5 * (hi + lo)
    v = (wg[:, None, None] * np.cos(p) * (yl + (yu - yl) * (p - xl) / (xu - xl))).sum(axis=0)
    return np.where((zu >= 0) | (zl >= 0), r * .5 * (hi - lo) * v, 0.)


def ref_qm(g, y, z=None, method="sptrapz"):
    """meridional quadrature, independently of the code"""
    y = np.asarray(y, float)
    z = np.ones_like(y) if z is None else np.asarray(z, float)
    n = g.nlat - 1
    if method == "boxcount":
        return (areas(g)[:, None] * y * (z >= 0)).sum(axis=0) / g.rsphere / (np.pi / n)
    phi = np.pi / 2 - np.arange(n + 1) * np.pi / n
    return segments(g.rsphere, phi, y, z).sum(axis=0)


def check_interp(what, got, lat, val, poles, q, tol):
    """linear interpolation in latitude with pole values; at repeated input latitudes either order is accepted"""
    lat, val = np.asarray(lat, float), np.asarray(val, float)
    k = np.abs(lat) < 90
    lat, val = np.concatenate([[90.], lat[k], [-90.]]), np.concatenate([[poles[0]], val[k], [poles[1]]])
    # repeated latitudes (up to rounding): any of their values
    o = np.argsort(lat)
    lat, val = lat[o], val[o]
    grp = np.concatenate([[0], np.cumsum(np.diff(lat) > 1e-7)])
    x = np.array([lat[grp == k].mean() for k in range(grp[-1] + 1)])
    x[0], x[-1] = -90., 90.
    mn, mx = (np.array([f(val[grp == k]) for k in range(grp[-1] + 1)]) for f in (np.min, np.max))
    q = np.asarray(q, float)
    lo, hi = np.interp(q, x, mn), np.interp(q, x, mx)
    got = np.asarray(got)
    expect(got.shape == np.shape(q), what + ": shape", got=got.shape)
    tol = tol + 1e-6 * np.abs(np.diff(np.interp(np.stack([q - 1e-6, q + 1e-6]), x, mx), axis=0))[0] * 10
    bad = ~((got >= lo - tol) & (got <= hi + tol))
    if bad.any():
        j = int(np.nonzero(bad)[0][0])
        raise Fail("%s: at latitude %r got %r, expected %r...%r" % (what, q[j], got[j], lo[j], hi[j]))


INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint64", "bool"]


def small_ints(c, shape, name="dtype"):
    """A field of a small or unsigned integer type, using the whole range of the small ones."""
    d = c.pick(name, INTS)
    if d == "bool":
        return c.np.integers(0, 2, shape).astype(bool)
    lo, hi = np.iinfo(d).min, np.iinfo(d).max
    return c.np.integers(max(lo, -10000), min(hi, 10000) + 1, shape).astype(d)
