import datetime as dt

from common import *
from falwa.barotropic_field import BarotropicField

SIZES = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18, 23, 30, 36, 45)


def times(c):
    return c.pick("time", [0, 0., 86400., -3600, dt.datetime(2020, 5, 6, 7, 8, 9)])


def a_state(c, g):
    pv = c.guard("pv", 2 * g.omega * np.sin(np.deg2rad(g.lat2)) + (smooth(c, g, 1e-4) if c.pick("noise", [0, 1]) else noise(c, g.shape, 1e-4)))
    return bt.State(g, times(c), pv=pv)


def check_field(s, b):
    g = s.grid
    expect(isinstance(b, BarotropicField), "a falwa field", got=type(b))
    close("longitudes", b.xlon, g.lon, 1e-13)
    close("latitudes", b.ylat, -90 + np.arange(g.nlat) * 180. / (g.nlat - 1), 1e-13)
    expect(np.shape(b.pv_field) == g.shape, "shape of the PV", got=np.shape(b.pv_field))
    for i in range(g.nlat):
        same("PV at latitude %s" % b.ylat[i], b.pv_field[i], s.pv[np.argmin(abs(g.lat - b.ylat[i]))])


@oracle("as_hn2016", weight=2)
def as_hn(c):
    g = make_grid(c, sizes=SIZES)
    s = a_state(c, g)
    pv = c.guard("State.pv", s.pv)
    kw = c.pick("options", [{}, {"planet_radius": g.rsphere}, {"n_partitions": g.nlat + 3}, {"return_partitioned_lwa": True}])
    b = s.as_hn2016(**kw)
    check_field(s, b)
    for k, v in kw.items():
        expect(getattr(b, k) == v, "option " + k, got=getattr(b, k))
    if g.nlat > 4:
        expect(np.all(np.isfinite(b.equivalent_latitudes)), "usable by falwa")
    same("PV of the State afterwards", s.pv, pv)


@oracle("round trip", weight=2)
def there_and_back(c):
    g = make_grid(c, sizes=SIZES)
    s = a_state(c, g)
    t = times(c)
    r = bt.State.from_hn2016(g, t, s.as_hn2016())
    expect(r.grid is g and r.time == t, "grid and time", got=(r.grid, r.time))
    close("PV", r.pv, s.pv, 3e-4)
    close("spectral PV", r.pv_spectral, g.to_spectral(s.pv), 2e-5)


@oracle("from_hn2016", weight=3)
def from_hn(c):
    n = c.pick("N", SIZES)
    m, w = n + 1, 2 * n
    new = c.pick("new grid", [0, 1])
    g = bt.Grid(180. / n) if new else make_grid(c, n)
    f = smooth(c, g, 1e-4)
    b = BarotropicField(np.arange(w) * 180. / n, np.linspace(-90, 90, m), pv_field=c.guard("pv_field", f[::-1].copy()))
    t = times(c)
    s = bt.State.from_hn2016(None if new else g, t, b)
    expect(isinstance(s, bt.State) and s.time == t, "State at its time", got=s.time)
    if new:
        expect(s.grid.shape == (m, w) and abs(s.grid.dlon - 180. / n) < 1e-9, "resolution", got=(s.grid.shape, s.grid.dlon))
        expect(s.grid == g, "a default grid of this resolution")
    else:
        expect(s.grid is g, "grid")
    for i, lat in enumerate(b.ylat):
        j = np.argmin(abs(s.grid.lat - lat))
        close("PV at latitude %s" % lat, s.pv[j], f[j], 3e-4, scale=1e-4)
    for i, lon in enumerate(b.xlon):
        j = np.argmin(abs(s.grid.lon - lon))
        close("PV at longitude %s" % lon, s.pv[:, j], b.pv_field[::-1, i], 3e-4, scale=1e-4)
    close("equivalent State", s.pv_spectral, bt.State(s.grid, t, pv=f).pv_spectral, 2e-5, scale=1e-8)


@oracle("other sizes", weight=1)
def sizes(c):
    g = make_grid(c, sizes=SIZES)
    m = c.pick("nlat", [g.nlat, g.nlat + 1, g.nlat - 1, 2 * g.nlat, g.nlon])
    w = c.pick("nlon", [g.nlon, g.nlon + 1, g.nlon - 1, g.nlat, 2 * g.nlon])
    if (m, w) == g.shape or m < 2:
        return
    b = BarotropicField(np.arange(w) * 360. / w, np.linspace(-90, 90, m), pv_field=np.zeros((m, w)))
    raises(Exception, lambda: bt.State.from_hn2016(g, 0., b), "field of %d x %d on a grid of %s" % (m, w, g.shape))
    if w != 2 * (m - 1):
        raises(Exception, lambda: bt.State.from_hn2016(None, 0., b), "field of %d x %d without a grid" % (m, w))
