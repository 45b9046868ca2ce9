from base import *
from common import *


@oracle("coordinates")
def coordinates(c):
    n = c.pick("N", [2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 15, 18, 20, 23, 27, 31, 36, 45, 49, 60, 72, 77, 90])
    g = make_grid(c, n)
    expect((g.nlon, g.nlat) == (2 * n, n + 1), "grid size", nlon=g.nlon, nlat=g.nlat)
    lon, lat = np.arange(2 * n) * 180 / n, 90 - np.arange(n + 1) * 180 / n
    close("lon", g.lon, lon, 1e-9)
    close("lat", g.lat, lat, 1e-9)
    expect(g.lat[0] == 90 and g.lat[-1] == -90 and g.lon[0] == 0, "end points")
    close("lon2", g.lon2, np.broadcast_to(lon, (n + 1, 2 * n)))
    close("lat2", g.lat2, np.broadcast_to(lat[:, None], (n + 1, 2 * n)))
    for a, b in (("lam", "lon"), ("phi", "lat"), ("lam2", "lon2"), ("phi2", "lat2")):
        close(a, getattr(g, a), getattr(g, b) * np.pi / 180)
    close("dlon", g.dlon, 180 / n)
    close("dlat", g.dlat, -180 / n)
    close("dlam", g.dlam, np.pi / n)
    close("dphi", g.dphi, -np.pi / n)
    expect(g.shape == (n + 1, 2 * n), "shape", shape=g.shape)
    fc = 2 * g.omega * np.sin(np.deg2rad(lat))
    close("fcor", g.fcor, fc)
    close("fcor2", g.fcor2, np.broadcast_to(fc[:, None], g.shape))
    x = c.real("x", -90, 90)
    close("circumference", g.circumference(x), 2 * np.pi * g.rsphere * np.cos(np.deg2rad(x)))
    close("circumference(array)", g.circumference(g.lat), 2 * np.pi * g.rsphere * np.cos(np.deg2rad(lat)), atol=1e-3)
    close("coriolis", g.coriolis(x), 2 * g.omega * np.sin(np.deg2rad(x)))
    same("fcor2_spectral", g.fcor2_spectral, g.to_spectral(g.fcor2))


@oracle("sizes of grids", weight=2)
def sizes(c):
    n = c.int("N", 2, 110)
    dt = c.pick("type", [float, float, np.float64, np.float32])
    res = c.note("resolution", dt({0: 180 / n, 1: 360 / (2 * n), 2: 1 / (n / 180)}[c.int("form", 0, 2)]))
    g = bt.Grid(res)
    expect(g.nlon == 2 * n and g.nlat == n + 1, "grid size", nlon=g.nlon, nlat=g.nlat, resolution=res)
    expect(g.lon.shape == (2 * n,) and g.lat.shape == (n + 1,), "coordinate size")


_turn = [0]


@oracle("every size up to N=200")
def every(c):
    k = c.note("residue mod 10", _turn[0] % 10)
    _turn[0] += 1
    for n in range(k if k > 1 else k + 10, 201, 10):
        g = bt.Grid(180 / n, legfunc="computed")
        expect((g.nlon, g.nlat) == (2 * n, n + 1), "grid size", nlon=g.nlon, nlat=g.nlat, N=n)
        close("lon of N=%d" % n, g.lon, np.arange(2 * n) * 180 / n, 1e-12)
        close("lat of N=%d" % n, g.lat, 90 - np.arange(n + 1) * 180 / n, 1e-12)
        expect(g.lat[0] == 90 and g.lat[-1] == -90 and g.lon[0] == 0, "end points", N=n)
        for a in ("lon2", "lat2", "lam2", "phi2", "fcor2"):
            expect(getattr(g, a).shape == (n + 1, 2 * n), "shape of " + a, N=n)


@oracle("identity", weight=4)
def identity(c):
    n = c.pick("N", [4, 6, 9])
    m = c.pick("M", [n, n, n, 5, 12])
    r, om = c.pick("r", [1e-3, 1., 6.371e6, 1e9]), c.pick("omega", [0., 1e-12, 7.292e-5, 1., -7.292e-5])
    fr = c.pick("dr", [0., 0., 1e-14, 1e-3, .5, 3.])
    fo = c.pick("do", [0., 0., 1e-14, 1e-3, .5, 3.])
    nt = c.pick("nt", [None, 0, 3, n - 1])
    mt = c.pick("mt", [None, 0, 3, m - 1] + ([nt] if nt is None or nt < m else []))
    g = bt.Grid(180 / n, rsphere=r, omega=om, ntrunc=nt)
    h = bt.Grid(180 / m, rsphere=r * (1 + fr), omega=om * (1 + fo), ntrunc=mt)
    want = n == m and (n if nt is None else nt) == (m if mt is None else mt) and fr < 1e-6 and (fo < 1e-6 or om == 0)
    expect(bool(g == h) == want, "g == h", got=bool(g == h), expected=want)
    expect(bool(h == g) == want, "h == g", got=bool(h == g), expected=want)
    expect(bool(g != h) == (not want), "g != h")
    expect(g == g and hash(g) == hash(g), "reflexive")
    if want:
        expect(hash(g) == hash(h), "hash of equal grids", a=hash(g), b=hash(h))


@oracle("hash of grids that are equal by tolerance", weight=6)
def hash_tol(c):
    n = c.pick("N", [2, 3, 4])
    r = c.real("r", 1e5, 1e7)
    om = c.real("omega", 1e-5, 1e-3)
    e1 = 10 ** c.real("e1", -16, -5)
    e2 = 10 ** c.real("e2", -16, -5)
    g, h = bt.Grid(180 / n, rsphere=r, omega=om), bt.Grid(180 / n, rsphere=r * (1 + e1), omega=om * (1 - e2))
    if g == h:
        expect(hash(g) == hash(h), "hash of equal grids")
