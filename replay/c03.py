from common import *


def seg_quad(r, phi, y, z):
    """integral of r cos(phi) y over z >= 0 by exact splitting at the root, Gauss-Legendre on every piece"""
    xg, wg = np.polynomial.legendre.leggauss(24)
    out = 0.
    for k in range(len(phi) - 1):
        xu, xl, yu, yl, zu, zl = phi[k], phi[k + 1], y[k], y[k + 1], z[k], z[k + 1]
        lo, hi = xl, xu
        if zu < 0 and zl < 0:
            continue
        if zu < 0 or zl < 0:
            root = xl + (xu - xl) * (0 - zl) / (zu - zl)
            lo, hi = (lo, root) if zu < 0 else (root, hi)
        x = .5 * (hi - lo) * xg + .5 * (hi + lo)
        out += .5 * (hi - lo) * np.sum(wg * r * np.cos(x) * (yl + (yu - yl) * (x - xl) / (xu - xl)))
    return out


@oracle("quad_meridional", weight=3)
def qm(c):
    g = make_grid(c, ntrunc=False)
    w = c.pick("sector", [g.nlon, g.nlon, 1, g.nlon // 2, g.nlon - 1])
    y = c.guard("y", c.np.normal(size=(g.nlat, w)) if c.pick("y", "fi") == "f" else small_ints(c, (g.nlat, w)))
    zk = c.pick("z", ["none", "float", "int", "int", "ints", "pos", "neg"])
    z = {"none": None, "float": c.np.normal(size=(g.nlat, w)), "int": c.np.integers(-2, 3, (g.nlat, w)),
         "ints": small_ints(c, (g.nlat, w), "z type"), "pos": np.ones((g.nlat, w)), "neg": -np.ones((g.nlat, w))}[zk]
    if z is not None:
        c.guard("z", z)
    ze = np.ones((g.nlat, w)) if z is None else z
    phi = np.pi / 2 - np.arange(g.nlat) * np.pi / (g.nlat - 1)
    t = np.array([seg_quad(g.rsphere, phi, y[:, i].astype(float), ze[:, i].astype(float)) for i in range(w)])
    b = (areas(g)[:, None] * y * (ze >= 0)).sum(axis=0) / g.rsphere / (np.pi / (g.nlat - 1))
    sc = g.rsphere * max(1., float(np.abs(y.astype(float)).max()))
    k = g.rsphere * np.pi / (g.nlat - 1)
    a = [] if z is None else [z]
    close("sptrapz", g.quad_meridional(y, *a), t, 1e-9, scale=sc)
    close("sptrapz named", g.quad_meridional(y, z=z, method="sptrapz"), t, 1e-9, scale=sc)
    close("boxcount", g.quad_meridional(y, z=z, method="boxcount"), b, 1e-9, scale=sc)
    close("quad", g.quad(y, *a), k * t.sum(), 1e-9, scale=sc * k)
    close("quad boxcount", g.quad(y, z, "boxcount"), k * b.sum(), 1e-9, scale=sc * k)


@oracle("rejections")
def rej(c):
    g = make_grid(c)
    m = c.pick("method", ["sptrapz", "boxcount"])
    raises(Exception, lambda: g.quad_meridional(np.ones((g.nlat + c.pick("d", [-1, 1, 2]), g.nlon)), method=m), "latitude count")
    raises(Exception, lambda: g.quad(np.ones((g.nlon, g.nlat)), method=m), "transposed")
    raises(Exception, lambda: g.quad_meridional(np.ones(g.nlat), method=m), "profile")
    raises(Exception, lambda: g.quad(np.ones(g.shape), method=c.pick("bad", ["trapz", "simpson", "", "box"])), "unknown method")
