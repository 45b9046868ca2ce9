from common import *


def spec(f, w, axis):
    w = w[:, None] * np.ones_like(f)
    if axis in (0, -2, "meridional"):
        return (f * w).sum(axis=0) / w.sum(axis=0)
    if axis in (1, -1, "zonal"):
        return f.sum(axis=1) / f.shape[1]
    return (f * w).sum() / w.sum()


@oracle("gridpoint_area")
def area(c):
    g = make_grid(c, c.pick("N", [2, 3, 4, 5, 7, 10, 12, 15, 36, 60]))
    a = g.gridpoint_area
    close("gridpoint_area", a, areas(g), 1e-10)
    expect((a > 0).all(), "positive")
    close("total", a.sum() * g.nlon, 4 * np.pi * g.rsphere**2)


@oracle("mean", weight=4)
def mean(c):
    g = make_grid(c)
    f = noise(c, g.shape, name="field") if c.pick("dtype", "fi") == "f" else c.np.integers(-5, 9, g.shape)
    w = areas(g)
    ax = c.pick("axis", [None, 0, -2, "meridional", 1, -1, "zonal"])
    close("mean", g.mean(f, axis=ax), spec(f, w, ax), 1e-9, 1e-12)
    r = random_region(c, g)
    J, I = r._lat_indices, r._lon_indices
    e = f[np.ix_(J, I)]
    want = spec(e, w[J], ax)
    close("mean(region)", g.mean(f, axis=ax, region=r), want, 1e-9, 1e-12)
    if r.shape != g.shape:            # fields of the grid's shape count as not extracted yet
        close("mean(region, extracted)", g.mean(r.extract(f), axis=ax, region=r), want, 1e-9, 1e-12)
    close("GridRegion.mean", r.mean(f), spec(e, w[J], None), 1e-9, 1e-12)
    close("GridRegion.mean(extracted)", r.mean(r.extract(f)), spec(e, w[J], None), 1e-9, 1e-12)
    close("region area", r.gridpoint_area, w[J])


@oracle("rejections")
def rejections(c):
    g = make_grid(c)
    bad = c.pick("shape", [(g.nlat - 1, g.nlon), (g.nlat, g.nlon - 1), (1, g.nlon), (g.nlat, 1), (g.nlon, g.nlat), (g.nlat,)])
    raises(Exception, lambda: g.mean(np.ones(bad), axis=c.pick("ax", [None, 0, 1])), "wrong shape")
    raises(Exception, lambda: g.mean(np.ones(g.shape), axis=c.pick("axis", [2, -3, "lat", "x"])), "unknown axis")
    r = g.region[:d2(g), :]
    raises(Exception, lambda: g.mean(np.ones((g.nlat, 4)), region=r), "wrong region shape")
    q = random_region(c, g)
    h, w = q.shape
    for s in ((w, h), (h * w,), (1, h * w), (h * w, 1), (1, w), (h, 1), (1, 1), (h, w, 1), (1, h, w), (w,), (h,)):
        if s not in (q.shape, g.shape):
            raises(Exception, lambda: g.mean(c.np.normal(size=s), region=q), "wrong region shape %s for %s" % (s, q.shape))
            raises(Exception, lambda: q.mean(c.np.normal(size=s)), "GridRegion.mean: wrong region shape %s for %s" % (s, q.shape))


def d2(g):
    return 2 * 180 / (g.nlat - 1) + 1e-6
