from .common import *

LAT = ["grid.Grid.region", "grid.GridRegionIndexer.__init__", "grid.GridRegionIndexer.__getitem__", "grid.GridRegionIndexer._get_lat_indices",
       "grid.GridRegion.__init__"]
LON = ["grid.Grid.region", "grid.GridRegionIndexer.__init__", "grid.GridRegionIndexer.__getitem__", "grid.GridRegionIndexer._get_lon_indices",
       "grid.GridRegion.__init__"]


def prove_selected(name, g, r, axis, cond, first=None):
    """the region selects exactly the indices with cond along an axis; contiguous from its first one (cyclic in longitude)"""
    n_all = g.nlat if axis == "lat" else g.nlon
    coord = g.lat if axis == "lat" else g.lon
    arr = r.lat if axis == "lat" else r.lon
    n = topoly(r.shape[0 if axis == "lat" else 1])
    prove_array(name + ": all or one along the other axis", arr, [n], lambda k: arr.get((k,)))
    k, j = gfresh("k"), gfresh("j")
    c = ctx()
    if first is None:
        first = None
    # position of the first selected index, from the coordinate value
    step = const(180) / g.N
    if axis == "lat":
        s = (const(90) - arr.get((ZERO,))) / step
    else:
        s = arr.get((ZERO,)) / step
    mod = lambda x: E.pmod(x, n_all) if axis == "lon" else x
    has = gt(n, ZERO)
    prove(name + ": order", forall([(k, n)], eq(arr.get((k,)), coord(mod(s + k)))))
    d = lambda j: mod(j - s)
    prove(name + ": exact", forall([(j, n_all)], iff(cond(j), band(has, ge(d(j), ZERO), lt(d(j), n)))))
    prove(name + ": at most once", le(n, n_all))


@unit("C04", "latitude range", under=LAT)
def lat_range(c):
    pkg = package()
    g = G(pkg)
    lo, hi = real("a"), real("b")
    r = g.grid.region[:, slice(lo, hi)]
    a, b = T.pmin(lo.p, hi.p), T.pmax(lo.p, hi.p)
    prove_selected("range", g, r, "lat", lambda j: band(le(a, g.lat(j)), le(g.lat(j), b)))
    prove_array("all longitudes", r.lon, [g.nlon], lambda i: g.lon(i))


@unit("C04", "latitude open ends", under=LAT)
def lat_open(c):
    pkg = package()
    g = G(pkg)
    x = real("a")
    prove_selected("from", g, g.grid.region[:, slice(x, None)], "lat", lambda j: ge(g.lat(j), x.p))
    prove_selected("to", g, g.grid.region[:, slice(None, x)], "lat", lambda j: le(g.lat(j), x.p))
    prove_selected("all", g, g.grid.region[:, :], "lat", lambda j: TRUE)


@unit("C04", "hemispheres", under=LAT)
def hemispheres(c):
    pkg = package()
    g = G(pkg)
    prove_selected("N", g, g.grid.region[:, "N"], "lat", lambda j: ge(g.lat(j), ZERO))
    prove_selected("S", g, g.grid.region[:, "S"], "lat", lambda j: le(g.lat(j), ZERO))


@unit("C04", "longitude range", under=LON)
def lon_range(c):
    pkg = package()
    g = G(pkg)
    lo, hi = real("a"), real("b")
    c.require(le(lo.p, hi.p))
    r = g.grid.region[slice(lo, hi), :]
    prove_selected("range", g, r, "lon", lambda i: band(le(lo.p, g.lon(i)), le(g.lon(i), hi.p)))
    prove_array("all latitudes", r.lat, [g.nlat], lambda j: g.lat(j))
    # selection without latitude part
    r = g.grid.region[slice(lo, hi)]
    prove_selected("longitude only", g, r, "lon", lambda i: band(le(lo.p, g.lon(i)), le(g.lon(i), hi.p)))
    prove_array("longitude only: all latitudes", r.lat, [g.nlat], lambda j: g.lat(j))


@unit("C04", "longitude range across 0", under=LON)
def lon_wrap(c):
    pkg = package()
    g = G(pkg)
    lo, hi = real("a"), real("b")
    c.require(lt(hi.p, lo.p))
    r = g.grid.region[slice(lo, hi), :]
    prove_selected("range", g, r, "lon", lambda i: bor(le(lo.p, g.lon(i)), le(g.lon(i), hi.p)))
    # from west to east, starting at the western end
    i = gfresh("i")
    first = r.lon.get((ZERO,))
    n = topoly(r.shape[1])
    prove("starts at the western end", forall([(i, g.nlon)], implies(le(lo.p, g.lon(i)), band(gt(n, ZERO), le(lo.p, first),
                                                                                             le(first, g.lon(i))))))


@unit("C04", "longitude open ends", under=LON)
def lon_open(c):
    pkg = package()
    g = G(pkg)
    x = real("a")
    prove_selected("from", g, g.grid.region[slice(x, None), :], "lon", lambda i: ge(g.lon(i), x.p))
    prove_selected("to", g, g.grid.region[slice(None, x), :], "lon", lambda i: le(g.lon(i), x.p))
    prove_selected("all", g, g.grid.region[:], "lon", lambda i: TRUE)


def on_grid(c, pkg, g, x, axis):
    sel = (lambda: g.grid.region[:, x]) if axis == "lat" else (lambda: g.grid.region[x, :])
    return sel


@unit("C04", "single latitude", under=LAT)
def lat_single(c):
    pkg = package()
    g = G(pkg)
    c.require(le(g.N, const(1000)))
    j0 = T.var("j0", "i")
    c.require(ge(j0, ZERO))
    c.require(lt(j0, g.nlat))
    r = g.grid.region[:, Num(g.lat(j0))]
    prove_array("on the grid", r.lat, [ONE], lambda k: g.lat(j0))
    prove_array("all longitudes", r.lon, [g.nlon], lambda i: g.lon(i))


@unit("C04", "single longitude", under=LON)
def lon_single(c):
    pkg = package()
    g = G(pkg)
    c.require(le(g.N, const(1000)))
    i0 = T.var("i0", "i")
    c.require(ge(i0, ZERO))
    c.require(lt(i0, g.nlon))
    r = g.grid.region[Num(g.lon(i0)), :]
    prove_array("on the grid", r.lon, [ONE], lambda k: g.lon(i0))
    prove_array("all latitudes", r.lat, [g.nlat], lambda j: g.lat(j))


@unit("C04", "single values off the grid", under=LAT + LON)
def off_grid(c):
    """numbers further than 1/20 of the spacing from every coordinate"""
    pkg = package()
    g = G(pkg)
    c.require(le(g.N, const(1000)))
    x = real("x")
    c.require(ge(x.p, const(-1000)))
    c.require(le(x.p, const(1000)))
    step = const(180) / g.N
    v = gfresh("v")
    if c.fork():
        c.require(forall([(v, g.nlat)], gt(T.absr(g.lat(v) - x.p), T.pmax(step / 20, T.absr(x.p) / 50000))))
        prove_raises("latitude", IndexError, lambda: g.grid.region[:, x])
    else:
        c.require(forall([(v, g.nlon)], gt(T.absr(g.lon(v) - x.p), T.pmax(step / 20, T.absr(x.p) / 50000))))
        prove_raises("longitude", IndexError, lambda: g.grid.region[x, :])


@unit("C04", "malformed selections", under=LAT + LON)
def malformed(c):
    pkg = package()
    g = G(pkg)
    rg = g.grid.region
    a = real("a")
    for nm, f in [
        ("lat string", lambda: rg[:, "X"]), ("lat None", lambda: rg[:, None]), ("lat list", lambda: rg[:, [0, 30]]),
        ("lat step", lambda: rg[:, 0:60:2]), ("lat step symbolic", lambda: rg[:, slice(a, None, 1)]),
        ("lat start string", lambda: rg[:, slice("0", 30)]), ("lat stop string", lambda: rg[:, slice(0, "30")]),
        ("lat start string, open", lambda: rg[:, slice("N", None)]), ("lat stop list", lambda: rg[:, slice(None, [1])]),
        ("lon string", lambda: rg["N", :]), ("lon None", lambda: rg[None, :]), ("lon list", lambda: rg[[0, 30], :]),
        ("lon step", lambda: rg[0:60:2, :]), ("lon step symbolic", lambda: rg[slice(None, a, 1), :]),
        ("lon start string", lambda: rg[slice("0", 30), :]), ("lon stop string", lambda: rg[slice(0, "30"), :]),
        ("lon start string, open", lambda: rg[slice("W", None)]), ("lon only, string", lambda: rg["E"]),
        ("three dimensions", lambda: rg[:, :, :]), ("no dimensions", lambda: rg[()]), ("one-tuple", lambda: rg[(slice(None),)]),
    ]:
        prove_raises(nm, IndexError, f)


EXTRACT = ["grid.GridRegion.__init__", "grid.GridRegion._extract_one", "grid.GridRegion.extract", "grid.GridRegion.mask",
           "grid.GridRegion.shape", "grid.GridRegion.lat", "grid.GridRegion.lon"]


@unit("C04", "extraction", under=EXTRACT)
def extraction(c):
    pkg = package()
    g = G(pkg)
    r, nj, ni, J, I = region(pkg, g)
    f, p = g.field("f"), g.profile("p")
    z = uarray("z", (g.nlon,), owner="z")
    prove_eq("shape 0", r.shape[0], nj)
    prove_eq("shape 1", r.shape[1], ni)
    prove_array("lat", r.lat, [nj], lambda j: g.lat(J(j)))
    prove_array("lon", r.lon, [ni], lambda i: g.lon(I(i)))
    prove_array("field", r.extract(f), [nj, ni], lambda j, i: f.get((J(j), I(i))))
    prove_array("meridional profile", r.extract(p), [nj], lambda j: p.get((J(j),)))
    prove_array("zonal profile", r.extract(z), [ni], lambda i: z.get((I(i),)))
    e = r.extract(f, p, z)
    prove_is("several fields", isinstance(e, tuple) and len(e) == 3)
    prove_array("several, field", e[0], [nj, ni], lambda j, i: f.get((J(j), I(i))))
    prove_array("several, profile", e[1], [nj], lambda j: p.get((J(j),)))
    prove_array("several, zonal", e[2], [ni], lambda i: z.get((I(i),)))
    # the extracted arrays are copies: writing to them leaves the input alone
    x = r.extract(f)
    prove_is("field copied", x.buf is not f.buf)
    prove_raises("no fields", ValueError, lambda: r.extract())


@unit("C04", "extraction of mismatched fields", under=EXTRACT)
def extraction_mismatch(c):
    pkg = package()
    g = G(pkg)
    r, nj, ni, J, I = region(pkg, g)
    n, m = T.var("n", "i", pos=True), T.var("m", "i", pos=True)
    c.require(bnot(band(eq(n, g.nlat), eq(m, g.nlon))))
    k = T.var("k", "i", pos=True)
    c.require(bnot(eq(k, g.nlat)))
    c.require(bnot(eq(k, g.nlon)))
    prove_raises("2-dimensional", ValueError, lambda: r.extract(uarray("a", (n, m))))
    prove_raises("1-dimensional", ValueError, lambda: r.extract(uarray("b", (k,))))
    prove_raises("3-dimensional", ValueError, lambda: r.extract(uarray("c", (k, g.nlat, g.nlon))))
    prove_raises("second of two", ValueError, lambda: r.extract(g.field("f"), uarray("d", (k,))))


@unit("C04", "mask", under=["grid.GridRegion.mask"])
def mask(c):
    """true exactly at the selected gridpoints"""
    pkg = package()
    g = G(pkg)
    r, nj, ni, J, I = region(pkg, g)
    m = r.mask
    if not prove_shape("mask", m, [g.nlat, g.nlon]):
        return
    a, b = gfresh("a"), gfresh("b")
    prove("true at every selected point", forall([(a, nj), (b, ni)], tob(m.get((J(a), I(b))))))
    j, i = T.var("j", "i"), T.var("i", "i")
    for x, n in ((j, g.nlat), (i, g.nlon)):
        c.require(ge(x, ZERO))
        c.require(lt(x, n))
    c.require(bor(forall([(a, nj)], bnot(eq(J(a), j))), forall([(b, ni)], bnot(eq(I(b), i)))))
    prove("false elsewhere", bnot(tob(m.get((j, i)))))
    prove("not the grid's", B_true(m))


def B_true(m):
    return TRUE if m.buf.owner is None else FALSE


@unit("C04", "lon_mono", under=["grid.GridRegion.lon_mono"])
def lon_mono(c):
    pkg = package()
    g = G(pkg)
    s, n = T.var("s", "i"), T.var("n", "i", pos=True)
    c.require(ge(s, ZERO))
    c.require(lt(s, g.nlon))
    c.require(ge(n, ONE))
    c.require(le(n, g.nlon))
    I = lambda k: ite(lt(s + k, g.nlon), s + k, s + k - g.nlon)
    r = pkg.grid.GridRegion(g.grid, NP.arange(g.grid.nlat), SymArray((n,), "i", lambda i: I(i[0])))
    m = r.lon_mono
    if not prove_shape("lon_mono", m, [n]):
        return
    k = gfresh("k")
    step = const(180) / g.N
    prove("increasing", forall([(k, n - 1)], eq(m.get((k + 1,)), m.get((k,)) + step)))
    prove("equal modulo 360", forall([(k, n)], bor(eq(m.get((k,)), g.lon(I(k))), eq(m.get((k,)) + 360, g.lon(I(k))))))
    prove_array("lon unchanged", r.lon, [n], lambda q: g.lon(I(q)))


small_integers("C04", "extraction")
