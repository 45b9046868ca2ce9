from .common import *


@unit("C02", "Grid.gridpoint_area", under=["grid.Grid.gridpoint_area"])
def gridpoint_area(c):
    pkg = package()
    g = G(pkg)
    a = g.grid.gridpoint_area
    scale = g.r * g.r * g.dlam
    half = lambda j: g.phi(j) + g.dphi / 2                # boundary south of latitude j
    # sine of the northern boundary of band j
    F = lambda j: ite(le(topoly(j), ZERO), ONE, ite(ge(topoly(j), g.nlat), -ONE, app("sin", [half(topoly(j) - 1)])))
    prove_array("area of the band", a, [g.nlat], lambda j: scale * (F(j) - F(j + 1)))
    # positive: the northernmost and southernmost bands, and any band between them
    s = lambda j: app("sin", [half(topoly(j))])
    v = T.var("band", "i")
    prove("positive at the North Pole", gt(scale * (ONE - s(0)), ZERO))
    prove("positive at the South Pole", gt(scale * (s(g.nlat - 2) + ONE), ZERO))
    prove("positive between", implies(band(ge(v, ONE), le(v, g.nlat - 2)), gt(scale * (s(v - 1) - s(v)), ZERO)))
    # sum over bands by induction over the number of bands: sum_{j<n} (F(j)-F(j+1)) = F(0)-F(n)
    n = T.var("bands", "i")
    prove_eq("telescoping base", F(0) - F(0), ZERO)
    prove("telescoping step", implies(ge(n, ZERO), eq((F(0) - F(n)) + (F(n) - F(n + 1)), F(0) - F(n + 1))))
    prove_eq("sphere", scale * (F(0) - F(g.nlat)) * g.nlon, PI * 4 * g.r * g.r)


def spec_mean(c, pkg, g, call, field, shape, area, elem, tag):
    ny, nx = shape
    den = vsum(ny, area)
    for ax in (None, "whole"):
        if ax == "whole":
            continue
        prove_eq(tag + "whole", call(field), vsum2(ny, nx, lambda j, i: elem(j, i) * area(j)) / den / nx)
    for ax in (0, -2, "meridional"):
        prove_array(tag + "meridional %r" % (ax,), call(field, axis=ax), [nx],
                    lambda i: vsum(ny, lambda j: elem(j, i) * area(j)) / den)
    for ax in (1, -1, "zonal"):
        prove_array(tag + "zonal %r" % (ax,), call(field, axis=ax), [ny], lambda j: vsum(nx, lambda i: elem(j, i)) / nx)
    for ax in (2, "x", -3):
        rejected(tag + "unknown axis %r" % (ax,), lambda: call(field, axis=ax))


@unit("C02", "Grid.mean(whole grid)", under=["grid.Grid.mean"])
def mean_grid(c):
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    f = g.field("f")
    spec_mean(c, pkg, g, g.grid.mean, f, (g.nlat, g.nlon), lambda j: area_term(g, j), lambda j, i: f.get((j, i)), "")


@unit("C02", "Grid.mean(wrong shape)", under=["grid.Grid.mean"])
def mean_shape(c):
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    n, m = T.var("n", "i", pos=True), T.var("m", "i", pos=True)
    c.require(bnot(band(eq(n, g.nlat), eq(m, g.nlon))))
    f = uarray("f", (n, m))
    for ax in (None, 0, 1):
        rejected("wrong shape, axis %r" % (ax,), lambda: g.grid.mean(f, axis=ax))
        rejected("profile, axis %r" % (ax,), lambda: g.grid.mean(uarray("p", (n,)), axis=ax))


@unit("C02", "Grid.mean(region, full field)", under=["grid.Grid.mean", "grid.GridRegion.gridpoint_area",
                                                    "grid.GridRegion.extract", "grid.GridRegion._extract_one"])
def mean_region_full(c):
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    r, nj, ni, J, I = region(pkg, g)
    f = g.field("f")
    call = lambda x, **k: g.grid.mean(x, region=r, **k)
    spec_mean(c, pkg, g, call, f, (nj, ni), lambda j: area_term(g, J(j)), lambda j, i: f.get((J(j), I(i))), "")


@unit("C02", "Grid.mean(region, extracted field)", under=["grid.Grid.mean", "grid.GridRegion.gridpoint_area",
                                                         "grid.GridRegion.shape"])
def mean_region_extracted(c):
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    r, nj, ni, J, I = region(pkg, g)
    # a region that is not of the shape of the whole grid (otherwise the field counts as not extracted yet)
    c.require(bnot(band(eq(nj, g.nlat), eq(ni, g.nlon))))
    f = uarray("f", (nj, ni), owner="field")
    call = lambda x, **k: g.grid.mean(x, region=r, **k)
    spec_mean(c, pkg, g, call, f, (nj, ni), lambda j: area_term(g, J(j)), lambda j, i: f.get((j, i)), "")
    n, m = T.var("n", "i", pos=True), T.var("m", "i", pos=True)
    c.require(bnot(band(eq(n, g.nlat), eq(m, g.nlon))))
    c.require(bnot(band(eq(n, nj), eq(m, ni))))
    rejected("neither grid nor region shape", lambda: call(uarray("h", (n, m))))


@unit("C02", "GridRegion.mean", under=["grid.GridRegion.mean", "grid.Grid.mean", "grid.GridRegion.gridpoint_area"])
def region_mean(c):
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    r, nj, ni, J, I = region(pkg, g)
    f = g.field("f")
    den = vsum(nj, lambda j: area_term(g, J(j)))
    prove_eq("whole", r.mean(f), vsum2(nj, ni, lambda j, i: f.get((J(j), I(i))) * area_term(g, J(j))) / den / ni)
    prove_array("gridpoint_area", r.gridpoint_area, [nj], lambda j: area_term(g, J(j)))


@unit("C02", "mean of a constant", under=["grid.Grid.mean"])
def mean_constant(c):
    """weights add up to 1: the mean of a constant is that constant"""
    pkg = package()
    g = G(pkg)
    use_area(pkg, g)
    k = T.var("k")
    f = SymArray((g.nlat, g.nlon), "f", lambda i: k)
    den = vsum(g.nlat, lambda j: area_term(g, j))
    c.require(gt(den, ZERO))
    prove_eq("whole", g.grid.mean(f), k)
    prove_array("zonal", g.grid.mean(f, axis="zonal"), [g.nlat], lambda j: k)
    prove_array("meridional", g.grid.mean(f, axis="meridional"), [g.nlon], lambda j: k)


small_integers("C02", "Grid.mean(", "GridRegion.mean")
