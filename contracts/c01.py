from vfy.unit import *

INIT = ["grid.Grid.__init__", "grid.Grid.coriolis", "grid.Grid.to_spectral", "grid.Grid.shape"]


@unit("C01", "Grid.__init__", under=INIT)
def grid_init(c):
    pkg = package()
    g = G(pkg)
    gr = g.grid
    prove_eq("nlon", gr.nlon, g.nlon)
    prove_eq("nlat", gr.nlat, g.nlat)
    prove_array("lon", gr.lon, [g.nlon], lambda i: g.lon(i))
    prove_array("lat", gr.lat, [g.nlat], lambda j: g.lat(j))
    prove_array("lon2", gr.lon2, [g.nlat, g.nlon], lambda j, i: g.lon(i))
    prove_array("lat2", gr.lat2, [g.nlat, g.nlon], lambda j, i: g.lat(j))
    prove_array("lam", gr.lam, [g.nlon], lambda i: g.lam(i))
    prove_array("phi", gr.phi, [g.nlat], lambda j: g.phi(j))
    prove_array("lam2", gr.lam2, [g.nlat, g.nlon], lambda j, i: g.lam(i))
    prove_array("phi2", gr.phi2, [g.nlat, g.nlon], lambda j, i: g.phi(j))
    prove_eq("dlon", gr.dlon, g.res)
    prove_eq("dlat", gr.dlat, -g.res)
    prove_eq("dlam", gr.dlam, g.dlam)
    prove_eq("dphi", gr.dphi, g.dphi)
    prove_array("fcor", gr.fcor, [g.nlat], lambda j: g.f(j))
    prove_array("fcor2", gr.fcor2, [g.nlat, g.nlon], lambda j, i: g.f(j))
    prove_eq("rsphere", gr.rsphere, g.r)
    prove_eq("omega", gr.omega, g.omega)
    prove_eq("shape0", gr.shape[0], g.nlat)
    prove_eq("shape1", gr.shape[1], g.nlon)
    prove_is("shape is a pair", len(gr.shape) == 2)
    # transforms of this grid: default truncation nlat-1 = N, the grid's own radius
    prove_same("fcor2_spectral", gr.fcor2_spectral, gr.to_spectral(gr.fcor2))
    prove_array("fcor2_spectral.size", gr.fcor2_spectral, [D.nspec(g.N)], lambda s: gr.fcor2_spectral.get((s,)))


@unit("C01", "Grid.__init__(ntrunc)", under=INIT)
def grid_init_trunc(c):
    pkg = package()
    g = G(pkg, ntrunc="sym", trunc_min=0)
    gr = g.grid
    prove_eq("nlon", gr.nlon, g.nlon)
    prove_eq("nlat", gr.nlat, g.nlat)
    prove_array("lat", gr.lat, [g.nlat], lambda j: g.lat(j))
    prove_array("lon", gr.lon, [g.nlon], lambda i: g.lon(i))
    prove_array("fcor2", gr.fcor2, [g.nlat, g.nlon], lambda j, i: g.f(j))
    prove_shape("fcor2_spectral", gr.fcor2_spectral, [g.ns])


@unit("C01", "Grid.__init__(rounding of the resolution)", under=["grid.Grid.__init__"])
def grid_rounding(c):
    """grid size for any floating point number near 180/N (relative error up to 1e-9, N up to 10^5)"""
    pkg = package()
    n = T.var("N", "i", pos=True)
    c.require(ge(n, ONE))
    c.require(le(n, const(100000)))
    # 360/resolution: within the rounding error of 2N
    x = T.var("x", "r", pos=True)
    c.require(le(T.absr(x - n * 2), n * 2 / 10 ** 9))
    rho = const(360) / x
    gr = pkg.grid.Grid(Num(rho), rsphere=real("r", pos=True), omega=real("omega"))
    prove_eq("nlon", gr.nlon, n * 2)
    prove_eq("nlat", gr.nlat, n + 1)
    prove_array("lon", gr.lon, [n * 2], lambda i: i * 180 / n)
    prove_array("lat", gr.lat, [n + 1], lambda j: const(90) - j * 180 / n)


@unit("C01", "Grid.circumference", under=["grid.Grid.circumference"])
def circumference(c):
    pkg = package()
    g = G(pkg)
    x = real("lat")
    prove_eq("scalar", g.grid.circumference(x), PI * 2 * g.r * app("cos", [x.p * PI / 180]))
    a = uarray("lats", (T.var("n", "i", pos=True),), owner="lat")
    prove_array("array", g.grid.circumference(a), a._shape, lambda k: PI * 2 * g.r * app("cos", [a.get((k,)) * PI / 180]))


@unit("C01", "Grid.coriolis", under=["grid.Grid.coriolis"])
def coriolis(c):
    pkg = package()
    g = G(pkg)
    x = real("lat")
    prove_eq("scalar", g.grid.coriolis(x), g.omega * 2 * app("sin", [x.p * PI / 180]))
    a = uarray("lats", (T.var("n", "i", pos=True),), owner="lat")
    prove_array("array", g.grid.coriolis(a), a._shape, lambda k: g.omega * 2 * app("sin", [a.get((k,)) * PI / 180]))


def close(a, b):
    return le(T.absr(a - b), T.absr(b) / 100000)


def two_grids(pkg):
    """two grids with unrelated parameters, differing or not"""
    g = G(pkg, "g", ntrunc="sym", trunc_min=0)
    h = G(pkg, "h", ntrunc="sym", trunc_min=0)
    return g, h


@unit("C01", "Grid.__eq__", under=["grid.Grid.__eq__"])
def grid_eq(c):
    pkg = package()
    g, h = two_grids(pkg)
    got = tob(g.grid == h.grid)
    same = band(eq(g.N, h.N), eq(g.nt, h.nt))
    # equal for identical parameters
    prove("reflexive", implies(band(same, eq(g.r, h.r), eq(g.omega, h.omega)), got))
    # never equal across shapes or truncations
    prove("shape and truncation", implies(got, same))
    # relative comparison of radius and rotation rate, whatever their magnitude
    prove("radius", implies(got, le(T.absr(g.r - h.r), T.absr(h.r) / 10000)))
    prove("rotation", implies(got, le(T.absr(g.omega - h.omega), T.absr(h.omega) / 10000)))
    tight = lambda a, b: le(T.absr(a - b), T.absr(b) / 10 ** 12)
    prove("tolerates rounding", implies(band(same, tight(g.r, h.r), tight(g.omega, h.omega)), got))


@unit("C01", "Grid.__hash__", under=["grid.Grid.__hash__", "grid.Grid.__eq__"])
def grid_hash(c):
    pkg = package()
    g, h = two_grids(pkg)
    # the hash does not depend on anything that may differ between equal grids
    got = tob(g.grid == h.grid)
    if got is FALSE:
        return
    hg, hh = E.v_hash(g.grid), E.v_hash(h.grid)
    prove("equal grids have equal hashes", implies(got, eq(topoly(hg), topoly(hh))))


@unit("C01", "Grid.__ne__", under=["grid.Grid.__eq__"])
def grid_ne(c):
    pkg = package()
    g, h = two_grids(pkg)
    prove("negation", iff(tob(g.grid != h.grid), bnot(tob(g.grid == h.grid))))
