"""falwa's contract: BarotropicField keeps the longitudes, latitudes (from the South Pole) and PV it is given as xlon, ylat, pv_field, with
nlon = xlon.size, nlat = ylat.size, and dphi = pi/(nlat-1) at every latitude unless dphi is given."""
import types

from .common import *
from .c07 import has, both
from .c15 import choose

ST = ["state.State.as_hn2016", "state.State.from_hn2016"]


class Baro:
    def __init__(self, xlon, ylat, pv_field, area=None, dphi=None, n_partitions=None, planet_radius=6.378e+6,
                 return_partitioned_lwa=False):
        self.xlon, self.ylat, self.pv_field = xlon, ylat, pv_field
        self.nlon, self.nlat = xlon.size, ylat.size
        n = topoly(self.nlat)
        self.dphi = SymArray((n,), "f", lambda i: PI / (n - 1)) if dphi is None else dphi
        self.area, self.n_partitions, self.planet_radius, self.part = area, n_partitions, planet_radius, return_partitioned_lwa


def falwa():
    m = types.SimpleNamespace(BarotropicField=Baro)
    return package(extra={"falwa": types.SimpleNamespace(barotropic_field=m), "falwa.barotropic_field": m})


def setup(c):
    pkg = falwa()
    g = G(pkg) if c.fork() else G(pkg, ntrunc="sym")
    return pkg, g, Sp(g)


@unit("C21", "as_hn2016", under=ST[:1])
def as_hn(c):
    pkg, g, sp = setup(c)
    # any State: an arbitrary PV field in its accessor
    s = pkg.state.State(g.grid, real("time"), pv_spectral=g.spec("S"))
    pv = s.pv
    kw = choose(c, [{}, {"planet_radius": real("radius")}, {"n_partitions": integer("parts"), "return_partitioned_lwa": True}])
    b = s.as_hn2016(**kw)
    prove_is("a falwa field", isinstance(b, Baro))
    j = lambda i: g.nlat - 1 - i
    prove_array("longitudes", b.xlon, (g.nlon,), g.lon)
    prove_array("latitudes", b.ylat, (g.nlat,), lambda i: g.lat(j(i)))
    prove_eq("starting at the South Pole", b.ylat.get((ZERO,)), const(-90))
    prove_array("PV at its latitude and longitude", b.pv_field, (g.nlat, g.nlon), lambda i, k: pv.get((j(i), k)))
    for k, v in kw.items():
        prove_is("option " + k, {"planet_radius": b.planet_radius, "n_partitions": b.n_partitions, "return_partitioned_lwa": b.part}[k] is v)
    prove_same("PV of the State afterwards", s.pv, sp.g_(s.pv_spectral))


def baro(g, name="Q", nlat=None, nlon=None):
    nlat, nlon = nlat or g.nlat, nlon or g.nlon
    x = SymArray((nlon,), "f", lambda i: i[0] * 360 / nlon)
    y = SymArray((nlat,), "f", lambda i: i[0] * 180 / (nlat - 1) - 90)
    q = uarray(name, (nlat, nlon), owner="pv_field")
    return Baro(x, y, q), q


def flipped(g, q):
    return SymArray((g.nlat, g.nlon), "f", lambda i: q.get((g.nlat - 1 - i[0], i[1])))


@unit("C21", "from_hn2016", under=ST[1:])
def from_hn(c):
    pkg, g, sp = setup(c)
    b, q = baro(g)
    time = real("time")
    s = pkg.state.State.from_hn2016(g.grid, time, b)
    has(c, "State", s, g, g.grid, sp, sp.s(flipped(g, q)), time)
    t = D.datetime.datetime(2020, 1, 2) if hasattr(D, "datetime") else None
    if t is not None:
        prove_is("datetime", pkg.state.State.from_hn2016(g.grid, t, b).time is t)


@unit("C21", "from_hn2016, new grid", under=ST[1:])
def from_new(c):
    pkg, g, sp = setup(c)
    b, q = baro(g)
    time = real("time")
    s = pkg.state.State.from_hn2016(None, time, b)
    prove_is("a State at its time", type(s).__name__ == "State" and s.time is time)
    h = s.grid
    prove_eq("resolution", h.dlon, g.res)
    prove_eq("nlat", h.nlat, g.nlat)
    prove_eq("nlon", h.nlon, g.nlon)
    f = flipped(g, q)
    full = D.Spharmt(Num(g.nlon), Num(g.nlat), rsphere=h.rsphere, gridtype="regular")
    prove_same("pv_spectral", s.pv_spectral, full.grdtospec(f, Num(g.N)))


@unit("C21", "round trip", under=ST)
def there_and_back(c):
    pkg, g, sp = setup(c)
    time = real("time")
    s = pkg.state.State(g.grid, time, pv_spectral=g.spec("S"))
    pv = s.pv
    r = pkg.state.State.from_hn2016(g.grid, time, s.as_hn2016())
    has(c, "State", r, g, g.grid, sp, sp.s(pv), time)


@unit("C21", "other sizes are rejected", under=ST[1:])
def sizes(c):
    pkg, g, sp = setup(c)
    m, n = T.var("m", "i", pos=True), T.var("n", "i", pos=True)
    c.require(ge(m, const(2)))
    c.require(ge(n, ONE))
    wrong = choose(c, ["lat", "lon", "both"])
    if wrong == "lon":
        c.require(eq(m, g.nlat))
        m = g.nlat
    else:
        c.require(bnot(eq(m, g.nlat)))
    if wrong == "lat":
        c.require(eq(n, g.nlon))
        n = g.nlon
    else:
        c.require(bnot(eq(n, g.nlon)))
    b, q = baro(g, nlat=m, nlon=n)
    rejected("wrong " + wrong, lambda: pkg.state.State.from_hn2016(g.grid, real("time"), b))


small_integers("C21", "from_hn2016")
