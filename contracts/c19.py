from .common import *
from .c07 import has, both, planetary, plus

ST = ["state.State.__init__", "state.State.from_wind", "grid.Grid.to_spectral", "grid.Grid.vorticity"]
cos, sin, exp = (lambda p: D.N.NP.cos(Num(p)).p), (lambda p: D.N.NP.sin(Num(p)).p), (lambda p: D.N.NP.exp(Num(p)).p)


def zonal(g, f):
    return SymArray((g.nlat, g.nlon), "f", lambda i: topoly(f(i[0])))


def check(c, name, make, g, gr, sp, time, u=None, pv=None):
    """the State made by make(time) or make() is the one with the zonally uniform wind (u, 0) or PV"""
    if pv is None:
        pv = plus(planetary(g), sp.g_(sp.vd(zonal(g, u), zonal(g, lambda j: ZERO))[0]))
    else:
        pv = zonal(g, pv)
    S = sp.s(pv)
    has(c, name, make(time), g, gr, sp, S, time)
    s = make(time=time)
    has(c, name + ", time by keyword", s, g, gr, sp, S, time)
    s = make()
    prove_is(name + ": a State", type(s).__name__ == "State")
    prove_is(name + ": grid", s.grid is gr)
    prove_eq(name + ": default time", s.time, ZERO)
    prove_same(name + ", default time: pv_spectral", s.pv_spectral, S)


@unit("C19", "motionless", under=["init.motionless"] + ST)
@both
def motionless(c, pkg, g, gr, sp, State, time):
    f = pkg.init.motionless
    check(c, "motionless", lambda *a, **k: f(gr, *a, **k), g, gr, sp, time,
          pv=lambda j: 2 * g.omega * sin(g.phi(j)))


@unit("C19", "zonally_symmetric", under=["init.zonally_symmetric"] + ST)
@both
def symmetric(c, pkg, g, gr, sp, State, time):
    f = pkg.init.zonally_symmetric
    for k in ("f", "i"):
        p = uarray("p" + k, (g.nlat,), k, owner="profile")
        P = lambda j: topoly(p.get((topoly(j),)))
        check(c, "u (%s)" % k, lambda *a, **kw: f(gr, *a, u=p, **kw), g, gr, sp, time, u=P)
        check(c, "pv (%s)" % k, lambda *a, **kw: f(gr, *a, pv=p, **kw), g, gr, sp, time, pv=P)
    seq = SymSeq(g.nlat, lambda i: Num(app("e", [topoly(i)])), "list")
    check(c, "u as a list", lambda *a, **kw: f(gr, *a, u=seq, **kw), g, gr, sp, time, u=lambda j: app("e", [topoly(j)]))
    prove_raises("neither", ValueError, lambda: f(gr, time))
    prove_raises("both", ValueError, lambda: f(gr, time, u=p, pv=p))
    m = T.var("m", "i", pos=True)
    c.require(ge(m, ONE))
    c.require(bnot(eq(m, g.nlat)))
    rejected("wrong number of u values", lambda: f(gr, time, u=uarray("w", (m,))))
    rejected("wrong number of pv values", lambda: f(gr, time, pv=uarray("w", (m,))))
    for w in (g.nlat, g.nlon):
        rejected("field instead of a profile of u", lambda: f(gr, time, u=uarray("w2", (g.nlat, w))))
        rejected("field instead of a profile of pv", lambda: f(gr, time, pv=uarray("w2", (g.nlat, w))))


@unit("C19", "solid_body_rotation", under=["init.solid_body_rotation"] + ST)
@both
def solid(c, pkg, g, gr, sp, State, time):
    f = pkg.init.solid_body_rotation
    A = T.var("A")
    check(c, "amplitude", lambda *a, **k: f(gr, *a, amplitude=Num(A), **k), g, gr, sp, time, u=lambda j: A * cos(g.phi(j)))
    check(c, "default", lambda *a, **k: f(gr, *a, **k), g, gr, sp, time, u=lambda j: 15 * cos(g.phi(j)))


def jet(g, A, c0, s):
    """Gaussian in latitude minus the straight line through its pole values"""
    A, c0, s = [topoly(x) for x in (A, c0, s)]
    h = const("1/2")
    G = lambda lat: A * exp(-h * (lat - c0) ** 2 / s ** 2)
    gn, gs = G(const(90)), G(const(-90))
    return lambda j: G(g.lat(j)) - (gs + (gn - gs) * (g.lat(j) + 90) / 180)


@unit("C19", "gaussian_jet", under=["init.gaussian_jet"] + ST)
@both
def gaussian(c, pkg, g, gr, sp, State, time):
    f = pkg.init.gaussian_jet
    A, c0, s = T.var("A"), T.var("lat0"), T.var("sigma", pos=True)
    c.require(gt(s, ZERO))
    U = jet(g, A, c0, s)
    prove_eq("no wind at the North Pole", U(ZERO), ZERO)
    prove_eq("no wind at the South Pole", U(g.nlat - 1), ZERO)
    check(c, "jet", lambda *a, **k: f(gr, *a, amplitude=Num(A), center_lat=Num(c0), stdev_lat=Num(s), **k),
          g, gr, sp, time, u=U)
    check(c, "default jet", lambda *a, **k: f(gr, *a, **k), g, gr, sp, time, u=jet(g, 20, 45, 5))
    S = sp.s(plus(planetary(g), sp.g_(sp.vd(zonal(g, U), zonal(g, lambda j: ZERO))[0])))
    has(c, "positional", f(gr, time, Num(A), Num(c0), Num(s)), g, gr, sp, S, time)


@unit("C19", "held_1985", under=["init.held_1985"] + ST)
@both
def held(c, pkg, g, gr, sp, State, time):
    f = pkg.init.held_1985
    def U(A, B, C):
        return lambda j: A * cos(g.phi(j)) - B * cos(g.phi(j)) ** 3 + C * cos(g.phi(j)) ** 6 * sin(g.phi(j)) ** 2
    A, B, C = T.var("A"), T.var("B"), T.var("C")
    check(c, "A, B, C", lambda *a, **k: f(gr, *a, A=Num(A), B=Num(B), C=Num(C), **k), g, gr, sp, time, u=U(A, B, C))
    check(c, "default", lambda *a, **k: f(gr, *a, **k), g, gr, sp, time, u=U(25, 30, 300))
    S = sp.s(plus(planetary(g), sp.g_(sp.vd(zonal(g, U(A, B, C)), zonal(g, lambda j: ZERO))[0])))
    has(c, "positional", f(gr, time, Num(A), Num(B), Num(C)), g, gr, sp, S, time)


small_integers("C19", "zonally_symmetric")
