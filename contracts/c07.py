from .common import *

ST = "state.State."
GR = ["grid.Grid." + k for k in ("to_spectral", "to_grid", "wind", "vorticity", "divergence_spectral", "solve_poisson_spectral")]


def both(f):
    def run(c):
        pkg = package()
        g = G(pkg) if c.fork() else G(pkg, ntrunc="sym")
        time = real("time")
        f(c, pkg, g, g.grid, Sp(g), pkg.state.State, time)
    return run


def planetary(g):
    return SymArray((g.nlat, g.nlon), "f", lambda i: g.f(i[0]))


def plus(a, b):
    return SymArray(a._shape, a.kind, lambda i: a.get(i) + b.get(i))


def minus(a, b):
    return SymArray(a._shape, a.kind, lambda i: a.get(i) - b.get(i))


def times(a, b):
    return SymArray(a._shape, a.kind, lambda i: a.get(i) * b.get(i))


def has(c, name, s, g, gr, sp, S, time):
    """s is a State at (grid, time) with spectral PV S, and the fields that follow from it"""
    prove_is(name + ": a State", type(s).__name__ == "State")
    prove_is(name + ": grid", s.grid is gr)
    prove_is(name + ": time", s.time is time)
    prove_same(name + ": pv_spectral", s.pv_spectral, S)


def fields(c, name, s, g, gr, sp, S):
    nz = SymArray((g.ns,), "c", lambda i: ZERO)
    q = sp.g_(S)
    F = planetary(g)
    Z = minus(S, sp.s(F))
    u, v = sp.uv(Z, nz)
    z = minus(q, F)
    name += ": "
    prove_same(name + "u", s.u, u)
    prove_same(name + "v", s.v, v)
    prove_same(name + "pv", s.pv, q)
    prove_same(name + "avo", s.avo, q)
    prove_same(name + "pv_spectral", s.pv_spectral, S)
    prove_same(name + "vorticity", s.vorticity, z)
    prove_same(name + "vo", s.vo, z)
    prove_same(name + "vorticity_spectral", s.vorticity_spectral, Z)
    psi = sp.g_(sp.spec(lambda k: ite(eq(k, ZERO), ZERO, -Z.get((k,)) / sp.lam(k))))
    prove_same(name + "streamfunction", s.streamfunction, psi)
    half = const(1) / 2
    uu, vv, qq = u.reader(), v.reader(), q.reader()
    sh = (g.nlat, g.nlon)
    prove_array(name + "energy", s.energy, sh, lambda j, i: half * (uu((j, i)) ** 2 + vv((j, i)) ** 2))
    prove_array(name + "enstrophy", s.enstrophy, sh, lambda j, i: half * qq((j, i)) ** 2)

    def eddy(j, i):
        return qq((j, i)) - vsum(g.nlon, lambda k: qq((j, k))) / g.nlon
    prove_array(name + "eddy_enstrophy", s.eddy_enstrophy, sh, lambda j, i: half * eddy(j, i) ** 2)
    prove_same(name + "pv_flux_spectral", s.pv_flux_spectral, sp.vd(times(q, u), times(q, v))[1])


PROPS = [ST + k for k in ("pv", "avo", "pv_spectral", "u", "v", "_invert_pv", "streamfunction", "pv_flux_spectral",
                          "vorticity", "vo", "vorticity_spectral", "enstrophy", "eddy_enstrophy", "energy")]


@unit("C07", "fields of a state made from spectral PV", under=[ST + "__init__"] + PROPS + GR)
@both
def from_spectral(c, pkg, g, gr, sp, State, time):
    S = g.spec("S")
    s = State(gr, time, pv_spectral=S)
    has(c, "pv_spectral=", s, g, gr, sp, S, time)
    fields(c, "pv_spectral=", s, g, gr, sp, S)


@unit("C07", "fields of a state made from PV", under=[ST + "__init__"] + PROPS + GR)
@both
def from_pv(c, pkg, g, gr, sp, State, time):
    q = g.field("q")
    s = State(gr, time, pv=q) if c.fork() else State(gr, time, q)
    S = sp.s(q)
    has(c, "pv=", s, g, gr, sp, S, time)
    fields(c, "pv=", s, g, gr, sp, S)


@unit("C07", "fields in any order", under=[ST + "__init__"] + PROPS + GR)
@both
def any_first(c, pkg, g, gr, sp, State, time):
    """each field as the first one that is accessed"""
    q = g.field("q")
    s = State(gr, time, pv=q)
    S = sp.s(q)
    nz = SymArray((g.ns,), "c", lambda i: ZERO)
    u, v = sp.uv(minus(S, sp.s(planetary(g))), nz)
    prove_same("v first", s.v, v)
    prove_same("u second", s.u, u)


@unit("C07", "from_vorticity, from_wind", under=[ST + "from_vorticity", ST + "from_wind", ST + "__init__"] + GR)
@both
def constructors(c, pkg, g, gr, sp, State, time):
    z, u, v = g.field("z"), g.field("u"), g.field("v")
    F = planetary(g)
    has(c, "from_vorticity", State.from_vorticity(gr, time, z), g, gr, sp, sp.s(plus(F, z)), time)
    want = sp.s(plus(F, sp.g_(sp.vd(u, v)[0])))
    has(c, "from_wind", State.from_wind(gr, time, u, v), g, gr, sp, want, time)


@unit("C07", "add_wind", under=[ST + "add_wind", ST + "from_wind", ST + "__init__"] + GR)
@both
def add_wind(c, pkg, g, gr, sp, State, time):
    q, p, u, v = g.field("q"), g.field("p"), g.field("du"), g.field("dv")
    s, o = State(gr, time, pv=q), State(gr, real("time2"), pv=p)
    F = planetary(g)
    nz = SymArray((g.ns,), "c", lambda i: ZERO)

    def w(x): return sp.uv(minus(sp.s(x), sp.s(F)), nz)

    def want(a, b): return sp.s(plus(F, sp.g_(sp.vd(a, b)[0])))
    (su, sv), (ou, ov) = w(q), w(p)
    has(c, "State", s.add_wind(o), g, gr, sp, want(plus(su, ou), plus(sv, ov)), time)
    has(c, "State itself", s.add_wind(s), g, gr, sp, want(plus(su, su), plus(sv, sv)), time)
    has(c, "fields", s.add_wind((u, v)), g, gr, sp, want(plus(su, u), plus(sv, v)), time)
    has(c, "list of fields", s.add_wind([u, v]), g, gr, sp, want(plus(su, u), plus(sv, v)), time)
    prove_same("operand unchanged", s.pv_spectral, sp.s(q))
    prove_same("operand unchanged (2)", o.pv_spectral, sp.s(p))


@unit("C07", "add_vorticity", under=[ST + "add_vorticity", ST + "__init__"] + GR)
@both
def add_vorticity(c, pkg, g, gr, sp, State, time):
    q, p, z = g.field("q"), g.field("p"), g.field("z")
    s, o = State(gr, time, pv=q), State(gr, real("time2"), pv=p)
    Q, P = sp.g_(sp.s(q)), sp.g_(sp.s(p))
    F = planetary(g)
    has(c, "State", s.add_vorticity(o), g, gr, sp, sp.s(plus(Q, minus(P, F))), time)
    has(c, "State itself", s.add_vorticity(s), g, gr, sp, sp.s(plus(Q, minus(Q, F))), time)
    has(c, "field", s.add_vorticity(z), g, gr, sp, sp.s(plus(Q, z)), time)
    prove_same("operand unchanged", s.pv_spectral, sp.s(q))
    prove_same("operand unchanged (2)", o.pv_spectral, sp.s(p))


@unit("C07", "rejections", under=[ST + "__init__", ST + "add_wind", ST + "add_vorticity"])
def rejections(c):
    pkg = package()
    g = G(pkg)
    h = G(pkg, "h")
    State = pkg.state.State
    t = real("t")
    q = g.field("q")
    s = State(g.grid, t, pv=q)
    rejected("pv and pv_spectral", lambda: State(g.grid, t, pv=q, pv_spectral=g.spec("S")))
    # another grid: different size or different planet
    o = State(h.grid, t, pv=h.field("p"))
    z, u, v = h.field("z"), h.field("uu"), h.field("vv")
    same_size = eq(g.N, h.N)
    c.require(bor(bnot(same_size), ge(h.r, g.r * 2), ge(h.omega, T.absr(g.omega) * 2)))
    rejected("add_wind: other grid", lambda: s.add_wind(o))
    rejected("add_vorticity: other grid", lambda: s.add_vorticity(o))
    if c.decide(bnot(same_size)):
        rejected("add_wind: other size", lambda: s.add_wind(o))
        rejected("add_vorticity: other size", lambda: s.add_vorticity(o))
        rejected("add_wind: u of other shape", lambda: s.add_wind((u, g.field("v"))))
        rejected("add_wind: v of other shape", lambda: s.add_wind((g.field("u"), v)))
        rejected("add_vorticity: other shape", lambda: s.add_vorticity(z))
        rejected("PV of other shape", lambda: State(g.grid, t, pv=h.field("p")).pv)
    column = SymArray((g.nlat, ONE), "f", lambda i: app("col", [i[0]]))
    rejected("add_vorticity: column", lambda: s.add_vorticity(column))
    rejected("add_wind: column u", lambda: s.add_wind((column, g.field("v"))))
    rejected("add_wind: column v", lambda: s.add_wind((g.field("u"), column)))
    rejected("add_vorticity: profile", lambda: s.add_vorticity(g.profile("w")))


small_integers("C07", "fields of a state made from PV", "from_vorticity", "add_wind", "add_vorticity")
