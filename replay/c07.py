from common import *

T = 3e-5
TG = 2e-4


def expected(R, g, S):
    S = np.asarray(S).astype(np.complex64)
    F = R.fcor2(g)
    Z = S - R.s(F)
    q = R.g(S)
    u, v = R.uv(Z)
    lam1 = np.where(R.lam == 0, 1, R.lam)
    psi = R.g(np.where(R.lam == 0, 0, -Z / lam1))
    return {"pv": q, "avo": q, "pv_spectral": S, "vorticity": q - F, "vo": q - F, "vorticity_spectral": Z,
            "u": u, "v": v, "streamfunction": psi, "energy": .5 * (u**2 + v**2), "enstrophy": .5 * q**2,
            "eddy_enstrophy": .5 * (q - q.mean(axis=1)[:, None])**2, "pv_flux_spectral": R.vd(q * u, q * v)[1]}


def check(name, R, g, s, S, t):
    expect(isinstance(s, bt.State), name + ": not a State")
    expect(s.grid is g, name + ": grid")
    expect(s.time is t, name + ": time", got=s.time, want=t)
    om = abs(g.omega)
    r = g.rsphere
    sc = {"pv": om, "pv_spectral": om, "vorticity": om, "vorticity_spectral": om, "avo": om, "vo": om, "u": 0, "v": 0,
          "streamfunction": 0, "energy": 0, "enstrophy": om**2, "eddy_enstrophy": om**2,
          "pv_flux_spectral": om**2}
    for k, w in expected(R, g, S).items():
        close(name + "." + k, getattr(s, k), w, TG, scale=sc[k])


def special(c, g, amp, rough=False):
    """a random field, or one of the special fields at which shortcuts are taken"""
    kind = c.pick("kind", ["random", "random", "random", "zero", "constant", "zonal", "one point", "minus planetary"])
    if kind == "random":
        return noise(c, g.shape, amp) if rough else smooth(c, g, amp)
    f = np.zeros(g.shape)
    if kind == "constant":
        f += amp
    elif kind == "zonal":
        f += amp * np.sin(np.linspace(0, 6, g.nlat))[:, None]
    elif kind == "one point":
        f[c.int("j", 1, g.nlat - 2), c.int("i", 0, g.nlon - 1)] = amp
    elif kind == "minus planetary":
        f -= Ref(g).fcor2(g)
    return f


@oracle("fields", weight=3)
def fields(c):
    g = make_grid(c)
    R = Ref(g)
    t = c.pick("time", [0., 3600, np.datetime64("2020-01-01")])
    F = R.fcor2(g)
    z = c.guard("z", special(c, g, c.pick("amp", [.2, 1., 5.]) * abs(g.omega)))
    kind = c.pick("made from", ["pv", "pv_spectral", "vorticity", "wind"])
    if kind == "pv":
        q = c.guard("q", z + F)
        s, S = bt.State(g, t, pv=q), R.s(q)
    elif kind == "pv_spectral":
        S = c.guard("S", R.s(z + F))
        s = bt.State(g, t, pv_spectral=S)
    elif kind == "vorticity":
        s, S = bt.State.from_vorticity(g, t, z), R.s(z + F)
    else:
        u, v = R.uv(R.s(z))
        c.guard("u", u)
        c.guard("v", v)
        s, S = bt.State.from_wind(g, t, u, v), R.s(F + R.g(R.vd(u, v)[0]))
    check(kind, R, g, s, S, t)
    # the same through another order of access
    names = list(expected(R, g, S))
    c.rng.shuffle(names)
    s2 = bt.State(g, t, pv_spectral=S)
    E = expected(R, g, S)
    om = abs(g.omega)
    sc = {"pv": om, "pv_spectral": om, "vorticity": om, "vorticity_spectral": om, "avo": om, "vo": om, "enstrophy": om**2,
          "eddy_enstrophy": om**2, "pv_flux_spectral": om**2}
    for k in names:
        close("%s (order %s)" % (k, names), getattr(s2, k), E[k], TG, scale=sc.get(k, 0))


@oracle("non-resolved input")
def rough(c):
    """the PV of a state is the resolved part of the given field"""
    g = make_grid(c)
    R = Ref(g)
    q = noise(c, g.shape, abs(g.omega), "q")
    check("pv", R, g, bt.State(g, 5, pv=q), R.s(q), 5)
    z = noise(c, g.shape, abs(g.omega), "z")
    check("vorticity", R, g, bt.State.from_vorticity(g, 5, z), R.s(z + R.fcor2(g)), 5)
    u, v = noise(c, g.shape, 10., "u"), noise(c, g.shape, 10., "v")
    w = bt.State.from_wind(g, 5, u, v)
    vo = R.g(R.vd(u, v)[0])
    close("wind", w.pv, R.g(R.s(R.fcor2(g) + vo)), TG, scale=np.abs(vo).max() + abs(g.omega))


@oracle("addition", weight=2)
def addition(c):
    g = make_grid(c)
    R = Ref(g)
    F = R.fcor2(g)
    om = abs(g.omega)
    t = 7.5
    a, qa = random_state(c, g, "a", t)
    b, qb = random_state(c, g, "b", 3.)
    if c.pick("touch", [0, 1]):
        a.u, b.v, b.energy
    Qa, Qb = R.g(R.s(qa)), R.g(R.s(qb))
    check("add_vorticity(State)", R, g, a.add_vorticity(b), R.s(Qa + Qb - F), t)
    z = c.guard("z", special(c, g, om, True))
    check("add_vorticity(array)", R, g, a.add_vorticity(z), R.s(Qa + z), t)
    ua, va = R.uv(R.s(qa - F))
    ub, vb = R.uv(R.s(qb - F))
    for what in c.pick("v", [["u", "v"], ["u"], ["v"], []]):  # winds with a zero component
        ub, vb = (ub if what != "u" else ub * c.pick("0u", [0., 1.])), (vb if what != "v" else vb * c.pick("0v", [0., 1.]))
    w = lambda u, v: R.s(F + R.g(R.vd(u, v)[0]))
    Ub, Vb = R.uv(R.s(qb - F))
    check("add_wind(State)", R, g, a.add_wind(b), w(ua + Ub, va + Vb), t)
    c.guard("ub", ub)
    c.guard("vb", vb)
    check("add_wind((u,v))", R, g, a.add_wind((ub, vb)), w(ua + ub, va + vb), t)
    check("first operand", R, g, a, R.s(qa), t)
    same("second operand", b.time, 3.)
    check("a + a", R, g, a.add_vorticity(a), R.s(2 * Qa - F), t)


@oracle("rejections")
def rej(c):
    n = c.pick("N", [4, 6, 9])
    g = make_grid(c, n, ntrunc=False)
    s, q = random_state(c, g)
    h = bt.Grid(180. / (n + 1), rsphere=g.rsphere, omega=g.omega)
    k = bt.Grid(180. / n, rsphere=2 * g.rsphere, omega=g.omega)
    l = bt.Grid(180. / n, rsphere=g.rsphere, omega=2 * g.omega + 1e-5)
    for x in (h, k, l):
        o = bt.State(x, 0., pv=np.ones(x.shape))
        raises(Exception, lambda: s.add_wind(o), "add_wind of a state on another grid")
        raises(Exception, lambda: s.add_vorticity(o), "add_vorticity of a state on another grid")
    a, b = np.ones(g.shape), np.ones(h.shape)
    raises(Exception, lambda: s.add_wind((a, b)), "add_wind shape of v")
    raises(Exception, lambda: s.add_wind((b, a)), "add_wind shape of u")
    raises(Exception, lambda: s.add_vorticity(b), "add_vorticity shape")
    raises(Exception, lambda: s.add_vorticity(a[0]), "add_vorticity shape")
    raises(Exception, lambda: s.add_wind((a[:, :1], a)), "add_wind shape of u")
    raises(Exception, lambda: bt.State(g, 0., pv=b).pv, "PV of another shape")
    raises(Exception, lambda: bt.State(g, 0., pv=a, pv_spectral=Ref(g).s(a)), "pv and pv_spectral")
