from common import *

TG = 2e-4


def state_is(name, g, s, t, U=None, Q=None):
    R = Ref(g)
    n = g.nlat
    expect(type(s) is bt.State, name + ": not a State", got=type(s))
    expect(s.grid is g, name + ": grid")
    expect(s.time is t or s.time == t, name + ": time", got=s.time, want=t)
    if Q is None:
        u = np.repeat(U[:, None], g.nlon, axis=1)
        Q = R.fcor2(g) + R.g(R.vd(u, np.zeros_like(u))[0])
    else:
        Q = np.repeat(Q[:, None], g.nlon, axis=1)
    S = R.s(Q)
    close(name + ": spectral PV", s.pv_spectral, S, 3e-5, scale=max(np.abs(Q).max(), 1e-30))
    close(name + ": PV", s.pv, R.g(S), TG, scale=max(np.abs(Q).max(), 1e-30))
    u, v = R.uv(S - R.s(R.fcor2(g)))
    close(name + ": u", s.u, u, 1e-3, scale=np.abs(u).max() + abs(g.omega) * g.rsphere)
    close(name + ": zonally uniform u", s.u, s.u[:, :1] + np.zeros(g.nlon), 1e-3, scale=np.abs(u).max() + abs(g.omega) * g.rsphere)
    close(name + ": v", s.v, 0. * v, 1e-3, scale=np.abs(u).max() + abs(g.omega) * g.rsphere)


def times(c):
    import datetime as dt
    return c.pick("time", [0., 3600, -5.5, dt.datetime(2020, 2, 29, 12), np.datetime64("2021-01-01")])


def latphi(g):
    n = g.nlat
    return 90. - 180. * np.arange(n) / (n - 1), np.pi / 2 - np.pi * np.arange(n) / (n - 1)


@oracle("profiles", weight=3)
def profiles(c):
    g = make_grid(c)
    lat, phi = latphi(g)
    t = times(c)
    kind = c.pick("init", ["motionless", "solid", "solid default", "gaussian", "gaussian", "gaussian default", "held",
                           "held default", "u", "pv", "default time"])
    init = bt.init
    how = c.pick("call", ["positional", "keyword"])
    kw = {"time": t} if how == "keyword" else {}
    a = () if how == "keyword" else (t,)
    scale = c.pick("scale", [20., 1., -30., .1])
    if kind == "motionless":
        state_is(kind, g, init.motionless(g, *a, **kw), t, Q=2 * g.omega * np.sin(phi))
    elif kind == "solid":
        state_is(kind, g, init.solid_body_rotation(g, *a, amplitude=scale, **kw), t, U=scale * np.cos(phi))
    elif kind == "solid default":
        state_is(kind, g, init.solid_body_rotation(g, *a, **kw), t, U=15 * np.cos(phi))
    elif kind.startswith("gaussian"):
        A, c0, s = scale, c.pick("center", [45., 30, 0., -60., 85., -89., 90]), c.pick("stdev", [5., 10, 1., 30., 100.])
        if "default" in kind:
            A, c0, s = 20., 45., 5.
            x = init.gaussian_jet(g, *a, **kw)
        elif how == "positional":
            x = init.gaussian_jet(g, t, A, c0, s)
        else:
            x = init.gaussian_jet(g, time=t, amplitude=A, center_lat=c0, stdev_lat=s)
        G = lambda l: A * np.exp(-(l - c0)**2 / (2. * s**2))
        U = G(lat) - (G(-90.) + (G(90.) - G(-90.)) * (lat + 90) / 180)
        state_is(kind, g, x, t, U=U)
    elif kind.startswith("held"):
        A, B, C = (25., 30., 300.)
        if "default" in kind:
            x = init.held_1985(g, *a, **kw)
        else:
            A, B, C = scale, c.pick("B", [30., 0., -7]), c.pick("C", [300., 0, 50.])
            x = init.held_1985(g, t, A, B, C) if how == "positional" else init.held_1985(g, A=A, B=B, C=C, time=t)
        state_is(kind, g, x, t, U=A * np.cos(phi) - B * np.cos(phi)**3 + C * np.cos(phi)**6 * np.sin(phi)**2)
    elif kind in ("u", "pv"):
        p = c.np.normal(size=g.nlat) * abs(scale)
        if kind == "pv":
            p = p * abs(g.omega)
        if c.pick("ints", [0, 0, 1]):
            p = np.arange(g.nlat) % 5 - 2
        c.guard("profile", p)
        arg = p.tolist() if c.pick("as", ["array", "list"]) == "list" else p
        x = init.zonally_symmetric(g, *a, **kw, **{kind: arg})
        state_is(kind, g, x, t, **{"U" if kind == "u" else "Q": p.astype(float)})
    else:
        f = c.pick("which", ["motionless", "solid_body_rotation", "gaussian_jet", "held_1985"])
        expect(getattr(init, f)(g).time == 0, "default time of " + f)
        expect(init.zonally_symmetric(g, u=np.zeros(g.nlat)).time == 0, "default time")


@oracle("rejections")
def rejections(c):
    g = make_grid(c)
    f = bt.init.zonally_symmetric
    n = g.nlat
    p = c.np.normal(size=n)
    raises(ValueError, lambda: f(g), "neither")
    raises(ValueError, lambda: f(g, u=p, pv=p), "both")
    for k in ("u", "pv"):
        for bad in (np.ones(n + 1), np.ones(n - 1), np.ones(g.nlon), np.ones((n, 1)), np.ones((1, n)), np.ones((n, g.nlon)),
                    np.ones(1), np.array(1.)):
            if bad.ndim == 1 and bad.size == n:
                continue
            raises(Exception, lambda: f(g, **{k: bad}), "%s of shape %r" % (k, bad.shape))


@oracle("gaussian jet at the poles")
def poles(c):
    """the profile handed over vanishes at both poles (seen through from_wind)"""
    g = make_grid(c)
    seen = []
    orig = bt.State.__dict__["from_wind"]

    def spy(cls, grid, time, u, v):
        seen.append((np.array(u), np.array(v)))
        return orig.__func__(cls, grid, time, u, v)
    bt.State.from_wind = classmethod(spy)
    try:
        bt.init.gaussian_jet(g, 0., c.pick("A", [20., -5., 100.]), c.pick("center", [45., 85., -88., 0.]),
                             c.pick("stdev", [5., 40., 200.]))
    finally:
        bt.State.from_wind = orig
    if seen:
        u, v = seen[0]
        expect(np.abs(u[[0, -1]]).max() <= 1e-9 * (1 + np.abs(u).max()), "wind at the poles", got=u[[0, -1], 0])
        expect(not v.any(), "meridional wind")
