from common import *
import datetime as dt_

TG = 3e-4


class Term(bt.rhs.RHS):
    def __init__(self, val):
        self.val, self.seen = val, []

    def __call__(self, state):
        self.seen.append(state)
        return self.val


@oracle("expressions", weight=2)
def expressions(c):
    g = make_grid(c, c.pick("N", [4, 6]), ntrunc=False)
    s, q = random_state(c, g)
    ts = []
    for k in range(4):
        v = noise(c, g.shape, 1., "v%d" % k) if c.pick("kind", [0, 1, 1]) else c.real("v", -2, 2)
        ts.append((Term(v), v, "t%d" % k))
    ex = list(ts)
    for k in range(c.int("n", 1, 7)):
        a, b = c.rng.choice(ex), c.rng.choice(ex)
        if c.rng.random() < .5:
            ex.append((a[0] + b[0], a[1] + b[1], "(%s+%s)" % (a[2], b[2])))
        else:
            ex.append((a[0] * b[0], a[1] * b[1], "(%s*%s)" % (a[2], b[2])))
    c.note("expressions", [e[2] for e in ex[4:]])
    c.rng.shuffle(ex)
    for e, v, n in ex + ex[:3]:
        close(n, e(s), v, 1e-10, atol=1e-10)
        expect(isinstance(e, bt.rhs.RHS), n + " is not a forcing term")
    for t, v, n in ts:
        expect(t.seen and all(x is s for x in t.seen), n + " evaluated for another state")


@oracle("switch and relaxation")
def simple(c):
    g = make_grid(c)
    R = Ref(g)
    d = c.pick("t - tend", [-100., -1., 0., 1e-3, 1., 500.])
    off = c.pick("tend", [0., 3600., -50.])
    if c.pick("datetime", [0, 1]):
        tend = dt_.datetime(2020, 1, 1) + dt_.timedelta(seconds=off)
        t = tend + dt_.timedelta(seconds=d)
    else:
        tend, t = off, off + d
    s, q = random_state(c, g, t=t)
    sw = bt.rhs.TimedOffSwitch(tend)
    expect(sw(s) == (1 if d <= 0 else 0), "switch", got=sw(s))
    for k in range(c.int("more", 0, 4)):
        e = c.pick("t - tend", [-100., -1., 0., 1e-3, 1., 500.])
        x = bt.State(g, tend + dt_.timedelta(seconds=e) if isinstance(tend, dt_.datetime) else tend + e, pv=q)
        expect(sw(x) == (1 if e <= 0 else 0), "switch, evaluation %d" % (k + 2), got=sw(x))
    ref = noise(c, g.shape, abs(g.omega), "ref")
    rate = c.pick("rate", [1e-5, 1., -.3, "field"])
    if rate == "field":
        rate = noise(c, g.shape, 1., "ratefield")
    want = rate * (ref - R.g(R.s(q)))
    rel = bt.rhs.LinearRelaxation(rate, ref)
    close("relaxation", rel(s), want, TG, scale=abs(g.omega) * np.abs(rate).max())
    s2, q2 = random_state(c, g, t=t)
    close("relaxation of another state", rel(s2), rate * (ref - R.g(R.s(q2))), TG, scale=abs(g.omega) * np.abs(rate).max())
    close("relaxation again", rel(s), want, TG, scale=abs(g.omega) * np.abs(rate).max())
    close("switched relaxation", (sw * rel)(s), want if d <= 0 else 0 * want, TG, scale=abs(g.omega) * np.abs(rate).max())


class Mountain(bt.rhs.Orography):
    def __init__(self, seed, **kw):
        super().__init__(None, None, None, **kw)
        self.seed = seed

    def orography(self, grid):
        return height(self.seed, grid)


def height(seed, g):
    r = np.random.default_rng(seed)
    a, b, k = r.normal(size=3)
    lat, lon = np.meshgrid(90 - np.arange(g.nlat) * 180 / (g.nlat - 1), np.arange(g.nlon) * 360 / g.nlon, indexing="ij")
    p, l = np.deg2rad(lat), np.deg2rad(lon)
    return 1000 * (a * np.sin(p) + b * np.cos(p) * np.cos(l + k) + np.cos(p)**2 * np.sin(2 * l))


def forcing(R, g, s_q, h, kind, fact, H, f0):
    u, v = R.uv(R.s(s_q) - R.s(R.fcor2(g)))
    gx, gy = R.sp.getgrad(R.s(h))
    phi = np.pi / 2 - np.arange(g.nlat) * np.pi / R.n
    if kind == "act":
        U, V = fact * u, fact * v
    elif kind == "zon":
        U, V = fact * u.mean(axis=1)[:, None], 0.
    else:
        U, V = fact * np.cos(phi)[:, None], 0.
    f = R.fcor2(g) if f0 is None else f0
    slope = np.abs(h).max() / g.rsphere
    return -f / H * (U * gx + V * gy), np.abs(f).max() / H * (np.abs(U).max() * max(slope, np.abs(gx).max())
                                                              + np.abs(V).max() * max(slope, np.abs(gy).max()))


@oracle("orography", weight=3)
def oro(c):
    kind = c.pick("wind", ["act", "zon", "sbr"])
    fact = c.pick("factor", [1., .25, -3., 15.])
    H = c.pick("H", [10000., 500.])
    f0 = c.pick("fcor_ref", [None, 1e-4, -2e-4, 0.])
    kw = dict(wind=(kind, fact), scale_height=H, fcor_ref=f0)
    ms = [Mountain(c.int("seed", 0, 10**6), **kw) for _ in range(2)]
    used = []
    for k in range(c.int("evaluations", 1, 14)):
        if used and c.rng.random() < .4:
            g = c.rng.choice(used)
        else:
            g = make_grid(c, c.pick("N", [4, 5, 6, 8, 9]))
            used.append(g)
        s, q = random_state(c, g)
        m = c.rng.choice(ms)
        R = Ref(g)
        want, sc = forcing(R, g, q, height(m.seed, g), kind, fact, H, f0)
        close("evaluation %d, N=%d r=%g" % (k, R.n, g.rsphere), m(s), want, TG, scale=sc)


@oracle("wind")
def wind(c):
    """any wind components a State(-like object) may have"""
    g = make_grid(c, c.pick("N", [4, 6, 9]))
    R = Ref(g)

    class Fake:
        grid, time = g, 0.
        u, v = [c.pick("component", ["zero", "constant", "noise", "positive"]) for _ in range(2)]
    s = Fake()
    make = dict(zero=lambda: np.zeros(g.shape), constant=lambda: np.full(g.shape, 3.), noise=lambda: c.np.normal(size=g.shape),
                positive=lambda: c.np.uniform(.5, 1, size=g.shape))
    s.u, s.v = c.guard("u", make[s.u]()), c.guard("v", make[s.v]())
    kind, fact = c.pick("wind", ["act", "zon", "sbr"]), c.pick("factor", [1., -2.])
    m = Mountain(c.int("seed", 0, 10**6), wind=(kind, fact))
    gx, gy = R.sp.getgrad(R.s(height(m.seed, g)))
    phi = np.pi / 2 - np.arange(g.nlat) * np.pi / R.n
    U = fact * (s.u if kind == "act" else s.u.mean(axis=1)[:, None] if kind == "zon" else np.cos(phi)[:, None])
    V = fact * s.v if kind == "act" else 0.
    close("forcing", m(s), -R.fcor2(g) / 10000. * (U * gx + V * gy), TG,
          scale=2 * abs(g.omega) / 10000. * 3 * (np.abs(gx).max() + np.abs(gy).max()))


@oracle("discarded grids")
def discarded(c):
    """grids that exist only for one evaluation"""
    m = Mountain(c.int("seed", 0, 10**6))
    n = c.pick("N", [4, 6])
    for k in range(12):
        r = c.pick("r", [1e6, 2e6, 4e6, 6e6])
        g = bt.Grid(180. / n, rsphere=r, omega=7e-5)
        R = Ref(g)
        q = R.fcor2(g) * 1.5
        s = bt.State(g, 0., pv=q)
        want, sc = forcing(R, g, q, height(m.seed, g), "act", 1., 10000., None)
        close("evaluation %d r=%g" % (k, r), m(s), want, TG, scale=sc)
        del s, g, R


@oracle("interpolation of gridded orography")
def interp(c):
    g = make_grid(c, ntrunc=False)
    nx, ny = c.int("nx", 2, 9), c.int("ny", 2, 9)
    lon = np.sort(np.concatenate([[0., 360.], c.np.uniform(1, 359, nx - 2)])) if nx > 2 else np.array([0., 360.])
    lat = np.sort(np.concatenate([[90., -90.], c.np.uniform(-89, 89, ny - 2)]))[::-1] if ny > 2 else np.array([90., -90.])
    h = noise(c, (ny, nx), 1000., "h")
    got = bt.rhs.Orography(c.guard("lon", lon), c.guard("lat", lat), h).orography(g)
    glat = 90 - np.arange(g.nlat) * 180 / (g.nlat - 1)
    glon = np.arange(g.nlon) * 360 / g.nlon

    def weights(x, nodes):
        W = np.zeros((x.size, nodes.size))
        for i, v in enumerate(x):
            k = min(max(int(np.searchsorted(nodes, v, side="right")) - 1, 0), nodes.size - 2)
            w = (v - nodes[k]) / (nodes[k + 1] - nodes[k])
            W[i, k] = 1 - w
            W[i, k + 1] = w
        return W
    want = weights(glat, lat[::-1]) @ h[::-1] @ weights(glon, lon).T
    close("bilinear", got, want, 1e-9)
    # a linear function of latitude and longitude is reproduced
    lin = 3. * lat[:, None] - .5 * lon[None, :] + 7
    close("linear", bt.rhs.Orography(lon, lat, lin).orography(g), 3. * glat[:, None] - .5 * glon[None, :] + 7, 1e-9)
    # coordinates and heights of any integer type
    d = c.pick("dtype", [np.uint8, np.uint16, np.uint32, np.uint64, np.int8, np.int16, np.int64])
    ilat, ilon = np.array([90, 60, 30, 10, 0]), np.array([0, 90, 120])
    if np.issubdtype(d, np.signedinteger):
        ilat = np.append(ilat, -90)
    ih = c.np.integers(0, 128, (ilat.size, ilon.size))
    glat, glon = glat[glat >= ilat[-1]], glon[glon <= 120]
    got = bt.rhs.Orography(ilon.astype(d), ilat.astype(d), ih.astype(d)).orography(g)[:glat.size, :glon.size]
    want = weights(glat, ilat[::-1].astype(float)) @ ih[::-1].astype(float) @ weights(glon, ilon.astype(float)).T
    close("bilinear, integers", got, want, 1e-9)


@oracle("mountains")
def mountains(c):
    g = make_grid(c, ntrunc=False)
    lat = (90 - np.arange(g.nlat) * 180 / (g.nlat - 1))[:, None]
    lon = (np.arange(g.nlon) * 360 / g.nlon)[None, :]
    h = c.pick("height", [1500., 200., -30.])
    x, y = c.pick("lon0", [30., 180., 271.5, 0.]), c.pick("lat0", [45., -30., 0., 90.])
    a, b = c.pick("sx", [7.5, 20., 60.]), c.pick("sy", [20., 5., 33.])
    gauss = lambda h, x, y, a, b: h * np.exp(-.5 * (lon - x)**2 / a**2) * np.exp(-.5 * (lat - y)**2 / b**2)
    M, Z = bt.rhs.GaussianMountain, bt.rhs.ZonalSineMountains
    close("gaussian", M(h, (x, y), (a, b)).orography(g), gauss(h, x, y, a, b), 1e-9)
    close("gaussian, one width", M(h, center=(x, y), stdev=a).orography(g), gauss(h, x, y, a, a), 1e-9)
    close("gaussian, default", M().orography(g), gauss(1500, 30, 45, 7.5, 20), 1e-9)
    k = c.pick("k", [1, 2, 4, 7])
    sine = lambda h, y, b, k: h * .5 * (1 + np.cos(k * np.deg2rad(lon))) * np.exp(-.5 * (lat - y)**2 / b**2)
    close("sine", Z(h, y, b, k).orography(g), sine(h, y, b, k), 1e-9, scale=abs(h))
    close("sine, default", Z().orography(g), sine(1500, 45, 10, 4), 1e-9, scale=1500)
    s, q = random_state(c, g)
    R = Ref(g)
    for m, o in ((M(h, (x, y), (a, b), wind=("zon", 2.), scale_height=800.), gauss(h, x, y, a, b)),
                 (Z(h, y, b, k, fcor_ref=1e-4, wind=("sbr", 10.)), sine(h, y, b, k))):
        kind = ("zon", 2., 800., None) if isinstance(m, M) else ("sbr", 10., 10000., 1e-4)
        want, sc = forcing(R, g, q, o, *kind)
        close("forcing of " + type(m).__name__, m(s), want, TG, scale=sc)
