import datetime as dt
import gc
import importlib
import sys

from common import *
import c20 as plots

ORACLES[:] = [o for o in ORACLES if o[1].__module__ != "c20"]
D, P = bt.diagnostics, bt.plot

ACC = {n: (lambda s, n=n: getattr(s, n)) for n in (
    "pv avo pv_spectral u v streamfunction pv_flux_spectral vorticity vo vorticity_spectral enstrophy eddy_enstrophy energy "
    "pv_zonalized fawa falwa falwa_filtered v_envelope_hilbert stationary_wavenumber").split()}
ACC["extract_ks_waveguides"] = lambda s: np.array(s.extract_ks_waveguides(4.)).ravel()
ACC["as_hn2016"] = lambda s: s.as_hn2016().pv_field
ACC["time"] = lambda s: s.time
CHEAP = [n for n in ACC if n not in ("pv_zonalized", "fawa", "falwa", "falwa_filtered")]


class Case:
    """a State from caller-owned input, made as often as needed"""

    def __init__(self, c, g, tag=""):
        self.c, self.g = c, g
        self.time = c.pick("time", [0., 3600, dt.datetime(2020, 1, 1)])
        self.how = c.pick("made by", ["pv", "pv_spectral", "from_wind", "from_vorticity"])
        R = Ref(g)
        self.f = c.guard("f" + tag, abs(g.omega) * smooth(c, g))
        q = c.guard("pv" + tag, R.fcor2(g) + self.f)
        S = c.guard("S" + tag, R.s(q).astype(np.complex64))
        u, v = (c.guard(n + tag, 20 * smooth(c, g)) for n in "uv")
        st = bt.State
        self.make = {"pv": lambda: st(g, self.time, pv=q), "pv_spectral": lambda: st(g, self.time, pv_spectral=S),
                     "from_wind": lambda: st.from_wind(g, self.time, u, v),
                     "from_vorticity": lambda: st.from_vorticity(g, self.time, self.f)}[self.how]
        self.want = {}

    def fresh(self, n):
        if n not in self.want:
            x = ACC[n](self.make())
            self.want[n] = np.array(x, copy=True) if isinstance(x, np.ndarray) else x
        return self.want[n]

    def check(self, s, n, what):
        got, want = ACC[n](s), self.fresh(n)
        if not isinstance(want, np.ndarray):
            return expect(got == want and type(got) is type(want), "%s %s" % (n, what), got=got, want=want)
        close("%s %s" % (n, what), got, want, 1e-6 if want.dtype == np.complex64 else 1e-9)
        self.c.guard("State.%s" % n, got)


class Mountain(bt.rhs.Orography):
    pass


def operations(c, case, s):
    """library operations which must not change s, its grid, or arrays passed in"""
    g = s.grid
    o = Case.__new__(Case)
    arr = lambda n, f: c.guard(n, f)
    fld = lambda n, a=1.: arr(n, a * smooth(c, g))
    sec = not isinstance(s.time, dt.datetime)
    step = (lambda x: x) if sec else (lambda x: dt.timedelta(seconds=x))
    out = {}

    def op(f):
        out[f.__name__] = f
        return f

    @op
    def add_vorticity(): s.add_vorticity(c.pick("w", [s, fld("z", 1e-5)]))

    @op
    def add_wind(): s.add_wind(c.pick("w", [s, (fld("u"), fld("v"))]))

    def model():
        rhs = c.pick("rhs", [None, bt.rhs.LinearRelaxation(1e-5, fld("ref", 1e-4), c.pick("mask", [None, fld("mask")])),
                             bt.rhs.GaussianMountain(wind=c.pick("wind", [("act", 1.), ("zon", 0.5), ("sbr", 0.)])),
                             bt.rhs.ZonalSineMountains() * 0.5 + bt.rhs.TimedOffSwitch(s.time)])
        return bt.BarotropicModel(rhs, diffusion_order=c.pick("order", [1, 2]), diffusion_coeff=1e10,
                                  diffusion_bg=c.pick("bg", [None, fld("bg", 1e-4)]))

    @op
    def euler(): model().euler(s, step(60.))

    @op
    def leapfrog():
        m = model()
        n = m.euler(s, step(60.))
        w = Case(c, g, "o")
        m.leapfrog(s, n)

    @op
    def run(): model().run(s, step(60.), s.time + step(180.), save_every=step(60.) if False else 60.)

    @op
    def state_run(): s.run(model(), step(60.), s.time + step(100.))

    @op
    def forcing():
        for r in (bt.rhs.GaussianMountain(), bt.rhs.ZonalSineMountains(), bt.rhs.LinearRelaxation(1e-5, fld("ref", 1e-4)),
                  bt.rhs.Orography(arr("olon", np.arange(0, 360, 30.)), arr("olat", np.linspace(-90, 90, 7)), arr("orog", abs(noise(c, (7, 12)))))):
            r(s)

    @op
    def export(): bt.io.as_dataset([s], fields=c.pick("fields", [("u", "v"), ("pv", "falwa"), ("streamfunction", "vo", "fawa")]))

    @op
    def dataset_and_back():
        ds = bt.io.as_dataset([s], fields=("u", "v"))
        bt.io.from_dataset(ds, grid_kwargs={"rsphere": g.rsphere, "omega": g.omega})[0].pv

    @op
    def from_hn(): bt.State.from_hn2016(g, 0., s.as_hn2016()).u

    @op
    def falwa_of_export(): s.as_hn2016().equivalent_latitudes

    @op
    def statelist():
        ss = bt.StateList([s, s])
        ss.u, ss.pv, ss.time, ss.map(lambda x: x.v), ss + ss

    @op
    def plot():
        with plots.Drawn(False):
            n = c.pick("preset", ["summary", "wave_activity", "rwp_diagnostics", "waveguides"])
            getattr(P, n)(s, **({} if n == "waveguides" else {"center_lon": c.pick("centre", [0, 90, 180, 271.])}))

    @op
    def plot_data():
        P.symmetric_levels(s.v)
        P.reduce_vectors(g.lon2, g.lat2, s.u, s.v, 5)
        P.hovmoellerify([s, s], lambda x: x.u[2])
        P.roll_lon(g.lon, 77)[0](s.pv)

    @op
    def diagnostics():
        for f in (D.fawa, D.falwa):
            f(s, **c.pick("kw", [{}, {"quad": "boxcount"}, {"interpolate": False}, {"levels": arr("levels", np.sort(s.pv.ravel()[::7])[::-1])}]))

    @op
    def waves():
        D.dominant_wavenumber_fourier(s.v, g, smooth=c.pick("s", [None, ("boxcar", 30.)]))
        D.dominant_wavenumber_wavelet(s.v, g)
        D.envelope_hilbert(s.v)
        D.filter_by_wavenumber(s.pv, arr("k", 1 + 3 * np.abs(smooth(c, g))))
        D.filter_by_wavenumber(s.pv, arr("k1", np.linspace(1, 4, g.nlat)))

    @op
    def stationary():
        u = s.u[:, 0]
        for x in (s, None):
            kw = {"kind": c.pick("kind", ["complex", "real", "squared"])}
            ks = D.stationary_wavenumber(s, **kw) if x is s else D.stationary_wavenumber(c.pick("u", [u, s.u]), g, **kw)
        D.extract_ks_waveguides(arr("ks", D.stationary_wavenumber(s)), 3, g)
        D.extract_ks_waveguides(s, 4)

    @op
    def zonalize():
        g.zonalize(s.pv, levels=c.pick("l", [None, 7, arr("lev", np.linspace(s.pv.max(), s.pv.min(), 9)), arr("lev2", np.sort(s.pv[:, 1]))]),
                   interpolate=c.pick("i", [0, 1]), quad=c.pick("q", ["sptrapz", "boxcount"]))

    @op
    def interpolation():
        lat = arr("lats", c.np.permutation(np.linspace(-80, 80, 7)))
        val = arr("vals", noise(c, (7,)))
        g.interpolate_meridional(val, lat, pole_values=(1., 2.))
        g.interp1d_meridional(val, lat, (0., 0.))(arr("q", np.linspace(-90, 90, 5)))

    @op
    def quadrature():
        y, z = arr("y", s.pv), fld("z")
        for q in ("sptrapz", "boxcount"):
            g.quad(y, z, q), g.quad_meridional(y, z, q), g.quad_meridional(y, method=q)
        g.mean(y), g.mean(y, axis="zonal" if False else None), g.equivalent_latitude(arr("areas", np.abs(noise(c, (4,)))))

    @op
    def regions():
        r = random_region(c, g)
        r.extract(s.pv), r.extract(s.u, s.v), r.mask, r.lat, r.lon, r.gridpoint_area, r.mean(s.pv), g.mean(s.pv, region=r), r.lon_mono

    @op
    def calculus():
        g.wind(s.vorticity_spectral, np.zeros_like(s.vorticity_spectral))
        g.vorticity(s.u, s.v), g.divergence(s.u, s.v), g.gradient(s.pv), g.laplace(s.pv), g.solve_poisson(s.vorticity)
        g.vorticity_divergence(s.u, s.v), g.laplace_spectral(s.pv_spectral), g.solve_poisson_spectral(s.vorticity_spectral)
        g.solve_diffusion(s.pv, 1e5, 60., 2), g.solve_diffusion_spectral(s.pv_spectral, 1e5, 60., 2)
        g.derivative_meridional(s.u), g.derivative_meridional(s.u[:, 1], order=2), g.to_spectral(s.pv), g.to_grid(s.pv_spectral)
        g.coriolis(arr("phi", g.lat)), g.circumference(g.lat), g.gridpoint_area

    @op
    def filters():
        f = c.pick("ff", [s.pv, s.u])
        g.filter_meridional(f, "hann", 40.), g.filter_meridional(f[:, 0], "boxcar", 30), g.filter_zonal(f, "hann", 60.)
        w = arr("window", np.array([.25, .5, .25]))
        g.filter_meridional(f, w), g.filter_zonal(f, w)

    @op
    def initial():
        bt.init.zonally_symmetric(g, 0., u=arr("prof", s.u[:, 0].copy())), bt.init.zonally_symmetric(g, 0., pv=arr("pprof", s.pv[:, 0].copy()))

    @op
    def reprs(): repr(s), repr(g), repr(bt.StateList([s]))

    @op
    def other_state():
        w = Case(c, g, "o")
        x = w.make()
        for n in CHEAP:
            ACC[n](x)
        if c.pick("deep", [0, 1]):
            x.falwa, x.pv_zonalized, x.falwa_filtered
        if c.pick("add", [0, 1]):
            s.add_vorticity(x), x.add_wind(s)
        case.c.guard("other.pv", x.pv)

    @op
    def equal_grid():
        h = bt.Grid(180. / (g.nlat - 1), rsphere=2 * g.rsphere, omega=g.omega * 3)
        x = bt.State(h, s.time, pv=case.f)
        x.pv, x.u, x.streamfunction
    return out


@oracle("histories", weight=6)
def histories(c):
    g = make_grid(c, ntrunc=c.pick("truncated", [0, 0, 1]), sizes=(12, 12, 13, 18))
    case = Case(c, g)
    s = case.make()
    grid = {k: v for k, v in vars(g).items()}
    ops = operations(c, case, s)
    for k in range(c.int("length", 3, 12)):
        if c.rng.random() < 0.6:
            n = c.pick("get", list(ACC) if c.rng.random() < 0.5 else CHEAP)
            case.check(s, n, "after other accessors and operations")
        else:
            n = c.pick("do", list(ops))
            try:
                ops[n]()
            except Fail:
                raise
            except Exception as e:
                c.note("failed", "%s: %s" % (n, e))
        bad = [k for k, v in grid.items() if vars(g).get(k, grid) is not v and not isinstance(v, (float, int))]
        expect(not [k for k in bad if isinstance(grid[k], np.ndarray)], "arrays of the Grid are kept", got=bad)
        expect(s.grid is g and s.time == case.time and type(s.time) is type(case.time), "grid and time are kept", got=(s.grid, s.time))
    for n in CHEAP:
        case.check(s, n, "at the end")
    if c.pick("deep", [0, 1]):
        for n in ACC:
            case.check(s, n, "at the end")


@oracle("every operation", weight=4)
def each(c):
    g = make_grid(c, ntrunc=False, sizes=(12, 13))
    case = Case(c, g)
    s = case.make()
    names = list(operations(c, case, s))
    n = names[c.seed % len(names)]
    c.note("do", n)
    early = c.pick("before", [0, 1])
    if early:
        for a in CHEAP + c.pick("deep", [[], ["falwa", "pv_zonalized"]]):
            case.check(s, a, "before")
    try:
        operations(c, case, s)[n]()
    except Fail:
        raise
    except Exception as e:
        c.note("failed", e)
    for a in CHEAP + ["falwa", "pv_zonalized"]:
        case.check(s, a, "after " + n)


@oracle("pairs of accessors", weight=4)
def pairs(c):
    g = make_grid(c, ntrunc=False, sizes=(12, 13))
    case = Case(c, g)
    s = case.make()
    for n in c.rng.sample(list(ACC), 4):
        c.note("get", n)
        case.check(s, n, "in a row")
        case.check(s, n, "again")


_code = []


def fresh_package():
    """the package as after a new start of Python"""
    mods = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "barotropic"}
    for k in mods:
        del sys.modules[k]
    try:
        new = importlib.import_module("barotropic")
        for k in mods:
            importlib.import_module(k)
        return new
    finally:
        for k in [k for k in sys.modules if k.split(".")[0] == "barotropic"]:
            del sys.modules[k]
        sys.modules.update(mods)


class World:
    """grids, States, forcing terms and models, made from given numbers on demand"""

    def __init__(self, bt, raw):
        self.bt, self.raw, self.made = bt, raw, {}

    def get(self, kind, k):
        if (kind, k) not in self.made:
            self.made[kind, k] = getattr(self, "make_" + kind)(k)
        return self.made[kind, k]

    def make_grid(self, k):
        n, r, om, nt = self.raw["grids"][k]
        return self.bt.Grid(180. / n, rsphere=r, omega=om, ntrunc=nt)

    def make_state(self, k):
        g, t, how = self.raw["states"][k]
        grid = self.get("grid", g)
        f = self.raw["fields"][k].copy()
        if how == "pv":
            return self.bt.State(grid, t, pv=grid.fcor2 + f)
        if how == "wind":
            return self.bt.State.from_wind(grid, t, 1e5 * f, 2e5 * f[::-1])
        return self.bt.State.from_vorticity(grid, t, f)

    def make_rhs(self, k):
        rhs = self.bt.rhs
        lon, lat, h = self.raw["orog"]
        return [lambda: rhs.GaussianMountain(), lambda: rhs.GaussianMountain(height=700, wind=("zon", 1.), stdev=10.),
                lambda: rhs.ZonalSineMountains(wavenumber=3), lambda: rhs.Orography(lon, lat, h),
                lambda: rhs.Orography(lon, lat, 2 * h, wind=("sbr", 3.), fcor_ref=1e-4),
                lambda: rhs.TimedOffSwitch(1000.) * self.get("rhs", 0) + self.get("rhs", 2),
                lambda: rhs.LinearRelaxation(1e-5, 1e-5)][k]()

    def make_model(self, k):
        M = self.bt.BarotropicModel
        return [lambda: M(), lambda: M(self.get("rhs", 0), diffusion_order=1, diffusion_coeff=1e5), lambda: M(self.get("rhs", 5)),
                lambda: M(None, diffusion_bg=1e-5 * np.ones((self.raw["n"] + 1, 2 * self.raw["n"])))][k]()


def calls(c, raw, some):
    """a random library call on the objects of a World, of the kinds chosen for the case"""
    ng, ns = len(raw["grids"]), len(raw["states"])
    gi, si, sj = c.rng.randrange(ng), c.rng.randrange(ns), c.rng.randrange(ns)
    same_grid = [k for k in range(ns) if raw["states"][k][0] == raw["states"][si][0]]
    sj = c.rng.choice(same_grid)
    win, width = c.rng.choice(["hann", "boxcar", "hamming", ("kaiser", 4.), ("gaussian", 2.)]), c.rng.choice([30., 50., 70.])
    F, k = c.rng.choice(raw["fields"]), c.rng.choice([1, 2, 3.5, 5])
    lev, quad, interp = c.rng.choice([None, 5, raw["levels"]]), c.rng.choice(["sptrapz", "boxcount"]), c.rng.choice([True, False])
    ri, mi, dts = c.rng.randrange(7), c.rng.randrange(4), c.rng.choice([300., 600., 900])
    reg = c.rng.choice([(slice(0, 90), slice(None)), (slice(270, 45), slice(0, 90)), (slice(None), "N"), (slice(100, 20), "S"), (0, slice(-50, 60))])
    name = c.rng.choice([n for n in ACC if n != "as_hn2016"])
    G = lambda w: w.get("grid", gi)
    S = lambda w: w.get("state", si)
    T = lambda w: w.get("state", sj)
    O = {
        "accessor": lambda w: ACC[name](S(w)),
        "accessor ": lambda w: ACC[name](S(w)),
        "filter_zonal": lambda w: G(w).filter_zonal(F, win, width),
        "filter_meridional": lambda w: G(w).filter_meridional(F, win, width),
        "get_filter_window": lambda w: G(w).get_filter_window(win, width),
        "forcing": lambda w: w.get("rhs", ri)(S(w)),
        "forcing ": lambda w: w.get("rhs", ri)(S(w)),
        "orography": lambda w: w.get("rhs", ri).orography(G(w)) if ri < 5 else 0.,
        "euler": lambda w: w.get("model", mi).euler(S(w), dts).pv_spectral,
        "run": lambda w: w.get("model", mi).run(S(w), dts, S(w).time + 2 * dts)[0].pv_spectral,
        "leapfrog": lambda w: [x.pv_spectral for x in w.get("model", mi).leapfrog(S(w), w.get("model", mi).euler(S(w), dts), c_alpha)],
        "add_vorticity": lambda w: S(w).add_vorticity(T(w)).pv,
        "add_wind": lambda w: S(w).add_wind(T(w)).u,
        "zonalize": lambda w: G(w).zonalize(F, lev, interp, quad),
        "falwa": lambda w: w.bt.diagnostics.falwa(F, G(w), lev, interp, quad),
        "fawa": lambda w: w.bt.diagnostics.fawa(S(w), None, lev, interp, quad),
        "fourier": lambda w: w.bt.diagnostics.dominant_wavenumber_fourier(F, G(w), None if interp else (win, width)),
        "by_wavenumber": lambda w: w.bt.diagnostics.filter_by_wavenumber(F, np.full(len(F), 1. * k)),
        "envelope": lambda w: w.bt.diagnostics.envelope_hilbert(F, (int(k), int(k) + 1)),
        "stationary": lambda w: w.bt.diagnostics.stationary_wavenumber(1e5 * F[:, 0], G(w), order=2 if interp else 4),
        "waveguides": lambda w: np.array(S(w).extract_ks_waveguides(k)).ravel(),
        "quad": lambda w: G(w).quad(F, -F if interp else None, quad),
        "mean": lambda w: G(w).mean(F, region=G(w).region[reg], axis=c_axis),
        "region": lambda w: [getattr(G(w).region[reg], x) for x in ("lon", "lat", "mask", "lon_mono", "gridpoint_area")],
        "extract": lambda w: G(w).region[reg].extract(F),
        "derivative": lambda w: G(w).derivative_meridional(F if interp else F[:, 0]),
        "gradient": lambda w: list(G(w).gradient(F)),
        "poisson": lambda w: G(w).solve_poisson(F, c_op),
        "diffusion": lambda w: G(w).solve_diffusion(F, 1e5, dts, c_order),
        "winds": lambda w: list(G(w).wind(F, -F)),
        "vorticity": lambda w: [G(w).vorticity(F, -F), G(w).divergence(F, -F), G(w).laplace(F)],
        "area": lambda w: [G(w).gridpoint_area, G(w).fcor2, G(w).coriolis(k), G(w).circumference(k), G(w).equivalent_latitude(1e13 * k)],
        "initial": lambda w: getattr(w.bt.init, c_init)(G(w)).u,
        "export": lambda w: w.bt.io.as_dataset([S(w), T(w)], ["u", "pv"])["u"].values,
        "import": lambda w: w.bt.io.from_dataset(w.bt.io.as_dataset([S(w), T(w)], ["pv"]), grid_kwargs=dict(
            rsphere=S(w).grid.rsphere, omega=S(w).grid.omega)).pv,
        "list": lambda w: w.bt.StateList([S(w), T(w), S(w)]).v,
        "roll": lambda w: w.bt.plot.roll_lon(G(w).lon, 100. * k)[0](F),
        "levels": lambda w: w.bt.plot.symmetric_levels(F, int(k) + 1),
        "grids": lambda w: [1. * (G(w) == w.get("grid", j)) for j in range(ng)],
        "repr": lambda w: [ord(x) for x in repr(G(w)) + repr(S(w)) if x.isdigit()],
    }
    c_alpha, c_op, c_order = c.rng.choice([.1, .2]), c.rng.choice([0., 1e-12]), c.rng.choice([1, 2])
    c_axis, c_init = c.rng.choice([None, 0, 1]), c.rng.choice(["motionless", "solid_body_rotation", "gaussian_jet", "held_1985"])
    if not some:
        some += c.rng.sample(list(O), c.rng.choice([2, 4, 40]))
    what = c.rng.choice(some)
    txt = {"accessor": (name, si), "forcing": (ri, si), "orography": (ri, gi), "euler": (mi, si), "run": (mi, si), "leapfrog": (mi, si)}
    return "%s %s" % (what, txt.get(what.strip(), (gi, si, sj, win, width, k, quad, interp, reg))), O[what]


@oracle("calls as in a fresh start", weight=3)
def worlds(c):
    """any call returns what it returns in a new session, whatever was called before"""
    n = c.pick("n", [6, 8, 9])
    r, om = c.pick("r", [6371200., 2e6]), c.pick("om", [7.292e-5, 2e-5])
    grids = [(n, r, om, None), (n, r, 2 * om, None), (n, 3 * r, om, None), (n, r, om, n // 2), (n, r, om, None)]
    g0 = make_grid(c, n, ntrunc=False)
    raw = {"n": n, "grids": c.rng.sample(grids, 3), "levels": 1e-5 * np.linspace(.8, -.8, 7),
           "orog": (np.arange(0., 360., 20.), np.linspace(90., -90., 10), abs(noise(c, (10, 18), 500.)))}
    raw["states"] = [(c.rng.randrange(3), c.rng.choice([0., 0., 2000.]), c.rng.choice(["pv", "wind", "vorticity"])) for k in range(4)]
    raw["fields"] = [1e-5 * smooth(c, g0) for k in range(4)]
    for k, f in enumerate(raw["fields"]):
        c.guard("field %d" % k, f)
    for x, y in zip(("lon", "lat", "orography"), raw["orog"]):
        c.guard(x, y)
    c.guard("levels", raw["levels"])
    import barotropic
    W = World(barotropic, raw)
    seen = set()
    some = []
    for k in range(c.int("calls", 4, 14)):
        what, f = calls(c, raw, some)
        c.note("call", what)

        def value(w):
            try:
                v = f(w)
            except Exception as e:
                return "%s: %s" % (type(e).__name__, e)
            return [np.asarray(x) for x in (v if isinstance(v, (list, tuple)) else [v])]
        got, want = value(W), value(World(fresh_package(), raw))
        if isinstance(got, str) or isinstance(want, str):
            expect(isinstance(got, str) and isinstance(want, str), "%s after %d other calls" % (what, k), got=got, want=want)
            continue
        expect(len(got) == len(want), what)
        for a, b in zip(got, want):
            close("%s after %d other calls" % (what, k), a, b, 1e-6 if b.dtype.itemsize in (4,) or b.dtype == np.complex64 else 1e-9)
        # the objects made so far keep their contents
        for key, o in W.made.items():
            if key[0] in ("grid", "state") and (key, id(o)) not in seen:
                seen.add((key, id(o)))
                for m in (o.__dict__ if key[0] == "grid" else ("pv_spectral", "pv", "u", "v")):
                    x = getattr(o, m, None)
                    if isinstance(x, np.ndarray):
                        c.guard("%s %s.%s" % (key + (m,)), x)
        c.check_guards()


@oracle("steps leave States alone", weight=2)
def stepping(c):
    """the arrays of the States given to a model step, and of the States it returned, are kept by later steps"""
    g = make_grid(c, ntrunc=True, sizes=(6, 8, 9))
    R = Ref(g)
    bg = c.pick("bg", [None, c.guard("background", 1e-5 * smooth(c, g))])
    rhs = c.pick("rhs", [None, bt.rhs.GaussianMountain(), bt.rhs.LinearRelaxation(1e-6, c.guard("ref", R.fcor2(g)))])
    m = bt.BarotropicModel(rhs, diffusion_order=c.pick("order", [1, 2]), diffusion_coeff=1e10, diffusion_bg=bg)
    S = c.guard("S", R.s(R.fcor2(g) + abs(g.omega) * smooth(c, g)).astype(np.complex64))
    a = bt.State(g, 0., pv_spectral=S) if c.pick("spectral", [0, 1]) else bt.State(g, 0., pv=c.guard("q", R.g(S)))
    alive = []

    def keep(name, s):
        attrs = c.pick("seen", [["pv_spectral"], ["pv_spectral", "u", "pv"], ["pv_spectral", "streamfunction", "v", "vorticity_spectral"]])
        for n in attrs:
            c.guard(name + "." + n, getattr(s, n))
        alive.append((name, s, s.time))
    keep("initial", a)
    b = m.euler(a, 100.)
    keep("euler", b)
    for k in range(c.int("steps", 1, 3)):
        f, n = m.leapfrog(a, b, c.pick("alpha", [0., .2, .5]))
        expect(f is not b, "the filtered state is a new State")
        keep("filtered %d" % k, f)
        keep("new %d" % k, n)
        c.check_guards()
        if c.pick("run", [0, 1]):
            m.run(f, 50., f.time + 100., save_every=50.)
            c.check_guards()
        a, b = f, n
    for name, s, t in alive:
        expect(s.time == t and s.grid is g, name + ": time and grid")
        z = Case.__new__(Case)
        close(name + ": PV agrees with the spectral PV", s.pv, R.g(s.pv_spectral), 1e-5)


@oracle("recycled States", weight=2)
def recycled(c):
    """values are those of the State alone: also when memory of former States is used again"""
    g = make_grid(c, ntrunc=False, sizes=(4, 6))
    R = Ref(g)
    F = R.fcor2(g)
    t = c.pick("time", [0., 5.])
    names = c.rng.sample(["pv", "u", "v", "streamfunction", "falwa", "pv_zonalized", "vorticity_spectral", "fawa"], 3)
    c.note("get", names)
    for k in range(12):
        q = F + abs(g.omega) * smooth(c, g)
        S = R.s(q)
        s = bt.State(g, t, pv=q)
        for n in names:
            if n == "pv":
                close(n, s.pv, R.g(S), 3e-4)
            elif n in "uv":
                close(n, getattr(s, n), R.uv(S - R.s(F))[n == "v"], 1e-3)
            elif n == "streamfunction":
                psi = np.where(R.lam > 0, -(S - R.s(F)) / np.where(R.lam > 0, R.lam, 1), 0)
                close(n, s.streamfunction, R.g(psi), 1e-3)
            elif n == "falwa":
                close(n, s.falwa, D.falwa(R.g(S), g), 5e-2, scale=abs(g.omega) * g.rsphere)
            elif n == "fawa":
                close(n, s.fawa, D.fawa(R.g(S), g), 5e-2, scale=abs(g.omega) * g.rsphere)
            elif n == "pv_zonalized":
                close(n, s.pv_zonalized, g.zonalize(R.g(S)), 1e-2)
            else:
                close(n, s.vorticity_spectral, S - R.s(F), 1e-3)
        del s, q
        if c.pick("collect", [0, 1]):
            gc.collect()
