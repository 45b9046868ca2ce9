import datetime as dt

from common import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from matplotlib.figure import Figure

P = bt.plot


def dist(lon, center):
    d = np.abs(np.asarray(lon, float) - center) % 360
    return np.minimum(d, 360 - d)


def centre(c, g):
    k = c.pick("centre", ["grid", "mid", "any", "any", "edge", "wide", "int"])
    d = 180. / (g.nlat - 1)
    i = c.int("i", 0, g.nlon - 1)
    if k == "grid":
        return i * d
    if k == "mid":
        return (i + 0.5) * d
    if k == "edge":
        return c.pick("edge", [0, 0., 360, 360., 359.999, -180, 180, 360 - d / 4, -d / 4, d / 4])
    if k == "wide":
        return c.real("c", -800, 800)
    if k == "int":
        return c.int("c", -400, 400)
    return c.real("c", 0, 360)


def columns(got, f):
    """the K for which got has column (i - middle + K) of f in column i"""
    n = f.shape[1]
    m = n // 2
    tol = 1e-9 * max(1e-300, np.abs(f).max())
    return {K for K in range(n) if np.all(np.abs(np.roll(f, m - K, axis=1) - got) <= tol)}


def nearest(lon, center):
    d = dist(lon, center)
    return {int(k) for k in np.nonzero(d <= d.min() + 1e-8)[0]}


def number(text):
    t = text.strip()
    expect(t.endswith("°"), "longitude label", got=text)
    return float(t[:-1].replace("\N{MINUS SIGN}", "-"))


def check_labels(what, ax, g, Ks):
    ticks, labels = ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]
    expect(len(ticks) == len(labels) > 0, what + ": a label per tick", got=labels)
    m = g.nlon // 2
    good = set()
    for K in Ks:
        true = np.asarray(ticks) + g.lon[K] - g.lon[m]
        got = np.array([number(t) for t in labels])
        if np.all(dist(got, true) <= 0.5 + 1e-6):
            good.add(K)
    expect(good, what + ": labels name the longitudes drawn at the ticks", ticks=ticks, labels=labels, columns=Ks)
    return good


@oracle("roll_lon", weight=3)
def rolling(c):
    g = make_grid(c, ntrunc=False, sizes=(2, 3, 4, 5, 6, 8, 9, 12, 18, 30, 45, 60, 90))
    center = centre(c, g)
    if c.pick("default", [0, 0, 0, 1]):
        center = 180
        roll, configure = P.roll_lon(g.lon)
    else:
        roll, configure = P.roll_lon(g.lon, center)
    f = c.guard("field", np.arange(g.nlon)[None, :] + 1000. * np.arange(g.nlat)[:, None])
    if c.pick("int", [0, 1]):
        f = c.guard("field", f.astype(int))
    got = roll(f)
    Ks = columns(got, f) & nearest(g.lon, center)
    expect(Ks, "gridpoint nearest to %s in the middle column" % center, got=got[0], K=columns(got, f), want=nearest(g.lon, center))
    fig = Figure()
    ax = fig.add_subplot()
    configure(ax)
    check_labels("centre %s" % center, ax, g, Ks)


@oracle("symmetric_levels", weight=2)
def levels(c):
    kind = c.pick("data", ["noise", "positive", "negative", "int", "ints", "zero", "profile", "one"])
    x = c.np.normal(size=(c.int("h", 1, 6), c.int("w", 1, 6))) * 10.**c.int("e", -8, 8)
    x = {"noise": x, "positive": abs(x), "negative": -abs(x), "int": c.np.integers(-9, 4, size=x.shape), "ints": small_ints(c, x.shape), "zero": 0 * x, "profile": x[0],
         "one": x[:1, :1]}[kind]
    c.guard("data", x)
    n = c.int("n", 2, 30)
    how = c.pick("how", ["n", "default", "ext", "ext"])
    ext = None
    if how == "ext":
        ext = c.pick("ext", [1, 2.5, 1e-4, 300.])
        a = P.symmetric_levels(x, n, ext=ext)
    elif how == "n":
        a = P.symmetric_levels(x, n)
    else:
        a, n = P.symmetric_levels(x), 10
    x = x.astype(float)
    L = ext if ext is not None else np.abs(x).max()
    if L == 0:
        return same("zero data", a, [-1., 1.])
    close("levels", a, L * (2. * np.arange(n) / (n - 1) - 1), 1e-12)
    if ext is None:
        expect(a[0] <= x.min() * (1 if x.min() > 0 else 1 - 1e-12) and x.max() <= a[-1] * (1 + 1e-12), "levels span the data", got=(a[0], a[-1]))


@oracle("reduce_vectors", weight=2)
def vectors(c):
    g = make_grid(c, ntrunc=False, sizes=(2, 3, 4, 6, 9, 12, 30, 60))
    u, v = noise(c, g.shape, name="u"), noise(c, g.shape, name="v")
    ny = c.pick("ny", [1, 2, 3, 5, 8, 13, 21, 100])
    x, y, a, b = P.reduce_vectors(g.lon2, g.lat2, u, v, ny)
    expect(x.shape == y.shape == a.shape == b.shape and a.size, "shapes", got=(x.shape, y.shape, a.shape, b.shape))
    check_vectors("vectors", g, x, y, a, b, u, v)
    j = np.rint((90 - y) / 180 * (g.nlat - 1)).astype(int)
    i = np.rint(x / 180 * (g.nlat - 1)).astype(int)
    for what, k in (("rows", j[:, 0]), ("columns", i[0])):
        expect(np.all(np.diff(k) > 0) and len(set(np.diff(k))) <= 1, what + " equally spaced", got=k)
    s = {int(q) for k in (j[:, 0], i[0]) for q in np.diff(k)}
    expect(len(s) <= 1, "the same spacing of rows and columns", got=s)
    expect(len(j) >= min(ny, g.nlat), "at least ny rows", got=len(j), ny=ny)


def check_vectors(what, g, x, y, a, b, u, v):
    """vectors of the fields u and v at the gridpoints at which they are drawn"""
    x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float) if np.ndim(y) == 2 else np.asarray(y, float)[:, None])
    expect(x.shape == a.shape == b.shape, what + ": shapes", got=(x.shape, a.shape, b.shape))
    j, i = (90 - y) / 180 * (g.nlat - 1), x / 180 * (g.nlat - 1)
    expect(np.allclose(j, np.rint(j), atol=1e-6) and np.allclose(i, np.rint(i), atol=1e-6), what + ": drawn at gridpoints", got=(x, y))
    j, i = np.rint(j).astype(int), np.rint(i).astype(int)
    close(what + ": u", a, u[j, i], 1e-9)
    close(what + ": v", b, v[j, i], 1e-9)


@oracle("hovmoellerify", weight=2)
def hov(c):
    g = make_grid(c, ntrunc=False, sizes=(2, 3, 4, 6, 9))
    n = c.int("states", 1, 6)
    t0 = c.pick("t0", [0, 0., 1.5e5, dt.datetime(2020, 2, 28, 18)])
    step = dt.timedelta(hours=6) if isinstance(t0, dt.datetime) else 21600.
    base = c.np.normal(size=(n,) + g.shape)
    order = c.pick("order", ["increasing", "any", "repeated", "decreasing", "equal"])
    nth = {"increasing": list(range(n)), "decreasing": list(range(n))[::-1], "any": c.rng.sample(range(n), n), "equal": [1] * n,
           "repeated": [c.rng.randrange(n) for k in range(n)]}[order]
    ss = [bt.State(g, t0 + nth[k] * step, pv=1e-4 * base[k]) for k in range(n)]
    if c.pick("list", [0, 1]):
        ss = bt.StateList(ss)
    what = c.pick("profile", ["lon", "lat", "bad", "mean", "empty"])
    times = [t0 + k * step for k in nth]
    if what == "lon":
        j = c.int("row", 0, g.nlat - 1)
        x, y, z = P.hovmoellerify(ss, lambda s: s.pv[j])
        same("longitudes", x, g.lon)
        same("times", y, times)
        same("field", z, [s.pv[j] for s in ss])
    elif what in ("lat", "mean"):
        i = c.int("column", 0, g.nlon - 1)
        f = (lambda s: s.pv[:, i]) if what == "lat" else (lambda s: s.u.mean(axis=1))
        x, y, z = P.hovmoellerify(ss, f)
        same("times", x, times)
        same("latitudes", y, g.lat)
        expect(z.shape == (g.nlat, n), "shape", got=z.shape)
        for k, s in enumerate(ss):
            same("profile %d" % k, z[:, k], f(s))
    elif what == "bad":
        m = c.pick("size", [1, g.nlat + 1, g.nlon + 1, g.nlat - 1])
        if m not in g.shape:
            raises(ValueError, lambda: P.hovmoellerify(ss, lambda s: np.zeros(m)), "profile of %d values" % m)
    else:
        raises(ValueError, lambda: P.hovmoellerify([], lambda s: s.pv[0]), "no states")


class Drawn:
    """records what is handed to matplotlib"""
    KINDS = ("contourf", "contour", "pcolormesh", "quiver", "plot")

    def __init__(self, draw):
        self.draw, self.calls = draw, []

    def __enter__(self):
        self.saved = [(Axes, k, getattr(Axes, k)) for k in self.KINDS]
        for cls, k, f in list(self.saved):
            def rec(ax, *a, _k=k, _f=f, **kw):
                self.calls.append((ax, _k, [np.array(x, copy=True) for x in a if not isinstance(x, str)], kw))
                if self.draw or _k == "plot":
                    return _f(ax, *a, **kw)
                return Nothing()
            setattr(cls, k, rec)
        if not self.draw:
            for cls, k in ((Figure, "colorbar"), (Figure, "tight_layout"), (Axes, "clabel")):
                self.saved.append((cls, k, getattr(cls, k)))
                setattr(cls, k, lambda *a, **kw: Nothing())
        return self

    def __exit__(self, *a):
        for cls, k, f in self.saved:
            setattr(cls, k, f)
        plt.close("all")

    def of(self, ax, *kinds):
        return [(a, kw) for x, k, a, kw in self.calls if x is ax and k in kinds]


class Nothing:
    def __getattr__(self, k):
        return Nothing()

    def __call__(self, *a, **k):
        return Nothing()


class Panels:
    def __init__(self, g, center, rec):
        self.g, self.rec, self.Ks = g, rec, nearest(g.lon, center)

    def field(self, ax, kind, what, f, optional=False):
        calls = self.rec.of(ax, kind) if kind == "contour" else self.rec.of(ax, "contourf", "pcolormesh")
        if optional and not calls:
            return
        expect(len(calls) == 1, "%s of %s drawn once" % (kind, what), got=len(calls))
        a, kw = calls[0]
        x, y, z = a[:3]
        g = self.g
        expect(z.shape == g.shape, what + ": shape", got=z.shape)
        close(what + ": drawn at the longitudes", x if x.ndim == 1 else x[0], g.lon, 1e-12)
        close(what + ": drawn at the latitudes", y if y.ndim == 1 else y[:, 0], g.lat, 1e-12)
        Ks = columns(z, np.asarray(f, float)) & self.Ks
        expect(Ks, "%s of %s shifted like the other fields and centred" % (kind, what), shifts=columns(z, f), want=self.Ks)
        self.Ks = check_labels(what, ax, g, Ks)

    def vectors(self, ax, u, v):
        calls = self.rec.of(ax, "quiver")
        if not calls:
            return expect(not (np.any(u) or np.any(v)), "wind vectors missing")
        expect(len(calls) == 1, "wind vectors drawn once")
        x, y, a, b = calls[0][0][:4]
        m = self.g.nlon // 2
        err = None
        for K in self.Ks:
            try:
                return check_vectors("wind vectors", self.g, x, y, a, b, np.roll(u, m - K, axis=1), np.roll(v, m - K, axis=1))
            except Fail as e:
                err = e
        raise err

    def lines(self, ax, *want):
        calls = self.rec.of(ax, "plot")
        expect(len(calls) == len(want), "lines", got=len(calls))
        for (what, f), (a, kw) in zip(want, calls):
            close(what, a[0], f, 1e-9)
            close(what + ": latitudes", a[1], self.g.lat, 1e-12)


def a_state(c, g):
    kind = c.pick("state", ["smooth", "smooth", "smooth", "motionless", "zonal"])
    pv = 2 * g.omega * np.sin(np.deg2rad(g.lat2))
    if kind == "smooth":
        pv = pv + smooth(c, g, 3e-5)
    t = c.pick("time", [0., 1e6, dt.datetime(2021, 3, 4, 5)])
    if kind == "zonal":
        return bt.init.zonally_symmetric(g, t, u=20 * np.cos(np.deg2rad(g.lat)) ** 3)
    return bt.State(g, t, pv=pv)


@oracle("presets", weight=6)
def presets(c):
    name = c.pick("preset", ["summary", "wave_activity", "rwp_diagnostics"])
    g = make_grid(c, ntrunc=False, sizes=(12, 18, 20, 30))
    s = a_state(c, g)
    center = centre(c, g)
    kw = {"center_lon": center, "hemisphere": c.pick("hemisphere", ["both", "N", "S"])}
    if c.pick("default", [0, 0, 1]):
        kw, center = {}, 180
    f = getattr(s.plot, name) if c.pick("method", [0, 1]) else (lambda **k: getattr(P, name)(s, **k))
    with Drawn(c.pick("draw", [0, 0, 0, 0, 1])) as rec:
        fig = f(**kw) or plt.gcf()
        p = Panels(g, center, rec)
        ax = [x for x in fig.axes if x.get_label() != "<colorbar>"]
        pv, zm = 1e4 * s.pv, lambda f: np.mean(f, axis=1)
        if name == "summary":
            a11, a12, a21, a22 = ax
            p.lines(a11, ("planetary vorticity", 1e4 * 2 * g.omega * np.sin(np.deg2rad(g.lat))), ("vorticity", 1e4 * zm(s.vorticity)),
                    ("PV", zm(pv)))
            p.field(a12, "contourf", "PV", pv)
            p.field(a22, "contourf", "v", s.v)
            p.field(a22, "contour", "streamfunction", s.streamfunction, optional=True)
            p.vectors(a12, s.u, s.v)
            p.lines(a21, ("u", zm(s.u)))
        elif name == "wave_activity":
            a11, a12, a21, a22 = ax
            p.lines(a11, ("zonalized PV", 1e4 * s.pv_zonalized), ("PV", zm(pv)))
            p.field(a12, "contourf", "PV anomaly", pv - 1e4 * s.pv_zonalized[:, None])
            p.field(a12, "contour", "PV", pv)
            p.lines(a21, ("FAWA", s.fawa))
            p.field(a22, "contourf", "FALWA", s.falwa)
            p.field(a22, "contour", "PV", pv)
        else:
            a1, a2, a3 = ax
            d = bt.diagnostics.dominant_wavenumber_wavelet(s.v, g)
            p.field(a1, "contourf", "v", s.v)
            p.field(a1, "contour", "dominant wavenumber", d, optional=True)
            p.field(a2, "contourf", "envelope", s.v_envelope_hilbert)
            p.field(a2, "contour", "streamfunction", s.streamfunction, optional=True)
            p.field(a3, "contourf", "filtered FALWA", bt.diagnostics.filter_by_wavenumber(s.falwa, 2 * d))
            p.field(a3, "contour", "PV", s.pv)


@oracle("waveguides", weight=2)
def waveguides(c):
    g = make_grid(c, ntrunc=False, sizes=(12, 18, 30, 60))
    s = bt.init.zonally_symmetric(g, 0., u=c.pick("u", [10, 25]) * np.cos(np.deg2rad(g.lat)) + c.real("jet", 0, 40) * np.exp(
        -0.5 * ((g.lat - c.real("lat0", 10, 60)) / c.real("sd", 5, 15)) ** 2))
    k = c.pick("k", [None, 4, 5.5, (3, 5), [6]])
    with Drawn(c.pick("draw", [0, 1])) as rec:
        fig = (s.plot.waveguides(k) if c.pick("method", [0, 1]) else P.waveguides(s, k_waveguides=k)) or plt.gcf()
        a1, a2 = fig.axes[:2]
        p = Panels(g, 180, rec)
        p.lines(a1, ("u", np.mean(s.u, axis=1)))
        calls = rec.of(a2, "plot")
        ks = s.stationary_wavenumber
        kk = [] if k is None else [k] if isinstance(k, (int, float)) else list(k)
        expect(len(calls) == len(kk) + 1, "lines", got=len(calls), want=len(kk) + 1)
        (curve,) = [a for a, _ in calls if len(a[0]) == g.nlat and len(a[1]) == g.nlat and np.allclose(a[1], g.lat)]
        close("Ks", curve[0], ks.real - ks.imag, 1e-12)
        segs = [a for a, _ in calls if a[0] is not curve[0]]
        for q, a in zip(kk, segs):
            y = a[1].astype(float)
            fin = np.isfinite(y)
            expect(np.all(a[0][fin] == q), "waveguides at their wavenumber", got=a[0], want=q)
            want = [tuple(w) for w in bt.diagnostics.extract_ks_waveguides(ks, q, grid=g)]
            got, cur = [], []
            for b in list(y) + [np.nan]:
                if np.isfinite(b):
                    cur.append(b)
                elif cur:
                    got.append(tuple(cur))
                    cur = []
            expect(len(got) == len(want) and all(np.allclose(sorted(x), sorted(w)) for x, w in zip(got, want)), "waveguides",
                   got=got, want=want)
