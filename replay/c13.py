from common import *
from barotropic import diagnostics


def reference(g, f, q, y, meth):
    """FALWA times cos(latitude) of every contour and longitude"""
    lat = (90. - 180. * np.arange(g.nlat) / (g.nlat - 1))[:, None] * np.ones(f.shape)
    return np.stack([ref_qm(g, f - a, f - a, meth) - ref_qm(g, f - a, lat - b, meth) for a, b in zip(q, y)])


def contours(g, f, meth, levels):
    q, y = g.zonalize(f, levels=levels, interpolate=False, quad=meth)
    q, y = np.asarray(q, float), np.asarray(y, float)
    if meth != "boxcount":
        return q, y
    lat = 90. - 180. * np.arange(g.nlat) / (g.nlat - 1)
    mid = .5 * (lat[1:] + lat[:-1])
    k = np.abs(y) < 90
    x = np.concatenate([[90.], y[k], [-90.]])
    v = np.concatenate([[f.max()], q[k], [f.min()]])
    o = np.argsort(x, kind="stable")
    return np.interp(mid, x[o], v[o]), mid


def pv(c, g):
    k = c.pick("field", ["wavy", "wavy", "noise", "planetary", "uniform", "upside down", "small int"])
    s = np.sin(g.phi2)
    if k == "small int":
        return c.guard("pv", small_ints(c, g.shape))
    f = {"wavy": lambda: s + .5 * smooth(c, g), "noise": lambda: s + .3 * c.np.normal(size=g.shape), "planetary": lambda: s,
         "uniform": lambda: np.full(g.shape, 1.5), "upside down": lambda: -s + .2 * smooth(c, g)}[k]()
    return c.guard("pv", f * c.pick("scale", [1., 1e-4]))


@oracle("falwa and fawa", weight=3)
def fa(c):
    g = make_grid(c, ntrunc=False)
    given = pv(c, g)
    f = given.astype(float)
    meth = c.pick("quad", ["default", "sptrapz", "boxcount"])
    kw = {} if meth == "default" else {"quad": meth}
    meth = "sptrapz" if meth == "default" else meth
    lk = c.pick("levels", ["none", "number", "array", "of the same type"])
    lv = None
    if lk == "number":
        lv = c.int("n", 2, 12)
    elif lk == "array":
        lv = c.guard("lv", np.sort(c.np.uniform(f.min(), f.max(), size=c.int("n", 2, 8))))
    elif lk == "of the same type":
        lv = c.guard("lv", np.unique(c.np.uniform(f.min(), f.max(), size=6).astype(given.dtype)))
    if lv is not None:
        kw["levels"] = lv
    q, y = contours(g, f, meth, lv)
    ref = reference(g, f, q, y, meth)
    sc = g.rsphere * np.abs(f).max()
    a, yy = diagnostics.falwa(given, g, interpolate=False, **kw)
    expect(a.shape == ref.shape, "shape of FALWA", got=a.shape)
    close("latitudes", yy, y, 1e-12, scale=90.)
    close("FALWA*cos", a * np.cos(np.deg2rad(y))[:, None], ref, 1e-6, scale=sc)
    b, yy = diagnostics.fawa(given, g, interpolate=False, **kw)
    close("latitudes of FAWA", yy, y, 1e-12, scale=90.)
    close("FAWA", b, a.mean(axis=1), 1e-9, scale=1e-9 * sc)
    lat = 90. - 180. * np.arange(g.nlat) / (g.nlat - 1)
    A, B = diagnostics.falwa(given, grid=g, **kw), diagnostics.fawa(given, grid=g, **kw)
    expect(A.shape == g.shape and B.shape == (g.nlat,), "shape on the grid")
    for i in range(0, g.nlon, max(1, g.nlon // 5)):
        check_interp("FALWA on the grid", A[:, i], y, a[:, i], (0, 0), lat, 1e-9 * (np.abs(a[:, i]).max() + sc))
    check_interp("FAWA on the grid", B, y, b, (0, 0), lat, 1e-9 * (np.abs(b).max() + sc))
    expect(np.all(A[[0, -1]] == 0) and np.all(B[[0, -1]] == 0), "zero at the poles", N=A[0], S=A[-1])


@oracle("State.falwa and State.fawa")
def st(c):
    g = make_grid(c)
    s, _ = random_state(c, g)
    first = c.pick("first", ["falwa", "fawa"])
    getattr(s, first)
    p = np.array(s.pv)
    A = diagnostics.falwa(p, g)
    m = np.abs(A).max()
    close("State.falwa", s.falwa, A, 1e-12, scale=m)
    close("State.fawa", s.fawa, diagnostics.fawa(p, g), 1e-6, scale=m * 1e-3)
    same("again", s.falwa, A)
    close("FALWA of a State", diagnostics.falwa(s), A, 1e-12)
    close("FAWA of a State", diagnostics.fawa(s), A.mean(axis=1), 1e-6, scale=m * 1e-3)
