from common import *


def eqlat_check(what, g, got, area):
    s = np.clip(1 - np.asarray(area, float) / (2 * np.pi * g.rsphere**2), -1, 1)
    close(what + " (sine)", np.sin(np.deg2rad(got)), s, 1e-10, scale=1.)
    close(what, got, np.rad2deg(np.arcsin(s)), 1e-7, scale=90.)


@oracle("equivalent_latitude")
def el(c):
    g = make_grid(c)
    full = 4 * np.pi * g.rsphere**2
    a = c.guard("area", full * c.np.uniform(-.3, 1.3, size=c.pick("shape", [(), (1,), (7,), (3, 4)])))
    if a.ndim == 0:
        a = float(a)
    eqlat_check("equivalent latitude", g, g.equivalent_latitude(a), a)
    expect(abs(g.equivalent_latitude(0.) - 90) < 2e-5, "no area")
    expect(abs(g.equivalent_latitude(full) + 90) < 2e-5, "the whole sphere")
    expect(g.equivalent_latitude(2 * full) == -90 and g.equivalent_latitude(-full) == 90, "clipped")
    expect(abs(g.equivalent_latitude(full / 2)) < 1e-6, "half the sphere")


@oracle("interpolation", weight=2)
def interpolation(c):
    g = make_grid(c, ntrunc=False)
    n = c.int("n", 1, 9)
    lat = np.sort(c.np.uniform(-90, 90, size=n))[::c.pick("order", [1, -1])].copy()
    if c.pick("pole input", [0, 0, 1]):
        lat[lat.argmax()] = 90.
    if c.pick("S pole input", [0, 0, 1]) and n > 1:
        lat[lat.argmin()] = -90.
    c.guard("lat", lat)
    two = c.pick("rank", [1, 2]) == 2
    f = c.np.normal(size=(n, 3) if two else n) * 3
    if c.pick("dtype", ["f", "f", "i"]) == "i":
        f = f.astype(int)
    c.guard("field", f)
    p = (c.real("pN", -3, 3), c.real("pS", -3, 3))
    q = np.concatenate([[90., -90.], c.np.uniform(-90, 90, size=6)])
    F = g.interp1d_meridional(f, lat, p) if c.pick("kind", [0, 1]) else g.interp1d_meridional(f, lat, pole_values=p, kind="linear")
    G = g.interpolate_meridional(f, lat, pole_values=p)
    # other kinds of interpolation: step functions attain the values at the given latitudes, the poles included
    kind = c.pick("other kind", ["nearest", "previous", "next", "zero"])
    S = g.interp1d_meridional(f, lat, pole_values=p, kind=kind)
    inner = np.abs(lat) < 90
    xs = np.concatenate([[90.], lat[inner], [-90.]])
    ys = np.concatenate([[np.full(f.shape[1:], p[0])], f[inner], [np.full(f.shape[1:], p[1])]])
    close(kind + ": at the latitudes", S(xs), ys, 1e-12, scale=4.)
    for x, v in zip(q[2:], S(q[2:])):
        v = np.atleast_1d(v)
        expect(np.isclose(v[None], ys.reshape(len(ys), -1), rtol=0, atol=1e-12).any(axis=0).all(), kind + " gives given values",
               at=x, got=v)
    a, b = np.asarray(F(q)), np.asarray(G)
    if not two:
        a, b, f = a[:, None], b[:, None], f[:, None]
    expect(a.shape == (8, f.shape[1]) and b.shape == (g.nlat, f.shape[1]), "shape")
    for i in range(f.shape[1]):
        check_interp("interpolation", a[:, i], lat, f[:, i], p, q, 1e-9)
        check_interp("onto the grid", b[:, i], lat, f[:, i], p, 90. - 180. * np.arange(g.nlat) / (g.nlat - 1), 1e-9)
        same("pole values", a[:2, i], np.array(p))
        same("pole values on the grid", b[[0, -1], i], np.array(p))


def field(c, g, w):
    k = c.pick("field", ["smooth", "noise", "int", "zonal", "uniform", "small int", "scaled"])
    if k == "smooth":
        f = np.sin(g.phi2[:, :w]) + .4 * smooth(c, g)[:, :w]
    elif k == "noise":
        f = c.np.normal(size=(g.nlat, w))
    elif k == "scaled":
        f = c.pick("offset", [0., 3., -3.]) + c.np.uniform(-1, 1, size=(g.nlat, w))
        f *= c.pick("scale", [1e-12, 1e-4, 1e7])
    elif k == "int":
        f = c.np.integers(-3, 4, size=(g.nlat, w))
    elif k == "small int":
        f = small_ints(c, (g.nlat, w))
    elif k == "zonal":
        f = np.sin(g.phi2[:, :w])
    else:
        f = np.full((g.nlat, w), 2.5)
    return c.guard("f", f)


@oracle("zonalize", weight=3)
def zon(c):
    g = make_grid(c, ntrunc=False)
    w = c.pick("w", [g.nlon, g.nlon, g.nlon // 2, 1, g.nlon - 1])
    given = field(c, g, w)
    f = given.astype(float)
    meth = c.pick("quad", ["default", "sptrapz", "boxcount"])
    kw = {} if meth == "default" else {"quad": meth}
    meth = "sptrapz" if meth == "default" else meth
    lo, hi = f.min(), f.max()
    lk = c.pick("levels", ["none", "number", "array", "outside", "int array", "of the same type"])
    if lk == "number":
        kw["levels"] = c.int("n", 1, 12)
    elif lk != "none":
        a = c.np.uniform(lo, hi, size=c.int("n", 1, 8))
        if lk == "outside":
            a = c.np.uniform(lo - 2, hi + 2, size=6)
        if lk == "int array":
            a = np.unique(a.astype(int))
        if lk == "of the same type":
            a = np.unique(a.astype(given.dtype))
        kw["levels"] = c.guard("levels", a)
    q, y = g.zonalize(given, interpolate=False, **kw)
    if lk in ("none", "number"):
        n = kw.get("levels", g.nlat * (2 if meth == "boxcount" else 1))
        x = np.pi / 2 * (-1 + 2 * np.arange(1, n + 1) / (n + 1))
        close("contours", q, .5 * ((hi - lo) * np.sin(x) + lo + hi), 1e-12, scale=abs(hi) + abs(lo))
    else:
        same("contours", q, kw["levels"])
    k = g.rsphere * np.pi / (g.nlat - 1)
    area = np.array([k * ref_qm(g, np.ones(f.shape), f - float(t), meth).sum() for t in np.asarray(q)]) * g.nlon / w
    eqlat_check("equivalent latitude", g, y, area)
    z = g.zonalize(given, **kw)
    check_interp("zonalised profile", z, y, q, (hi, lo), 90. - 180. * np.arange(g.nlat) / (g.nlat - 1), 1e-9 * (1 + abs(hi) + abs(lo)))
    expect(z[0] == hi and z[-1] == lo, "extremes at the poles", z=z)


@oracle("State.pv_zonalized")
def st(c):
    g = make_grid(c)
    s, _ = random_state(c, g)
    p = s.pv_zonalized
    same("zonalised PV", p, g.zonalize(s.pv))
    same("again", s.pv_zonalized, p)
