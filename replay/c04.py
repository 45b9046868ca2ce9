from common import *


def coords(g):
    n = g.nlat - 1
    return np.arange(2 * n) * 180 / n, 90 - np.arange(n + 1) * 180 / n


def describe(c, g, r, J, I):
    lon, lat = coords(g)
    J, I = np.asarray(J, int), np.asarray(I, int)
    expect(tuple(r.shape) == (len(J), len(I)), "shape", got=r.shape, expected=(len(J), len(I)))
    close("lat", r.lat, lat[J])
    close("lon", r.lon, lon[I])
    f, p, z = noise(c, g.shape, name="f"), noise(c, g.nlat, name="p"), noise(c, g.nlon, name="z")
    same("extract(field)", r.extract(f), f[J][:, I])
    same("extract(meridional profile)", r.extract(p), p[J])
    same("extract(zonal profile)", r.extract(z), z[I])
    e = r.extract(z, f, p)
    expect(len(e) == 3, "extract(several)")
    for a, b in zip(e, (z[I], f[J][:, I], p[J])):
        same("extract(several)", a, b)
    m = np.zeros(g.shape, bool)
    for j in J:
        m[j, I] = True
    same("mask", r.mask, m)
    x = r.extract(f)
    x[...] = 0
    y = r.lat
    y[...] = 0
    mono = r.lon_mono
    expect(mono.shape == (len(I),), "lon_mono shape")
    expect((np.diff(mono) > 0).all(), "lon_mono increasing", lon_mono=mono)
    d = (mono - lon[I]) / 360
    expect((np.abs(d - np.round(d)) < 1e-9).all(), "lon_mono modulo 360")
    if len(I):
        expect(mono[-1] - mono[0] < 360, "lon_mono range")


def value(c, name, xs, step, lo, hi):
    k = c.pick(name + " kind", ["grid", "grid", "between", "free", "int", "np"])
    if k == "grid":
        return float(c.note(name, c.rng.choice(list(xs))))
    if k == "np":
        return np.float64(c.note(name, c.rng.choice(list(xs))))
    if k == "between":
        return float(c.note(name, c.rng.choice(list(xs)) + step / 2))
    if k == "int":
        return c.int(name, int(lo), int(hi))
    return c.real(name, lo, hi)


@oracle("latitude ranges", weight=2)
def lat(c):
    g = make_grid(c, c.pick("N", [4, 5, 6, 9, 10, 12, 18]))
    lon, la = coords(g)
    step = 180 / (g.nlat - 1)
    a, b = (value(c, k, la, step, -95, 95) for k in "ab")
    kind = c.pick("slice", ["ab", "a:", ":b", ":", "N", "S"])
    sel = {"ab": slice(a, b), "a:": slice(a, None), ":b": slice(None, b), ":": slice(None), "N": "N", "S": "S"}[kind]
    lo, hi = {"ab": (min(a, b), max(a, b)), "a:": (a, 999), ":b": (-999, b), ":": (-999, 999), "N": (0, 90), "S": (-90, 0)}[kind]
    J = [j for j in range(g.nlat) if lo <= g.lat[j] <= hi]
    describe(c, g, g.region[:, sel], J, range(g.nlon))


@oracle("longitude ranges", weight=3)
def lon_(c):
    g = make_grid(c, c.pick("N", [4, 5, 6, 9, 10, 12, 18]))
    lon, la = coords(g)
    step = 180 / (g.nlat - 1)
    a, b = (value(c, k, lon, step, -10, 370) for k in "ab")
    kind = c.pick("slice", ["ab", "ab", "ab", "a:", ":b", ":"])
    sel = {"ab": slice(a, b), "a:": slice(a, None), ":b": slice(None, b), ":": slice(None)}[kind]
    L = list(g.lon)
    if kind == "ab" and b < a:
        I = [i for i in range(g.nlon) if L[i] >= a] + [i for i in range(g.nlon) if L[i] <= b]
    else:
        lo, hi = {"ab": (a, b), "a:": (a, 999), ":b": (-999, b), ":": (-999, 999)}[kind]
        I = [i for i in range(g.nlon) if lo <= L[i] <= hi]
    if len(set(I)) != len(I):
        return
    r = g.region[sel] if c.pick("only", [0, 1]) else g.region[sel, :]
    if len(I) == 0:
        expect(r.shape == (g.nlat, 0), "empty", shape=r.shape)
        return
    describe(c, g, r, range(g.nlat), I)
    # both dimensions
    r = g.region[sel, "N"]
    describe(c, g, r, [j for j in range(g.nlat) if g.lat[j] >= 0], I)


@oracle("single values")
def single(c):
    g = make_grid(c, c.pick("N", [4, 5, 6, 9, 10, 12, 18]))
    i, j = c.int("i", 0, g.nlon - 1), c.int("j", 0, g.nlat - 1)
    ty = c.pick("type", [float, np.float64])
    describe(c, g, g.region[ty(g.lon[i]), ty(g.lat[j])], [j], [i])
    describe(c, g, g.region[ty(g.lon[i])], range(g.nlat), [i])
    describe(c, g, g.region[:, ty(g.lat[j])], [j], range(g.nlon))
    step = 180 / (g.nlat - 1)
    off = c.pick("off", [.1, .5, .9, -.3]) * step
    raises(IndexError, lambda: g.region[:, g.lat[j] + off], "latitude off the grid")
    raises(IndexError, lambda: g.region[g.lon[i] + off, :], "longitude off the grid")
    raises(IndexError, lambda: g.region[360., :], "longitude 360")
    raises(IndexError, lambda: g.region[-step, :], "negative longitude")


@oracle("rejections")
def rej(c):
    g = make_grid(c)
    rg = g.region
    for nm, f in [
        ("lat string", lambda: rg[:, "X"]), ("lat None", lambda: rg[:, None]), ("lat list", lambda: rg[:, [0, 30]]),
        ("lat step", lambda: rg[:, 0:60:2]), ("lat start string", lambda: rg[:, slice("0", 30)]),
        ("lat stop string", lambda: rg[:, slice(0, "30")]), ("lat start string, open", lambda: rg[:, slice("N", None)]),
        ("lon string", lambda: rg["N", :]), ("lon None", lambda: rg[None, :]), ("lon list", lambda: rg[[0, 30], :]),
        ("lon step", lambda: rg[0:60:2, :]), ("lon start string", lambda: rg[slice("0", 30), :]),
        ("lon stop string", lambda: rg[slice(0, "30"), :]), ("lon start string, open", lambda: rg[slice("W", None)]),
        ("lon only, string", lambda: rg["E"]), ("three dimensions", lambda: rg[:, :, :]), ("no dimensions", lambda: rg[()]),
    ]:
        raises(IndexError, f, nm)
    r = g.region[:, "N"]
    for bad in [np.ones((g.nlat, g.nlon - 1)), np.ones(3), np.ones((2, g.nlat, g.nlon)), np.ones((g.nlon, g.nlat)), np.ones(())]:
        raises(ValueError, lambda: r.extract(bad), "mismatched field of shape %s" % (bad.shape,))
    raises(ValueError, lambda: r.extract(np.ones(g.shape), np.ones(3)), "second field mismatched")
    raises(ValueError, lambda: r.extract(), "no field")


_fine = {}


@oracle("fine grids")
def fine(c):
    n = c.pick("N", [180, 240])
    if n not in _fine:
        _fine[n] = bt.Grid(180. / n)
    g = _fine[n]
    step = 180 / n
    i, w = c.int("i", 0, g.nlon - 1), c.int("w", 0, g.nlon - 1)
    j, h = c.int("j", 0, n), c.int("h", 0, n)
    kind = c.pick("lat", ["N", "S", "range"])
    lo, hi = {"N": (0, 90), "S": (-90, 0), "range": (90 - max(j, h) * step, 90 - min(j, h) * step)}[kind]
    sel = kind if kind != "range" else slice(90 - (j - .25 * (j < h) + .25 * (j > h)) * step, 90 - (h + .25 * (j < h) - .25 * (j > h)) * step)
    if kind == "range" and j == h:
        return
    r = g.region[slice((i - .25) * step, ((i + w) % g.nlon + .25) * step), sel]
    J = [k for k in range(n + 1) if lo - step / 9 < 90 - k * step < hi + step / 9]
    I = [(i + k) % g.nlon for k in range(w + 1)]
    expect(r.shape == (len(J), len(I)), "shape", got=r.shape, want=(len(J), len(I)))
    close("latitudes", r.lat, 90 - step * np.array(J), 1e-9)
    close("longitudes", r.lon, step * np.array(I), 1e-9)
    f = np.arange(g.nlat * g.nlon, dtype=float).reshape(g.shape)
    same("extracted", r.extract(f), f[np.ix_(J, I)])
    expect(r.mask.sum() == len(I) * len(J) and r.mask[np.ix_(J, I)].all(), "mask")
    expect((np.diff(r.lon_mono) > 0).all(), "lon_mono increases")
    close("lon_mono modulo 360", np.mod(r.lon_mono + 1e-6, 360), r.lon + 1e-6, 1e-9)
