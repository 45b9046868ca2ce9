from common import *
import pywt

D = bt.diagnostics


def dft(f):
    """zonal Fourier coefficients k = 0 ... n//2, written out"""
    n = f.shape[1]
    k = np.arange(n // 2 + 1)
    return f.astype(float) @ np.exp(-2j * np.pi * np.outer(np.arange(n), k) / n)


def waves(c, n, w, name="field"):
    kind = c.pick("field", ["noise", "waves", "waves", "int", "row"])
    x = 2 * np.pi * np.arange(w) / w
    if kind == "noise":
        f = c.np.normal(size=(n, w))
    elif kind == "int":
        f = c.np.integers(-5, 6, size=(n, w))
    else:
        f = np.zeros((n, w))
        for j in range(n):
            for _ in range(3):
                f[j] += c.np.normal() * np.cos(c.int("k", 0, w // 2) * x + c.np.uniform(0, 6))
        if kind == "row":
            f[:] = f[0]
    return c.guard(name, f)


def check_dominant(what, got, f, lo, hi):
    n, w = f.shape
    expect(got.shape == (n,) and got.dtype.kind == "f", what + ": shape", got=(got.shape, got.dtype))
    p = np.abs(dft(f))**2
    top = min(hi, w // 2)
    for j in range(n):
        k = got[j]
        expect(k == int(k) and lo <= k <= top, what + ": wavenumber in range", got=k)
        q = p[j, lo:top + 1]
        expect(p[j, int(k)] >= q.max() - 1e-9 * (p[j].max() + 1e-300) - 1e-20, what + ": largest power (row %d)" % j, got=k,
               want=lo + q.argmax())


@oracle("dominant_wavenumber_fourier", weight=6)
def fourier(c):
    g = make_grid(c, ntrunc=False, sizes=(4, 5, 8, 12, 18, 30))
    n, w = g.nlat, g.nlon
    if c.pick("width", [0, 0, 1]):
        w = c.int("w", 2, 45)
    f = waves(c, n, w)
    lo = c.int("kmin", 0, w // 2)
    hi = lo + c.int("span", 0, w // 2 + 2)
    rng = (lo, hi) if c.pick("as", ["tuple", "list"]) == "tuple" else [lo, hi]
    raw = D.dominant_wavenumber_fourier(f, g, smooth=None, wavenumber_range=rng)
    check_dominant("range %d-%d" % (lo, hi), raw, f, lo, hi)
    check_dominant("default range", D.dominant_wavenumber_fourier(f, g, smooth=None), f, 1, 20)
    win, width = c.pick("window", ["hann", "boxcar"]), c.pick("width", [10, 45., 400. / g.nlat])
    a = D.dominant_wavenumber_fourier(f, g, (win, width), rng)
    close("smoothing", a, smoothed(g, raw, win, width, 0), 1e-9)
    b = D.dominant_wavenumber_fourier(f, g)
    close("default smoothing", b, smoothed(g, D.dominant_wavenumber_fourier(f, g, smooth=None), "boxcar", 10, 0), 1e-9)


def smoothed(g, f, win, width, axis):
    """window of odd width, reflected at the poles (axis 0) or periodic (axis 1)"""
    d = 180 / (g.nlat - 1)
    W = int(np.floor(width / d + .5 + 1e-9))
    W += 1 - W % 2
    k = np.arange(W)
    w = np.ones(W) if win == "boxcar" or W == 1 else .5 - .5 * np.cos(2 * np.pi * k / (W - 1))
    w = w / w.sum()
    f = np.moveaxis(np.asarray(f, float), axis, 0)
    n = len(f)
    out = np.zeros_like(f)
    for t in range(W):
        i = np.arange(n) + t - W // 2
        if axis == 0:
            i = i % (2 * n)
            i = np.where(i < n, i, 2 * n - 1 - i)
        out += w[t] * f[i % n]
    return np.moveaxis(out, 0, axis)


def ref_envelope(f, lo, hi):
    w = f.shape[1]
    X = dft(f)
    k = np.arange(w // 2 + 1)
    wt = np.where((k == 0) | (2 * k == w), 1., 2.) * ((k >= lo) & (k <= hi))
    return np.abs((X * wt) @ np.exp(2j * np.pi * np.outer(k, np.arange(w)) / w)) / w


@oracle("envelope_hilbert", weight=4)
def envelope(c):
    n, w = c.int("n", 1, 5), c.int("w", 2, 50)
    f = waves(c, n, w)
    lo = c.int("kmin", 0, w // 2)
    hi = lo + c.int("span", 0, w // 2 + 1)
    rng = (lo, hi) if c.pick("as", ["tuple", "list"]) == "tuple" else [lo, hi]
    close("envelope", D.envelope_hilbert(f, rng), ref_envelope(f, lo, hi), 1e-9, scale=np.abs(f).max() + 1e-9)
    close("default range", D.envelope_hilbert(f), ref_envelope(f, 2, 10), 1e-9, scale=np.abs(f).max() + 1e-9)


def hann_rows(f, W):
    """periodic normalised Hann smoothing of odd width W"""
    n, w = f.shape
    k = np.arange(W)
    win = np.ones(1) if W == 1 else .5 - .5 * np.cos(2 * np.pi * k / (W - 1))
    win = win / win.sum()
    out = np.zeros((n, w))
    for t in range(W):
        out += win[t] * f[:, (np.arange(w) + t - W // 2) % w]
    return out


def check_filter(what, got, f, k):
    n, w = f.shape
    k = k[:, None] + np.zeros((n, w)) if k.ndim == 1 else k
    k = np.clip(k, 1., w / 2)
    # either width where the quotient is an integer but for rounding, not where it is one exactly
    exact = np.fmod(w, k) == 0
    lo, hi = [2 * np.floor(np.where(exact, np.rint(w / k), w / (k * s))).astype(int) + 1 for s in (1 + 1e-12, 1 - 1e-12)]
    expect(got.shape == (n, w), what + ": shape", got=got.shape)
    ok = np.zeros((n, w), bool)
    want = np.zeros((n, w))
    scale = np.abs(f).max() + 1e-9
    for W in np.unique(np.concatenate([lo, hi])):
        x = hann_rows(f, W)
        for ws in (lo, hi):
            want = np.where(ws == W, x, want)
            ok |= (ws == W) & (np.abs(got - x) <= 1e-6 * scale)
    expect(ok.all(), what, got=got[~ok][:4], want=want[~ok][:4], at=np.argwhere(~ok)[:4].tolist(), k=k[~ok][:4])


@oracle("filter_by_wavenumber", weight=8)
def filt(c):
    n, w = c.int("n", 1, 6), c.int("w", 2, 40)
    f = waves(c, n, w)
    sh = (n,) if c.pick("wavenumber", [1, 2]) == 1 else (n, w)
    kind = c.pick("k", ["range", "wide", "int", "few", "half"])
    if kind == "range":
        k = c.np.uniform(.2, w / 2 + 2, size=sh)
    elif kind == "wide":
        k = np.exp(c.np.uniform(-1, np.log(w) + 1, size=sh))
    elif kind == "int":
        k = c.np.integers(0, w, size=sh)
    elif kind == "few":
        k = c.np.choice(np.array([1., 2.5, w / 2, w / 4]), size=sh)
    else:
        k = c.np.integers(1, 2 * w, size=sh) / 2
    c.guard("wavenumber", k)
    check_filter("filter", D.filter_by_wavenumber(f, k), f, k)


SCALES = 3 * 2**np.linspace(0, 6, 120)


@oracle("dominant_wavenumber_wavelet")
def wavelet(c):
    g = make_grid(c, ntrunc=False, sizes=(4, 5, 6, 6, 8, 12, 20))
    n, w = g.nlat, g.nlon
    pure = c.pick("pure", [0, 0, 1])
    if pure:
        k0 = c.int("k0", 1, max(1, min(20, w // 4)))
        f = c.guard("field", np.cos(k0 * g.lam2 + c.real("phase", 0, 6)))
    else:
        f = waves(c, n, w)
    got = D.dominant_wavenumber_wavelet(f, g, smooth=None)
    expect(got.shape == (n, w), "shape", got=got.shape)
    X = dft(f)
    k = np.arange(w // 2 + 1)
    wt = np.where((k == 0) | (2 * k == w), 1., 2.) * (k <= 20)
    x = ((X * wt) @ np.exp(2j * np.pi * np.outer(k, np.arange(w)) / w)).real / w
    m = pywt.ContinuousWavelet("cmor1.0-1.0")
    coef, _ = pywt.cwt(np.concatenate([x, x, x], axis=1), scales=SCALES, wavelet=m, axis=1)
    power = np.abs(coef[:, :, w:2 * w])**2
    wn = np.array([pywt.scale2frequency(m, s) for s in SCALES]) * w
    ix = np.abs(got[None] - wn[:, None, None]).argmin(axis=0)
    close("a wavenumber of the wavelet scales", got, wn[ix], 1e-9)
    jj, ii = np.indices((n, w))
    p = power[ix, jj, ii]
    bad = p < power.max(axis=0) * (1 - 1e-6) - 1e-12 * power.max()
    expect(not bad.any(), "largest wavelet power", got=got[bad][:4], want=wn[power.argmax(axis=0)][bad][:4])
    if pure and w // 4 >= k0:
        expect(np.abs(got / k0 - 1).max() < .2, "pure wave %d" % k0, got=(got.min(), got.max()))
    win, wlon, wlat = c.pick("window", ["hann", "boxcar"]), c.pick("wlon", [40, 95.]), c.pick("wlat", [10, 70.])
    if c.pick("smooth", ["given", "default"]) == "given":
        a = D.dominant_wavenumber_wavelet(f, g, (win, wlon, wlat))
        close("smoothing", a, smoothed(g, smoothed(g, got, win, wlat, 0), win, wlon, 1), 1e-9)
        return
    b = D.dominant_wavenumber_wavelet(f, g)
    close("default smoothing", b, smoothed(g, smoothed(g, got, "hann", 10, 0), "hann", 40, 1), 1e-9)


@oracle("State shortcuts")
def shortcuts(c):
    g = make_grid(c, c.pick("N", [5, 6, 8, 12, 16]))
    R = Ref(g)
    s = bt.State(g, 0., pv=R.fcor2(g) + .5 * abs(g.omega) * smooth(c, g))
    v = np.array(s.v, dtype=float)
    close("v_envelope_hilbert", s.v_envelope_hilbert, ref_envelope(v, 2, 10), 1e-5, scale=np.abs(v).max())
    k = 2 * D.dominant_wavenumber_fourier(s.v, g)
    raw = D.dominant_wavenumber_fourier(s.v, g, smooth=None)
    check_dominant("wavenumber of v", raw, np.where(np.abs(s.v) > 0, s.v, 0.), 1, 20)
    close("smoothed wavenumber of v", k / 2, smoothed(g, raw, "boxcar", 10, 0), 1e-6)
    check_filter("falwa_filtered", np.asarray(s.falwa_filtered, float), np.asarray(s.falwa, float), k)
