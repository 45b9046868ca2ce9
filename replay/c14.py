from common import *
import scipy.signal


def width_of(g, width):
    x = width * (g.nlat - 1) / 180.
    r = int(np.floor(x))
    if x - r > .5 or (x - r == .5 and r % 2 == 1):
        r += 1
    return r if r % 2 == 1 else r + 1


def some_window(c, g):
    """(arguments, reference window)"""
    if c.pick("window given", [0, 0, 1]):
        h = c.int("h", 0, 9)
        w = c.np.normal(size=2 * h + 1)
        if c.pick("zeros", [0, 0, 1]):
            w[:c.int("left", 0, h)] = 0.
            w[w.size - c.int("right", 0, h):] = 0.
        return (c.guard("window", w),), w
    name = c.pick("window", ["hann", "boxcar", "hamming", "blackman", "triang"])
    n = g.nlat - 1
    width = c.pick("width", [1e-3, 180. / n, 3 * 180 / n, 2 * 180. / n, c.rng.uniform(0, 200), c.rng.randint(1, 120)])
    W = width_of(g, width)
    w = scipy.signal.get_window(name, W, fftbins=False)
    return (name, width), w / w.sum()


@oracle("get_filter_window")
def gw(c):
    g = make_grid(c)
    args, ref = some_window(c, g)
    if len(args) == 2:
        w = g.get_filter_window(*args)
        expect(len(w) % 2 == 1, "even number of gridpoints")
        expect(abs(np.sum(w) - 1) < 1e-12, "not normalised", sum=np.sum(w))
        close("symmetric", w, w[::-1], 1e-12)
        close("window", w, ref, 1e-12)
        w *= 2.
        close("window after a former one was modified", g.get_filter_window(*args), ref, 1e-12)


def direct(f, w, mode):
    """convolution of a profile, term by term"""
    n, h = len(f), len(w) // 2
    out = np.zeros(n)
    for j in range(n):
        for k in range(len(w)):
            i = j + h - k
            if mode == "wrap":
                i %= n
            else:
                i %= 2 * n
                i = i if i < n else 2 * n - 1 - i
            out[j] += w[k] * f[i]
    return out


def filt(which):
    mer = which == "meridional"

    @oracle("filter_" + which, weight=2)
    def o(c):
        g = make_grid(c, ntrunc=False, sizes=(4, 5, 6, 8, 9, 12))
        args, w = some_window(c, g)
        size = g.nlat if mer else g.nlon
        m = c.int("m", 1, 3)
        two = c.pick("rank", [1, 2]) == 2
        sh = ((size, m) if mer else (m, size)) if two else (size,)
        if two and c.pick("square", [0, 0, 1]):
            sh = (size, size)
        f = c.np.normal(size=sh)
        if c.pick("dtype", ["f", "f", "i"]) == "i":
            f = c.np.integers(-9, 9, size=sh)
        c.guard("field", f)
        got = (g.filter_meridional if mer else g.filter_zonal)(f, *args)
        expect(np.shape(got) == sh, "shape", got=np.shape(got))
        ax = 0 if mer or not two else 1
        want = np.apply_along_axis(lambda p: direct(p.astype(float), w, "reflect" if mer else "wrap"), ax, f)
        close("filtered", got, want, 1e-10, scale=1e-6)

    @oracle("filter_%s rejections" % which)
    def r(c):
        g = make_grid(c)
        f_ = g.filter_meridional if mer else g.filter_zonal
        size = g.nlat if mer else g.nlon
        args, w = some_window(c, g)
        bad = size + c.pick("d", [-1, 1, 2])
        raises(Exception, lambda: f_(np.ones(bad), *args), "profile of another length")
        raises(Exception, lambda: f_(np.ones((bad, 3) if mer else (3, bad)), *args), "field of another size")
        raises(Exception, lambda: f_(np.ones((g.nlat, g.nlon, 2)), *args), "three dimensions")
        raises(Exception, lambda: f_(np.ones(g.nlon if mer else g.nlat), *args), "profile in the other direction")


filt("meridional")
filt("zonal")
