from common import *


@oracle("derivative", weight=3)
def der(c):
    n = c.pick("N", [2, 3, 4, 5, 6, 9, 12, 18, 36, 60])
    g = make_grid(c, n, ntrunc=False)
    order = c.pick("order", [2, 4, "default"])
    deg = 2 if order == 2 else 4
    args = {} if order == "default" else {"order": order}
    w = c.pick("W", [1, 3, g.nlon])
    phi = np.pi / 2 - np.arange(g.nlat) * np.pi / n
    if n < 4 and order != 2:
        raises(Exception, lambda: g.derivative_meridional(np.ones(g.shape), **args), "too few latitudes")
        return
    co = c.np.normal(size=(deg + 1, w))
    f = c.guard("f", sum(co[k] * phi[:, None]**k for k in range(deg + 1)))
    d = sum(k * co[k] * phi[:, None]**(k - 1) for k in range(1, deg + 1))
    close("2-dimensional", g.derivative_meridional(f, **args), d, 1e-9 * n)
    p = g.derivative_meridional(c.guard("p", f[:, 0].copy()), **args)
    close("1-dimensional", p[1:-1], d[1:-1, 0], 1e-9 * n)
    expect(p[0] == 0 and p[-1] == 0, "pole values of profiles")
    # linear, columnwise
    a, b = noise(c, (g.nlat, w)), noise(c, (g.nlat, w))
    D = lambda x: g.derivative_meridional(x, **args)
    close("linear", D(2 * a - 3 * b), 2 * D(a) - 3 * D(b), 1e-9)
    m = a.copy()
    m[:, 1:] = b[:, 1:]
    close("column", D(m)[:, 0], D(a)[:, 0], 1e-12)
    close("column as profile", D(a[:, 0])[1:-1], D(a)[1:-1, 0], 1e-12)
    ints = c.np.integers(-5, 6, (g.nlat, w))
    close("integers", D(ints), D(ints.astype(float)), 1e-12)
    ints = c.guard("small integers", small_ints(c, (g.nlat, w)))
    close("small integers", D(ints), D(ints.astype(float)), 1e-12)
    close("small integers, profile", D(ints[:, 0]), D(ints[:, 0].astype(float)), 1e-12)


@oracle("rejections")
def rej(c):
    g = make_grid(c)
    raises(Exception, lambda: g.derivative_meridional(np.ones(g.shape), order=c.pick("o", [0, 1, 3, 5, 6])), "order")
