import datetime
import re

from common import *

SUP = str.maketrans("0123456789+-", "⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻")
SUB = str.maketrans("0123456789+-", "₀₁₂₃₄₅₆₇₈₉₊₋")
from barotropic import formatting as fm
from barotropic import rhs as R


def check_time(text, t, what):
    if not isinstance(t, (int, float, np.number)):
        return expect(text == t.isoformat(), what + ": ISO format", got=text)
    m = re.fullmatch(r"t = (-?\d+\.\d) (s|min|h|d)", text)
    expect(m, what + ": form of a numeric time", got=text)
    unit = "s" if t <= 120 else "min" if t <= 7200 else "h" if t <= 864000 else "d"
    near = any(abs(t - x) < 1e-6 * x for x in (120, 7200, 864000)) and t not in (120, 7200, 864000)
    if not near:
        expect(m[2] == unit, what + ": unit", got=text, time=t)
    x = t / {"s": 1, "min": 60, "h": 3600, "d": 86400}[m[2]]
    expect(abs(float(m[1]) - x) <= .05 * (1 + 1e-9) + 1e-12 * abs(x), what + ": number shown", got=text, time=t)


def a_time(c):
    k = c.pick("kind", ["edge", "edge", "int", "float", "np", "datetime", "datetime"])
    if k == "edge":
        return c.pick("t", [0, 120, 121, 120., 120.5, 119.99, 7200, 7201, 7200., 7260., 864000, 864001, 864000., 867600., 86400,
                            90000, -30, -7200., 1e9])
    if k == "int":
        return c.int("t", 0, c.pick("max", [200, 10000, 10**6, 10**8]))
    if k == "float":
        return c.real("t", 0, c.pick("max", [200, 10000, 1e6, 1e8]))
    if k == "np":
        return c.pick("type", [np.float64, np.float32, np.int64, np.int32])(c.int("t", 0, 2000000))
    return c.pick("t", [datetime.datetime(2020, 2, 29, 12, 30), datetime.datetime(1999, 12, 31, 23, 59, 59, 999),
                        datetime.datetime(2021, 1, 1, tzinfo=datetime.timezone.utc), datetime.date(2010, 3, 4)])


@oracle("times")
def times(c):
    t = a_time(c)
    check_time(fm.format_time(t), t, "format_time")
    g = make_grid(c, 4)
    for s in (bt.State(g, t, pv=g.fcor2), bt.init.motionless(g, t)):
        m = re.fullmatch("<barotropic.State (.*)>", repr(s))
        expect(m, "text of a State", got=repr(s))
        check_time(m[1], t, "text of a State")
    n = c.int("n", 0, 12)
    expect(repr(bt.StateList([s] * n)) == "<StateList with %d states>" % n, "text of a StateList", got=repr(bt.StateList([s] * n)))


@oracle("digits")
def digits(c):
    n = c.pick("n", [c.int("m", -10**6, 10**6), 0, 1234567890, -9876543210, "+12"])
    expect(fm.sup(n) == str(n).translate(SUP), "sup", n=n, got=fm.sup(n))
    expect(fm.sub(n) == str(n).translate(SUB), "sub", n=n, got=fm.sub(n))


def grid_text(g, legfunc):
    return ("<barotropic.Grid> with\n    (nlat, nlon) = (%d, %d)\n    resolution   = %s°\n    rsphere      = %s m\n"
            "    omega        = %s s⁻¹\n    ntrunc       = %d\n    legfunc      = %s"
            % (g.nlat, g.nlon, g.dlon, g.rsphere, g.omega, ntrunc_of(g), legfunc))


@oracle("grids")
def grids(c):
    g = make_grid(c)
    expect(repr(g) == grid_text(g, "stored"), "text of a Grid", got=repr(g))
    kw = c.pick("options", [{"legfunc": "computed"}, {"legfunc": "stored"}, {}])
    n = c.pick("N", [4, 5, 6, 9])
    h = bt.Grid(180. / n, **kw)
    expect(repr(h) == grid_text(h, kw.get("legfunc", "stored")), "text of a Grid", got=repr(h))
    m = re.search(r"resolution   = (.*)°", repr(h))
    expect(abs(float(m[1]) - 180. / n) < 1e-9 and "(%d, %d)" % (n + 1, 2 * n) in repr(h), "size in the text of a Grid", got=repr(h))
    expect("omega        = 7.292e-05 s⁻¹" in repr(h) and "rsphere      = 6371200.0 m" in repr(h), "defaults in the text of a Grid", got=repr(h))


@oracle("regions", weight=4)
def regions(c):
    g = make_grid(c, sizes=(4, 5, 6, 8, 9, 10, 12, 18, 36, 72))
    kind = c.pick("selection", ["any", "any", "any", "all", "point", "between"])
    if kind == "all":
        r = g.region[:, :]
    elif kind == "point":
        r = g.region[c.pick("lon", list(map(float, g.lon))), c.pick("lat", list(map(float, g.lat)))]
    elif kind == "between":
        d = g.dlon
        a = d * (c.int("j", 0, g.nlat - 2) + .3) - 90
        b = d * (c.int("i", 0, g.nlon - 2) + .3)
        lat, lon = c.pick("empty", [(slice(a, a + .4 * d), slice(0, 90)), (slice(-90, 90), slice(b, b + .4 * d)),
                                    (slice(a, a + .4 * d), slice(b, b + .4 * d))])
        r = g.region[lon, lat]
    else:
        a, b = sorted([c.real("lat0", -95, 95), c.real("lat1", -95, 95)])
        w, e = c.real("lon0", 0, 359), c.real("lon1", 0, 359)
        r = g.region[w:e, a:b]
    text = repr(r)
    lines = text.split("\n")
    expect(len(lines) == 14 + len(repr(g).split("\n")), "lines in the text of a region", got=text)
    for k, (x, dim, first, last) in enumerate([(r.lat, "lat", -1, 0), (r.lon, "lon", 0, -1)]):
        unit = {"lat": "N", "lon": "E"}[dim]
        start = ("Region", "      ")[k]
        if x.size:
            want = "%s %6.2f to %6.2f °%s (n%s = %d)" % (start, x[first], x[last], unit, dim, x.size)
            expect(lines[k] == want, "limits in the text of a region", got=lines[k], want=want)
        else:
            m = re.fullmatch(r"%s +none +°%s \(n%s = 0\)" % (start, unit, dim), lines[k])
            expect(m, "limits in the text of an empty region", got=lines[k])
    right = {0: " 90°N", 4: " EQ", 8: " 90°S"}
    for a in range(9):
        top = 90 - 20 * a
        inlat = any(top - 20 <= x < top or (a == 0 and x == 90) for x in r.lat)
        row = ""
        for b in range(36):
            inlon = any(10 * b <= x < 10 * b + 10 or (b == 35 and x == 360) for x in r.lon)
            row += "X" if inlat and inlon else "·"
        expect(lines[3 + a] == "    " + row + right.get(a, ""), "map of a region, row %d" % a, got=lines[3 + a], want=row)
    expect(lines[2] == "" and lines[13] == "" and lines[12] == "    0°E              180°E", "text of a region", got=text)
    expect("\n".join(lines[14:]) == "of " + repr(g), "grid in the text of a region", got=lines[14:])


@oracle("models and forcings")
def models(c):
    class Term(R.RHS):
        def __init__(self, n):
            self.n = n

        def __call__(self, s):
            return self.n

        def __repr__(self):
            return "T%d" % self.n

        __str__ = lambda self: "other"

    def expr(depth):
        if depth == 0 or c.rng.random() < .25:
            t = Term(c.rng.randint(0, 99))
            return t, repr(t)
        (a, x), (b, y) = expr(depth - 1), expr(depth - 1)
        return (a + b, "(%s + %s)" % (x, y)) if c.rng.random() < .5 else (a * b, "(%s * %s)" % (x, y))
    e, want = expr(4)
    expect(repr(e) == want, "text of a forcing", got=repr(e), want=want)
    k, m = c.pick("order", [1, 2, 3, 4, 5, 8]), c.pick("coeff", [1.e15, 2.5e-3, 0., 1.23456789e20])
    rhs, text = c.pick("rhs", [(e, want), (None, "None")])
    p = str(2 * k).translate(SUP)
    want = ("<barotropic.BarotropicModel> integrating\n    ∂q/∂t = -∇(u·q) - κ∇%sq + RHS \n    where κ   = %.5e m%ss⁻¹\n"
            "    and   RHS = %s" % (p, m, p, text))
    b = bt.BarotropicModel(rhs, diffusion_order=k, diffusion_coeff=m)
    expect(repr(b) == want, "text of a model", got=repr(b), want=want)
