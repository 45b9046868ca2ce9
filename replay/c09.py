from common import *
import datetime as dt_

TG = 3e-4


class Setup:
    def __init__(self, c):
        self.c = c
        self.g = g = make_grid(c)
        self.R = R = Ref(g)
        om = abs(g.omega)
        self.forced = c.pick("forced", [0, 1])
        self.seen = []
        self.F = None
        if self.forced:
            self.F = noise(c, g.shape, om * om, "forcing")
        self.bg = R.fcor2(g) + smooth(c, g, om) if c.pick("bg", [0, 1]) else None
        if self.bg is not None:
            c.guard("bg", self.bg)
        self.order = c.pick("order", [1, 2] if g.rsphere > 1 else [1, 2, 3])
        self.x = c.pick("x", [0., .1, 2.])

    def model(self, dts):
        g, R = self.g, self.R
        self.coeff = self.x / abs(dts) / R.lam.max()**self.order

        def rhs(s):
            self.seen.append(s)
            return self.F
        return bt.BarotropicModel(rhs if self.forced else None, diffusion_order=self.order,
                                  diffusion_coeff=self.coeff, diffusion_bg=self.bg)

    def state(self, name, t):
        g, R, c = self.g, self.R, self.c
        q = R.fcor2(g) + c.pick(name, [.3, 1., 3.]) * abs(g.omega) * smooth(c, g)
        S = c.guard(name, R.s(q))
        s = bt.State(g, t, pv_spectral=S)
        if c.pick("touch " + name, [0, 1]):
            for k in ("pv", "u", "vorticity", "streamfunction"):
                c.guard(name + "." + k, getattr(s, k))
        return s, S

    def tendency(self, S):
        g, R = self.g, self.R
        S = S.astype(np.complex64)
        q = R.g(S)
        u, v = R.uv(S - R.s(R.fcor2(g)))
        t = -R.vd(q * u, q * v)[1].astype(np.complex128)
        return t + R.s(self.F) if self.forced else t

    def diffuse(self, x, dts):
        R = self.R
        d = 1 + dts * self.coeff * R.lam**self.order
        if self.bg is None:
            return x / d
        b = R.s(self.bg)
        return b + (x - b) / d

    def check(self, name, s, S, t):
        expect(isinstance(s, bt.State), name + " is not a State")
        expect(s.grid is self.g, name + " grid")
        if isinstance(t, float):
            close(name + " time", s.time, t, 1e-12)
        else:
            expect(s.time == t and isinstance(s.time, type(t)), name + " time", got=s.time, want=t)
        close(name + " PV", s.pv_spectral, S, TG)


def clock(c, g):
    """start time and step: numbers, or datetimes with timedelta steps"""
    h = c.pick("h", [.02, .3, 1.]) / abs(g.omega)
    if c.pick("times", ["number", "datetime"]) == "number":
        return c.pick("t0", [0., -1000.5, 86400. * 7]), h, h
    d = dt_.timedelta(seconds=round(h), microseconds=c.pick("us", [0, 250000]))
    if c.pick("long", [0, 1]):
        d = d + dt_.timedelta(days=2)
    return dt_.datetime(2019, 12, 30, 12), d, d.total_seconds()


@oracle("euler", weight=2)
def euler(c):
    m = Setup(c)
    t, d, h = clock(c, m.g)
    s, S = m.state("S", t)
    model = m.model(h)
    new = model.euler(s, d)
    m.check("euler", new, m.diffuse(S + h * m.tendency(S), h), t + d)
    expect(not m.forced or all(x is s for x in m.seen), "forcing of another state")
    expect(s.time is t, "time of the state modified")
    m.check("euler again", model.euler(s, d), m.diffuse(S + h * m.tendency(S), h), t + d)


@oracle("leapfrog", weight=3)
def leapfrog(c):
    m = Setup(c)
    t, d, h = clock(c, m.g)
    if c.pick("backward", [0, 0, 1]):
        d, h, m.x = -d, -h, 0.
    a, A = m.state("A", t)
    b, B = m.state("B", t + d)
    tb = b.time
    model = m.model(h)
    al = c.pick("alpha", [None, 0., .1, .5])
    now, new = model.leapfrog(a, b) if al is None else model.leapfrog(a, b, filter_parameter=al)
    al = .2 if al is None else al
    want = m.diffuse(A + 2 * h * m.tendency(B), 2 * h)
    m.check("new state", new, want, t + d + d)
    m.check("filtered state", now, B + al * (A - 2. * B + want), tb)
    expect(not m.forced or all(x is b for x in m.seen), "forcing of another state")
    expect(a.time is t and b.time is tb, "time of the states modified")


@oracle("global mean")
def mean(c):
    m = Setup(c)
    m.forced, m.bg = False, None
    h = c.pick("h", [.02, .2]) / abs(m.g.omega)
    s, S = m.state("S", 0.)
    new = m.model(h).euler(s, h)
    close("global mean", new.pv_spectral[0], S[0], 1e-6, scale=np.abs(S).max())
    now, nn = m.model(h).leapfrog(s, new)
    close("global mean", nn.pv_spectral[0], S[0], 1e-6, scale=np.abs(S).max())
    close("global mean", now.pv_spectral[0], S[0], 1e-6, scale=np.abs(S).max())


@oracle("defaults")
def defaults(c):
    g = make_grid(c, c.pick("N", [9, 12, 18]))
    if g.rsphere < 1e6:
        return
    R = Ref(g)
    s, q = random_state(c, g)
    h = 600.
    S = R.s(q)
    m = Setup.__new__(Setup)
    m.g, m.R, m.forced, m.bg, m.F, m.order, m.coeff = g, R, False, None, None, 2, 1e15
    m.check("default diffusion", bt.BarotropicModel().euler(s, h), m.diffuse(S + h * m.tendency(S), h), h)
