from common import *
import datetime as dt_


def same_state(name, a, b):
    expect(isinstance(a, bt.State), name + ": not a State")
    expect(a.time == b.time, name + ": time", got=a.time, want=b.time)
    close(name + ": PV", a.pv_spectral, b.pv_spectral, 1e-5)


@oracle("run", weight=4)
def run_(c):
    kind = c.pick("times", ["number", "datetime"])
    h = c.pick("h", [1., 600., 900., 512.25, 40000., 86400., 100000.5])
    if h < 10000.:
        g = make_grid(c, c.pick("N", [4, 5, 6]))
    else:
        g = bt.Grid(180. / c.pick("N", [4, 5, 6]), omega=1e-8)
    start = c.pick("start", [0., 3600., -7200., 86400. * 365])
    if kind == "number":
        t0, d, T = start, h, lambda s: start + s
    else:
        t0 = dt_.datetime(2020, 2, 28, 18) + dt_.timedelta(seconds=start)
        d, T = dt_.timedelta(seconds=h), lambda s: t0 + dt_.timedelta(seconds=s)
    n = c.pick("steps", [-1.5, 0, .5, 1, 1.5, 2, 3, 4.25, 7, 12])
    se = c.pick("save_every/h", [0, .4, 1, 1.5, 2, 2.5, 3, 20])
    om = abs(g.omega)
    R = Ref(g)
    q = c.guard("pv", R.fcor2(g) + .5 * om * smooth(c, g))
    s0 = bt.State(g, t0, pv=q)
    model = bt.BarotropicModel(diffusion_coeff=c.pick("x", [0, 1.]) * .1 / h / R.lam.max()**2,
                               rhs=bt.rhs.LinearRelaxation(1e-7, q) if c.pick("rhs", [0, 1]) else None)
    # reference integration with the model's own steps
    levels = [s0]
    if n > 0:
        old, now = s0, model.euler(s0, d)
        while len(levels) - 1 < n:
            old, now = model.leapfrog(old, now)
            levels.append(old)
    saved, m = [s0], 1
    for k, s in enumerate(levels[1:], 1):
        if se > 0 and k >= m * se:
            saved.append(s)
            m += 1
    how = c.pick("how", ["model", "state", "positional"])
    if se == 0 and c.pick("default", [0, 1]):
        last, out = model.run(s0, d, T(n * h))
    elif how == "model":
        last, out = model.run(s0, d, T(n * h), save_every=se * h)
    elif how == "positional":
        last, out = model.run(s0, d, T(n * h), se * h)
    else:
        last, out = s0.run(model, d, T(n * h), save_every=se * h)
    same_state("final state", last, levels[-1])
    expect(isinstance(out, bt.StateList), "saved states are not a StateList: %s" % type(out))
    expect(len(out) == len(saved), "number of saved states", got=[s.time for s in out], want=[s.time for s in saved])
    for k, (a, b) in enumerate(zip(out, saved)):
        same_state("saved[%d]" % k, a, b)
    if n <= 0:
        expect(last is s0 or (last.time == t0), "initial state expected")
    expect(s0.time == t0, "time of the initial state modified")
    close("initial state", s0.pv_spectral, R.s(q), 1e-5)
