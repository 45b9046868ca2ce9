from common import *
import copy
import datetime as dt_
import itertools
import pickle


def states(c, g, n, t0=0.):
    out = []
    R = Ref(g)
    times = [t0 + 3600. * k for k in range(n)]
    how = c.pick("times", ["increasing", "increasing", "any order", "equal", "decreasing"])
    if how == "any order":
        c.rng.shuffle(times)
    elif how == "equal":
        times = [t0] * n
    elif how == "decreasing":
        times.reverse()
    for k in range(n):
        q = R.fcor2(g) + .5 * abs(g.omega) * smooth(c, g)
        out.append(bt.State(g, times[k], pv=q))
    if n > 1 and c.pick("repeated", [0, 0, 1]):
        for k in range(n):
            out[k] = out[c.rng.randrange(n)] if c.rng.random() < 0.5 else out[k]
    return out


def is_list(what, sl, want):
    expect(type(sl) is bt.StateList, what + ": not a StateList", got=type(sl))
    entries(what, sl, want)


def entries(what, sl, want):
    expect(len(sl) == len(want), what + ": length", got=len(sl), want=len(want))
    for k, w in enumerate(want):
        expect(sl[k] is w, what + ": entry %d" % k)
        expect(sl[k - len(want)] is w, what + ": entry %d from the end" % k)
    expect(all(a is b for a, b in itertools.zip_longest(sl, want)), what + ": iteration")
    expect(all(a is b for a, b in itertools.zip_longest(reversed(sl), want[::-1])), what + ": reversed")
    raises(IndexError, lambda: sl[len(want)], what + ": index out of range")


@oracle("sequence", weight=3)
def sequence(c):
    g = make_grid(c, c.pick("N", [4, 5, 6]))
    n, m = c.pick("n", [0, 1, 2, 3, 7]), c.pick("m", [0, 1, 2, 4])
    a, b = states(c, g, n), states(c, g, m)
    if n and m and c.pick("shared", [0, 1]):
        b[c.rng.randrange(m)] = a[c.rng.randrange(n)]
    how = c.pick("how", ["list", "tuple", "iterator", "StateList", "generator"])
    mk = {"list": list, "tuple": tuple, "iterator": iter, "StateList": bt.StateList,
          "generator": lambda x: (y for y in x)}[how]
    src = list(a)
    sl = bt.StateList(src if how == "list" else mk(a))
    src.append(None)
    is_list("StateList", sl, a)
    expect(sl.grid is (a[0].grid if a else None) or sl.grid == a[0].grid, "grid")
    expect(bool(sl) == (n > 0), "truth value")
    is_list("sum", sl + bt.StateList(b), a + b)
    is_list("sum with list", sl + list(b), a + b)
    r = sl
    r += bt.StateList(b)
    is_list("+=", r, a + b)
    is_list("operand of +=", sl, a)
    # immutable
    for f in (lambda: sl.__setitem__(0, None), lambda: sl.append(1), lambda: sl.extend([]), lambda: sl.__delitem__(0)):
        try:
            f()
        except Exception:
            pass
        else:
            raise Fail("modification accepted")
    is_list("after rejected modifications", sl, a)
    is_list("copy", copy.copy(sl), a)
    for name, z in (("deepcopy", copy.deepcopy(sl)), ("pickle", pickle.loads(pickle.dumps(sl)))):
        expect(type(z) is bt.StateList and len(z) == n, name, got=z)
        for x, y in zip(z, a):
            expect(type(x) is bt.State and x.time == y.time and x.grid == y.grid, name + ": entry")
            same(name + ": PV", x.pv, y.pv)
            same(name + ": wind", x.u, y.u)
    # an equal grid is fine, other grids are not; neither is anything but a State
    kw = dict(rsphere=g.rsphere, omega=g.omega, ntrunc=_nts_of(g))
    g2 = bt.Grid(180. / (g.nlat - 1), **kw)
    x = bt.State(g2, 0., pv=g2.fcor2)
    is_list("equal grid", bt.StateList(a + [x]), a + [x])
    bad = c.pick("other", ["omega", "rsphere", "N", "ntrunc"])
    if bad == "N":
        g3 = bt.Grid(180. / (g.nlat + 1), rsphere=g.rsphere, omega=g.omega)
    elif bad == "ntrunc":
        g3 = bt.Grid(180. / (g.nlat - 1), rsphere=g.rsphere, omega=g.omega, ntrunc=1 if ntrunc_of(g) != 1 else 2)
    else:
        g3 = bt.Grid(180. / (g.nlat - 1), **{**kw, bad: getattr(g, bad) * 1.001})
    y = bt.State(g3, 0., pv=g3.fcor2)
    s3 = states(c, g, 3)
    k = c.int("k", 0, 3)
    raises(Exception, lambda: bt.StateList(s3[:k] + [y] + s3[k:]), "other grid")
    raises(Exception, lambda: bt.StateList(s3) + [y], "sum with another grid")
    for z in (None, 1., "x", s3[0].pv, [s3[0]], bt.StateList(s3)):
        raises(Exception, lambda: bt.StateList(s3[:k] + [z] + s3[k:]), "non-State %r" % type(z))
        raises(Exception, lambda: bt.StateList([z]), "non-State %r" % type(z))


def _nts_of(g):
    nt = ntrunc_of(g)
    return None if nt == g.nlat - 1 else nt


def alike(what, got, want):
    """entry of a broadcast result"""
    if isinstance(want, bt.State):
        expect(isinstance(got, bt.State) and got.time == want.time, what)
        close(what, got.pv_spectral, want.pv_spectral, 1e-5)
    elif isinstance(want, (np.ndarray, float, int, complex)):
        same(what, got, want)
    elif isinstance(want, (str, dt_.datetime, type(None), list, tuple, dict)):
        expect(type(got) is type(want) and got == want, what, got=got, want=want)
    else:
        expect(type(got) is type(want), what, got=got, want=want)


def broadcast(what, r, wants):
    expect(len(r) == len(wants), what + ": length")
    if all(isinstance(w, np.ndarray) for w in wants):
        expect(isinstance(r, np.ndarray) and r.ndim == wants[0].ndim + 1, what + ": not stacked", got=type(r))
    elif all(isinstance(w, (float, int, complex)) for w in wants):
        expect(isinstance(r, np.ndarray) and r.ndim == 1, what + ": not an array", got=type(r))
    elif all(isinstance(w, bt.State) for w in wants):
        expect(type(r) is bt.StateList, what + ": not a StateList", got=type(r))
    else:
        expect(type(r) is list, what + ": not a list", got=type(r))
    for k, w in enumerate(wants):
        alike("%s[%d]" % (what, k), r[k], w)


PUBLIC = [n for n, m in vars(bt.State).items() if not n.startswith("_") and isinstance(m, property)
          and n not in vars(bt.StateList)]


@oracle("attributes", weight=2)
def attributes(c):
    g = make_grid(c, c.pick("N", [5, 6, 8]))
    empty = bt.StateList([])
    name = c.pick("name of empty", PUBLIC + ["time"])
    expect(len(getattr(empty, name)) == 0, "attribute %s of no States" % name)
    expect(len(empty.extract_ks_waveguides(3)) == 0 and len(empty.map(lambda s: s.u)) == 0, "method of no States")
    n = c.pick("n", [1, 2, 3, 5])
    kind = c.pick("time", ["number", "datetime", "mixed"])
    ss = states(c, g, n)
    if kind != "number":
        ss = [bt.State(g, dt_.datetime(2020, 1, 1 + k) if kind == "datetime" or k % 2 else 1. * k,
                       pv_spectral=s.pv_spectral) for k, s in enumerate(ss)]
    sl = bt.StateList(ss)
    broadcast("time", sl.time, [s.time for s in ss])
    name = c.pick("name", PUBLIC)
    broadcast(name, getattr(sl, name), [getattr(s, name) for s in ss])
    # attributes set on the States
    what = c.pick("extra", ["int", "array1", "str", "State", "some arrays", "complex", "0d"])
    for k, s in enumerate(ss):
        s.extra = {"int": k, "array1": np.arange(3.) + k, "str": "x%d" % k, "State": ss[n - 1 - k], "complex": 1j * k,
                   "some arrays": np.arange(2.) if k % 2 else k, "0d": np.array(1. * k)}[what]
    broadcast("extra", sl.extra, [s.extra for s in ss])
    raises(AttributeError, lambda: sl.no_such_attribute, "missing attribute")


@oracle("methods", weight=2)
def methods(c):
    g = make_grid(c, c.pick("N", [5, 6, 8]))
    n = c.pick("n", [1, 2, 3, 5])
    ss = states(c, g, n)
    sl = bt.StateList(ss)
    f = smooth(c, g, abs(g.omega), "f")
    broadcast("add_vorticity", sl.add_vorticity(f), [s.add_vorticity(f) for s in ss])
    broadcast("add_vorticity(State)", sl.add_vorticity(ss[0]), [s.add_vorticity(ss[0]) for s in ss])
    u, v = smooth(c, g, 1., "u"), smooth(c, g, 1., "v")
    broadcast("add_wind", sl.add_wind((u, v)), [s.add_wind((u, v)) for s in ss])
    k = c.pick("k", [1, 3.5])
    broadcast("extract_ks_waveguides", sl.extract_ks_waveguides(k), [s.extract_ks_waveguides(k) for s in ss])
    broadcast("keyword", sl.extract_ks_waveguides(k=k), [s.extract_ks_waveguides(k=k) for s in ss])

    def fun(s, a, b=1., kind="number"):
        return {"number": float(s.time * a + b), "array": s.pv * a + b, "none": None, "State": s.add_vorticity(f * a),
                "text": str(s.time), "mixed": s.pv if s.time == 0 else 1., "statelist": bt.StateList([s])}[kind]
    values = {"number": lambda: 1.5, "int": lambda: 2, "array": lambda: np.arange(3.), "none": lambda: None, "text": lambda: "x",
              "State": lambda: ss[0], "tuple": lambda: (1, 2), "complex": lambda: 1j, "list": lambda: [1.], "0d": lambda: np.array(2.)}
    for size in (2, 2, 3):
        kinds = c.rng.sample(list(values), size)
        which = [c.pick("result", kinds) for s in ss]
        res = {id(s): values[w]() for s, w in zip(ss, which)}
        want = [res[id(s)] for s in ss]
        if not all(isinstance(w, np.ndarray) for w in want) or len({w.shape for w in want}) == 1:
            broadcast("map to %s" % which, sl.map(lambda s: res[id(s)]), want)
    for kind in ("number", "array", "none", "State", "text", "mixed", "statelist"):
        broadcast("map " + kind, sl.map(fun, 2., b=3., kind=kind), [fun(s, 2., b=3., kind=kind) for s in ss])


@oracle("run")
def run_(c):
    g = make_grid(c, c.pick("N", [4, 5, 6]))
    n = c.pick("n", [0, 1, 2, 4])
    ss = states(c, g, n, c.pick("t0", [0., 1800.]))
    model = bt.BarotropicModel(rhs=bt.rhs.LinearRelaxation(1e-7, g.fcor2))
    dt, tend, se = 600., 3600. * c.pick("tend", [1, 2, 3]), c.pick("se", [0, 600., 1500.])
    want = [model.run(s, dt, tend, save_every=se) for s in ss]
    sl = bt.StateList(ss)
    for r in (sl.run(model, dt, tend, save_every=se), sl.run(model, dt, tend, se)):
        expect(isinstance(r, tuple) and len(r) == 2, "result")
        last, out = r
        expect(type(last) is bt.StateList and len(last) == n and len(out) == n, "lengths", last=last, out=out)
        for k in range(n):
            alike("final[%d]" % k, last[k], want[k][0])
            expect(type(out[k]) is bt.StateList and len(out[k]) == len(want[k][1]), "output[%d]" % k, got=out[k])
            for a, b in zip(out[k], want[k][1]):
                alike("output[%d]" % k, a, b)
