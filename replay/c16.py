from common import *
import datetime as dt_
import itertools
import xarray as xr

BASE = dt_.datetime(1, 1, 1)


def moment(c):
    return BASE + dt_.timedelta(days=int(c.np.integers(0, 3652000)), seconds=int(c.np.integers(0, 86400)),
                                microseconds=int(c.np.integers(0, 10**6)))


def times(c, n):
    kind = c.pick("times", ["number", "integer", "datetime", "datetime"])
    if kind == "datetime":
        return [moment(c) for _ in range(n)]
    t0 = c.real("t0", -1e9, 1e9)
    if kind == "integer":
        return [int(t0) + 7 * (k * k % 5) for k in range(n)]
    return [t0 + 3600. * (k * k % 5) for k in range(n)]


def states(c, g, ts):
    R = Ref(g)
    return [bt.State(g, t, pv=R.fcor2(g) + .5 * abs(g.omega) * smooth(c, g)) for t in ts]


SHAPE = {"field": ("latitude", "longitude"), "meridional": ("latitude",), "zonal": ("longitude",), "scalar": ()}
ATTR = ["u", "v", "pv", "vorticity", "streamfunction", "avo", "vo", "enstrophy", "eddy_enstrophy",
        "v_envelope_hilbert", "falwa_filtered", "fawa", "falwa", "pv_zonalized"]


def maker(g, kind, w):
    sh = {"field": g.shape, "meridional": (g.nlat,), "zonal": (g.nlon,), "scalar": ()}[kind]
    a = np.arange(int(np.prod(sh, dtype=int)), dtype=float).reshape(sh)

    def fun(s):
        r = a * w + float(s.pv[1, 1]) / g.omega
        return r if kind != "scalar" else float(r)
    return fun


def dims_of(g, a):
    a = np.asarray(a)
    if g.nlat == g.nlon:
        return None
    return {g.shape: SHAPE["field"], (g.nlat,): SHAPE["meridional"], (g.nlon,): SHAPE["zonal"], (): ()}.get(a.shape)


def same_times(what, got, ts):
    got = np.asarray(got)
    expect(got.shape == (len(ts),), what + ": shape", got=got.shape)
    for k, t in enumerate(ts):
        if isinstance(t, dt_.datetime):
            x = got[k]
            expect(x == np.datetime64(t, "us"), what + ": entry %d" % k, got=x, want=t)
        else:
            expect(float(got[k]) == float(t), what + ": entry %d" % k, got=got[k], want=t)


@oracle("export", weight=2)
def export(c):
    g = make_grid(c, c.pick("N", [4, 5, 6]))
    n = c.pick("n", [1, 1, 2, 3, 5])
    ts = times(c, n)
    a = states(c, g, ts)
    dim = c.pick("dim", ["time", "time", "member", "number"])
    how = c.pick("how", ["list", "tuple", "iterator", "StateList", "generator", "shortcut"])
    if n == 1 and c.pick("single", [0, 1]):
        how = "single"
    src = {"list": list, "tuple": tuple, "iterator": iter, "StateList": bt.StateList, "single": lambda x: x[0],
           "generator": lambda x: (y for y in x), "shortcut": bt.StateList}[how](a)
    num = [float(q) for q in c.np.permutation(n)]
    if dim == "number":
        for s, x in zip(a, num):
            s.number = x
    form = c.pick("fields", ["default", "name", "list", "mapping", "callables"])
    if form == "default":
        fields, want = None, {"u": "u", "v": "v"}
    elif form == "name":
        fields = c.pick("field", ATTR)
        want = {fields: fields}
    elif form == "list":
        fields = c.rng.sample(ATTR, c.pick("k", [1, 2, 3]))
        c.note("fields", fields)
        want = {f: f for f in fields}
        fields = c.pick("seq", [list, tuple])(fields)
    elif form == "mapping":
        fs = c.rng.sample(ATTR, 2)
        fields = {"a": fs[0], fs[0]: fs[1]}
        want = dict(fields)
    else:
        fields = {k: maker(g, k, q + 1.) for q, k in enumerate(c.rng.sample(list(SHAPE), 3))}
        fields["q"] = "pv"
        want = dict(fields)
    args = ([] if fields is None else [fields], {} if dim == "time" else {"concat_dim": dim})
    keep = dict(fields) if isinstance(fields, dict) else fields
    ds = src.as_dataset(*args[0], **args[1]) if how == "shortcut" else bt.io.as_dataset(src, *args[0], **args[1])
    expect(fields == keep, "fields modified")
    expect(isinstance(ds, xr.Dataset), "not a Dataset", got=type(ds))
    expect(set(ds.data_vars) == set(want), "variables", got=list(ds.data_vars))
    expect(set(ds.coords) == {"latitude", "longitude", "time", dim}, "coordinates", got=list(ds.coords))
    for nm, f in want.items():
        v = [getattr(s, f) if isinstance(f, str) else f(s) for s in a]
        d = dims_of(g, v[0])
        expect(d is None or ds[nm].dims == (dim,) + d, nm + ": dimensions", got=ds[nm].dims)
        same(nm, ds[nm].values, np.asarray(v))
    same("latitude", ds.latitude.values, g.lat)
    same("longitude", ds.longitude.values, g.lon)
    same_times("time", ds.time.values, ts)
    expect(ds.latitude.attrs.get("units") == "degrees_north" and ds.longitude.attrs.get("units") == "degrees_east", "units of lon, lat")
    expect(ds.time.attrs.get("units") == (None if isinstance(ts[0], dt_.datetime) else "s"), "unit of time", got=ds.time.attrs)
    m = c.int("m", 1, 40)
    if m not in g.shape:
        sh = c.pick("other", [(m,), (m,) + g.shape, g.shape + (m,)])
        raises(Exception, lambda: bt.io.as_dataset(a, {"x": lambda s: np.zeros(sh)}), "a field of another shape")
    if dim == "member":
        same("member", ds.member.values, np.arange(n))
    elif dim == "number":
        same("number", ds.number.values, np.asarray(num))


@oracle("nothing")
def nothing(c):
    for x in ([], (), bt.StateList([]), iter([])):
        ds = bt.io.as_dataset(x)
        expect(isinstance(ds, xr.Dataset) and not len(ds.data_vars), "export of no States")


NAMES = {"u": ["u", "ugrd", "eastward_wind"], "v": ["v", "vgrd", "northward_wind"],
         "vo": ["vo", "relv", "vorticity", "relative_vorticity"], "avo": ["avo", "absv", "absolute_vorticity", "pv"],
         "lon": ["longitude", "lon"], "lat": ["latitude", "lat"], "time": ["time"]}


def same_state(what, got, want, t):
    expect(type(got) is bt.State, what + ": not a State", got=type(got))
    expect(got.grid == want.grid, what + ": grid")
    # the coordinate's float spacing is the grid resolution up to rounding
    close(what + ": PV", got.pv, want.pv, 1e-9)
    if isinstance(t, dt_.datetime):
        expect(type(got.time) is dt_.datetime and got.time == t, what + ": time", got=got.time, want=t)
    else:
        expect(np.ndim(got.time) == 0 and not isinstance(got.time, (np.ndarray, np.datetime64)) and
               float(got.time) == float(t), what + ": time", got=got.time, want=t)


@oracle("import", weight=3)
def imported(c):
    g = make_grid(c, c.pick("N", [3, 4, 5]), ntrunc=False)
    kw = dict(rsphere=g.rsphere, omega=g.omega)
    if c.pick("trunc", [0, 1]):
        kw["ntrunc"] = 2
    ref = bt.Grid(180. / (g.nlat - 1), **kw)
    nd = c.pick("dims", [0, 1, 1, 2, 3])
    dims = c.rng.sample(["time", "member", "level", "x"], nd)
    sh = [c.pick("size", [1, 2, 3]) for _ in dims]
    c.note("dims", list(zip(dims, sh)))
    override = c.pick("override", [0, 1])
    have = c.pick("have", [("u", "v"), ("u", "v"), ("vo",), ("avo",), ("u", "v", "vo", "avo"), ("vo", "avo"), ("u", "vo"),
                           ("v", "avo"), ("u", "v", "avo")])
    names, nm = {}, {}
    for k in have + ("lon", "lat"):
        if override and c.rng.random() < .6:
            nm[k] = names[k] = "my_" + k
        else:
            nm[k] = c.rng.choice(NAMES[k])
    # time coordinate: along one or several of the dimensions, scalar or missing
    tdims = c.pick("timed", ["none", "scalar", "one", "two"])
    td = {"none": None, "scalar": [], "one": dims[:1], "two": dims[:2]}[tdims]
    if "time" in dims and (td is None or td == [] or td != ["time"]):
        td = ["time"]
    tname = "time"
    if override and c.rng.random() < .5 and td != ["time"]:
        tname = names["time"] = "when"
    coords = {nm["lat"]: ((nm["lat"],), g.lat), nm["lon"]: ((nm["lon"],), g.lon)}
    if td is not None:
        ts = [sh[dims.index(d)] for d in td]
        num = times(c, int(np.prod(ts, dtype=int)))
        isdt = isinstance(num[0], dt_.datetime)
        tv = np.array(num, dtype="datetime64[us]" if isdt else None).reshape(ts)
        if isdt and c.pick("ns", [0, 1]):
            num = [dt_.datetime(1900 + t.year % 200, t.month, min(28, t.day), t.hour, t.minute, t.second, t.microsecond)
                   for t in num]
            tv = np.array(num, dtype="datetime64[ns]").reshape(ts)
        coords[tname] = (tuple(td), tv)
        to = np.empty(len(num), dtype=object)
        to[:] = num
        to = to.reshape(ts)
    full = tuple(dims) + (nm["lat"], nm["lon"])
    data = {}
    for k in have:
        amp = {"u": 30., "v": 30., "vo": abs(g.omega), "avo": abs(g.omega)}[k]
        data[nm[k]] = (full, c.guard(nm[k], amp * c.np.normal(size=tuple(sh) + g.shape)))
    # variables with names of lower priority, at any place of the dataset
    decoys = {}
    for k in have:
        if k not in names:
            for o in NAMES[k][NAMES[k].index(nm[k]) + 1:]:
                if c.rng.random() < .3:
                    decoys[o] = (full, c.np.normal(size=tuple(sh) + g.shape))
    if decoys:
        items = list(data.items()) + list(decoys.items())
        c.rng.shuffle(items)
        data = dict(items)
        c.note("variables", list(data))
    for d, n in zip(dims, sh):
        if d not in coords and c.rng.random() < .5:
            # repeated coordinate values are allowed
            coords[d] = ((d,), c.np.integers(0, 2, size=n))
    ds = xr.Dataset(data, coords)
    arg = ds
    if len(data) == 1 and have[0] in ("vo", "avo") and have[0] not in names and c.pick("DataArray", [0, 1]):
        arg = ds[nm[have[0]]]
    opts = {"grid_kwargs": dict(kw)}
    if names or c.pick("names", [0, 1]):
        opts["names"] = dict(names)
    fill = 0
    if c.pick("fill", [0, 1]):
        fill = opts["time_fill"] = c.pick("time_fill", [3.5, dt_.datetime(2000, 2, 3), 7])
    keep = {k: dict(v) for k, v in opts.items() if isinstance(v, dict)}
    r = bt.io.from_dataset(arg, **opts)
    expect(all(opts[k] == v for k, v in keep.items()), "options modified")
    expect(type(r) is bt.StateList, "not a StateList", got=type(r))
    expect(len(r) == int(np.prod(sh, dtype=int)), "number of States", got=len(r), want=sh)
    for s, ix in zip(r, itertools.product(*[range(n) for n in sh])):
        t = fill if td is None else to[tuple(ix[dims.index(d)] for d in td)]
        f = {k: np.array(data[nm[k]][1][ix]) for k in have}
        if "u" in have and "v" in have:
            w = bt.State.from_wind(ref, t, f["u"], f["v"])
        elif "vo" in have:
            w = bt.State.from_vorticity(ref, t, f["vo"])
        else:
            w = bt.State(ref, t, pv=f["avo"])
        same_state("slice %s" % (ix,), s, w, t)


@oracle("rejected", weight=3)
def rejected(c):
    g = make_grid(c, c.pick("N", [3, 4, 6, 9]), ntrunc=False)
    lat, lon = g.lat.copy(), g.lon.copy()
    d = lon[1]
    f = noise(c, g.shape)
    dims = ["latitude", "longitude"]
    name, args = "vo", {}
    what = c.pick("what", ["valid", "valid", "lon start", "lon reversed", "lon irregular", "lon double", "lon half", "lat reversed",
                           "lat irregular", "lat half", "lat shift", "lat spacing", "fewer lats", "fewer lons", "more lats",
                           "transposed", "no field", "only u", "no lon", "no lat", "extra last", "regional", "2d lon",
                           "endpoint", "mixed dims", "missing name", "negative lon"])
    data = {}
    k = c.int("k", 1, g.nlat - 2)
    drop = None
    if what == "lon start":
        lon += c.pick("by", [.5 * d, d, -180., .1 * d])
    elif what == "lon reversed":
        lon = lon[::-1].copy()
    elif what == "negative lon":
        lon = -lon
    elif what == "lon irregular":
        lon[k] += c.pick("by", [.3 * d, -.2 * d, .01 * d])
    elif what == "lon double":
        lon = 2. * lon
    elif what == "lon half":
        lon = .5 * lon
    elif what == "lat reversed":
        lat = lat[::-1].copy()
    elif what == "lat irregular":
        lat[k] += c.pick("by", [.3 * d, -.2 * d, .01 * d])
    elif what == "lat half":
        lat = 90. - .5 * (90. - lat)
    elif what == "lat shift":
        lat = lat + c.pick("by", [.5 * d, -.5 * d, .1 * d])
    elif what == "lat spacing":
        lat = 90. - (90. - lat) * c.pick("factor", [1.01, .99])
    elif what == "fewer lats":
        lat, f = lat[:-1], f[:-1]
    elif what == "fewer lons":
        lon, f = lon[:-1], f[:, :-1]
    elif what == "more lats":
        lat, f = np.append(lat, -90. - d), np.concatenate([f, f[:1]])
    elif what == "regional":
        lat, lon = lat[:k + 1], lon[:2 * k]
        f = f[:k + 1, :2 * k]
    elif what == "endpoint":
        lon, f = np.append(lon, 360.), np.concatenate([f, f[:, :1]], axis=1)
    elif what == "transposed":
        dims, f = dims[::-1], f.T
    elif what == "extra last":
        dims, f = dims + ["member"], np.stack([f, f], axis=-1)
    elif what == "no field":
        name = "foo"
    elif what == "only u":
        name = "u"
    elif what == "no lon":
        drop = "longitude"
    elif what == "no lat":
        drop = "latitude"
    elif what == "mixed dims":
        name = "u"
        data["v"] = (["member"] + dims, np.stack([f, f]))
    elif what == "missing name":
        args["names"] = {c.pick("which", ["lon", "lat", "vo"]): "nope"}
    data[name] = (dims, f)
    coords = {"latitude": lat, "longitude": lon}
    if what == "2d lon":
        coords["lon2"] = (["latitude", "longitude"], np.broadcast_to(lon, g.shape))
        args["names"] = {"lon": "lon2"}
    ds = xr.Dataset(data, coords)
    if drop:
        ds = ds.drop_vars(drop)
    if what == "valid":
        # small rounding of the coordinates is accepted
        r = bt.io.from_dataset(ds.assign_coords(longitude=lon.astype(np.float32)) if c.pick("f32", [0, 1]) else ds, **args)
        expect(len(r) == 1 and r.grid.shape == g.shape, "valid dataset")
        return
    raises(Exception, lambda: bt.io.from_dataset(ds, **args), "from_dataset(%s)" % what)


@oracle("round trip", weight=2)
def roundtrip(c):
    g = make_grid(c, c.pick("N", [4, 5, 6, 9]), ntrunc=False)
    n = c.pick("n", [1, 2, 3, 5])
    ts = times(c, n)
    # well resolved fields: derived quantities are not affected by the truncation
    g2 = bt.Grid(180. / (g.nlat - 1), rsphere=g.rsphere, omega=g.omega, ntrunc=g.nlat - 3)
    a = [bt.State(g, s.time, pv=s.pv) for s in states(c, g2, ts)]
    what = c.pick("what", ["wind", "vo", "avo", "pv"])
    ds = bt.io.as_dataset(a) if what == "wind" else bt.io.as_dataset(a, [what])
    r = bt.io.from_dataset(ds, grid_kwargs=dict(rsphere=g.rsphere, omega=g.omega))
    expect(len(r) == n, "number of States", got=len(r))
    for k, s in enumerate(r):
        expect(s.grid == g, "grid")
        if isinstance(ts[k], dt_.datetime):
            expect(type(s.time) is dt_.datetime and s.time == ts[k], "time %d" % k, got=s.time, want=ts[k])
        else:
            expect(float(s.time) == float(ts[k]), "time %d" % k, got=s.time, want=ts[k])
        if what != "wind":
            # the mean vorticity is not determined by wind
            close("PV %d" % k, s.pv, a[k].pv, 1e-6 if what in ("avo", "pv") else 1e-3)
        for f in ("u", "v"):
            close("%s %d" % (f, k), getattr(s, f), getattr(a[k], f), 1e-3, scale=np.abs(a[k].u).max())
