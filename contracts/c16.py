from .common import *
from .c15 import Family, _fam, look_at, choose
from vfy import xrstub as X

IO = "io."
X.MAKE["time"] = lambda p: Time(p)
X.MAKE["delta"] = lambda p: Delta(p)


def io_package():
    xr = D.Module(_real="xarray", DataArray=X.DataArray, Dataset=X.Dataset)
    return package({"xarray": xr, "datetime": X.DatetimeModule})


# -- export ---------------------------------------------------------------------------------------------------
SHAPES = {"field": lambda g: (g.nlat, g.nlon), "meridional": lambda g: (g.nlat,), "zonal": lambda g: (g.nlon,),
          "scalar": lambda g: ()}
DIMS = {"field": ("latitude", "longitude"), "meridional": ("latitude",), "zonal": ("longitude",), "scalar": ()}


def val(what, k, idx):
    return app("FIELD:" + what, [topoly(k)] + [topoly(i) for i in idx])


class Export:
    """States of a symbolic number on one grid; every attribute has an arbitrary value per State"""

    def __init__(self, c, times="number"):
        self.pkg = pkg = io_package()
        pkg.load("io")
        self.g = g = G(pkg)
        self.f = f = Family(pkg)
        _fam[0] = f
        State = pkg.state.State
        self.names = []
        for nm, m in list(vars(State).items()):
            if not nm.startswith("_") and isinstance(m, property):
                self.names.append(nm)
                setattr(State, nm, property(lambda self, nm=nm, e=self: e.value(nm, "field", self.k)))
        El = f.Elem
        El.grid = property(lambda self: g.grid)
        tm = self.time
        El.time = property(lambda self: tm(self.k))
        self.times = times
        for kind in SHAPES:
            setattr(El, "my_" + kind, property(lambda self, kind=kind, e=self: e.value("my_" + kind, kind, self.k)))
        El.number = property(lambda self, e=self: e.value("number", "scalar", self.k))
        self.n = T.var("n", "i")
        c.require(ge(self.n, ONE))

    def time(self, k):
        p = app("TIME", [topoly(k)], "i") if self.times == "integer" else app("TIME", [topoly(k)])
        return Time(p) if self.times == "datetime" else Num(p)

    def value(self, what, kind, k):
        if kind == "scalar":
            return Num(val(what, k, ()))
        return SymArray(tuple(topoly(x) for x in SHAPES[kind](self.g)), "f", lambda i: val(what, k, i))

    def seq(self, kind="list"):
        return self.f.seq("A", self.n, kind)


def check_array(name, da, dims, shape, f):
    """da is a DataArray with these dimensions and values"""
    c = ctx()
    if not isinstance(da, X.DataArray):
        c.violated(name, "missing")
        return
    prove_is(name + ": dimensions", da.dims == tuple(dims), "%r" % (da.dims,))
    if len(da.dims) == len(shape):
        prove(name + ": shape", band(*[eq(a, topoly(b)) for a, b in zip(da._v.shape, shape)]))
    vs = [T.var("at%d" % q, "i") for q in range(len(shape))]
    for v, n in zip(vs, shape):
        c.require(ge(v, ZERO))
        c.require(lt(v, topoly(n)))
    got = da._v.get(tuple(vs))
    want = f(*vs)
    if isinstance(want, Time):
        prove_time(name + ": values", got, want)
    else:
        prove_eq(name + ": values", got, want)


def check_dataset(x, ds, fields, dim="time", values=None):
    """fields: name -> (what, kind)"""
    c, g = ctx(), x.g
    if not isinstance(ds, X.Dataset):
        c.violated("result", "not a Dataset: %r" % (type(ds),))
        return
    prove_is("variables", set(ds._vs) == set(fields), "%r" % (sorted(ds._vs),))
    for nm, (what, kind) in fields.items():
        check_array(nm, ds._vs.get(nm), (dim,) + DIMS[kind], (x.n,) + SHAPES[kind](g), lambda k, *i: val(what, k, i))
    cs = {"latitude", "longitude", "time"} | {dim}
    prove_is("coordinates", set(ds._cs) == cs, "%r" % (sorted(ds._cs),))
    check_array("latitude", ds._cs.get("latitude"), ("latitude",), (g.nlat,), lambda j: g.lat(j))
    check_array("longitude", ds._cs.get("longitude"), ("longitude",), (g.nlon,), lambda i: g.lon(i))
    check_array("time", ds._cs.get("time"), ("time",), (x.n,), lambda k: x.time(k))
    for nm, u in (("latitude", "degrees_north"), ("longitude", "degrees_east"), ("time", None if x.times == "datetime" else "s")):
        if nm in ds._cs:
            prove_is(nm + ": unit", ds._cs[nm].attrs.get("units") == u, "%r" % (ds._cs[nm].attrs,))
    if dim != "time":
        check_array("coordinate", ds._cs.get(dim), (dim,), (x.n,), values)


UA = [IO + "as_dataset"]
for _t in ("number", "integer", "datetime"):
    @unit("C16", "as_dataset, every attribute, %s times" % _t, under=UA, max_paths=2000)
    def export(c, times=_t):
        x = Export(c, times)
        nm = choose(c, [n for n in x.names if n not in ("plot", "time", "grid")])
        how = choose(c, ["name", "list", "tuple", "mapping"])
        fields = {"name": nm, "list": [nm, "my_meridional"], "tuple": ("my_field", nm), "mapping": {"a": nm, nm + "_2": nm}}
        want = {"name": {nm: nm}, "list": {nm: nm, "my_meridional": "my_meridional"}, "tuple": {nm: nm, "my_field": "my_field"},
                "mapping": {"a": nm, nm + "_2": nm}}
        kind = {"my_meridional": "meridional"}
        ds = x.pkg.io.as_dataset(x.seq(), fields[how])
        check_dataset(x, ds, {k: (v, kind.get(v, "field")) for k, v in want[how].items()})


@unit("C16", "as_dataset, dimensions", under=UA, max_paths=2000)
def dimensions(c):
    """fields, meridional and zonal profiles and numbers, as attributes and from callables"""
    x = Export(c)
    kind = choose(c, list(SHAPES))
    fun = lambda s: x.value("fun_" + kind, kind, s.k)
    fields, want = choose(c, [(["my_" + kind], {"my_" + kind: ("my_" + kind, kind)}),
                              ({"z": "my_" + kind, "y": "u"}, {"z": ("my_" + kind, kind), "y": ("u", "field")}),
                              ({"y": "v", "z": fun}, {"z": ("fun_" + kind, kind), "y": ("v", "field")})])
    check_dataset(x, x.pkg.io.as_dataset(x.seq(), fields=fields), want)


@unit("C16", "as_dataset, other shapes", under=UA, max_paths=2000)
def other_shapes(c):
    """fields that are neither numbers, profiles nor lon-lat fields are refused"""
    x = Export(c)
    g = x.g
    m = T.var("m", "i")
    c.require(ge(m, ONE))
    c.require(bnot(eq(m, g.nlat)))
    c.require(bnot(eq(m, g.nlon)))
    sh = choose(c, [(m,), (m, g.nlat, g.nlon), (g.nlat, g.nlon, m)])
    fun = lambda s: SymArray(tuple(topoly(q) for q in sh), "f", lambda i: val("other", s.k, i))
    try:
        r = x.pkg.io.as_dataset(x.seq(), fields={"y": "v", "z": fun} if c.fork() else {"z": fun})
    except Exception:
        prove_is("refused", True)
        return
    c.violated("refused", "accepted: %r" % (r,))


@unit("C16", "as_dataset, inputs", under=UA + ["state.StateList.as_dataset"], max_paths=2000)
def inputs(c):
    """StateList, iterators, a single State, no States; default fields; the StateList shortcut"""
    x = Export(c)
    x.f.Elem.__getattr__ = lambda self, n: (_ for _ in ()).throw(AttributeError(n))
    want = {"u": ("u", "field"), "v": ("v", "field")}
    how = choose(c, ["StateList", "iterator", "one", "none", "shortcut", "shortcut with options"])
    SL = x.pkg.state.StateList
    if how == "StateList":
        ds = x.pkg.io.as_dataset(SL(x.seq()))
    elif how == "iterator":
        ds = x.pkg.io.as_dataset(x.seq("iter"))
    elif how == "shortcut":
        ds = SL(x.seq()).as_dataset()
    elif how == "shortcut with options":
        ds = SL(x.seq()).as_dataset({"z": "pv"}, concat_dim="member")
        check_dataset(x, ds, {"z": ("pv", "field")}, "member", lambda k: k)
        return
    elif how == "one":
        ds = x.pkg.io.as_dataset(x.f.Elem("A", ZERO))
        x.n = ONE
    else:
        ds = x.pkg.io.as_dataset([] if c.fork() else SL([]))
        prove_is("no States: empty dataset", isinstance(ds, X.Dataset) and not ds._vs and not ds._cs)
        return
    check_dataset(x, ds, want)


@unit("C16", "as_dataset, other dimension", under=UA, max_paths=2000)
def other_dim(c):
    """concatenation along a dimension given by an attribute of the States, or numbered"""
    x = Export(c)
    dim = choose(c, ["number", "member"])
    kind = choose(c, list(SHAPES))
    x.f.Elem.__getattr__ = lambda self, n: (_ for _ in ()).throw(AttributeError(n))
    ds = x.pkg.io.as_dataset(x.seq(), ["my_" + kind, "u"], concat_dim=dim)
    check_dataset(x, ds, {"my_" + kind: ("my_" + kind, kind), "u": ("u", "field")}, dim,
                  (lambda k: val("number", k, ())) if dim == "number" else (lambda k: k))


# -- import ---------------------------------------------------------------------------------------------------
class Made:
    """a State made from a dataset"""

    def __init__(self, how, grid, time, *fields, **kw):
        self.how, self.grid, self.time, self.fields = how, grid, time, fields
        if kw:
            self.fields = fields + tuple(sorted(kw.items()))

    def __subst__(self, mp, memo):
        t = self.time
        if isinstance(t, (Time, Delta)):
            t = type(t)(subst(t.p, mp))
        else:
            t = E.subst_obj(t, mp)
        return Made(self.how, self.grid, t, *[E.subst_obj(f, mp) for f in self.fields])

    def __merge__(self, cnd, o):
        raise Unsupported("merged States")


class MadeGrid:
    def __init__(self, resolution, *a, **kw):
        self.resolution, self.args, self.kw = resolution, a, kw


class MadeList:
    def __init__(self, states):
        self.states = states


class Import:
    """a dataset on a regular grid; flattened dimensions of any sizes; arbitrary values"""

    def __init__(self, c):
        self.pkg = pkg = io_package()
        self.g = g = G(pkg)
        pkg.load("io")
        self.size = {"lon": g.nlon, "lat": g.nlat}
        ex = self
        io = pkg.io

        self.Grid = Grid = MadeGrid

        class State:
            def __new__(cls, grid, time, pv=None, pv_spectral=None):
                if pv_spectral is not None:
                    raise Unsupported("spectral PV")
                return Made("pv", grid, time, pv)

            @staticmethod
            def from_wind(grid, time, u, v):
                return Made("wind", grid, time, u, v)

            @staticmethod
            def from_vorticity(grid, time, vorticity):
                return Made("vorticity", grid, time, vorticity)

        self.Out = Out = MadeList
        for n, o in (("Grid", Grid), ("State", State), ("StateList", Out)):
            if n not in vars(io):
                raise Unsupported("io.%s not found" % n)
            setattr(io, n, o)

    def dim(self, c, name):
        if name not in self.size:
            n = T.var("n_" + name, "i")
            c.require(ge(n, ONE))
            self.size[name] = n
        return self.size[name]

    def var(self, c, name, dims, coords=None):
        sh = [self.dim(c, d) for d in dims]
        return X.DataArray(SymArray(tuple(sh), "f", lambda i: app("VAR:" + name, list(i))), dims=self.names(dims))

    def names(self, dims):
        return [getattr(self, "lonname", "longitude") if d == "lon" else getattr(self, "latname", "latitude") if d == "lat"
                else d for d in dims]

    def coords(self):
        g = self.g
        lo, la = self.names(["lon", "lat"])
        return {lo: X.DataArray(SymArray((g.nlon,), "f", lambda i: g.lon(i[0])), dims=[lo]),
                la: X.DataArray(SymArray((g.nlat,), "f", lambda i: g.lat(i[0])), dims=[la])}

    def flat(self, dims, k):
        """the index along each flattened dimension of slice number k (the last one varies fastest)"""
        out = []
        for d in reversed(dims):
            n = self.size[d]
            q = T.floor(k / n) if d != dims[0] else ZERO
            out.append(k - q * n)
            k = q
        return tuple(reversed(out))

    def check(self, c, r, how, fields, dims, time, grid_kw):
        """one State per slice, in order; field(i...) values, time(i...)"""
        if not isinstance(r, self.Out):
            c.violated("result", "not a StateList: %r" % (type(r),))
            return
        total = ONE
        for d in dims:
            total = total * self.size[d]
        s = r.states
        prove_eq("one State per slice", E.v_len(s), total)
        k = T.var("slice", "i")
        c.require(ge(k, ZERO))
        c.require(lt(k, total))
        m = s[Num(k)] if isinstance(s, SymSeq) else s[0]
        if not isinstance(s, SymSeq):
            c.require(eq(k, ZERO))
        if not isinstance(m, Made):
            c.violated("entry", "not a State made by a State constructor: %r" % (m,))
            return
        ix = self.flat(dims, k)
        prove_is("constructor", m.how == how and len(m.fields) == len(fields), "%s of %d" % (m.how, len(m.fields)))
        g = self.g
        for a, nm in zip(m.fields, fields):
            a = a if isinstance(a, SymArray) else NP._arr(a)
            prove_array(nm, a, (g.nlat, g.nlon), lambda j, i: app("VAR:" + nm, list(ix) + [j, i]))
        prove_time("time", m.time, time(*ix))
        prove_is("scalar time", not isinstance(m.time, SymArray))
        gr = m.grid
        if not isinstance(gr, self.Grid):
            c.violated("grid", "%r" % (gr,))
            return
        prove_eq("grid resolution", gr.resolution, const(180) / g.N)
        prove_is("grid options", gr.args == () and gr.kw == grid_kw, "%r" % ((gr.args, gr.kw),))


UI = [IO + "from_dataset", IO + "_select_var"]
NAMES = {"u": ["u", "ugrd", "eastward_wind"], "v": ["v", "vgrd", "northward_wind"],
         "vo": ["vo", "relv", "vorticity", "relative_vorticity"], "avo": ["avo", "absv", "absolute_vorticity", "pv"],
         "lon": ["longitude", "lon"], "lat": ["latitude", "lat"]}


def timed(x, c, kind, dims):
    """the time coordinate and the expected times"""
    if kind == "none":
        return {}, lambda *i: Num(ZERO)
    if kind == "scalar":
        return {"time": X.DataArray(Num(T.var("tscalar")), dims=())}, lambda *i: Num(T.var("tscalar"))
    on = {"first": dims[:1], "second": dims[1:2], "both": dims[:2]}[kind.split()[0]]
    sh = [x.size[d] for d in on]
    sel = {"first": lambda *i: i[:1], "second": lambda *i: i[1:2], "both": lambda *i: i[:2]}[kind.split()[0]]
    if kind.endswith("datetime"):
        v = X.Values(sh, lambda i: Time(app("TIME", list(i))), "M")
        return {"time": X.DataArray(v, dims=on)}, lambda *i: Time(app("TIME", list(sel(*i))))
    v = SymArray(tuple(sh), "f", lambda i: app("TIME", list(i)))
    return {"time": X.DataArray(v, dims=on)}, lambda *i: Num(app("TIME", list(sel(*i))))


class DimName:
    """the name of flattened dimension number d"""

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        if isinstance(o, DimName):
            return D.SBool(eq(self.d, o.d))
        return NotImplemented if not isinstance(o, str) else False

    def __ne__(self, o):
        raise Unsupported("comparison of dimension names")

    def __hash__(self):
        raise Unsupported("hash of a dimension name")

    def __subst__(self, mp, memo):
        return DimName(subst(self.d, mp))


class Leading(SymSeq):
    """a tuple with one entry for each flattened dimension (any number of them), then two more"""

    def __init__(self, what, n, fn, last):
        super().__init__(n + 2, self._no, "tuple")
        self.what, self.head, self.last = what, SymSeq(n, fn, "tuple"), last

    def _no(self, *a):
        raise Unsupported("entry of " + self.what)

    __iter__ = _no

    def __getitem__(self, i):
        if i in (-1, -2):
            return self.last[i]
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, -2, None):
            return self.head
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (-2, None, None):
            return self.last
        raise Unsupported("entry of " + self.what)

    def __eq__(self, o):
        if not isinstance(o, Leading) or (o.what, o.last) != (self.what, self.last) or o.n is not self.n:
            raise Unsupported("comparison of " + self.what)
        return True

    __hash__ = None

    def __ne__(self, o):
        return not self.__eq__(o)


class Sliced:
    """one horizontal slice of a variable: an ordinary DataArray with its scalar coordinates"""


class AnyArray:
    """a variable on any number of flattened dimensions, latitude and longitude: VAR(k, j, i) in slice number k"""

    def __init__(self, w, name):
        self.w, self.name = w, name
        self.dims, self.shape, self.sizes = w.dims, w.shape, w.sizes
        self.ndim = Num(w.D + 2)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("DataArray.%s on any number of dimensions" % k)

    def isel(self, indexers=None, **kw):
        return self.w.slice(self.name, indexers, kw)

    def __getitem__(self, i):
        return self.isel(i) if isinstance(i, E.SymDict) else self.__getattr__("indexing")


class AnyDims:
    """a dataset on D >= 1 flattened dimensions of arbitrary sizes"""

    def __init__(self, x, c, need, time):
        self.x, self.c, self.need, self.time = x, c, need, time
        g = x.g
        self.coordinates(x)
        self.measure(c, T.var("D", "i"), "SIZE")

    def coordinates(self, x):
        self.fixed = X.Dataset({}, x.coords())

    def measure(self, c, n, size):
        """n dimensions of these sizes"""
        g = self.x.g
        self.D, self.size, self.total = n, lambda d: app(size, [topoly(d)], "i"), app("COUNT:" + size, [n], "i")
        c.require(ge(n, ONE))
        d = T.gfresh("d")
        c.require(T.forall([(d, n)], ge(self.size(d), ZERO)))
        c.require(ge(self.total, ZERO))
        self.dims = Leading("dimensions", n, lambda d: DimName(d), ("latitude", "longitude"))
        self.shape = Leading("sizes", n, lambda d: Num(self.size(d)), (Num(g.nlat), Num(g.nlon)))
        w = self

        class Sizes:
            def __getitem__(self, d):
                return Num(w.size(d.d)) if isinstance(d, DimName) else {"latitude": Num(g.nlat), "longitude": Num(g.nlon)}[d]
        self.sizes = Sizes()

    def product(self, seqs):
        """contract of itertools.product: requires here one sequence per dimension, in order, as long as the dimension"""
        c = ctx()
        d = T.var("dimension", "i")
        c.require(ge(d, ZERO))
        c.require(lt(d, self.D))
        prove_eq("one range of indices per flattened dimension", seqs.n, self.D)
        prove_eq("range of indices as long as the dimension", seqs.fn(d).n, self.size(d))
        prove_eq("range of indices from zero", topoly(seqs.fn(d).fn(T.var("index", "i"))), T.var("index", "i"))
        return self.total, lambda k, d: app("DIGIT", [k, d], "i")

    def slice(self, name, indexers, kw):
        c = ctx()
        if kw or not isinstance(indexers, E.SymDict):
            raise Unsupported("selection on any number of dimensions")
        p = indexers.pairs
        d = T.gfresh("dim")
        if not hasattr(p, "n"):
            raise Unsupported("selection")
        c.require(ge(d, ZERO))
        c.require(lt(d, self.D))
        prove_eq("a selection for every flattened dimension", p.n, self.D)
        key, at = p.fn(d)
        if not isinstance(key, DimName) or not isinstance(at, Num):
            raise Unsupported("selection")
        ks = [a.data[1][0] for a in at.p.atoms() if a.kind == "app" and a.data[0] == "DIGIT"]
        if not ks:
            raise Unsupported("selection that is not made of indices of the product: %s" % T.show(at.p))
        k = ks[0]
        prove_eq("selection: names of the dimensions in order", key.d, d)
        prove_eq("selection: index of slice along each dimension", at.p, app("DIGIT", [k, d], "i"))
        g = self.x.g
        cs = dict(self.fixed._cs)
        if self.time:
            t = app("TIME", [k])
            cs["time"] = X.DataArray(X.Values((), lambda i: Time(t), "M") if self.time == "datetime" else Num(t), dims=())
        return X.DataArray(SymArray((g.nlat, g.nlon), "f", lambda i: app("VAR:" + name, [k] + list(i))),
                           dims=("latitude", "longitude"), name=name, _coords=cs)

    # the dataset
    def squeeze(self):
        """drops the dimensions of length one: the slices and their order stay"""
        if self.c.fork():
            r = AnyDims.__new__(AnyDims)
            r.__dict__.update(self.__dict__)
            r.measure(self.c, T.var("D_left", "i"), "SIZE_left")
            self.c.require(lt(r.D, self.D))
            self.c.require(eq(r.total, self.total))
            self.c.ex.star_product = r.product
            return r
        return self

    def __contains__(self, k):
        return k in self.need or k in self.fixed or (k == "time" and bool(self.time))

    def __getitem__(self, k):
        if k in self.need:
            return AnyArray(self, k)
        if k == "time":
            raise Unsupported("time coordinate on any number of dimensions")
        return self.fixed[k]

    @property
    def coords(self):
        return self.fixed.coords

    def __getattr__(self, k):
        if k.startswith("__") or k == "to_dataset":
            raise AttributeError(k)
        raise Unsupported("Dataset.%s on any number of dimensions" % k)


@unit("C16", "from_dataset, any number of flattened dimensions", under=UI, max_paths=3000, seconds=400)
def any_dims(c):
    """one or more flattened dimensions of arbitrary sizes, in the order of itertools.product"""
    x = Import(c)
    how, need = choose(c, [("wind", ("u", "v")), ("vorticity", ("vo",)), ("pv", ("avo",))])
    time = choose(c, [None, "number", "datetime"])
    ds = AnyDims(x, c, need, time)
    c.ex.star_product = ds.product
    if time is None and c.fork():
        r = x.pkg.io.from_dataset(ds, time_fill=Num(T.var("fill")))
        at = lambda k: Num(T.var("fill"))
    else:
        r = x.pkg.io.from_dataset(ds)
        at = lambda k: Num(ZERO) if time is None else Time(app("TIME", [k])) if time == "datetime" else Num(app("TIME", [k]))
    x.size["slices"] = ds.total
    x.check(c, r, how, need, ["slices"], at, {})


@unit("C16", "from_dataset, no flattened dimension", under=UI, max_paths=3000)
def no_dims(c):
    x = Import(c)
    how, need = choose(c, [("wind", ("u", "v")), ("vorticity", ("vo",)), ("pv", ("avo",))])
    kind = choose(c, ["none", "scalar"])
    cs, time = timed(x, c, kind, [])
    ds = X.Dataset({n: x.var(c, n, ["lat", "lon"]) for n in need}, {**x.coords(), **cs})
    if kind == "none" and c.fork():
        r = x.pkg.io.from_dataset(ds, time_fill=Num(T.var("fill")))
        time = lambda *i: Num(T.var("fill"))
    else:
        r = x.pkg.io.from_dataset(ds)
    x.check(c, r, how, need, [], time, {})


for _d in (["member", "time"], ["time", "member"]):
    @unit("C16", "from_dataset, two flattened dimensions (%s)" % ", ".join(_d), under=UI, max_paths=3000, seconds=400)
    def flattened(c, dims=_d):
        """row-major order spelled out, time coordinates along either or both of the dimensions"""
        x = Import(c)
        for d in dims:
            x.dim(c, d)
        how, need = choose(c, [("wind", ("u", "v")), ("vorticity", ("vo",)), ("pv", ("avo",))])
        p = dims.index("time")
        kind = choose(c, [["first", "second"][p], ["first", "second"][p] + " datetime", "both", "both datetime"])
        cs, time = timed(x, c, kind, dims)
        if "both" in kind:
            # a two-dimensional time coordinate needs another name than its dimensions
            x.size["step"] = x.size["time"]
            dims = ["step" if d == "time" else d for d in dims]
            cs, time = timed(x, c, kind, dims)
        ds = X.Dataset({n: x.var(c, n, dims + ["lat", "lon"]) for n in need}, {**x.coords(), **cs})
        x.check(c, x.pkg.io.from_dataset(ds), how, need, dims, time, {})


@unit("C16", "from_dataset, choice of variables", under=UI, max_paths=3000)
def selection(c):
    """u, v before vo before avo; every default name"""
    x = Import(c)
    x.dim(c, "time")
    have = choose(c, [("u", "v", "vo", "avo"), ("u", "v"), ("vo", "avo"), ("u", "vo"), ("v", "vo", "avo"), ("avo", "u"),
                      ("avo",)])
    how, need = ("wind", ("u", "v")) if {"u", "v"} <= set(have) else ("vorticity", ("vo",)) if "vo" in have else \
        ("pv", ("avo",))
    alt = choose(c, [0, 1, 2, 3])
    nm = {h: NAMES[h][min(alt, len(NAMES[h]) - 1)] for h in have}
    x.lonname, x.latname = NAMES["lon"][alt % 2], NAMES["lat"][alt % 2]
    cs, time = timed(x, c, "first", ["time"])
    ds = X.Dataset({nm[h]: x.var(c, nm[h], ["time", "lat", "lon"]) for h in have}, {**x.coords(), **cs})
    x.check(c, x.pkg.io.from_dataset(ds), how, [nm[h] for h in need], ["time"], time, {})


@unit("C16", "from_dataset, overrides and options", under=UI, max_paths=3000)
def overrides(c):
    x = Import(c)
    x.dim(c, "t")
    x.lonname, x.latname = "x", "y"
    how, need = choose(c, [("wind", ("a", "b")), ("vorticity", ("a",)), ("pv", ("a",))])
    ref = {"wind": ("u", "v"), "vorticity": ("vo",), "pv": ("avo",)}[how]
    v = X.DataArray(SymArray((x.size["t"],), "f", lambda i: app("TIME", list(i))), dims=["t"])
    ds = X.Dataset({n: x.var(c, n, ["t", "lat", "lon"]) for n in need}, {**x.coords(), "t": v})
    names = {"lon": "x", "lat": "y", "time": "t", **dict(zip(ref, need))}
    kw = {"rsphere": Num(T.var("rr")), "omega": Num(T.var("oo")), "ntrunc": 5}
    r = x.pkg.io.from_dataset(ds, names=names, grid_kwargs=dict(kw))
    x.check(c, r, how, need, ["t"], lambda i: Num(app("TIME", [i])), kw)
    prove_is("names not modified", set(names) == {"lon", "lat", "time"} | set(ref))


@unit("C16", "from_dataset, override takes precedence", under=UI, max_paths=3000)
def precedence(c):
    x = Import(c)
    x.dim(c, "time")
    which = choose(c, ["u", "vo", "avo"])
    have = {"u": ("u", "v", "w"), "vo": ("vo", "w"), "avo": ("avo", "w")}[which]
    cs, time = timed(x, c, "first", ["time"])
    ds = X.Dataset({n: x.var(c, n, ["time", "lat", "lon"]) for n in have}, {**x.coords(), **cs})
    r = x.pkg.io.from_dataset(ds, {which: "w"})
    x.check(c, r, {"u": "wind", "vo": "vorticity", "avo": "pv"}[which], ("w", "v") if which == "u" else ("w",), ["time"],
            time, {})


@unit("C16", "from_dataset, DataArray input", under=UI)
def dataarray(c):
    x = Import(c)
    x.dim(c, "time")
    nm = choose(c, ["vo", "pv"])
    cs, time = timed(x, c, "first", ["time"])
    da = X.DataArray(x.var(c, nm, ["time", "lat", "lon"])._v, dims=["time", "latitude", "longitude"], name=nm,
                     coords={**x.coords(), **cs})
    x.check(c, x.pkg.io.from_dataset(da), "vorticity" if nm == "vo" else "pv", (nm,), ["time"], time, {})


@unit("C16", "from_dataset, coordinates", under=UI, max_paths=3000)
def coordinates(c):
    """arbitrary one-dimensional coordinates: only full regular global grids from (90N, 0E) pass"""
    x = Import(c)
    nx, ny = T.var("nx", "i"), T.var("ny", "i")
    c.require(ge(nx, ONE))
    c.require(ge(ny, ONE))
    lon = SymArray((nx,), "f", lambda i: app("LON", [i[0]]))
    lat = SymArray((ny,), "f", lambda i: app("LAT", [i[0]]))
    x.size = {"lon": nx, "lat": ny}
    dim = lambda n, a: X.DataArray(a, dims=[n])
    ds = X.Dataset({"vo": X.DataArray(SymArray((ny, nx), "f", lambda i: app("VAR", list(i))), dims=["latitude", "longitude"])},
                   {"latitude": dim("latitude", lat), "longitude": dim("longitude", lon)})
    try:
        r = x.pkg.io.from_dataset(ds)
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        c.prove("rejected", TRUE)
        return
    la, lo = (lambda j: app("LAT", [topoly(j)])), (lambda i: app("LON", [topoly(i)]))
    d = lo(1) - lo(0)
    tol = d / 1000 + const("1/1000000")
    near = lambda a, b: le(T.absr(a - b), tol)
    i, j = T.var("i", "i"), T.var("j", "i")
    prove("accepted: at least two longitudes", ge(nx, const(2)))
    for v, n in ((i, nx), (j, ny)):
        c.require(ge(v, ZERO))
        c.require(lt(v + 1, n))
    prove("accepted: eastward", gt(d, ZERO))
    prove("accepted: regular longitudes", near(lo(i + 1) - lo(i), d))
    prove("accepted: from 0E", near(lo(0), ZERO))
    prove("accepted: full circle", le(T.absr(lo(nx - 1) - lo(0) - const(360) + d), const("1/100") + d / 1000))
    prove("accepted: from 90N", le(T.absr(la(0) - 90), const("1/100")))
    prove("accepted: southward, equal spacing", near(la(j + 1) - la(j), -d))
    prove("accepted: latitudes for these longitudes", eq(ny - 1, T.floor(nx / 2)))


@unit("C16", "from_dataset, rejections", under=UI, max_paths=3000)
def rejections(c):
    x = Import(c)
    x.dim(c, "time")
    f = x.pkg.io.from_dataset
    cs = x.coords()
    full = ["time", "lat", "lon"]
    what = choose(c, ["no lon", "no lat", "no variables", "only u", "transposed", "lat first", "2d lon", "different dims"])
    if what == "no lon":
        ds = X.Dataset({"vo": x.var(c, "vo", full)}, {"latitude": cs["latitude"]})
    elif what == "no lat":
        ds = X.Dataset({"vo": x.var(c, "vo", full)}, {"longitude": cs["longitude"]})
    elif what == "no variables":
        ds = X.Dataset({"foo": x.var(c, "foo", full)}, cs)
    elif what == "only u":
        ds = X.Dataset({"u": x.var(c, "u", full)}, cs)
    elif what == "transposed":
        ds = X.Dataset({"vo": x.var(c, "vo", ["time", "lon", "lat"])}, cs)
    elif what == "lat first":
        c.require(ge(x.size["time"], const(2)))
        ds = X.Dataset({"vo": x.var(c, "vo", ["lat", "time", "lon"])}, cs)
    elif what == "2d lon":
        ds = X.Dataset({"vo": x.var(c, "vo", full)}, {"latitude": cs["latitude"], "longitude_2d": None or X.DataArray(
            SymArray((x.g.nlat, x.g.nlon), "f", lambda i: x.g.lon(i[1])), dims=["latitude", "longitude"])})
        rejected(what, lambda: f(ds, names={"lon": "longitude_2d"}))
        return
    else:
        c.require(ge(x.size["time"], const(2)))
        ds = X.Dataset({"u": x.var(c, "u", full), "v": x.var(c, "v", ["lat", "lon"])}, cs)
    rejected(what, lambda: f(ds))


# -- round trip ----------------------------------------------------------------------------------------------
for _t in ("number", "datetime"):
    @unit("C16", "round trip, %s times" % _t, under=UA + UI, max_paths=3000)
    def roundtrip(c, times=_t):
        x = Export(c, times)
        fields, how, need = choose(c, [(None, "wind", ("u", "v")), (["vo"], "vorticity", ("vo",)), (["avo", "my_scalar"],
                                       "pv", ("avo",)), (["pv"], "pv", ("pv",))])
        ds = x.pkg.io.as_dataset(x.seq()) if fields is None else x.pkg.io.as_dataset(x.seq(), fields)
        n = x.n
        y = Import.__new__(Import)
        y.pkg, y.g, y.size = x.pkg, x.g, {"time": n, "lon": x.g.nlon, "lat": x.g.nlat}
        io = x.pkg.io

        def state(grid, time, pv=None):
            return Made("pv", grid, time, pv)
        state.from_wind = lambda *a, **k: Made("wind", *a, **k)
        state.from_vorticity = lambda *a, **k: Made("vorticity", *a, **k)

        Real = x.pkg.grid.Grid
        io.State, io.StateList, io.Grid = state, MadeList, MadeGrid
        kw = {"rsphere": Num(x.g.r), "omega": Num(x.g.omega)}
        r = io.from_dataset(ds, grid_kwargs=kw)
        s = r.states
        prove_eq("as many States", E.v_len(s), n)
        k = T.var("slice", "i")
        c.require(ge(k, ZERO))
        c.require(lt(k, n))
        m = s[Num(k)] if isinstance(s, SymSeq) else s[0]
        if not isinstance(s, SymSeq):
            c.require(eq(k, ZERO))
        prove_is("constructor", isinstance(m, Made) and m.how == how)
        prove_time("time", m.time, x.time(k))
        prove_is("a Grid", isinstance(m.grid, MadeGrid))
        made = Real(m.grid.resolution, *m.grid.args, **m.grid.kw)
        prove("equal grid", tob(made == x.g.grid))
        for a, nm in zip(m.fields, need):
            prove_array(nm, a, (x.g.nlat, x.g.nlon), lambda j, i: val(nm, k, (j, i)))
