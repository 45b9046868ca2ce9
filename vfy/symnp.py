"""Symbolic NumPy: arrays with symbolic shapes and element functions over symbolic indices.

The definitions in this file are the *assumed contracts of NumPy* (elementwise semantics over the reals)."""
import numbers
import types
from fractions import Fraction

from . import terms as T
from . import engine as E
from .terms import (Poly, B, TRUE, FALSE, ZERO, ONE, const, band, bor, bnot, eq, le, lt, ge, gt, ite, subst, substb,
                    is_var, gfresh, fresh, Unsupported)
from .engine import Num, SBool, topoly, tob, ctx, SymSeq, generic_eval, truth


# -- dtypes --------------------------------------------------------------------------------
class DType:
    # n: integers of a small or an unsigned type, whose arithmetic overflows (see E.overflow); their elements have sort r
    _order = "bnifcOX"

    def __init__(self, kind):
        self._k = kind

    @property
    def kind(self):
        if self._k == "n":
            return "u" if ctx().decide(T.pred("unsigned", [])) else "i"
        return self._k

    def __eq__(self, o):
        try:
            return self._k == dkind(o)
        except (TypeError, Unsupported):
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return "dtype(%s)" % self._k

    @property
    def type(self):
        return self

    @property
    def itemsize(self):
        if self._k == "n":
            raise Unsupported("size of a small integer type")
        return 8

    def __call__(self, x):
        return cast_scalar(x if isinstance(x, Num) else Num(topoly(x)), self)

    def __vinstance__(self, x):
        return isinstance(x, Num) and x.np_scalar and {"i": "i", "r": "f", "c": "c"}[x.p.sort] == self._k

    @property
    def name(self):
        return {"n": "uint8" if self._k == "n" and self.kind == "u" else "int8", "b": "bool", "i": "int64", "f": "float64", "c": "complex128", "O": "object", "X": "float64"}[self._k]


def dkind(d):
    if d is None:
        return "f"
    if isinstance(d, DType):
        return d._k
    if isinstance(d, E.VType):
        d = d.real
    if d is float:
        return "f"
    if d is int:
        return "i"
    if d is bool:
        return "b"
    if d is complex:
        return "c"
    if d is object:
        return "O"
    if isinstance(d, str):
        if d[:1] in "<>=":
            d = d[1:]
        if d.startswith(("float", "f", "d")):
            return "f"
        if d.startswith(("int", "i", "u", "l")):
            return "i"
        if d.startswith("c"):
            return "c"
        if d.startswith(("bool", "?", "b")):
            return "b"
    raise Unsupported("dtype %r" % (d,))


def cast_scalar(x, d):
    k = dkind(d)
    if k == "n":
        return Num(x.p if x.np_scalar == E.NARROW else E.overflow(x.p), E.NARROW)
    if k == "i" and x.np_scalar == E.NARROW:
        return Num(x.p, True)
    if k == "i":
        return Num(E.ptrunc(x.p), True)
    if k == "f" and x.p.sort == "c":
        return NP.real(x)
    if k == "b":
        return SBool(T.ne(x.p, ZERO))
    return Num(x.p, True)


def up(*ks):
    m = max(ks, key=lambda k: DType._order.index(k))
    return m


# -- elements ------------------------------------------------------------------------------------
def wrap(e, kind):
    if kind == "b":
        return SBool(e)
    if kind in ("O", "X"):
        return e
    return Num(e, E.NARROW if kind == "n" else True)


def unwrap(v, kind):
    if kind == "b":
        return tob(v)
    if kind == "O":
        return v
    if kind == "X":
        return v if not isinstance(v, (Num, int, float)) else NP.ext(v)
    return topoly(v)


def kind_of(v):
    if isinstance(v, (SBool, bool, B)):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "f"
    if isinstance(v, complex):
        return "c"
    if isinstance(v, E.FNum):
        return "f"
    if isinstance(v, Num):
        return "n" if v.np_scalar == E.NARROW else {"i": "i", "r": "f", "c": "c"}[v.p.sort]
    if isinstance(v, Poly):
        return {"i": "i", "r": "f", "c": "c"}[v.sort]
    if getattr(v, "_is_ext", False):
        return "X"
    return "O"


def conv_elem(e, k0, k1):
    if k0 == k1 or k1 == "O":
        return wrap(e, k0) if k1 == "O" and k0 not in ("O",) else e
    if k0 == "b":
        p = ite(e, ONE, ZERO)
        return NP.ext(Num(p)) if k1 == "X" else p
    if k1 == "X":
        return NP.ext(Num(e))
    if k1 == "b":
        return T.ne(e, ZERO)
    if k1 == "i" and k0 in ("f", "c"):
        return E.ptrunc(e)
    if k1 == "n":
        return E.overflow(e)
    if k0 == "O":
        return topoly(e)
    if k0 == "c" and k1 == "f":
        return NP._re(e)
    if k0 == "X":
        raise Unsupported("conversion of extended reals")
    return e


def dim(p):
    """Shape entry as seen by the code: int if constant"""
    c = p.const()
    return int(c) if c is not None else Num(p)


class Buffer:
    __slots__ = ("shape", "kind", "fn", "owner", "cache", "written", "serial")
    count = 0

    def __init__(self, shape, kind, fn, owner=None):
        self.shape, self.kind, self.owner = shape, kind, owner
        self.written = False
        Buffer.count += 1
        self.serial = Buffer.count
        self.set_fn(fn)

    def set_fn(self, fn):
        cache = {}

        def g(idx):
            r = cache.get(idx)
            if r is None:
                r = cache[idx] = fn(idx)
            return r
        self.fn = g


E._clock[:] = [lambda: Buffer.count]


def same_dim(a, b):
    """decide equality of two dimensions (forks if undetermined)"""
    if a is b:
        return True
    return ctx().decide(eq(a, b))


def bshape(*shapes):
    """NumPy broadcasting of shapes"""
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = ONE
        for s in shapes:
            q = k - (nd - len(s))
            if q < 0:
                continue
            x = s[q]
            if x is ONE or x is d:
                continue
            if d is ONE:
                # x could itself be 1: no difference
                d = x
                continue
            if same_dim(d, x):
                continue
            if ctx().decide(eq(d, ONE)):
                d = x
            elif not ctx().decide(eq(x, ONE)):
                raise ValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def bidx(idx, shape, oshape):
    """index into an operand of given shape for index idx of the broadcast result"""
    off = len(oshape) - len(shape)
    return tuple(ZERO if (shape[k] is ONE and oshape[k + off] is not ONE) else
                 (idx[k + off] if shape[k] is oshape[k + off] or shape[k] is not ONE else ZERO)
                 for k in range(len(shape)))


class SymArray:
    _is_symarray = True
    __array_priority__ = 1000
    __slots__ = ("buf", "_shape", "vmap", "member", "meta", "__weakref__")

    def __init__(self, shape, kind, fn, owner=None, buf=None, vmap=None):
        self._shape = tuple(shape)
        self.member = None
        self.meta = None
        if buf is not None:
            self.buf, self.vmap = buf, vmap
        else:
            self.buf = Buffer(self._shape, kind, fn, owner)
            self.vmap = None        # identity

    # -- basic attributes ---------------------------------------------------------------
    @property
    def kind(self):
        return self.buf.kind

    @property
    def shape(self):
        return tuple(dim(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = ONE
        for d in self._shape:
            r = r * d
        return dim(r)

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return NP.real(self)

    @property
    def imag(self):
        return NP.imag(self)

    @property
    def values(self):
        raise AttributeError("values")

    def __symlen__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return dim(self._shape[0])

    def __len__(self):
        n = self.__symlen__()
        if isinstance(n, Num):
            raise Unsupported("native len of symbolic array")
        return n

    def __iter__(self):
        c = self._shape[0].const() if self._shape else None
        if c is None:
            raise Unsupported("native iteration over symbolic array")
        return iter([self[k] for k in range(int(c))])

    def as_seq(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        s = self.snapshot()
        return SymSeq(self._shape[0], lambda i: s.sub_at(i), "iter")

    def sub_at(self, i):
        """element/subarray at (in-range) index i along the first axis"""
        if self.ndim == 1:
            return wrap(self.get((topoly(i),)), self.kind)
        return self._view_fix(0, topoly(i))

    def __repr__(self):
        return "SymArray(shape=%s, kind=%s)" % (self._shape, self.kind)

    # -- element access -------------------------------------------------------------------
    def reader(self):
        f = self.buf.fn
        vm = self.vmap
        if vm is None:
            return f
        return lambda idx: f(map_idx(vm, idx))

    def get(self, idx):
        return self.buf.fn(idx if self.vmap is None else map_idx(self.vmap, idx))

    def snapshot(self):
        a = SymArray(self._shape, self.kind, self.reader())
        a.member = self.member
        a.meta = self.meta
        return a

    def substituted(self, mp):
        f = self.reader()
        k = self.kind
        sh = tuple(subst(d, mp) for d in self._shape)

        def g(idx):
            # evaluate at fresh indices, substitute, then instantiate
            vs = [gfresh("z") for _ in idx]
            e = f(tuple(vs))
            if k == "b":
                e = substb(e, mp)
                return substb(e, {is_var(v): i for v, i in zip(vs, idx)})
            if k in ("O", "X"):
                e = E.subst_obj(e, mp)
                return E.subst_obj(e, {is_var(v): i for v, i in zip(vs, idx)})
            e = subst(e, mp)
            return subst(e, {is_var(v): i for v, i in zip(vs, idx)})
        a = SymArray(sh, k, g, self.buf.owner)
        return a

    def __merge__(self, c, o):
        if not getattr(o, "_is_symarray", False) or o.ndim != self.ndim:
            raise Unsupported("merge of arrays with different rank")
        for a, b in zip(self._shape, o._shape):
            if a is not b and not ctx().entails(eq(a, b)):
                raise Unsupported("merge of arrays with different shapes")
        k = up(self.kind, o.kind)
        f, g, k0, k1 = self.reader(), o.reader(), self.kind, o.kind
        if k == "b":
            return SymArray(self._shape, k, lambda i: T.bite(c, f(i), g(i)))
        if k in ("O", "X"):
            return SymArray(self._shape, k, lambda i: E.merge(c, f(i), g(i)))
        return SymArray(self._shape, k, lambda i: ite(c, conv_elem(f(i), k0, k), conv_elem(g(i), k1, k)))

    def item(self, *a):
        if a:
            return self[a]
        for d in self._shape:
            if not same_dim(d, ONE):
                raise ValueError("can only convert an array of size 1 to a Python scalar")
        e = self.get(tuple(ZERO for _ in self._shape))
        return Num(e) if self.kind not in "bOXn" else wrap(e, self.kind)

    def __topoly__(self):
        if self.ndim == 0:
            return topoly(self.item())
        raise TypeError("array is not a scalar")

    def truth(self):
        for d in self._shape:
            if not same_dim(d, ONE):
                raise ValueError("The truth value of an array with more than one element is ambiguous")
        return truth(wrap(self.get(tuple(ZERO for _ in self._shape)), self.kind))

    def __bool__(self):
        return self.truth()

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return self.item().__index__()

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.item(), spec)
        return "⟦array⟧"

    # -- views ------------------------------------------------------------------------------
    def _axes(self):
        """vmap, with identity expanded"""
        if self.vmap is not None:
            return self.vmap
        return [("a", k, ZERO, ONE) for k in range(len(self._shape))]

    def _view_fix(self, ax, p):
        vm = []
        for e in self._axes():
            if e[0] == "a" and e[1] == ax:
                vm.append(("f", e[2] + e[3] * p))
            elif e[0] == "a" and e[1] > ax:
                vm.append(("a", e[1] - 1, e[2], e[3]))
            else:
                vm.append(e)
        return SymArray(self._shape[:ax] + self._shape[ax + 1:], None, None, buf=self.buf, vmap=vm)

    def _view_slice(self, ax, start, count, step):
        vm = []
        for e in self._axes():
            if e[0] == "a" and e[1] == ax:
                vm.append(("a", ax, e[2] + e[3] * start, e[3] * step))
            else:
                vm.append(e)
        sh = self._shape[:ax] + (count,) + self._shape[ax + 1:]
        a = SymArray(sh, None, None, buf=self.buf, vmap=vm)
        return a

    def _view_new(self, ax):
        vm = [("a", e[1] + 1, e[2], e[3]) if e[0] == "a" and e[1] >= ax else e for e in self._axes()]
        return SymArray(self._shape[:ax] + (ONE,) + self._shape[ax:], None, None, buf=self.buf, vmap=vm)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = [a % self.ndim for a in axes]
        invp = {a: k for k, a in enumerate(axes)}
        vm = [("a", invp[e[1]], e[2], e[3]) if e[0] == "a" else e for e in self._axes()]
        return SymArray([self._shape[a] for a in axes], None, None, buf=self.buf, vmap=vm)

    def squeeze(self, axis=None):
        a = self
        for k in reversed(range(self.ndim)):
            if axis is None or k == axis % self.ndim:
                if same_dim(a._shape[k], ONE):
                    a = a._view_fix(k, ZERO)
        return a

    def __getitem__(self, key):
        return self._index(key, False)

    def _index(self, key, for_write):
        if isinstance(key, IxTuple):
            return self._fancy_ix(key)
        if not isinstance(key, tuple):
            key = (key,)
        key = tuple(k.to_array() if isinstance(k, MaskedSel) else k for k in key)
        if any(isinstance(k, (SymArray, list)) for k in key):
            return self._fancy(key)
        # expand ellipsis
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        if nreal > self.ndim:
            raise IndexError("too many indices for array")
        if Ellipsis in [k for k in key if not isinstance(k, (Num, SBool))]:
            pos = [n for n, k in enumerate(key) if k is Ellipsis][0]
            key = key[:pos] + (slice(None),) * (self.ndim - nreal) + key[pos + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - nreal)
        a = self
        ax = 0
        full = True
        for k in key:
            if k is None:
                a = a._view_new(ax)
                ax += 1
                full = False
            elif isinstance(k, slice):
                full = False
                if not (k.start is None and k.stop is None and k.step is None):
                    start, count, step = norm_slice(k, a._shape[ax])
                    a = a._view_slice(ax, start, count, step)
                ax += 1
            elif isinstance(k, (int, Num)) and not isinstance(k, bool):
                p = topoly(k)
                if p.sort != "i":
                    raise IndexError("only integers, slices, ... are valid indices")
                a = a._view_fix(ax, norm_index(p, a._shape[ax]))
            elif k is True or k is False or isinstance(k, SBool):
                raise Unsupported("boolean scalar index")
            else:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer "
                                 "or boolean arrays are valid indices")
        if full and a.ndim == 0 and not for_write:
            return wrap(a.get(()), a.kind)
        if a is self:
            a = SymArray(self._shape, None, None, buf=self.buf, vmap=self._axes())
            a.member = self.member
        return a

    def _fancy_ix(self, key):
        return self._fancy(tuple(key))

    def _fancy(self, key):
        # boolean mask over the leading dimensions
        if len(key) == 1 and isinstance(key[0], SymArray) and key[0].kind == "b":
            m = key[0]
            if m.ndim > self.ndim:
                raise IndexError("too many indices for array")
            for a, b in zip(m._shape, self._shape):
                if not same_dim(a, b):
                    raise IndexError("boolean index did not match indexed array")
            if m.ndim == self.ndim:
                return MaskedSel(m.snapshot(), self._shape, self.reader(), self.kind)
            if m.ndim == 1:
                return self._fancy((positions_array(m),))
            raise Unsupported("partial boolean mask")
        if Ellipsis in [k for k in key if k is Ellipsis]:
            pos = [n for n, k in enumerate(key) if k is Ellipsis][0]
            nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:pos] + (slice(None),) * (self.ndim - nreal) + key[pos + 1:]
        # mixture of basic indices and arrays
        key2 = []
        for k in key:
            if isinstance(k, list):
                k = NP.asarray(k)
            if isinstance(k, SymArray) and k.kind == "b":
                if k.ndim != 1:
                    raise Unsupported("mask combined with other indices")
                k = positions_array(k)
            key2.append(k)
        key2 += [slice(None)] * (self.ndim - len([k for k in key2 if k is not None]))
        # apply slices first, keeping their axes
        arrs = [k for k in key2 if isinstance(k, (SymArray, int, Num)) and not isinstance(k, bool)]
        arr_axes = [n for n, k in enumerate(key2) if isinstance(k, (SymArray, int, Num)) and not isinstance(k, bool)]
        if arr_axes and arr_axes != list(range(arr_axes[0], arr_axes[-1] + 1)):
            raise Unsupported("separated advanced indices")
        src = self
        ax = 0
        for k in key2:
            if isinstance(k, slice):
                start, count, step = norm_slice(k, src._shape[ax])
                src = src._view_slice(ax, start, count, step)
            elif k is None:
                raise Unsupported("newaxis with advanced indices")
            ax += 1
        ish = bshape(*[a._shape if isinstance(a, SymArray) else () for a in arrs])
        first = arr_axes[0]
        sh = src._shape[:first] + ish + src._shape[first + len(arrs):]
        readers = []
        for a, ax in zip(arrs, arr_axes):
            n = src._shape[ax]
            if isinstance(a, SymArray):
                if a.kind not in "i":
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                rd = checked_index(a, n)
                readers.append((rd, a._shape))
            else:
                p = norm_index(topoly(a), n)
                readers.append(((lambda idx, p=p: p), ()))
        f = src.reader()
        nd_i = len(ish)

        def g(idx):
            mid = idx[first:first + nd_i]
            full = list(idx[:first])
            for rd, s in readers:
                full.append(rd(bidx(mid, s, ish)))
            full += list(idx[first + nd_i:])
            return f(tuple(full))
        out = SymArray(sh, src.kind, g)
        return out

    # -- writes ---------------------------------------------------------------------------
    def _owner_check(self, what="write"):
        o = self.buf.owner
        if o is not None:
            ctx().violated("frame: %s of %s" % (what, o), "the code writes into %s" % o)

    def __setitem__(self, key, value):
        if self.meta == "readonly":
            raise ValueError("assignment destination is read-only")
        if isinstance(key, MaskedSel):
            key = key.to_array()
        if isinstance(key, SymArray) and key.kind == "b" or (isinstance(key, tuple) and len(key) == 1
                                                             and isinstance(key[0], SymArray) and key[0].kind == "b"):
            m = key[0] if isinstance(key, tuple) else key
            for a, b in zip(m._shape, self._shape):
                if not same_dim(a, b):
                    raise IndexError("boolean index did not match indexed array")
            self._owner_check()
            old = self.reader()
            mf = m.reader()
            nm = m.ndim
            k = self.kind
            if isinstance(value, MaskedSel):
                if not same_mask(value.mask, m):
                    raise Unsupported("assignment of a selection under a different mask")
                vf, vk = value.fn, value.kind
                new = lambda idx: conv_elem(vf(idx), vk, k)
            elif isinstance(value, SymArray) and value.ndim > 0:
                if nm == 1 and self.ndim == 1:
                    # values are consumed in order of the true positions
                    raise Unsupported("assignment of a compressed array through a mask")
                raise Unsupported("assignment of an array through a mask")
            else:
                e = scalar_elem(value, k)
                new = lambda idx: e
            ident = [("a", q, ZERO, ONE) for q in range(self.ndim)]
            self._write(ident_axes(self), self._shape, lambda idx: mix(mf(idx[:nm]), new(idx), old(idx), k))
            return
        if isinstance(key, IxTuple) or (isinstance(key, tuple) and any(isinstance(k, (SymArray, list, MaskedSel))
                                                                       for k in key)) or isinstance(key, (SymArray, list)):
            return self._set_fancy(key, value)
        v = self._index(key, True)
        if isinstance(value, SymArray) and value.buf is v.buf and value._axes() == v._axes():
            return
        v._assign(value)

    def _set_fancy(self, key, value):
        if isinstance(value, SymArray) and value.ndim > 0:
            raise Unsupported("array assignment through index arrays")
        if not isinstance(key, tuple):
            key = (key,)
        ks = list(key)
        conds = []
        if isinstance(key, IxTuple):
            for a, nax in zip(ks, range(self.ndim)):
                src = a.meta
                conds.append((src, nax))
        else:
            nonslice = [k for k in ks if not (isinstance(k, slice) and k == slice(None))]
            if len(nonslice) != 1:
                raise Unsupported("assignment through several index arrays")
            for nax, k in enumerate(ks):
                if isinstance(k, SymArray):
                    conds.append((k, nax))
        self._owner_check()
        old = self.reader()
        k = self.kind
        e = scalar_elem(value, k)
        mems = []
        for a, nax in conds:
            checked_index(a, self._shape[nax])
            mems.append((member_of(a), nax))

        def g(idx):
            c = band(*[m(idx[nax]) for m, nax in mems])
            return mix(c, e, old(idx), k)
        self._write(ident_axes(self), self._shape, g)

    def _assign(self, value):
        """self[...] = value (self is a view on the target region)"""
        self._owner_check()
        k = self.kind
        if isinstance(value, MaskedSel):
            value = value.to_array()
        if isinstance(value, (list, tuple)):
            value = NP.asarray(value)
        if isinstance(value, SymArray):
            sh = bshape_to(value._shape, self._shape)
            vf, vs, vk = value.reader(), value._shape, value.kind
            full = self._shape
            while len(vs) > len(full):
                vf0 = vf
                vf = lambda idx, vf0=vf0: vf0((ZERO,) + idx)
                vs = vs[1:]
            new = lambda idx: conv_elem(vf(bidx(idx, vs, full)), vk, k)
        else:
            e = scalar_elem(value, k)
            new = lambda idx: e
        self._write(self._axes(), self._shape, new)

    def _write(self, vm, shape, new):
        buf = self.buf
        old = buf.fn
        k = buf.kind
        bsh = buf.shape

        def g(b):
            conds = []
            vidx = [ZERO] * len(shape)
            for n, e in enumerate(vm):
                if e[0] == "f":
                    conds.append(eq(b[n], e[1]))
                else:
                    _, ax, off, step = e
                    c = step.const()
                    if c == 1:
                        v = b[n] - off
                    elif c == -1:
                        v = off - b[n]
                    else:
                        v = T.floor((b[n] - off) / step)
                        conds.append(eq(b[n] - off, v * step))
                    if not (off is ZERO and c == 1):
                        conds.append(le(ZERO, v))
                    if not (c == 1 and (off + shape[ax]) is bsh[n]):
                        conds.append(lt(v, shape[ax]))
                    vidx[ax] = v
            cnd = band(*conds)
            if cnd is FALSE:
                return old(b)
            return mix2(cnd, lambda: new(tuple(vidx)), lambda: old(b), k)
        if buf.serial <= ctx().loop_epoch:
            # the default loop rule is about bodies without effects on what existed before the loop
            raise Unsupported("an array made before a loop over a symbolic sequence is written in the loop")
        buf.set_fn(g)
        buf.written = True

    # -- arithmetic ---------------------------------------------------------------------------
    def __add__(self, o): return ew2("add", self, o)
    def __radd__(self, o): return ew2("add", o, self)
    def __sub__(self, o): return ew2("sub", self, o)
    def __rsub__(self, o): return ew2("sub", o, self)
    def __mul__(self, o): return ew2("mul", self, o)
    def __rmul__(self, o): return ew2("mul", o, self)
    def __truediv__(self, o): return ew2("div", self, o)
    def __rtruediv__(self, o): return ew2("div", o, self)
    def __floordiv__(self, o): return ew2("fdiv", self, o)
    def __rfloordiv__(self, o): return ew2("fdiv", o, self)
    def __mod__(self, o): return ew2("mod", self, o)
    def __rmod__(self, o): return ew2("mod", o, self)
    def __pow__(self, o): return ew2("pow", self, o)
    def __rpow__(self, o): return ew2("pow", o, self)
    def __neg__(self): return ew1(lambda e: -e, self)
    def __pos__(self): return self
    def __abs__(self): return NP.abs(self)
    def __lt__(self, o): return ew2("lt", self, o)
    def __le__(self, o): return ew2("le", self, o)
    def __gt__(self, o): return ew2("gt", self, o)
    def __ge__(self, o): return ew2("ge", self, o)
    def __and__(self, o): return ew2("and", self, o)
    def __rand__(self, o): return ew2("and", o, self)
    def __or__(self, o): return ew2("or", self, o)
    def __ror__(self, o): return ew2("or", o, self)
    def __xor__(self, o): return ew2("xor", self, o)
    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("invert of non-boolean array")
        f = self.reader()
        return SymArray(self._shape, "b", lambda i: bnot(f(i)))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return ew2("eq", self, 0) if False else SymArray(self._shape, "b", lambda i: FALSE)
        return ew2("eq", self, o)

    def __ne__(self, o):
        return ew2("ne", self, o)

    __hash__ = None

    def _iop(self, op, o):
        if self.meta == "readonly":
            raise ValueError("output array is read-only")
        r = ew2(op, self.snapshot(), o)
        if isinstance(r, SymArray):
            rk = r.kind
        else:
            rk = kind_of(r)
        if DType._order.index(rk) > DType._order.index(self.kind) and self.kind in "bi" or (self.kind == "n" and rk in "fcOX"):
            raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (rk, self.kind))
        if isinstance(r, SymArray):
            if r.ndim != self.ndim:
                raise ValueError("non-broadcastable output operand")
            for a, b in zip(r._shape, self._shape):
                if not same_dim(a, b):
                    raise ValueError("non-broadcastable output operand")
        self._assign(r)
        return self

    def __iadd__(self, o): return self._iop("add", o)
    def __isub__(self, o): return self._iop("sub", o)
    def __imul__(self, o): return self._iop("mul", o)
    def __itruediv__(self, o): return self._iop("div", o)
    def __iand__(self, o): return self._iop("and", o)
    def __ior__(self, o): return self._iop("or", o)
    def __ipow__(self, o): return self._iop("pow", o)

    # -- methods -----------------------------------------------------------------------------
    def sum(self, axis=None, **kw): return NP.sum(self, axis=axis, **kw)
    def mean(self, axis=None, **kw): return NP.mean(self, axis=axis, **kw)
    def min(self, axis=None, **kw): return NP.min(self, axis=axis, **kw)
    def max(self, axis=None, **kw): return NP.max(self, axis=axis, **kw)
    def all(self, axis=None, **kw): return NP.all(self, axis=axis, **kw)
    def any(self, axis=None, **kw): return NP.any(self, axis=axis, **kw)
    def argmax(self, axis=None): return NP.argmax(self, axis=axis)
    def argmin(self, axis=None): return NP.argmin(self, axis=axis)
    def copy(self, order="C"): return self.snapshot()
    def nonzero(self): return NP.nonzero(self)
    def round(self, decimals=0): return NP.round(self, decimals)
    def clip(self, a=None, b=None, **kw): return NP.clip(self, a, b, **kw)
    def conj(self): return NP.conj(self)
    conjugate = conj
    def repeat(self, n, axis=None): return NP.repeat(self, n, axis)
    def take(self, idx, axis=None):
        if axis is None and self.ndim != 1:
            raise Unsupported("take from a flattened array")
        return NP.take(self, idx, axis)
    def compress(self, m, axis=None): return NP.compress(m, self, axis)
    def swapaxes(self, p, q): return NP.swapaxes(self, p, q)
    def dot(self, o): return NP.dot(self, o)
    def __matmul__(self, o): return NP.matmul(self, o)
    def __rmatmul__(self, o): return NP.matmul(o, self)
    def cumsum(self, axis=None): return NP.cumsum(self, axis)

    def astype(self, d, **kw):
        k = dkind(d)
        if self.kind == k or (self.kind == "X" and k in "fc"):
            return self.snapshot()
        f, k0 = self.reader(), self.kind
        a = SymArray(self._shape, k, lambda i: conv_elem(f(i), k0, k))
        a.member = self.member
        return a

    def flatten(self, *a):
        return self.reshape(-1).copy()

    def ravel(self, *a):
        return self.reshape(-1)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        s = self.as_seq()
        return SymSeq(s.n, s.fn, "list")

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, [topoly(x) for x in shape])

    def __symzip__(self):
        s = self.as_seq()
        return s.n, s.fn

    def __copy__(self):
        return self.snapshot()

    def __deepcopy__(self, memo):
        return self.snapshot()


def ident_axes(a):
    return a._axes()


def map_idx(vm, idx):
    return tuple(e[1] if e[0] == "f" else (idx[e[1]] if (e[2] is ZERO and e[3] is ONE) else e[2] + e[3] * idx[e[1]])
                 for e in vm)


def mix(c, a, b, kind):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if kind == "b":
        return T.bite(c, a, b)
    if kind in ("O", "X"):
        return E.merge(c, a, b)
    return ite(c, a, b)


def mix2(c, fa, fb, kind):
    if c is TRUE:
        return fa()
    if c is FALSE:
        return fb()
    return mix(c, fa(), fb(), kind)


def scalar_elem(v, k):
    if isinstance(v, SymArray):
        v = v.item()
    k0 = kind_of(v)
    if k == "O":
        return v
    if k0 == "O":
        if v is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        raise Unsupported("store of %r into numeric array" % type(v))
    return conv_elem(unwrap(v, k0), k0, k)


def norm_index(p, n):
    c = ctx()
    if c.decide(lt(p, ZERO)):
        p = p + n
        if not c.decide(ge(p, ZERO)):
            raise IndexError("index out of bounds")
        return p
    if not c.decide(lt(p, n)):
        raise IndexError("index out of bounds")
    return p


def norm_slice(s, n):
    """(start, count, step) of a slice on a dimension of size n"""
    c = ctx()
    step = ONE if s.step is None else topoly(s.step)
    for x in (s.start, s.stop, s.step):
        if x is not None and not isinstance(x, (int, Num)):
            if isinstance(x, SymArray) and x.ndim == 0:
                continue
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if x is not None and topoly(x).sort != "i":
            raise TypeError("slice indices must be integers or None or have an __index__ method")
    pos = c.decide(gt(step, ZERO))
    if not pos and c.decide(eq(step, ZERO)):
        raise ValueError("slice step cannot be zero")

    def clip(x, lo, hi):
        if c.decide(lt(x, ZERO)):
            x = x + n
            if c.decide(lt(x, lo)):
                return lo
            return x
        if c.decide(gt(x, hi)):
            return hi
        return x
    if pos:
        start = ZERO if s.start is None else clip(topoly(s.start), ZERO, n)
        stop = n if s.stop is None else clip(topoly(s.stop), ZERO, n)
        if c.decide(le(stop, start)):
            return start, ZERO, step
        if step is ONE:
            return start, stop - start, step
        return start, T.floor((stop - start - 1) / step) + 1, step
    start = n - 1 if s.start is None else clip(topoly(s.start), const(-1), n - 1)
    stop = const(-1) if s.stop is None else clip(topoly(s.stop), const(-1), n - 1)
    if c.decide(ge(stop, start)):
        return start, ZERO, step
    if step.const() == -1:
        return start, start - stop, step
    return start, T.floor((start - stop - 1) / (-step)) + 1, step


def checked_index(a, n):
    """Reader of an index array with bounds check and negative wrap-around"""
    vs = [gfresh("ix") for _ in a._shape]
    e = a.get(tuple(vs))
    f = a.reader()
    c = ctx()
    rng = band(*[band(le(ZERO, v), lt(v, d)) for v, d in zip(vs, a._shape)])
    binders = list(zip(vs, a._shape))
    nonneg = T.forall(binders, ge(e, ZERO))
    from . import solver as S
    hy = c.hyps()
    if S.prove(hy, nonneg, 10)[0]:
        if not S.prove(hy, T.forall(binders, lt(e, n)), 10)[0]:
            if not c.decide(T.forall(binders, lt(e, n))):
                raise IndexError("index out of bounds")
        return f
    ok = T.forall(binders, band(ge(e, -n), lt(e, n)))
    if not S.prove(hy, ok, 10)[0] and not c.decide(ok):
        raise IndexError("index out of bounds")
    return lambda idx: (lambda x: ite(lt(x, ZERO), x + n, x))(f(idx))


def member_of(a):
    if a.member is not None:
        return a.member
    # explicit existential
    f = a.reader()
    n = a._shape[0]

    def mem(j):
        v = gfresh("ex")
        return bnot(T.forall([(v, n)], bnot(eq(f((v,)), j))))
    return mem


def bshape_to(src, dst):
    """check that src can be broadcast to dst"""
    if len(src) > len(dst):
        for d in src[:len(src) - len(dst)]:
            if not same_dim(d, ONE):
                raise ValueError("could not broadcast input array")
        src = src[len(src) - len(dst):]
    off = len(dst) - len(src)
    for k, s in enumerate(src):
        if s is ONE:
            continue
        if not same_dim(s, dst[k + off]):
            if not ctx().decide(eq(s, ONE)):
                raise ValueError("could not broadcast input array from shape %s into shape %s" % (src, dst))
    return dst


# -- elementwise ----------------------------------------------------------------------------
def _cmpkind(op):
    return op in ("lt", "le", "gt", "ge", "eq", "ne", "and", "or", "xor")


_OPS = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": E.mul, "div": lambda a, b: a / b,
    "fdiv": lambda a, b: T.floor(a / b), "mod": E.pmod, "pow": E.ppow,
    "lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": T.ne, "max": T.pmax, "min": T.pmin,
}
_PYOPS = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
    "pow": lambda a, b: a ** b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "fdiv": lambda a, b: a // b,
    "mod": lambda a, b: a % b,
}


def operand(x):
    """(reader, shape, kind) of an operand"""
    if isinstance(x, MaskedSel):
        x = x.to_array()
    if isinstance(x, SymArray):
        return x.reader(), x._shape, x.kind
    if isinstance(x, (list, tuple)):
        x = NP.asarray(x)
        return x.reader(), x._shape, x.kind
    if isinstance(x, SymSeq):
        x = NP.asarray(x)
        return x.reader(), x._shape, x.kind
    k = kind_of(x)
    if k == "O":
        h = getattr(x, "__symarray__", None)
        if h is not None:
            x = h()
            return x.reader(), x._shape, x.kind
        if x is None or isinstance(x, str):
            raise TypeError("unsupported operand type(s): %r" % type(x).__name__)
        raise Unsupported("array operand %r" % type(x))
    e = unwrap(x, k)
    return (lambda idx: e), (), k


def ew2(op, a, b):
    if isinstance(a, MaskedSel) or isinstance(b, MaskedSel):
        return ms2(op, a, b)
    for x in (a, b):
        if getattr(x, "_defer_numpy", False):
            return NotImplemented
    fa, sa, ka = operand(a)
    fb, sb, kb = operand(b)
    sh = bshape(sa, sb)
    ka, kb = weak(a, ka, kb), weak(b, kb, ka)
    k = elem_kind(op, ka, kb)
    f = elem_op(op, ka, kb, k)
    if not sh and not isinstance(a, SymArray) and not isinstance(b, SymArray):
        return wrap(f(fa(()), fb(())), k)

    def g(idx):
        return f(fa(bidx(idx, sa, sh)), fb(bidx(idx, sb, sh)))
    if not sh:
        return wrap(g(()), k)
    return SymArray(sh, k, g)


def weak(x, k, other):
    """Python's integers take the small type of the other operand"""
    return "n" if other == "n" and k == "i" and (isinstance(x, int) or isinstance(x, Num) and not x.np_scalar) else k


def elem_kind(op, ka, kb):
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        return "b"
    if op in ("and", "or", "xor"):
        return "b"
    k = up(ka, kb)
    if op == "div" and k in "bin":
        return "f"
    if ka == kb == "b" and op == "sub":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    if k == "b":
        return "i" if op in ("add", "mul", "sub", "pow") else "i"
    return k


def elem_op(op, ka, kb, k):
    if op in ("and", "or", "xor"):
        if ka != "b" or kb != "b":
            raise Unsupported("bitwise operation on numbers")
        return {"and": lambda x, y: band(x, y), "or": lambda x, y: bor(x, y),
                "xor": lambda x, y: bnot(T.iff(x, y))}[op]
    kk = up(ka, kb)
    if kk in ("O", "X"):
        py = _PYOPS[op]

        def h(x, y):
            r = py(wrap(x, ka) if ka not in "OX" else x, wrap(y, kb) if kb not in "OX" else y)
            if k == "b":
                return tob(r)
            return r
        return h
    if kk == "b" and op in ("eq", "ne"):
        return (lambda x, y: T.iff(x, y)) if op == "eq" else (lambda x, y: bnot(T.iff(x, y)))
    f = _OPS[op]
    if k == "n" and op in ("add", "sub", "mul", "pow"):
        f = (lambda f0: lambda x, y: E.overflow(f0(x, y), x, y))(f)
    ca = (lambda e: ite(e, ONE, ZERO)) if ka == "b" else (lambda e: e)
    cb = (lambda e: ite(e, ONE, ZERO)) if kb == "b" else (lambda e: e)
    if ka != "b" and kb != "b":
        return f
    return lambda x, y: f(ca(x), cb(y))


def narrowed(f, kind):
    """functions of small integers: integer results overflow (unless marked exact)"""
    if kind is not None or getattr(f, "exact", False):
        return f
    return lambda e: E.overflow(f(e), e)


def ew1(f, a, kind=None, pyf=None):
    if getattr(a, "kind", None) == "n":
        f = narrowed(f, kind)
    if isinstance(a, MaskedSel):
        g = a.fn
        return MaskedSel(a.mask, a.fshape, lambda i: f(conv_elem(g(i), a.kind, "f") if a.kind == "b" else g(i)),
                         kind or a.kind)
    if isinstance(a, (list, tuple, SymSeq)):
        a = NP.asarray(a)
    if isinstance(a, SymArray):
        r = a.reader()
        k0 = a.kind
        k = kind or (k0 if k0 != "b" else "i")
        if k0 in ("O", "X"):
            if pyf is None:
                raise Unsupported("elementwise function on object array")
            return SymArray(a._shape, kind or k0, lambda i: (lambda v: tob(v) if kind == "b" else v)(pyf(r(i))))
        if k0 == "b":
            return SymArray(a._shape, k, lambda i: f(ite(r(i), ONE, ZERO)))
        return SymArray(a._shape, k, lambda i: f(r(i)))
    if getattr(a, "_is_ext", False):
        return pyf(a)
    if getattr(a, "np_scalar", False) == E.NARROW:
        r = narrowed(f, kind)(a.p)
        return SBool(r) if kind == "b" else Num(r, True if kind else E.NARROW)
    r = f(topoly(a))
    return SBool(r) if kind == "b" else Num(r, True)


# -- masked selections ---------------------------------------------------------------------------
class MaskedSel:
    """x[mask] for a boolean mask with the full shape of x (elements kept in place)"""
    _is_symarray = False
    _is_masked = True
    __array_priority__ = 2000

    def __init__(self, mask, fshape, fn, kind):
        self.mask, self.fshape, self.fn, self.kind = mask, fshape, fn, kind

    def to_array(self):
        if self.mask.ndim != 1 or len(self.fshape) != 1:
            raise Unsupported("compressed 2-D selection")
        pos = positions_array(self.mask)
        f = self.fn
        pr = pos.reader()
        a = SymArray(pos._shape, self.kind, lambda idx: f((pr(idx),)))
        # x = arange-like: element == index
        v = gfresh("m")
        if self.kind == "i" and f((v,)) is v:
            a.member = pos.member
        return a

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.to_array(), name)

    def __symlen__(self):
        return self.to_array().__symlen__()

    def __getitem__(self, k):
        return self.to_array()[k]

    def __add__(self, o): return ms2("add", self, o)
    def __radd__(self, o): return ms2("add", o, self)
    def __sub__(self, o): return ms2("sub", self, o)
    def __rsub__(self, o): return ms2("sub", o, self)
    def __mul__(self, o): return ms2("mul", self, o)
    def __rmul__(self, o): return ms2("mul", o, self)
    def __truediv__(self, o): return ms2("div", self, o)
    def __rtruediv__(self, o): return ms2("div", o, self)
    def __pow__(self, o): return ms2("pow", self, o)
    def __neg__(self): return MaskedSel(self.mask, self.fshape, (lambda f: lambda i: -f(i))(self.fn), self.kind)
    def __lt__(self, o): return ms2("lt", self, o)
    def __le__(self, o): return ms2("le", self, o)
    def __gt__(self, o): return ms2("gt", self, o)
    def __ge__(self, o): return ms2("ge", self, o)
    def __eq__(self, o): return ms2("eq", self, o)
    def __ne__(self, o): return ms2("ne", self, o)
    __hash__ = None
    __iadd__ = __add__
    __isub__ = __sub__
    __imul__ = __mul__
    __itruediv__ = __truediv__

    def copy(self):
        return self

    def all(self, axis=None):
        m, f = self.mask.reader(), self.fn
        vs = [gfresh("a") for _ in self.fshape]
        return SBool(T.forall(list(zip(vs, self.fshape)), T.implies(m(tuple(vs)), tob(wrap(f(tuple(vs)), self.kind)))))

    def sum(self, axis=None):
        m, f = self.mask.reader(), self.fn
        vs = [gfresh("a") for _ in self.fshape]
        return Num(T.psum(list(zip(vs, self.fshape)), ite(m(tuple(vs)), conv_elem(f(tuple(vs)), self.kind, "f"), ZERO)))


def ms2(op, a, b):
    m = a.mask if isinstance(a, MaskedSel) else b.mask
    sh = a.fshape if isinstance(a, MaskedSel) else b.fshape
    fs = []
    for x in (a, b):
        if isinstance(x, MaskedSel):
            if not same_mask(x.mask, m):
                raise Unsupported("selections under different masks")
            fs.append((x.fn, x.kind))
        elif isinstance(x, SymArray) and x.ndim > 0:
            aa = a.to_array() if isinstance(a, MaskedSel) else a
            bb = b.to_array() if isinstance(b, MaskedSel) else b
            return ew2(op, aa, bb)
        else:
            f, s, k = operand(x)
            fs.append((lambda idx, f=f: f(()), k))
    (fa, ka), (fb, kb) = fs
    ka, kb = weak(a, ka, kb), weak(b, kb, ka)
    k = elem_kind(op, ka, kb)
    h = elem_op(op, ka, kb, k)
    return MaskedSel(m, sh, lambda i: h(fa(i), fb(i)), k)


def same_mask(a, b):
    if a is b:
        return True
    if len(a._shape) != len(b._shape):
        return False
    vs = tuple(gfresh("sm") for _ in a._shape)
    x, y = a.get(vs), b.get(vs)
    if x is y:
        return True
    from . import solver as S
    return S.prove(ctx().hyps(), T.forall(list(zip(vs, a._shape)), T.iff(x, y)), 20)[0]


# -- positions of true values in 1-D masks -----------------------------------------------------------
class Threshold:
    """cond(j) <=> j < t (prefix) or j >= t (suffix) for all 0 <= j < n: exists for monotone conditions"""

    def __init__(self, t, n, prefix, v, cond):
        self.t, self.n, self.prefix, self.v, self.cond = t, n, prefix, v, cond

    def at(self, j):
        return substb(self.cond, {is_var(self.v): j})

    def instances(self, ivars):
        t, n = self.t, self.n
        out = [le(ZERO, t), le(t, n)]
        cands = [T.atom_poly(a) for a in ivars if a is not is_var(t)][:8]
        for j in [t, t - 1] + cands:
            c = self.at(j)
            rhs = lt(j, t) if self.prefix else ge(j, t)
            out.append(T.implies(band(le(ZERO, j), lt(j, n)), T.iff(c, rhs)))
        return out


def elim_ite(b):
    """Boolean term without if-then-else inside comparisons"""
    for _ in range(60):
        cs = [c for c in T.bconds(b) if not T.bconds(c)]
        if not cs:
            return b
        cs.sort(key=lambda c: c.id)
        c = cs[0]
        b = T.bite(c, T.mapb_conds(b, {c: TRUE}), T.mapb_conds(b, {c: FALSE}))
    raise Unsupported("mask condition too complex")


def positions(m):
    """List of disjoint ascending index intervals [(start, stop)] of the true positions of a 1-D mask"""
    n = m._shape[0]
    v = gfresh("p")
    b = elim_ite(m.get((v,)))
    return _intervals(b, v, n)


def _intervals(b, v, n):
    c = ctx()
    va = is_var(v)
    if va not in b.fv:
        return [(ZERO, n)] if c.decide(b) else []
    if b.kind == "and":
        out = None
        for x in b.data:
            i = _intervals(x, v, n)
            out = i if out is None else _inter(out, i)
            if not out:
                return []
        return out
    if b.kind == "or":
        out = []
        for x in b.data:
            out = _union(out, _intervals(x, v, n))
        return out
    if b.kind == "not" and b.data[0].kind == "eq":
        return _compl(_intervals(b.data[0], v, n), n)
    if b.kind == "eq":
        from . import solver as S
        sol = T.ZERO
        p = b.data[0]
        cf = p.t.get(((va, 1),))
        rest = p - T._poly({((va, 1),): cf}) if cf else None
        if cf and va not in rest.fv:
            s = rest * const(-1 / cf)
            if s.sort == "i" or c.decide(eq(T.floor(s), s)):
                s = s if s.sort == "i" else T.floor(s)
                if c.decide(band(ge(s, ZERO), lt(s, n))):
                    return [(s, s + 1)]
            return []
        # monotone function: p <= 0 and p >= 0
        return _inter(_intervals(T.le0(p), v, n), _intervals(T.le0(-p), v, n))
    th = threshold(b, v, n)
    return [(ZERO, th.t)] if th.prefix else [(th.t, n)]


def _key(b, v):
    return substb(b, {is_var(v): T.bvar(9999)})


def threshold(b, v, n):
    c = ctx()
    key = _key(b, v)
    for th in c.thresholds:
        if th.key is key and th.n is n:
            return th
    # linear in v with decidable slope?
    from . import solver as S
    hy = c.hyps()
    j1, j2 = gfresh("j"), gfresh("j")
    b1, b2 = substb(b, {is_var(v): j1}), substb(b, {is_var(v): j2})
    rng = [le(ZERO, j1), lt(j1, j2), lt(j2, n)]
    va = is_var(v)
    prefix = None
    if S.entails(hy + rng + [b2], b1, 4000):
        prefix = True
    elif S.entails(hy + rng + [b1], b2, 4000):
        prefix = False
    if prefix is None:
        raise Unsupported("mask condition is not monotone: %s" % T.showb(b)[:300])
    t = fresh("thr", "i")
    th = Threshold(t, n, prefix, v, b)
    th.key = key
    c.thresholds.append(th)
    c.require(le(ZERO, t))
    c.require(le(t, n))
    return th


def _inter(a, b):
    c = ctx()
    out = []
    for s1, e1 in a:
        for s2, e2 in b:
            s = s1 if s1 is s2 or c.decide(ge(s1, s2)) else s2
            e = e1 if e1 is e2 or c.decide(le(e1, e2)) else e2
            if c.decide(lt(s, e)):
                out.append((s, e))
    return out


def _union(a, b):
    c = ctx()
    out = [x for x in a if x[0] is not x[1]]
    for s, e in b:
        if s is e or not c.decide(lt(s, e)):
            continue
        new = []
        placed = False
        cs, ce = s, e
        for s1, e1 in out:
            if c.decide(lt(e1, cs)):
                new.append((s1, e1))
            elif c.decide(lt(ce, s1)):
                if not placed:
                    new.append((cs, ce))
                    placed = True
                new.append((s1, e1))
            else:
                if placed:
                    raise Unsupported("interval union")
                cs = cs if c.decide(le(cs, s1)) else s1
                ce = ce if c.decide(ge(ce, e1)) else e1
        if not placed:
            new.append((cs, ce))
        out = new
    return out


def _compl(a, n):
    c = ctx()
    out = []
    pos = ZERO
    for s, e in a:
        if c.decide(lt(pos, s)):
            out.append((pos, s))
        pos = e
    if c.decide(lt(pos, n)):
        out.append((pos, n))
    return out


def opaque_positions(m):
    """Positions of the true elements of a mask without interval structure: the k-th true position as an
    uninterpreted function of k and the mask"""
    n = m._shape[0]
    if all_true(m):
        a = SymArray((n,), "i", lambda i: i[0])
        a.member = lambda j: band(ge(j, ZERO), lt(j, n))
        return a
    mf = m.reader()
    v = gfresh("m")
    one = ite(tob(mf((v,))), ONE, ZERO)
    token = T.fn("MASK", [], [([(v, n)], one)])
    cnt = T.psum([(v, n)], one)

    def mem(j):
        return tob(mf((j,)))
    a = SymArray((cnt,), "i", lambda i: T.app("NTHTRUE", [i[0], token, n], "i"))
    a.member = mem
    return a


def all_true(m):
    """the mask is established to be true everywhere"""
    from . import solver as S
    v = gfresh("m")
    return S.prove(ctx().hyps(), T.forall([(v, m._shape[0])], tob(m.get((v,)))), 10)[0]


def positions_array(m):
    if all_true(m):
        return opaque_positions(m)
    try:
        iv = positions(m)
    except Unsupported:
        return opaque_positions(m)
    n = ZERO
    for s, e in iv:
        n = n + (e - s)
    mf = m.reader()

    def g(idx):
        p = idx[0]
        off = ZERO
        parts = []
        for s, e in iv:
            parts.append((lt(p - off, e - s), s + p - off))
            off = off + (e - s)
        if not parts:
            return ZERO
        r = parts[-1][1]
        for c, val in reversed(parts[:-1]):
            r = ite(c, val, r)
        return r
    a = SymArray((n,), "i", g)

    def mem(j):
        return bor(*[band(ge(j, s), lt(j, e)) for s, e in iv])
    a.member = mem
    return a


# -- reshape --------------------------------------------------------------------------------------
def reshape(a, shape):
    c = ctx()
    shape = list(shape)
    total = ONE
    for d in a._shape:
        total = total * d
    if any(s.const() == -1 for s in shape):
        rest = ONE
        for s in shape:
            if s.const() != -1:
                rest = rest * s
        if rest is ONE:
            q = total
        else:
            q = total / rest
            if q.sort != "i":
                q2 = T.floor(q)
                if not c.decide(eq(q2 * rest, total)):
                    raise ValueError("cannot reshape array")
                q = q2
        shape = [q if s.const() == -1 else s for s in shape]
    tot2 = ONE
    for s in shape:
        tot2 = tot2 * s
    if not same_dim(total, tot2):
        raise ValueError("cannot reshape array into shape")
    f = a.reader()
    # drop / insert unit dimensions
    if [d for d in a._shape if d is not ONE] == [d for d in shape if d is not ONE]:
        src = [k for k, d in enumerate(a._shape) if d is not ONE]
        dst = [k for k, d in enumerate(shape) if d is not ONE]

        def g(idx):
            full = [ZERO] * len(a._shape)
            for s, d in zip(src, dst):
                full[s] = idx[d]
            return f(tuple(full))
        return SymArray(shape, a.kind, g)
    if a.meta and a.meta[0] == "repeat" and len(shape) == 2 and shape[1] is a.meta[2]:
        r = a.meta[1]
        return SymArray(shape, a.kind, lambda idx: r((idx[0],)))
    if a.meta and a.meta[0] == "tile" and len(shape) == 2 and shape[1] is a.meta[2]:
        r = a.meta[1]
        return SymArray(shape, a.kind, lambda idx: r((idx[1],)))
    if a.meta and a.meta[0] == "flat" and tuple(shape) == a.meta[2]:
        r = a.meta[1]
        return SymArray(shape, a.kind, r)

    def g2(idx):
        q = ZERO
        for k, i in enumerate(idx):
            q = q * shape[k] + i
        full = []
        for d in reversed(a._shape):
            w = T.floor(q / d)
            full.append(q - w * d)
            q = w
        return f(tuple(reversed(full)))
    if len(a._shape) == 1:
        def g2(idx):
            q = ZERO
            for k, i in enumerate(idx):
                q = q * shape[k] + i
            return f((q,))
    out = SymArray(shape, a.kind, g2)
    if len(shape) == 1:
        out.meta = ("flat", f, a._shape)
    return out


class IxTuple(tuple):
    pass


class _Generic1D:
    pass


# -- the numpy namespace ----------------------------------------------------------------------------
def axis_norm(ax, nd):
    if ax is None:
        return list(range(nd))
    if isinstance(ax, tuple):
        return sorted(axis_norm(a, nd)[0] for a in ax)
    if isinstance(ax, Num):
        ax = int(ax)
    if not isinstance(ax, int):
        raise TypeError("axis must be an integer")
    if not -nd <= ax < nd:
        raise NP.AxisError("axis %s is out of bounds for array of dimension %s" % (ax, nd))
    return [ax % nd]


def np_interp(x, nodes, at, binders, values):
    """numpy.interp: linear in the values"""
    return T.lin("NPINTERP", (x, T.fn("NODES", [], [(nodes, at)])), binders, values)


def _interp_hook(sargs, binders, res, sort):
    """interpolation along two dimensions: the order does not matter"""
    (m, _), = res.t.items()
    if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "fn" or m[0][0].data[0] != "NPINTERP":
        return None
    a = m[0][0]
    vars_ = {T.is_var(v) for v, _ in binders}
    if any(q.fv & vars_ for q in a.data[1]) or any(n.fv & vars_ for _, n in a.data[2][0][0]):
        return None
    vs, ns, b = T.open_body(a, 0)
    inner = T.lin("NPINTERP", sargs, binders, b)
    if T.single_atom(inner) is None:
        return None
    both = [T.fn("NPINTERP", sargs, [(binders, res)]), T.fn("NPINTERP", a.data[1], [(list(zip(vs, ns)), inner)])]
    return min(both, key=lambda p: T.single_atom(p).id)


T.register_linear("NPINTERP", _interp_hook)


class AxisError(ValueError, IndexError):
    pass


def _items(xs):
    if not isinstance(xs, (list, tuple)):
        raise Unsupported("sequence %r" % (xs,))
    return list(xs)


class _NP:
    AxisError = AxisError
    newaxis = None
    ndarray = None
    nan = None

    @staticmethod
    def ndindex(*shape):
        from . import stubs
        if len(shape) == 1 and isinstance(shape[0], E.Star):
            return stubs.product(E.Star(shape[0].seq.map(lambda n: E.v_range(n))))
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SymSeq)):
            return _NP.ndindex(*E.star(shape[0]))
        return stubs.product(*[E.v_range(n) for n in shape])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("numpy.%s has no dependency contract" % name)

    # dtypes
    float64 = float32 = double = float16 = DType("f")
    floating = DType("f")
    int64 = int32 = intp = int_ = DType("i")
    integer = DType("i")
    complex64 = complex128 = DType("c")
    bool_ = DType("b")
    object_ = DType("O")

    @property
    def pi(self):
        return Num(T.PI)

    @property
    def inf(self):
        return Num(T.INF)

    def dtype(self, d):
        return DType(dkind(d))

    # -- creation
    def asarray(self, x, dtype=None, **kw):
        a = self._arr(x)
        if dtype is not None and dkind(dtype) != a.kind:
            return a.astype(dtype)
        return a

    asanyarray = asarray
    ascontiguousarray = asarray

    def array(self, x, dtype=None, copy=True, **kw):
        a = self.asarray(x, dtype)
        return a.snapshot() if a is x else a

    def require(self, x, dtype=None, requirements=None):
        a = self._arr(x)
        if dtype is not None and dkind(dtype) != a.kind:
            a = a.astype(dtype)
        return a

    def _arr(self, x):
        if isinstance(x, MaskedSel):
            return x.to_array()
        if isinstance(x, SymArray):
            return x
        if isinstance(x, SymSeq):
            return self._stack_seq(x)
        if isinstance(x, (list, tuple)):
            return self._from_list(list(x))
        h = getattr(x, "__symarray__", None)
        if h is not None:
            return h()
        k = kind_of(x)
        if k == "O":
            if x is None or isinstance(x, str):
                return SymArray((), "O", lambda i: x)
            raise Unsupported("asarray of %r" % type(x))
        e = unwrap(x, k)
        return SymArray((), k, lambda i: e)

    def _from_list(self, xs):
        if not xs:
            return SymArray((ZERO,), "f", lambda i: ZERO)
        xs = [self._arr(x) if isinstance(x, (SymArray, list, tuple, SymSeq, MaskedSel)) else x for x in xs]
        if any(isinstance(x, SymArray) for x in xs):
            xs = [self._arr(x) for x in xs]
            sh = xs[0]._shape
            for y in xs[1:]:
                if y.ndim != len(sh):
                    raise ValueError("setting an array element with a sequence: inhomogeneous shape")
                for a, b in zip(sh, y._shape):
                    if not same_dim(a, b):
                        raise ValueError("setting an array element with a sequence: inhomogeneous shape")
            k = up(*[y.kind for y in xs])
            fs = [(y.reader(), y.kind) for y in xs]

            def g(idx):
                return select([(lambda f=f, k0=k0: conv_elem(f(idx[1:]), k0, k)) for f, k0 in fs], idx[0], k)
            return SymArray((const(len(xs)),) + sh, k, g)
        k = up(*[kind_of(x) for x in xs])
        if k == "O":
            return SymArray((const(len(xs)),), "O", lambda idx: xs[int(idx[0].const())])
        es = [conv_elem(unwrap(x, kind_of(x)), kind_of(x), k) for x in xs]
        return SymArray((const(len(xs)),), k, lambda idx: select([(lambda e=e: e) for e in es], idx[0], k))

    def _stack_seq(self, s):
        v = fresh("st", "i")
        c0 = s.n.const()
        if c0 is not None:
            return self._from_list([s.fn(const(k)) for k in range(int(c0))])
        if not ctx().decide(T.ne(s.n, ZERO)):
            return SymArray((ZERO,), "f", lambda i: ZERO)
        if getattr(s.fn(v), "__symarray__", None) is not None:
            g = s.fn
            ctx().require(band(ge(v, ZERO), lt(v, s.n)))
            kind = g(v).__symkind__()
            s = SymSeq(s.n, lambda i: g(i).__symarray__(kind), s.kind)
        x = s.fn(v)
        if isinstance(x, SymArray):
            if any(is_var(v) in d.fv for d in x._shape):
                raise Unsupported("ragged stack")
            k = x.kind
            f = s.fn
            return SymArray((s.n,) + x._shape, k, lambda idx: f(idx[0]).get(idx[1:]))
        k = kind_of(x)
        if k == "O":
            return SymArray((s.n,), "O", lambda idx: s.fn(idx[0]))
        return SymArray((s.n,), k, lambda idx: conv_elem(unwrap(s.fn(idx[0]), kind_of(s.fn(idx[0]))), kind_of(s.fn(idx[0])), k))

    def _shape(self, s):
        if isinstance(s, (int, Num)):
            return (topoly(s),)
        return tuple(topoly(x) for x in s)

    def zeros(self, shape, dtype=float, **kw): return self.full(shape, 0, dtype)
    def ones(self, shape, dtype=float, **kw): return self.full(shape, 1, dtype)

    def empty(self, shape, dtype=float, **kw):
        k = dkind(dtype)
        _emptyc[0] += 1
        name = "uninit%d" % _emptyc[0]
        if k == "b":
            return SymArray(self._shape(shape), k, lambda i: T.pred(name, i))
        return SymArray(self._shape(shape), k, lambda i: T.app(name, i, {"f": "r", "i": "i", "c": "c"}[k]))

    def empty_like(self, a, dtype=None, **kw):
        a = self._arr(a)
        return self.empty(a._shape, a.dtype if dtype is None else dtype)

    def full(self, shape, v, dtype=None, **kw):
        sh = self._shape(shape)
        if isinstance(v, SymArray) and v.ndim > 0:
            vf, vs = v.reader(), v._shape
            bshape_to(vs, sh)
            k = v.kind if dtype is None else dkind(dtype)
            return SymArray(sh, k, lambda i: conv_elem(vf(bidx(i, vs, sh)), v.kind, k))
        k = kind_of(v) if dtype is None else dkind(dtype)
        e = scalar_elem(v, k)
        return SymArray(sh, k, lambda i: e)

    def zeros_like(self, a, dtype=None, **kw):
        a = self._arr(a)
        return self.full(a._shape, 0, a.dtype if dtype is None else dtype)

    def ones_like(self, a, dtype=None, **kw):
        a = self._arr(a)
        return self.full(a._shape, 1, a.dtype if dtype is None else dtype)

    def full_like(self, a, v, dtype=None, **kw):
        a = self._arr(a)
        return self.full(a._shape, v, a.dtype if dtype is None else dtype)

    def arange(self, *a, dtype=None):
        ps = [topoly(x) for x in a]
        if len(ps) == 1:
            start, stop, step = ZERO, ps[0], ONE
        elif len(ps) == 2:
            start, stop, step = ps[0], ps[1], ONE
        else:
            start, stop, step = ps
        n = -T.floor((start - stop) / step)      # ceil((stop-start)/step)
        if not ctx().decide(ge(n, ZERO)):
            n = ZERO
        k = "i" if all(p.sort == "i" for p in ps) else "f"
        if dtype is not None:
            k = dkind(dtype)
        r = SymArray((n,), k, lambda i: start + step * i[0])
        if step is ONE and k == "i":
            r.member = lambda j: band(ge(j, start), lt(j, start + n))
        return r

    def linspace(self, a, b, num=50, endpoint=True, **kw):
        n = topoly(num)
        if n.sort != "i":
            raise TypeError("object cannot be interpreted as an integer")
        if kw.get("retstep"):
            raise Unsupported("linspace retstep")
        a, b = topoly(a), topoly(b)
        if ctx().decide(lt(n, ZERO)):
            raise ValueError("Number of samples must be non-negative.")
        d = n - 1 if truth(endpoint) else n
        step = (b - a) / d
        return SymArray((n,), "f", lambda i: a + i[0] * step)

    def meshgrid(self, *xs, indexing="xy", **kw):
        xs = [self._arr(x) for x in xs]
        if len(xs) != 2:
            raise Unsupported("meshgrid of %d arrays" % len(xs))
        x, y = xs
        fx, fy = x.reader(), y.reader()
        if indexing == "xy":
            sh = (y._shape[0], x._shape[0])
            return (SymArray(sh, x.kind, lambda i: fx((i[1],))), SymArray(sh, y.kind, lambda i: fy((i[0],))))
        sh = (x._shape[0], y._shape[0])
        return (SymArray(sh, x.kind, lambda i: fx((i[0],))), SymArray(sh, y.kind, lambda i: fy((i[1],))))

    def indices(self, shape, **kw):
        sh = self._shape(shape)
        return tuple(SymArray(sh, "i", lambda i, k=k: i[k]) for k in range(len(sh)))

    def copy(self, a, **kw): return self._arr(a).snapshot()

    # -- elementwise
    def deg2rad(self, x): return ew1(_low(lambda e: e * T.PI / 180, x), x, _fk(x))
    radians = deg2rad
    def rad2deg(self, x): return ew1(_low(lambda e: e * 180 / T.PI, x), x, _fk(x))
    degrees = rad2deg
    def sin(self, x): return ew1(_low(lambda e: T.app("sin", [e]), x), x, _fk(x))
    def cos(self, x): return ew1(_low(lambda e: T.app("cos", [e]), x), x, _fk(x))
    def tan(self, x): return ew1(_low(lambda e: T.app("sin", [e]) / T.app("cos", [e]), x), x, _fk(x))
    def exp(self, x): return ew1(_low(lambda e: T.app("exp", [e]), x), x, _fk(x))
    def arcsin(self, x): return ew1(_low(lambda e: T.app("arcsin", [e]), x), x, _fk(x))
    def square(self, x): return ew1(lambda e: e * e, x)
    def floor(self, x): return ew1(T.floor, x, "f")
    def ceil(self, x): return ew1(lambda e: -T.floor(-e), x, "f")
    def sign(self, x): return ew1(E.psign, x)
    E.psign.exact = True
    def negative(self, x): return ew1(lambda e: -e, x)
    def conj(self, x): return ew1(lambda e: T.app("conj", [e], "c") if e.sort == "c" else e, x)
    conjugate = conj

    def sqrt(self, x):
        k = _fk(x)

        def f(e):
            if k == "c":
                return csqrt(e)
            return T.app("sqrt", [e])
        return ew1(_low(f, x), x, k)

    def abs(self, x):
        def f(e):
            return T.app("abs", [e]) if e.sort == "c" else T.absr(e)
        k = "f" if getattr(x, "kind", None) == "c" else None
        if k == "f":
            return ew1(lambda e: cabs(e), x, "f")
        return ew1(f, x, k, pyf=lambda v: abs(v))

    absolute = abs
    fabs = abs

    def _re(self, e):
        return cre(e)

    def real(self, x):
        if isinstance(x, SymArray) and x.kind == "X":
            r = x.reader()
            return SymArray(x._shape, "X", lambda i: self.ext(r(i).real))
        if isinstance(x, (SymArray, MaskedSel)):
            return ew1(cre, x, "f") if x.kind == "c" else x
        if getattr(x, "_is_ext", False):
            return x.real
        if isinstance(x, (int, float)):
            return x
        return Num(cre(topoly(x)), True)

    def imag(self, x):
        if isinstance(x, SymArray) and x.kind == "X":
            r = x.reader()
            return SymArray(x._shape, "X", lambda i: self.ext(r(i).imag))
        if isinstance(x, (SymArray, MaskedSel)):
            return ew1(cim, x, "f") if x.kind == "c" else ew1(lambda e: ZERO, x)
        if getattr(x, "_is_ext", False):
            return x.imag
        return Num(cim(topoly(x)), True)

    def isinf(self, x):
        return ew1(lambda e: bor(eq(e, T.INF), eq(e, -T.INF)), x, "b", pyf=lambda v: SBool(v.isinf()))

    def isnan(self, x):
        return ew1(lambda e: FALSE, x, "b", pyf=lambda v: SBool(v.isnan()))

    def isfinite(self, x):
        return ew1(lambda e: bnot(bor(eq(e, T.INF), eq(e, -T.INF))), x, "b",
                   pyf=lambda v: SBool(bnot(bor(v.isnan(), v.isinf()))))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        # (numpy makes floating point numbers of b)
        b = ew2("add", 0.0, b)
        d = self.abs(ew2("sub", a, b) if _anyarr(a, b) else Num(topoly(a) - topoly(b)))
        tol = ew2("add", atol, ew2("mul", rtol, self.abs(b)))
        return ew2("le", d, tol)

    def allclose(self, a, b, **kw):
        r = self.isclose(a, b, **kw)
        return r.all() if isinstance(r, SymArray) else r

    def array_equal(self, a, b):
        a, b = self._arr(a), self._arr(b)
        if a.ndim != b.ndim:
            return False
        for x, y in zip(a._shape, b._shape):
            if not same_dim(x, y):
                return False
        return self.all(a == b)

    def result_type(self, *xs):
        ks = [DType(dkind(x)) if not isinstance(x, (SymArray, MaskedSel)) else DType(x.kind) for x in xs]
        k = ks[0]._k
        for o in ks[1:]:
            k = up(k, o._k)
        return DType(k)

    def add(self, a, b, **kw): return _ufunc("add", a, b, kw)
    def subtract(self, a, b, **kw): return _ufunc("sub", a, b, kw)
    def multiply(self, a, b, **kw): return _ufunc("mul", a, b, kw)
    def divide(self, a, b, **kw): return _ufunc("div", a, b, kw)
    true_divide = divide
    def power(self, a, b, **kw): return _ufunc("pow", a, b, kw)
    def mod(self, a, b): return ew2("mod", a, b)
    remainder = mod
    def floor_divide(self, a, b): return ew2("fdiv", a, b)
    def maximum(self, a, b): return ew2("max", a, b)
    def minimum(self, a, b): return ew2("min", a, b)
    fmax = maximum
    fmin = minimum
    def less(self, a, b): return ew2("lt", a, b)
    def less_equal(self, a, b): return ew2("le", a, b)
    def greater(self, a, b): return ew2("gt", a, b)
    def greater_equal(self, a, b): return ew2("ge", a, b)
    def equal(self, a, b): return ew2("eq", a, b)
    def not_equal(self, a, b): return ew2("ne", a, b)
    def logical_and(self, a, b): return ew2("and", _b(a), _b(b))
    def logical_or(self, a, b): return ew2("or", _b(a), _b(b))
    def logical_xor(self, a, b): return ew2("xor", _b(a), _b(b))

    def logical_not(self, a):
        a = _b(a)
        return ~a

    def clip(self, x, a=None, b=None, out=None, min=None, max=None):
        a = min if a is None else a
        b = max if b is None else b
        r = x
        if a is not None:
            r = ew2("max", r, a)
        if b is not None:
            r = ew2("min", r, b)
        if out is not None:
            out[...] = r
            return out
        return r

    def round(self, x, decimals=0):
        if decimals != 0:
            raise Unsupported("round with decimals")
        return ew1(E.pround, x, "f")

    rint = round
    around = round

    def where(self, c, *ab):
        if not ab:
            return self.nonzero(c)
        a, b = ab
        if not isinstance(c, SymArray) and not isinstance(c, (list, tuple)):
            c = self._arr(c)
        fc, sc, kc = operand(c)
        fa, sa, ka = operand(a) if not isinstance(a, str) else ((lambda i: a), (), "O")
        fb, sb, kb = operand(b) if not isinstance(b, str) else ((lambda i: b), (), "O")
        sh = bshape(sc, sa, sb)
        k = up(ka, kb)
        if kc != "b":
            fc0 = fc
            fc = lambda i: T.ne(fc0(i), ZERO)

        def g(i):
            return mix(fc(bidx(i, sc, sh)), conv_elem(fa(bidx(i, sa, sh)), ka, k), conv_elem(fb(bidx(i, sb, sh)), kb, k), k)
        r = SymArray(sh, k, g)
        return wrap(g(()), k) if not sh else r

    _histograms = []

    def histogram(self, a, bins=10, range=None, density=None, weights=None):
        a = self._arr(a)
        if isinstance(bins, (int, Num)) or range is not None or density is not None or weights is not None:
            raise Unsupported("histogram options")
        bins = self._arr(bins)
        if a.ndim != 1 or bins.ndim != 1 or a.kind not in "nif" or bins.kind not in "nif":
            raise Unsupported("histogram of %r in %r" % (a, bins))
        f, e, c = a.reader(), bins.reader(), ctx()
        m, n = topoly(bins._shape[0]) - 1, topoly(a._shape[0])
        j, serial = gfresh("j"), len(self._histograms)
        self._histograms.append(a)
        if not c.entails(T.forall([(j, m)], T.le(e((j,)), e((j + 1,))))):
            raise Unsupported("histogram bins not known to be increasing")

        def count(i):
            k = i[0]

            def inside(v):
                x = f((v,))
                return T.band(T.ge(x, e((k,))), T.bor(T.lt(x, e((k + 1,))), T.band(T.eq(k, m - 1), T.eq(x, e((k + 1,))))))
            if k.const() is None:
                raise Unsupported("histogram element")
            # (how many there are is not specified beyond: at least one, if there is one)
            w = gfresh("w")
            return ite(T.bnot(T.forall([(w, n)], T.bnot(inside(w)))), T.var("count%d_%d" % (serial, int(k.const())), "i", pos=True), ZERO)
        return SymArray((m,), "i", count), bins

    # -- reductions
    def _reduce(self, a, axis, keepdims, red, kind):
        a = self._arr(a)
        axes = axis_norm(axis, a.ndim)
        f = a.reader()
        rest = [k for k in range(a.ndim) if k not in axes]
        sh = tuple(a._shape[k] for k in rest)
        dims = [a._shape[k] for k in axes]

        def g(idx):
            vs = [gfresh("r") for _ in axes]
            full = [None] * a.ndim
            for k, v in zip(axes, vs):
                full[k] = v
            if keepdims:
                for k in rest:
                    full[k] = idx[k]
            else:
                for k, v in zip(rest, idx):
                    full[k] = v
            return red(list(zip(vs, dims)), f(tuple(full)))
        if keepdims:
            sh = tuple(ONE if k in axes else a._shape[k] for k in range(a.ndim))
        if not sh:
            return wrap(g(()), kind)
        return SymArray(sh, kind, g)

    def sum(self, a, axis=None, where=True, keepdims=False, dtype=None, out=None, initial=None):
        a = self._arr(a)
        if a.kind == "O":
            raise Unsupported("sum of object array")
        if where is not True:
            a = self.where(where, a, 0)
            if not isinstance(a, SymArray):
                a = self._arr(a)
        k = "i" if a.kind in "bn" else a.kind
        a = a.astype(k) if a.kind == "b" else a
        r = self._reduce(a, axis, keepdims, T.psum, k)
        if initial is not None:
            r = r + initial
        return r

    def count_nonzero(self, a, axis=None):
        a = self._arr(a)
        if a.kind != "b":
            a = a != 0
        if a.ndim == 1 and axis is None:
            n = ZERO
            for s, e in positions(a):
                n = n + (e - s)
            return dim(n)
        return self.sum(a, axis)

    def mean(self, a, axis=None, keepdims=False, where=True, **kw):
        a = self._arr(a)
        if where is not True:
            raise Unsupported("mean with where")
        axes = axis_norm(axis, a.ndim)
        n = ONE
        for k in axes:
            n = n * a._shape[k]
        s = self.sum(a, axis, keepdims=keepdims)
        return s / (Num(n))

    def average(self, a, axis=None, weights=None, **kw):
        if weights is None:
            return self.mean(a, axis)
        a, w = self._arr(a), self._arr(weights)
        if w.ndim != a.ndim:
            if w.ndim == 1 and axis is not None:
                ax = axis_norm(axis, a.ndim)[0]
                if not same_dim(w._shape[0], a._shape[ax]):
                    raise ValueError("Length of weights not compatible with specified axis.")
                sh = [1] * a.ndim
                sh[ax] = -1
                w = w.reshape(*sh)
            else:
                raise TypeError("Axis must be specified when shapes of a and weights differ.")
        w = self.broadcast_to(w, a.shape)
        # (in the common type, at least that of floating point numbers)
        return self.sum((a.astype("float") if a.kind in "bin" else a) * w, axis) / self.sum(w, axis)

    def _ext(self, a, axis, keepdims, name):
        a = self._arr(a)

        def red(binders, body):
            return extremum(name, binders, body)
        for k in axis_norm(axis, a.ndim):
            if not ctx().decide(gt(a._shape[k], ZERO)):
                raise ValueError("zero-size array to reduction operation which has no identity")
        return self._reduce(a, axis, keepdims, red, a.kind)

    def max(self, a, axis=None, keepdims=False, **kw): return self._ext(a, axis, keepdims, "MAX")
    def min(self, a, axis=None, keepdims=False, **kw): return self._ext(a, axis, keepdims, "MIN")
    amax = max
    amin = min
    def ptp(self, a): return self.max(a) - self.min(a)

    def _arg(self, a, axis, name):
        a = self._arr(a)
        if axis is None and a.ndim != 1:
            raise Unsupported("argmax over flattened array")
        ax = axis_norm(axis if axis is not None else 0, a.ndim)
        if not ctx().decide(gt(a._shape[ax[0]], ZERO)):
            raise ValueError("attempt to get argmax of an empty sequence")
        return self._reduce(a, ax[0], False, lambda bs, body: T.fn(name, [], [(bs, body)], "i"), "i")

    def argmax(self, a, axis=None): return self._arg(a, axis, "ARGMAX")
    def argmin(self, a, axis=None): return self._arg(a, axis, "ARGMIN")

    def all(self, a, axis=None, keepdims=False, **kw):
        a = self._arr(a)
        a = a if a.kind == "b" else (a != 0)
        return self._reduce(a, axis, keepdims, lambda bs, body: T.forall(bs, body), "b")

    def any(self, a, axis=None, keepdims=False, **kw):
        a = self._arr(a)
        a = a if a.kind == "b" else (a != 0)
        return self._reduce(a, axis, keepdims, lambda bs, body: bnot(T.forall(bs, bnot(body))), "b")

    def nonzero(self, a):
        a = self._arr(a)
        if a.ndim != 1:
            raise Unsupported("nonzero of nd array")
        a = a if a.kind == "b" else (a != 0)
        return (positions_array(a),)

    def flatnonzero(self, a): return self.nonzero(a)[0]

    def argwhere(self, a):
        p = self.nonzero(a)[0]
        f = p.reader()
        r = SymArray((p._shape[0], ONE), "i", lambda i: f((i[0],)))
        return r

    def unique(self, a, **kw):
        if kw:
            raise Unsupported("unique with options")
        return UniqueArr(self._arr(a).snapshot())

    # -- shape manipulation
    def diff(self, a, n=1, axis=-1):
        a = self._arr(a)
        if n != 1:
            raise Unsupported("diff order")
        ax = axis_norm(axis, a.ndim)[0]
        s1 = tuple([slice(None)] * ax + [slice(1, None)])
        s0 = tuple([slice(None)] * ax + [slice(None, -1)])
        return a[s1] - a[s0]

    def roll(self, a, shift, axis=None):
        a = self._arr(a)
        if isinstance(shift, SymArray):
            shift = shift.item()
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("roll of flattened array")
            axis = 0
        if isinstance(axis, tuple) or isinstance(shift, tuple):
            if isinstance(axis, tuple) and len(axis) == 1:
                axis = axis[0]
                shift = shift[0] if isinstance(shift, tuple) else shift
            else:
                raise Unsupported("roll over several axes")
        ax = axis_norm(axis, a.ndim)[0]
        n = a._shape[ax]
        s = topoly(shift)
        c = ctx()
        f = a.reader()
        if s is ZERO:
            mp = lambda k: k
        elif c.decide(ge(s, ZERO)):
            if c.decide(le(s, n)):
                mp = lambda k: ite(lt(k, s), k - s + n, k - s)
            else:
                mp = lambda k: E.pmod(k - s, n)
        elif c.decide(ge(s, -n)):
            mp = lambda k: ite(lt(k - s, n), k - s, k - s - n)
        else:
            mp = lambda k: E.pmod(k - s, n)
        out = SymArray(a._shape, a.kind, lambda i: f(i[:ax] + (mp(i[ax]),) + i[ax + 1:]))
        out.member = a.member
        return out

    def flip(self, a, axis=None):
        a = self._arr(a)
        for ax in axis_norm(axis, a.ndim):
            a = a[tuple([slice(None)] * ax + [slice(None, None, -1)])]
        return a

    def flipud(self, a): return self.flip(a, 0)
    def fliplr(self, a): return self.flip(a, 1)

    def repeat(self, a, n, axis=None):
        a = self._arr(a)
        n = topoly(n)
        if axis is None:
            if a.ndim != 1:
                a = a.reshape(-1)
            f = a.reader()
            r = SymArray((a._shape[0] * n,), a.kind, lambda i: f((T.floor(i[0] / n),)))
            r.meta = ("repeat", f, n)
            return r
        ax = axis_norm(axis, a.ndim)[0]
        f = a.reader()
        if a._shape[ax] is ONE:
            return SymArray(a._shape[:ax] + (n,) + a._shape[ax + 1:], a.kind,
                            lambda i: f(i[:ax] + (ZERO,) + i[ax + 1:]))
        return SymArray(a._shape[:ax] + (a._shape[ax] * n,) + a._shape[ax + 1:], a.kind,
                        lambda i: f(i[:ax] + (T.floor(i[ax] / n),) + i[ax + 1:]))

    def tile(self, a, reps):
        a = self._arr(a)
        f = a.reader()
        if not isinstance(reps, tuple):
            reps = (reps,)
        reps = [topoly(r) for r in reps]
        sh = list(a._shape)
        while len(sh) < len(reps):
            sh.insert(0, ONE)
        while len(reps) < len(sh):
            reps.insert(0, ONE)
        nd = a.ndim

        def g(i):
            idx = []
            for k in range(len(sh)):
                if reps[k] is ONE:
                    idx.append(i[k])
                elif sh[k] is ONE:
                    idx.append(ZERO)
                else:
                    idx.append(i[k] - sh[k] * T.floor(i[k] / sh[k]))
            return f(tuple(idx[len(sh) - nd:]))
        r = SymArray([s * q for s, q in zip(sh, reps)], a.kind, g)
        if nd == 1 and len(sh) == 1:
            r.meta = ("tile", f, sh[0])
        return r

    def broadcast_to(self, a, shape):
        a = self._arr(a)
        sh = self._shape(shape)
        bshape_to(a._shape, sh)
        f, s = a.reader(), a._shape
        r = SymArray(sh, a.kind, lambda i: f(bidx(i, s, sh)))
        r.meta = "readonly"
        return r

    def broadcast_shapes(self, *shapes):
        return self.zeros(bshape(*[self._shape(s) for s in shapes])).shape

    def broadcast(self, *xs):
        return self.zeros(bshape(*[self._arr(x)._shape for x in xs]))

    def broadcast_arrays(self, *xs):
        xs = [self._arr(x) for x in xs]
        sh = bshape(*[x._shape for x in xs])
        return [self.broadcast_to(x, sh) for x in xs]

    def concatenate(self, xs, axis=0):
        xs = [self._arr(x) for x in xs]
        ax = axis_norm(axis, xs[0].ndim)[0]
        for x in xs[1:]:
            if x.ndim != xs[0].ndim:
                raise ValueError("all the input array dimensions must match")
            for k in range(x.ndim):
                if k != ax and not same_dim(x._shape[k], xs[0]._shape[k]):
                    raise ValueError("all the input array dimensions must match exactly")
        k0 = up(*[x.kind for x in xs])
        offs = []
        tot = ZERO
        for x in xs:
            offs.append(tot)
            tot = tot + x._shape[ax]
        fs = [(x.reader(), x.kind) for x in xs]

        def g(i):
            r = None
            for q in reversed(range(len(xs))):
                f, kk = fs[q]
                if r is None:
                    r = conv_elem(f(i[:ax] + (i[ax] - offs[q],) + i[ax + 1:]), kk, k0)
                else:
                    cnd = lt(i[ax], offs[q + 1])
                    if cnd is FALSE:
                        continue
                    r = mix(cnd, conv_elem(f(i[:ax] + (i[ax] - offs[q],) + i[ax + 1:]), kk, k0), r, k0)
            return r
        sh = xs[0]._shape[:ax] + (tot,) + xs[0]._shape[ax + 1:]
        return SymArray(sh, k0, g)

    def hstack(self, xs): 
        xs = [self._arr(x) for x in xs]
        return self.concatenate(xs, 0 if xs[0].ndim == 1 else 1)

    def vstack(self, xs):
        xs = [self._arr(x) for x in xs]
        return self.concatenate([x if x.ndim > 1 else x[None, :] for x in xs], 0)

    def append(self, a, b, axis=None):
        return self.concatenate([a, self._arr(b) if self._arr(b).ndim else self._arr(b)[None]], axis or 0)

    def stack(self, xs, axis=0):
        if isinstance(xs, SymArray) and xs.kind == "O":
            # object array of (equally shaped) arrays
            if axis != 0 or xs.ndim != 1:
                raise Unsupported("stack of object array")
            f = xs.reader()
            if not ctx().decide(gt(xs._shape[0], ZERO)):
                raise ValueError("need at least one array to stack")
            v = fresh("st", "i")
            x = f((v,))
            if not isinstance(x, SymArray):
                raise Unsupported("stack of objects")
            k = x.kind
            return SymArray((xs._shape[0],) + x._shape, k, lambda idx: f((idx[0],)).get(idx[1:]))
        if isinstance(xs, SymSeq):
            c = xs.n.const()
            if c is None:
                if not ctx().decide(gt(xs.n, ZERO)):
                    raise ValueError("need at least one array to stack")
                r = self._stack_seq(xs)
                return r if axis == 0 else self.moveaxis(r, 0, axis)
            xs = [xs.fn(const(k)) for k in range(int(c))]
        if isinstance(xs, LOOPLIKE):
            raise Unsupported("stack inside loop")
        if not len(xs):
            raise ValueError("need at least one array to stack")
        r = self._from_list([self._arr(x) for x in xs])
        return r if axis == 0 else self.moveaxis(r, 0, axis)

    def moveaxis(self, a, s, d):
        nd = a.ndim
        order = [k for k in range(nd) if k != s % nd]
        order.insert(d % nd, s % nd)
        return a.transpose(order)

    def transpose(self, a, axes=None):
        return self._arr(a).transpose(*(axes or ()))

    def expand_dims(self, a, axis):
        a = self._arr(a)
        return a._view_new(axis if axis >= 0 else axis + a.ndim + 1)

    def squeeze(self, a, axis=None): return self._arr(a).squeeze(axis)
    def ravel(self, a): return self._arr(a).reshape(-1)
    def reshape(self, a, s): return self._arr(a).reshape(s)
    def shape(self, a): return self._arr(a).shape
    def ndim(self, a): return self._arr(a).ndim
    def size(self, a): return self._arr(a).size
    def isscalar(self, x): return not isinstance(x, (SymArray, MaskedSel)) and kind_of(x) != "O"
    def atleast_1d(self, a):
        a = self._arr(a)
        return a if a.ndim else a.reshape(1)

    def take(self, a, idx, axis=None):
        a = self._arr(a)
        ax = 0 if axis is None else axis_norm(axis, a.ndim)[0]
        return a[tuple([slice(None)] * ax + [idx])]

    def pad(self, a, pad_width, mode="constant", constant_values=0, **kw):
        a = self._arr(a)
        if mode == "wrap" or mode in ("edge", "reflect", "symmetric"):
            pw = _padspec(pad_width, a.ndim)
            f = a.reader()
            mp = []
            for k in range(a.ndim):
                lo, hi = pw[k]
                n = a._shape[k]
                if lo is ZERO and hi is ZERO:
                    mp.append(lambda i: i)
                elif mode == "wrap":
                    mp.append(lambda i, lo=lo, n=n: E.pmod(i - lo, n))
                elif mode == "edge":
                    mp.append(lambda i, lo=lo, n=n: T.pmin(T.pmax(i - lo, ZERO), n - 1))
                else:
                    raise Unsupported("pad mode " + mode)
            sh = tuple(d + pw[k][0] + pw[k][1] for k, d in enumerate(a._shape))
            return SymArray(sh, a.kind, lambda i: f(tuple(m(x) for m, x in zip(mp, i))))
        if mode != "constant":
            raise Unsupported("pad mode")
        pw = _padspec(pad_width, a.ndim)
        cv = _padspec(constant_values, a.ndim)
        f = a.reader()
        k0 = a.kind
        sh = tuple(d + pw[k][0] + pw[k][1] for k, d in enumerate(a._shape))

        def g(i):
            r = f(tuple(i[k] - pw[k][0] for k in range(a.ndim)))
            # numpy fills axis by axis: later axes override
            for k in range(a.ndim):
                lo, hi = pw[k]
                if lo is not ZERO:
                    r = mix(lt(i[k], lo), conv_elem(cv[k][0], "f", k0), r, k0)
                if hi is not ZERO:
                    r = mix(ge(i[k], a._shape[k] + lo), conv_elem(cv[k][1], "f", k0), r, k0)
            return r
        return SymArray(sh, a.kind, g)

    def ix_(self, *xs):
        out = []
        nd = len(xs)
        for k, x in enumerate(xs):
            x = self._arr(x)
            if x.kind == "b":
                x = positions_array(x)
            f = x.reader()
            a = SymArray([ONE] * k + [x._shape[0]] + [ONE] * (nd - k - 1), x.kind, lambda i, f=f, k=k: f((i[k],)))
            a.meta = x
            out.append(a)
        return IxTuple(out)

    # -- functions as array operators
    def vectorize(self, f, **kw):
        def call(*xs):
            if not any(isinstance(x, (SymArray, MaskedSel, list, tuple, SymSeq)) for x in xs):
                return self._arr(f(*xs)) if False else f(*xs)
            return _elementwise_call(f, xs, None)
        return call

    def frompyfunc(self, f, nin, nout):
        def call(*xs):
            return _elementwise_call(f, xs, "O")
        return call

    def apply_along_axis(self, f, axis, a, *args, **kw):
        a = self._arr(a)
        ax = axis_norm(axis, a.ndim)[0]
        if a.ndim == 1:
            return f(a, *args, **kw)
        rest = [k for k in range(a.ndim) if k != ax]
        s = a.snapshot()

        def line(idx):
            v = s
            for k in reversed(rest):
                v = v._view_fix(k, idx[rest.index(k)])
            return v
        vs = [fresh("al", "i") for _ in rest]
        r = generic_eval(list(zip(vs, [a._shape[k] for k in rest])), lambda: f(line(tuple(vs)), *args, **kw))
        if not isinstance(r, SymArray):
            k = kind_of(r)
            return SymArray([a._shape[k2] for k2 in rest], k,
                            lambda i: subst(topoly(r), {is_var(v): x for v, x in zip(vs, i)}))
        if r.ndim != 1:
            raise Unsupported("apply_along_axis with nd result")
        sh = list(a._shape)
        sh[ax] = r._shape[0]
        rd = r.reader()

        def g(i):
            z = gfresh("aa")
            e = rd((z,))
            return subst(e, {**{is_var(v): i[k] for v, k in zip(vs, rest)}, is_var(z): i[ax]})
        return SymArray(sh, r.kind, g)

    def interp(self, x, xp, fp, **kw):
        if kw:
            raise Unsupported("interp options")
        xp, fp = self._arr(xp), self._arr(fp)
        if xp.ndim != 1 or fp.ndim != 1:
            raise ValueError("object too deep for desired array")
        if not same_dim(xp._shape[0], fp._shape[0]):
            raise ValueError("fp and xp are not of the same length.")
        n = xp._shape[0]
        fx, ff = xp.reader(), fp.reader()

        def f(e):
            v, w = gfresh("i"), gfresh("i")
            return np_interp(e, [(v, n)], fx((v,)), [(w, n)], ff((w,)))
        return ew1(f, x, "f")

    def ext(self, v):
        from .ext import Ext
        return Ext.of(v)

    class _Errstate:
        def __init__(self, **kw): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
    errstate = _Errstate

    def seterr(self, **kw): return {}


    def dot(self, a, b):
        a, b = self._arr(a), self._arr(b)
        if a.ndim == 1 and b.ndim == 1:
            return self.sum(a * b)
        if a.ndim == 2 and b.ndim == 1:
            return self.sum(a * b[None, :], axis=1)
        if a.ndim == 1 and b.ndim == 2:
            return self.sum(a[:, None] * b, axis=0)
        raise Unsupported("matrix product")

    def trapz(self, *a, **k): raise Unsupported("trapz")

    def trapezoid(self, y, x=None, dx=1.0, axis=-1):
        y = self._arr(y)
        ax = axis_norm(axis, y.ndim)[0]
        cut = lambda a, q, ax: a[tuple([slice(None)] * ax + [slice(1, None) if q else slice(None, -1)])]
        if x is not None:
            x = self._arr(x)
            d = self.diff(x, axis=0 if x.ndim == 1 else ax)
            dx = d.reshape(*[d.size if k == ax else 1 for k in range(y.ndim)]) if x.ndim == 1 and y.ndim > 1 else d
        return self.sum(dx * (cut(y, 1, ax) + cut(y, 0, ax)) / 2.0, axis=ax)

    def outer(self, a, b):
        return self.ravel(a)[:, None] * self.ravel(b)[None, :]

    def column_stack(self, xs):
        xs = [self._arr(x) for x in _items(xs)]
        return self.concatenate([x[:, None] if x.ndim == 1 else x for x in xs], 1)

    def inner(self, a, b):
        a, b = self._arr(a), self._arr(b)
        if a.ndim == 1 and b.ndim == 1:
            return self.dot(a, b)
        raise Unsupported("inner product of %d and %d dimensions" % (a.ndim, b.ndim))

    vdot = inner

    def matmul(self, a, b):
        a, b = self._arr(a), self._arr(b)
        if a.ndim == 2 and b.ndim == 2:
            return self.sum(a[:, :, None] * b[None, :, :], axis=1)
        return self.dot(a, b)

    def einsum(self, spec, *xs):
        if not isinstance(spec, str) or spec.count("->") != 1 or "." in spec:
            raise Unsupported("einsum %r" % (spec,))
        ins, out = spec.replace(" ", "").split("->")
        ins = ins.split(",")
        xs = [self._arr(x) for x in xs]
        if len(ins) != len(xs) or any(len(set(q)) != len(q) or len(q) != x.ndim for q, x in zip(ins, xs)):
            raise Unsupported("einsum %r" % (spec,))
        letters = list(out) + [q for q in dict.fromkeys("".join(ins)) if q not in out]
        r = None
        for q, x in zip(ins, xs):
            x = x.transpose(*[q.index(l) for l in letters if l in q])
            x = x[tuple(slice(None) if l in q else None for l in letters)]
            r = x if r is None else r * x
        axes = tuple(range(len(out), len(letters)))
        return self.sum(r, axis=axes) if axes else r

    def swapaxes(self, a, p, q):
        a = self._arr(a)
        o = list(range(a.ndim))
        o[p], o[q] = o[q], o[p]
        return a.transpose(*o)

    def atleast_2d(self, a):
        a = self.atleast_1d(a)
        return a if a.ndim > 1 else a[None, :]

    def ediff1d(self, a): return self.diff(self.ravel(a))
    def positive(self, a): return self._arr(a).snapshot() if isinstance(a, SymArray) else +a
    def reciprocal(self, a): return ew2("div", 1.0, a)
    def hypot(self, a, b): return self.sqrt(ew2("add", ew2("mul", a, a), ew2("mul", b, b)))
    def iscomplexobj(self, a): return kind_of(a) == "c" if not isinstance(a, SymArray) else a.kind == "c"
    def isrealobj(self, a): return not self.iscomplexobj(a)

    def insert(self, a, k, v, axis=None):
        a = self._arr(a)
        if a.ndim != 1 and axis is None or isinstance(k, (SymArray, list, tuple, slice)):
            raise Unsupported("insert")
        ax = axis_norm(axis or 0, a.ndim)[0]
        cut = lambda q: a[tuple([slice(None)] * ax + [q])]
        v = self._arr(v)
        v = self.broadcast_to(v, tuple(1 if q == ax else n for q, n in enumerate(a.shape))).astype(DType(a.kind))
        return self.concatenate([cut(slice(None, k)), v, cut(slice(k, None))], ax)

    def delete(self, a, k, axis=None):
        a = self._arr(a)
        if a.ndim != 1 and axis is None or not isinstance(k, (int, Num)) or isinstance(k, bool):
            raise Unsupported("delete")
        ax = axis_norm(axis or 0, a.ndim)[0]
        cut = lambda q: a[tuple([slice(None)] * ax + [q])]
        n = Num(a._shape[ax])
        if ctx().decide(lt(topoly(k), ZERO)):
            k = k + n
        if not ctx().decide(band(ge(topoly(k), ZERO), lt(topoly(k), topoly(n)))):
            raise IndexError("index out of bounds")
        return self.concatenate([cut(slice(None, k)), cut(slice(k + 1, None))], ax)

    def select(self, conds, xs, default=0):
        conds, xs = _items(conds), _items(xs)
        r = default
        for q, x in reversed(list(zip(conds, xs))):
            r = self.where(q, x, r)
        return r

    def piecewise(self, x, conds, fs):
        raise Unsupported("piecewise")

    def take_along_axis(self, a, idx, axis=-1):
        a, idx = self._arr(a), self._arr(idx)
        ax = axis_norm(axis, a.ndim)[0]
        if idx.ndim != a.ndim:
            raise ValueError("`indices` and `arr` must have the same number of dimensions")
        q = [self.arange(n).reshape(*[-1 if k == d else 1 for k in range(a.ndim)]) for d, n in enumerate(a.shape)]
        q[ax] = idx
        return a[tuple(q)]

    def isin(self, a, b, **kw):
        if kw:
            raise Unsupported("isin with options")
        b = self._arr(b)
        f, s = b.snapshot().reader(), b._shape

        def test(e):
            vs = [gfresh("u") for _ in s]
            return bnot(T.forall(list(zip(vs, s)), bnot(eq(f(tuple(vs)), e))))
        return ew1(test, self._arr(a), "b")

    def putmask(self, a, mask, v): a[mask] = v if not isinstance(v, SymArray) else v[mask]
    def compress(self, m, a, axis=None):
        a = self._arr(a)
        ax = axis_norm(axis or 0, a.ndim)[0]
        if axis is None and a.ndim != 1:
            raise Unsupported("compress of a flattened array")
        return a[tuple([slice(None)] * ax + [m])]

    def extract(self, m, a): return self._arr(a)[m]

    class _Abstract:
        def __init__(self, *kinds): self.kinds = kinds
        def __vinstance__(self, x):
            return isinstance(x, Num) and bool(x.np_scalar) and {"i": "i", "r": "f", "c": "c"}[x.p.sort] in self.kinds
    number = _Abstract("i", "u", "f", "c")
    inexact = _Abstract("f", "c")
    signedinteger = _Abstract("i")
    unsignedinteger = _Abstract("u")
    generic = _Abstract("b", "i", "u", "f", "c", "O")

    def issubdtype(self, a, b):
        k = dkind(a)
        if k == "X":
            k = "f"
        visible = DType(k).kind
        if isinstance(b, _NP._Abstract):
            return visible in b.kinds
        if b is _NP.integer or b is int:
            return k in ("i", "n") if b is _NP.integer else k == "i"
        return k == dkind(b)

    class _S:
        def __getitem__(self, i): return i
    s_ = index_exp = _S()

    class _R:
        def __getitem__(self, xs):
            xs = xs if isinstance(xs, tuple) else (xs,)
            if any(isinstance(x, (slice, str)) for x in xs):
                raise Unsupported("r_ with slices")
            xs = [NP._arr(x) for x in xs]
            if any(x.ndim > 1 for x in xs):
                raise Unsupported("r_ of several dimensions")
            return NP.concatenate([NP.atleast_1d(x) for x in xs])
    r_ = _R()

    def cumsum(self, a, axis=None):
        a = self._arr(a)
        ax = axis_norm(axis if axis is not None else 0, a.ndim)[0]
        f = a.reader()

        def g(i):
            v = gfresh("cs")
            return T.psum([(v, i[ax] + 1)], f(i[:ax] + (v,) + i[ax + 1:]))
        return SymArray(a._shape, "i" if a.kind == "n" else a.kind, g)


_emptyc = [0]
LOOPLIKE = (E.LoopList,)
NP = _NP()


class _NdarrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, MaskedSel))


class NdArray(metaclass=_NdarrayMeta):
    def __new__(cls, *a, **k):
        raise Unsupported("np.ndarray constructor")


_NP.ndarray = NdArray
_NP.generic = DType("f")


class UniqueArr:
    """np.unique(a): only membership queries, min and max are supported"""

    def __init__(self, a):
        self.a = a

    def __symset__(self):
        return self

    def __symcontains__(self, x):
        f = self.a.reader()
        vs = [gfresh("u") for _ in self.a._shape]
        return SBool(bnot(T.forall(list(zip(vs, self.a._shape)), bnot(eq(f(tuple(vs)), topoly(x))))))

    def __symmax__(self): return NP.max(self.a)
    def __symmin__(self): return NP.min(self.a)
    def max(self): return NP.max(self.a)
    def min(self): return NP.min(self.a)
    def tolist(self): return self


def _padspec(p, nd):
    if isinstance(p, (int, float, Num)):
        return [(topoly(p), topoly(p))] * nd
    p = list(p)
    if all(not isinstance(x, (tuple, list)) for x in p):
        if len(p) == 1:
            return [(topoly(p[0]),) * 2] * nd
        if len(p) != 2:
            raise ValueError("operands could not be broadcast together")
        return [(topoly(p[0]), topoly(p[1]))] * nd
    if len(p) == 1:
        p = p * nd
    if len(p) != nd:
        raise ValueError("operands could not be broadcast together")
    return [((topoly(x[0]), topoly(x[1])) if len(x) > 1 else (topoly(x[0]),) * 2) for x in p]


def _elementwise_call(f, xs, kind):
    ops = []
    for x in xs:
        if isinstance(x, (list, tuple, MaskedSel, SymSeq)):
            x = NP._arr(x)
        ops.append(operand(x))
    sh = bshape(*[o[1] for o in ops])
    vs = tuple(fresh("vz", "i") for _ in sh)
    binders = list(zip(vs, sh))

    def call():
        return f(*[wrap(o[0](bidx(vs, o[1], sh)), o[2]) for o in ops])
    r = generic_eval(binders, call) if binders else call()
    k = kind or kind_of(r)
    if not sh:
        return r
    mp0 = [is_var(v) for v in vs]

    def g(i):
        y = E.subst_obj(r, dict(zip(mp0, i)))
        return y if k == "O" else unwrap(y, k)
    return SymArray(sh, k, g)


def _low(f, x):
    """functions of small integers have results of low precision (float16 for int8, ...)"""
    if kind_of(x) != "n" and getattr(x, "kind", None) != "n":
        return f
    return lambda e: T.app("LOWPRECISION", [f(e)])


def _fk(x):
    k = getattr(x, "kind", None)
    if k is None:
        if isinstance(x, Num) and x.p.sort == "c":
            return "c"
        return None if not isinstance(x, (SymArray, MaskedSel, list, tuple)) else "f"
    if k in "fc":
        return k
    return "f"


def _b(a):
    if isinstance(a, SymArray) and a.kind != "b":
        return a != 0
    return a


def _anyarr(*xs):
    return any(isinstance(x, (SymArray, MaskedSel, list, tuple)) for x in xs)


def _ufunc(op, a, b, kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    if kw:
        raise Unsupported("ufunc options")
    r = ew2(op, a, b)
    if out is None and where is True:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        raise Unsupported("ufunc where without out")
    if where is True:
        out[...] = r
    else:
        out[...] = NP.where(where, r, out.snapshot())
    return out


def select(thunks, i, kind):
    c = i.const()
    if c is not None:
        return thunks[int(c)]()
    r = thunks[-1]()
    for q in reversed(range(len(thunks) - 1)):
        r = mix(eq(i, const(q)), thunks[q](), r, kind)
    return r


def extremum(name, binders, body):
    """MAX / MIN functional over index ranges; constant bodies collapse"""
    vs = {is_var(v) for v, _ in binders}
    if not (body.fv & vs):
        return body
    return T.fn(name, [], [(list(binders), body)])


# -- complex helpers -----------------------------------------------------------------------------
def cre(e):
    a = T.single_atom(e)
    if e.sort != "c":
        return e
    return _clin(e, "re")


def cim(e):
    if e.sort != "c":
        return ZERO
    return _clin(e, "im")


def _clin(e, part):
    """real/imaginary part, linear over real coefficients"""
    r = ZERO
    for m, c in e.t.items():
        cplx = tuple((a, x) for a, x in m if a.sort == "c")
        real = tuple((a, x) for a, x in m if a.sort != "c")
        rp = T._poly({real: c})
        if not cplx:
            if part == "re":
                r = r + rp
            continue
        p = T._poly({cplx: Fraction(1)})
        a = T.single_atom(p)
        if a is not None and a.kind == "app" and a.data[0] == "csqrt":
            x = a.data[1][0]
            if part == "re":
                v = ite(ge(x, ZERO), T.app("sqrt", [x]), ZERO)
            else:
                v = ite(ge(x, ZERO), ZERO, T.app("sqrt", [-x]))
            r = r + rp * v
            continue
        if a is not None and a.kind == "ite":
            cnd, x, y = a.data
            r = r + rp * ite(cnd, _clin(x, part) if x.sort == "c" else (x if part == "re" else ZERO),
                             _clin(y, part) if y.sort == "c" else (y if part == "re" else ZERO))
            continue
        r = r + rp * T.app(part, [p])
    return r


T.CABS_SQUARE[:] = [lambda z: cre(z) * cre(z) + cim(z) * cim(z)]


def csqrt(e):
    if e.sort != "c":
        return T.app("csqrt", [e], "c")
    return T.app("csqrt", [e], "c")


def cabs(e):
    if e.sort != "c":
        return T.absr(e)
    return T.app("abs", [e])
