"""Symbolic numpy arrays: structured axes of symbolic length, lazy elements, storage with views."""
import math
from fractions import Fraction
from . import terms as T
from .terms import Poly
from .ctx import CTX, INF, NAN, Unsupported, Infeasible
from .solve import NEG, ZER, POS
from . import values as V

# ---------------------------------------------------------------- axes


class Axis(object):
    concrete = False
    root_depth = 0

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, Axis) and self.key == o.key)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return str(self.key)


class CAxis(Axis):
    concrete = True

    def __init__(self, n):
        self.n = n
        self.key = ("C", n)

    def size(self):
        return T.const(self.n)

    def generic(self):
        return CTX.choose(self.n)

    def pos(self, a):
        return T.const(a)

    def resolve(self, p):
        if p.is_const():
            c = p.const()
            if c.denominator != 1:
                raise IndexError("non-integer index")
            c = int(c)
            if c < 0:
                c += self.n
            if not 0 <= c < self.n:
                raise IndexError("index out of bounds")
            return c
        for k in range(self.n):
            if CTX.decide(p - T.const(k), ZER):
                return k
        for k in range(1, self.n + 1):
            if CTX.decide(p + T.const(k), ZER):
                return self.n - k
        raise IndexError("index out of bounds")


class BAxis(Axis):
    """Symbolic length; addresses are index terms."""
    def __init__(self, size):
        self._size = size
        self.key = ("B", size)

    def size(self):
        return self._size

    def generic(self):
        if not CTX.possible(CTX.canon(self._size)[1]) & POS:
            raise Infeasible()
        k, q = CTX.canon(self._size - T.ONE)
        if q.is_zero() or not (q.is_const() or CTX.possible(q) & (NEG | POS)):
            i = T.ZERO          # the only one
        else:
            i = CTX.fresh("i", "I")
        CTX.assume_sign(i, POS | ZER)
        CTX.assume_sign(self._size - i - T.ONE, POS | ZER)
        instantiate(self, i)
        return i

    def pos(self, a):
        return a

    def resolve(self, p):
        if CTX.decide(p, NEG):
            p = p + self._size
            if CTX.decide(p, NEG):
                raise IndexError("index out of bounds")
        if not CTX.decide(self._size - p - T.ONE, POS | ZER):
            raise IndexError("index out of bounds")
        return p


_posmap = {}


def posfun(axis, addr):
    f = "pos%d" % axis_id(axis)
    args, tag = flat(addr)
    p = T.app(f + tag, args, "I")
    _posmap[(axis, p)] = addr
    return p


_axis_ids = {}


def axis_id(axis):
    if axis not in _axis_ids:
        _axis_ids[axis] = len(_axis_ids)
    return _axis_ids[axis]


def flat(addr):
    if isinstance(addr, int):
        return [T.const(addr)], ""
    if isinstance(addr, Poly):
        return [addr], ""
    out, tag = [], ""
    for x in addr[1:]:
        if addr[0] == "c" and x is addr[1]:
            tag += "_%d" % x
            continue
        a, t = flat(x)
        out += a
        tag += t
    return out, tag


class SubAxis(Axis):
    """The addresses of `parent` at which a boolean array holds, in order."""
    def __init__(self, parent, mask):
        # mask: Snap over (parent,)
        self.parent = parent
        self.mask = mask
        self.key = ("S", parent.key, mask.key)
        self.root_depth = parent.root_depth + 1

    def size(self):
        n = T.app("len%d" % axis_id(self), [], "I")
        CTX.assume_sign(n, POS | ZER)
        return n

    def member(self, addr):
        if isinstance(self.parent, SubAxis) and not self.parent.member(addr):
            return False
        return V.truth(self.mask.at((addr,)))

    def root(self):
        p = self.parent
        while isinstance(p, SubAxis):
            p = p.parent
        return p

    def generic(self):
        a = self.parent.generic()
        if not V.truth(self.mask.at((a,))):
            raise Infeasible()
        CTX.assume_sign(self.size(), POS)
        instantiate(self, a)
        return a

    def pos(self, a):
        p = posfun(self, a)
        CTX.assume_sign(p, POS | ZER)
        CTX.assume_sign(self.size() - p - T.ONE, POS | ZER)
        return p

    def resolve(self, p):
        a = _posmap.get((self, p))
        if a is not None:
            return a
        raise Unsupported("position lookup in a selected axis")


class CatAxis(Axis):
    def __init__(self, parts):
        self.parts = tuple(parts)
        self.key = ("A",) + tuple(p.key for p in parts)

    def size(self):
        s = T.ZERO
        for p in self.parts:
            s = s + p.size()
        return s

    def generic(self):
        k = CTX.choose(len(self.parts))
        a = ("c", k, self.parts[k].generic())
        instantiate(self, a)
        return a

    def pos(self, a):
        off = T.ZERO
        for p in self.parts[:a[1]]:
            off = off + p.size()
        p = off + self.parts[a[1]].pos(a[2])
        _posmap[(self, p)] = a
        return p

    def resolve(self, p):
        a = _posmap.get((self, p))
        if a is not None:
            return a
        if CTX.decide(p, NEG):
            p = p + self.size()
        off = T.ZERO
        for k, part in enumerate(self.parts):
            if CTX.decide(off + part.size() - p - T.ONE, POS | ZER):
                return ("c", k, part.resolve(p - off))
            off = off + part.size()
        raise IndexError("index out of bounds")


class ProdAxis(Axis):
    """Row-major flattening of two axes."""
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.key = ("P", a.key, b.key)

    def size(self):
        return self.a.size() * self.b.size()

    def generic(self):
        a = ("p", self.a.generic(), self.b.generic())
        instantiate(self, a)
        return a

    def pos(self, a):
        p = self.a.pos(a[1]) * self.b.size() + self.b.pos(a[2])
        _posmap[(self, p)] = a
        return p

    def resolve(self, p):
        a = _posmap.get((self, p))
        if a is not None:
            return a
        raise Unsupported("position lookup in a flattened axis")


def instantiate(axis, addr):
    CTX.addrs.append((axis, addr))
    for ax, fn in list(CTX.universals):
        if ax == axis:
            fn(addr)


def axis_of_size(n):
    """Axis for a dimension argument (int or SArr)."""
    if isinstance(n, SArr):
        if n.dim is not None:
            return n.dim
        n = n.item()
    if isinstance(n, bool):
        n = int(n)
    if isinstance(n, int):
        if n < 0:
            raise ValueError("negative dimensions are not allowed")
        return CAxis(n)
    if isinstance(n, float):
        if n == int(n):
            return CAxis(int(n))
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(n, Poly):
        if n.is_const():
            return axis_of_size(int(n.const()))
        return BAxis(n)
    raise Unsupported("dimension %r" % (n,))


_equiv = {}


def axis_equiv(x, y):
    """Do two axes have the same addresses in the same order (proved)?"""
    if x == y:
        return True
    if isinstance(x, CAxis) and isinstance(y, CAxis):
        return x.n == y.n
    if isinstance(x, CatAxis) and isinstance(y, CatAxis):
        if len(x.parts) == len(y.parts):
            return all(axis_equiv(a, b) for a, b in zip(x.parts, y.parts))
        return False
    if isinstance(x, ProdAxis) and isinstance(y, ProdAxis):
        return axis_equiv(x.a, y.a) and axis_equiv(x.b, y.b)
    if isinstance(x, BAxis) and isinstance(y, BAxis):
        return CTX.canon(x.size() - y.size())[1].is_zero() or \
            not CTX.possible(CTX.canon(x.size() - y.size())[1]) & (NEG | POS)
    for a, b in ((x, y), (y, x)):
        if isinstance(a, CAxis) and a.n == 0 and isinstance(b, (SubAxis, CatAxis)):
            def none():
                b.generic()
                return False
            return all(CTX.explore(none))
    if isinstance(x, SubAxis) or isinstance(y, SubAxis):
        rx = x.root() if isinstance(x, SubAxis) else x
        ry = y.root() if isinstance(y, SubAxis) else y
        if not axis_equiv(rx, ry):
            return False

        def mem(ax, a):
            return ax.member(a) if isinstance(ax, SubAxis) else True

        def body():
            a = rx.generic()
            return mem(x, a) == mem(y, a)
        res = CTX.explore(body)
        return all(res)
    for a, b in ((x, y), (y, x)):
        if isinstance(a, CAxis) and a.n == 0 and isinstance(b, BAxis):
            return not CTX.possible(CTX.canon(b.size())[1]) & (NEG | POS)
    return False


def leaves(ax):
    """The runs of plain axes an axis is made of: (plain axis, plain address -> address, plain address -> is it there)."""
    out = []
    if isinstance(ax, CatAxis):
        for k, p in enumerate(ax.parts):
            for r, b, m in leaves(p):
                def b2(a, k=k, b=b):
                    return ("c", k, b(a))

                def m2(a, b2=b2, m=m):
                    if not m(a):
                        return False
                    instantiate(ax, b2(a))
                    return True
                out.append((r, b2, m2))
        return out
    if isinstance(ax, SubAxis):
        for r, b, m in leaves(ax.parent):
            def m2(a, b=b, m=m):
                if not (m(a) and V.truth(ax.mask.at((b(a),)))):
                    return False
                instantiate(ax, b(a))
                return True
            out.append((r, b, m2))
        return out
    return [(ax, lambda a: a, lambda a: True)]


def full_leaves(ax):
    """Without the runs that are provably empty."""
    out = []
    for r, b, m in leaves(ax):
        if isinstance(r, CAxis) and r.n == 0:
            continue
        if isinstance(ax, (CatAxis, SubAxis)):
            if not any(CTX.explore(lambda: m(r.generic()))):
                continue
        out.append((r, b, m))
    return out


_match = {}


def leaf_match(x, y):
    """Pairs of leaves showing that two axes hold the same elements in the same order, or None."""
    lx, ly = full_leaves(x), full_leaves(y)
    if len(lx) != len(ly):
        return None
    for (r, b, m), (r2, b2, m2) in zip(lx, ly):
        if not axis_equiv(r, r2):
            return None

        def body():
            a = r.generic()
            return m(a) == m2(a)
        if not all(CTX.explore(body)):
            return None
    return list(zip(lx, ly))


def convert(addr, x, y):
    """The address in y of the element at addr in x, for axes with matching leaves."""
    pairs = leaf_match(x, y)
    if pairs is None:
        return None
    # path of the address down to its plain axis
    a = addr
    t = x
    while isinstance(t, (CatAxis, SubAxis)):
        if isinstance(t, CatAxis):
            t, a = t.parts[a[1]], a[2]
        else:
            t = t.parent
    for (r, b, m), (r2, b2, m2) in pairs:
        if b(a) == addr:
            return b2(a)
    return None


def addr_eq(axis, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return CTX.decide(a - b, ZER)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == "c":
            return a[1] == b[1] and addr_eq(None, a[2], b[2])
        return all(addr_eq(None, x, y) for x, y in zip(a[1:], b[1:]))
    raise Unsupported("address comparison")


# ---------------------------------------------------------------- view steps

class Step(object):
    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.key == o.key


class IntStep(Step):
    def __init__(self, ax, addr):
        self.ax, self.addr = ax, addr
        self.key = ("i", ax, addr)

    def fwd(self, i):
        return i[:self.ax] + (self.addr,) + i[self.ax:]

    def inv(self, b):
        if not addr_eq(None, b[self.ax], self.addr):
            return None
        return b[:self.ax] + b[self.ax + 1:]


class SliceStep(Step):
    def __init__(self, ax, start, step, count):
        self.ax, self.start, self.step, self.count = ax, start, step, count
        self.key = ("s", ax, start, step, count)

    def fwd(self, i):
        k = i[self.ax]
        if isinstance(k, int):
            return i[:self.ax] + (self.start + self.step * k,) + i[self.ax + 1:]
        return i[:self.ax] + (T.const(self.start) + k.scale(self.step),) + i[self.ax + 1:]

    def inv(self, b):
        if not isinstance(b[self.ax], int):
            raise Unsupported("write through a strided view")
        k, r = divmod(b[self.ax] - self.start, self.step)
        if r or not 0 <= k < self.count:
            return None
        return b[:self.ax] + (k,) + b[self.ax + 1:]


class OffsetStep(Step):
    """A contiguous run (reversed if `back`) of an axis of symbolic length."""
    def __init__(self, ax, start, new, back=False):
        self.ax, self.start, self.new, self.back = ax, start, new, back
        self.key = ("o", ax, start, new.key, back)

    def fwd(self, i):
        k = i[self.ax]
        k = T.const(k) if isinstance(k, int) else k
        return i[:self.ax] + (self.start - k if self.back else self.start + k,) + i[self.ax + 1:]

    def inv(self, b):
        k = self.start - b[self.ax] if self.back else b[self.ax] - self.start
        if isinstance(self.new, CAxis):
            for c in range(self.new.n):
                if CTX.decide(k - T.const(c), ZER):
                    return b[:self.ax] + (c,) + b[self.ax + 1:]
            return None
        if not CTX.decide(k, POS | ZER) or not CTX.decide(self.new.size() - k - T.ONE, POS | ZER):
            return None
        return b[:self.ax] + (k,) + b[self.ax + 1:]


class PartStep(Step):
    """Whole consecutive parts of a concatenated axis."""
    def __init__(self, ax, lo, hi):
        self.ax, self.lo, self.hi = ax, lo, hi
        self.key = ("pt", ax, lo, hi)

    def fwd(self, i):
        k = i[self.ax]
        k = ("c", self.lo, k) if self.hi == self.lo + 1 else ("c", self.lo + k[1], k[2])
        return i[:self.ax] + (k,) + i[self.ax + 1:]

    def inv(self, b):
        k = b[self.ax]
        if not self.lo <= k[1] < self.hi:
            return None
        k = k[2] if self.hi == self.lo + 1 else ("c", k[1] - self.lo, k[2])
        return b[:self.ax] + (k,) + b[self.ax + 1:]


def slice_run(v, k, ax, st, en, back):
    """v[..., st:en, ...] (or the whole axis backwards) for an axis of symbolic length."""
    n = ax.size()

    def bound(x, default):
        if x is None:
            return default
        if x == ("end",):
            return n
        p = T.const(x) if isinstance(x, int) else x[1]
        if not isinstance(p, Poly):
            raise Unsupported("slice bound")
        if CTX.decide(p, NEG):
            p = p + n
            return T.ZERO if CTX.decide(p, NEG) else p
        return p if CTX.decide(n - p, POS | ZER) else n

    if back:
        if not isinstance(ax, BAxis) or st is not None or en is not None:
            raise Unsupported("slice of a symbolic axis")
        return SArr._view(v, v.axes, OffsetStep(k, n - T.ONE, ax, True))
    lo, hi = bound(st, T.ZERO), bound(en, n)
    ln = CTX.canon(hi - lo)[1]
    if CTX.decide(ln, NEG | ZER):
        new = CAxis(0)
        return SArr._view(v, v.axes[:k] + (new,) + v.axes[k + 1:], SliceStep(k, 0, 1, 0))
    if CTX.canon(n - ln)[1].is_zero():
        return v
    if isinstance(ax, BAxis):
        new = CAxis(int(ln.const())) if ln.is_const() else BAxis(ln)
        return SArr._view(v, v.axes[:k] + (new,) + v.axes[k + 1:], OffsetStep(k, lo, new))
    if isinstance(ax, CatAxis):
        off, at = T.ZERO, []
        for p in ax.parts:
            at.append(off)
            off = off + p.size()
        at.append(off)
        i = [j for j, o in enumerate(at) if CTX.canon(o - lo)[1].is_zero()]
        j = [j for j, o in enumerate(at) if CTX.canon(o - hi)[1].is_zero()]
        if i and j and i[0] < j[-1]:
            i, j = i[0], j[-1]
            new = ax.parts[i] if j == i + 1 else CatAxis(ax.parts[i:j])
            return SArr._view(v, v.axes[:k] + (new,) + v.axes[k + 1:], PartStep(k, i, j))
    raise Unsupported("slice of a symbolic axis")


class NewStep(Step):
    def __init__(self, ax):
        self.ax = ax
        self.key = ("n", ax)

    def fwd(self, i):
        return i[:self.ax] + i[self.ax + 1:]

    def inv(self, b):
        return b[:self.ax] + (0,) + b[self.ax:]


class DropStep(Step):
    """Drop an axis of length 1."""
    def __init__(self, ax):
        self.ax = ax
        self.key = ("d", ax)

    def fwd(self, i):
        return i[:self.ax] + (0,) + i[self.ax:]

    def inv(self, b):
        return b[:self.ax] + b[self.ax + 1:]


class PermStep(Step):
    def __init__(self, perm):
        self.perm = tuple(perm)     # new axis k is old axis perm[k]
        self.key = ("p",) + self.perm

    def fwd(self, i):
        out = [None] * len(i)
        for k, p in enumerate(self.perm):
            out[p] = i[k]
        return tuple(out)

    def inv(self, b):
        return tuple(b[p] for p in self.perm)


class BcastStep(Step):
    def __init__(self, lead, ones):
        self.lead, self.ones = lead, tuple(ones)
        self.key = ("b", lead, self.ones)

    def fwd(self, i):
        i = i[self.lead:]
        return tuple(0 if o else x for x, o in zip(i, self.ones))

    def inv(self, b):
        raise Unsupported("write through a broadcast view")


class ReshapeStep(Step):
    """Regroup runs of concrete axes: groups = list of (old dims, new dims); a group with
    None stands for one axis carried over unchanged."""
    def __init__(self, groups):
        self.groups = tuple(groups)
        self.key = ("r",) + self.groups

    @staticmethod
    def _conv(i, groups, frm, to):
        out = []
        k = 0
        for g in groups:
            if g[0] == "keep":
                out.append(i[k])
                k += 1
                continue
            a, b = g[frm], g[to]
            lin = 0
            for n in a:
                lin = lin * n + i[k]
                k += 1
            res = []
            for n in reversed(b):
                res.append(lin % n)
                lin //= n
            out.extend(reversed(res))
        return tuple(out)

    def fwd(self, i):
        return self._conv(i, self.groups, 2, 1)

    def inv(self, b):
        return self._conv(b, self.groups, 1, 2)


class ProdStep(Step):
    """Split a flattened axis address back into its two parts (reads and writes)."""
    def __init__(self, ax):
        self.ax = ax
        self.key = ("P", ax)

    def fwd(self, i):
        a = i[self.ax]
        return i[:self.ax] + (a[1], a[2]) + i[self.ax + 1:]

    def inv(self, b):
        return b[:self.ax] + (("p", b[self.ax], b[self.ax + 1]),) + b[self.ax + 2:]


# ---------------------------------------------------------------- snapshots, storage

class Snap(object):
    """An immutable reading of an array: function + view."""
    __slots__ = ("fn", "view", "key")

    def __init__(self, fn, view):
        self.fn = fn
        self.view = view
        self.key = (fn, view)

    def at(self, idx):
        for st in reversed(self.view):
            idx = st.fwd(idx)
        k = (self.fn, idx)
        c = CTX.cache
        r = c.get(k)
        if r is None:
            r = self.fn(idx)
            c[k] = r
        return r


class Clock(object):
    """Creation and write times of storage, for bodies evaluated later than they are written (loops.py)."""
    now = 0
    asof = None
    run = None          # the iteration of a loop being evaluated (loops.Run)


def row_of(view, ndim):
    """[(axis of the storage, address)] fixed by the integer indices of a view."""
    lab = list(range(ndim))
    out = []
    for st in view:
        if isinstance(st, IntStep):
            a = lab.pop(st.ax)
            if a is not None:
                out.append((a, st.addr))
        elif isinstance(st, DropStep):
            lab.pop(st.ax)
        elif isinstance(st, (SliceStep, OffsetStep, PartStep)):
            lab[st.ax] = None
        elif isinstance(st, NewStep):
            lab.insert(st.ax, None)
        elif isinstance(st, PermStep):
            lab = [lab[p] for p in st.perm]
        elif isinstance(st, BcastStep):
            lab = [None] * st.lead + lab
        else:
            break
    return out


class Store(object):
    __slots__ = ("axes", "fn", "dtype", "readonly", "name", "birth", "wrote", "hist", "elem")

    def __init__(self, axes, fn, dtype, name=None):
        Clock.now += 1
        self.birth = self.wrote = Clock.now
        self.hist = None
        self.elem = Clock.run.root if Clock.run is not None else None
        self.axes = tuple(axes)
        self.fn = fn
        self.dtype = dtype
        self.name = name


def promote(*ds):
    order = "bif"
    return max(ds, key=order.index)


class Shape(tuple):
    pass


def dim_value(ax):
    if isinstance(ax, CAxis):
        return ax.n
    return SArr.scalar(ax.size(), "i", py=True, dim=ax)


class SArr(object):
    """numpy.ndarray / scalar look-alike."""
    __array_priority__ = 1000
    __slots__ = ("store", "view", "axes", "dim", "py", "nz", "__weakref__", "inverse", "count_of")

    def __init__(self, axes, fn, dtype="f", py=False):
        self.store = Store(axes, fn, dtype)
        self.view = ()
        self.axes = tuple(axes)
        self.dim = None
        self.py = py
        self.nz = None
        self.inverse = None
        self.count_of = None

    @classmethod
    def _view(cls, base, axes, step):
        r = cls.__new__(cls)
        r.store = base.store
        r.view = base.view + (step,)
        r.axes = tuple(axes)
        r.dim = None
        r.py = False
        r.nz = None
        r.inverse = None
        r.count_of = None
        return r

    @classmethod
    def scalar(cls, v, dtype="f", py=False, dim=None):
        r = cls((), (lambda idx, v=v: v), dtype, py)
        r.dim = dim
        return r

    def stamp(self, view):
        """Before a write to part of the storage."""
        st = self.store
        if st.elem is not None and not st.elem.released and (Clock.run is None or Clock.run.root is not st.elem):
            raise Unsupported("write to an element of a list of symbolic length")
        if Clock.asof is not None and st.birth <= Clock.asof:
            if Clock.run is None:
                raise Unsupported("loop body writes to an array made outside it")
            Clock.run.writes(st, view)
            return
        Clock.now += 1
        st.wrote = Clock.now
        st.hist = (Clock.now, st.fn, st.hist)

    # -------------------------------------------------------- reading
    def snap(self):
        st = self.store
        if Clock.asof is not None and st.birth <= Clock.asof:
            if Clock.run is not None:
                Clock.run.reads(st, self.view)
            if Clock.asof < st.wrote:
                # what it held at that time
                h, fn = st.hist, st.fn
                while h is not None and h[0] > Clock.asof:
                    fn, h = h[1], h[2]
                return Snap(fn, self.view)
        return Snap(st.fn, self.view)

    def at(self, *idx):
        return self.snap().at(tuple(idx))

    def item(self, *a):
        if a:
            return self[a].item()
        if self.axes:
            x = self
            for ax in self.axes:
                if not (isinstance(ax, CAxis) and ax.n == 1):
                    raise ValueError("can only convert an array of size 1 to a Python scalar")
            return self.at(*(0,) * len(self.axes))
        return self.at()

    @property
    def dtype(self):
        return DType(self.store.dtype)

    @property
    def kind(self):
        return self.store.dtype

    @property
    def shape(self):
        return tuple(dim_value(a) for a in self.axes)

    @shape.setter
    def shape(self, s):
        raise Unsupported("shape assignment")

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.ravel()

    # -------------------------------------------------------- shape
    def transpose(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        if not perm or perm == (None,):
            perm = tuple(reversed(range(self.ndim)))
        if self.ndim < 2:
            return self
        perm = tuple(p % self.ndim for p in perm)
        return SArr._view(self, [self.axes[p] for p in perm], PermStep(perm))

    def swapaxes(self, a, b):
        perm = list(range(self.ndim))
        a %= self.ndim
        b %= self.ndim
        perm[a], perm[b] = perm[b], perm[a]
        return self.transpose(*perm)

    def copy(self, order=None):
        s = self.snap()
        r = SArr(self.axes, lambda idx: s.at(idx), self.kind, self.py)
        r.dim = self.dim
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True):
        return cast(self, dtype_of(dt))

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, order="C"):
        return reshape(self, (-1,))

    def flatten(self, order="C"):
        return reshape(self, (-1,)).copy()

    def squeeze(self, axis=None):
        r = self
        if axis is not None:
            axs = axis if isinstance(axis, tuple) else (axis,)
            axs = [a % self.ndim for a in axs]
        for k in reversed(range(self.ndim)):
            ax = self.axes[k]
            if axis is None:
                one = isinstance(ax, CAxis) and ax.n == 1
                if not isinstance(ax, CAxis):
                    # numpy squeezes a dimension that happens to be 1
                    if CTX.decide(ax.size() - T.ONE, ZER):
                        one = True
                if one:
                    r = drop_axis(r, k)
            elif k in axs:
                if not (isinstance(ax, CAxis) and ax.n == 1):
                    raise ValueError("cannot select an axis to squeeze out")
                r = drop_axis(r, k)
        return r

    def fill(self, v):
        self[...] = v

    def tolist(self):
        if not self.axes:
            return self
        return [x.tolist() for x in self]

    # -------------------------------------------------------- indexing
    def __getitem__(self, idx):
        v, adv = self._basic(idx)
        if adv is None:
            if not v.axes:
                # a scalar: snapshot
                s = v.snap()
                r = SArr((), lambda i: s.at(()), v.kind)
                return r
            return v
        k, ind = adv
        return fancy_get(v, k, ind)

    def _basic(self, idx):
        """Apply the basic part of an index; returns (view, None or (axis, index array))."""
        if not isinstance(idx, tuple):
            idx = (idx,)
        # tuple of nonzero() results of one nd mask
        if len(idx) > 1 and all(isinstance(x, SArr) and x.nz is not None and x.nz[0] == "nd" for x in idx) \
                and len(set(id(x.nz[1]) for x in idx)) == 1:
            return self, (None, idx[0].nz[1])
        items = []
        for x in idx:
            if isinstance(x, list):
                x = asarray(x)
            items.append(x)
        n_used = 0
        for x in items:
            if x is None or x is Ellipsis:
                continue
            if isinstance(x, SArr) and x.kind == "b":
                n_used += max(x.ndim, 1)
            else:
                n_used += 1
        if not any(x is Ellipsis for x in items):
            items.append(Ellipsis)
        v = self
        k = 0
        adv = None
        for x in items:
            if x is Ellipsis:
                k += self.ndim - n_used
                continue
            if x is None:
                v = SArr._view(v, v.axes[:k] + (CAxis(1),) + v.axes[k:], NewStep(k))
                k += 1
                continue
            if isinstance(x, SArr) and x.ndim == 0 and x.kind != "b":
                p = x.item()
                if isinstance(p, float):
                    raise IndexError("only integers are valid indices")
                if x.kind == "f":
                    raise IndexError("only integers, slices (`:`), ellipsis are valid indices")
                x = ("poly", p)
            elif isinstance(x, bool):
                raise Unsupported("boolean scalar index")
            elif isinstance(x, int):
                x = ("poly", T.const(x))
            elif isinstance(x, float):
                raise IndexError("only integers, slices (`:`), ellipsis are valid indices")
            if isinstance(x, tuple) and x[0] == "poly":
                if k >= v.ndim:
                    raise IndexError("too many indices for array")
                addr = v.axes[k].resolve(x[1])
                v = SArr._view(v, v.axes[:k] + v.axes[k + 1:], IntStep(k, addr))
                continue
            if isinstance(x, slice):
                if k >= v.ndim:
                    raise IndexError("too many indices for array")
                v = slice_axis(v, k, x)
                k += 1
                continue
            if isinstance(x, SArr):
                if k + max(1, x.ndim if x.kind == "b" else 1) > v.ndim:
                    raise IndexError("too many indices for array")
                if adv is not None:
                    raise Unsupported("two index arrays")
                adv = (k, x)
                k += x.ndim if x.kind == "b" else 1
                continue
            raise Unsupported("index %r" % (type(x),))
        return v, adv

    def __setitem__(self, idx, val):
        v, adv = self._basic(idx)
        val = asarray(val)
        if Clock.run is None or Clock.run.loud:
            log_write(self.store)
        old = self.store.fn
        view = v.view
        dt = self.store.dtype
        conv = caster(val.kind, dt)
        if adv is None:
            bval = broadcast_to(val, v.axes).snap()

            def fn(b, old=old, view=view, bval=bval):
                i = b
                for st in view:
                    i = st.inv(i)
                    if i is None:
                        return rd(old, b)
                return conv(bval.at(i))
            self.stamp(view)
            self.store.fn = fn
            return
        k, ind = adv
        sel = Selection(v, k, ind)
        bval = broadcast_to(val, sel.axes).snap()

        def fn(b, old=old, view=view, bval=bval):
            i = b
            for st in view:
                i = st.inv(i)
                if i is None:
                    return rd(old, b)
            j = sel.find(i)
            if j is None:
                return rd(old, b)
            return conv(bval.at(j))
        self.stamp(view)
        self.store.fn = fn

    def __iter__(self):
        if not self.axes:
            raise TypeError("iteration over a 0-d array")
        ax = self.axes[0]
        if not isinstance(ax, CAxis):
            raise Unsupported("iteration over a symbolic axis")
        for k in range(ax.n):
            yield self[k]

    def __len__(self):
        if not self.axes:
            raise TypeError("len() of unsized object")
        if isinstance(self.axes[0], CAxis):
            return self.axes[0].n
        raise Unsupported("len() of a symbolic axis")

    def __contains__(self, x):
        return bool((self == x).any())

    # -------------------------------------------------------- truth, conversion
    def __bool__(self):
        if self.axes:
            for ax in self.axes:
                if not (isinstance(ax, CAxis) and ax.n == 1):
                    if isinstance(ax, CAxis):
                        raise ValueError("The truth value of an array with more than one element is ambiguous")
                    if not CTX.decide(ax.size() - T.ONE, ZER):
                        raise ValueError("The truth value of an array with more than one element is ambiguous")
                    raise Unsupported("truth of a one-element symbolic array")
        if self.count_of is not None:
            return bool(self.count_of.any())
        return V.truth(self.item())

    def __int__(self):
        p = self.item()
        if isinstance(p, bool):
            return int(p)
        if isinstance(p, Poly) and p.is_const() and p.const().denominator == 1:
            return int(p.const())
        raise Unsupported("int() of a symbolic value")

    __index__ = __int__

    def __float__(self):
        p = self.item()
        if isinstance(p, float):
            return p
        raise Unsupported("float() of a symbolic value")

    def __repr__(self):
        return "SArr%s" % (self.axes,)

    def __format__(self, spec):
        return repr(self)

    __hash__ = object.__hash__

    # -------------------------------------------------------- operators
    def __neg__(self): return ew1(V.v_neg, self, None)
    def __pos__(self): return self
    def __abs__(self): return ew1(V.v_abs, self, None)

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("~ on non-boolean")
        return ew1(lambda x: not x, self, "b")

    def __add__(self, o): return ew2("add", self, o)
    def __radd__(self, o): return ew2("add", o, self)
    def __sub__(self, o): return ew2("sub", self, o)
    def __rsub__(self, o): return ew2("sub", o, self)
    def __mul__(self, o): return ew2("mul", self, o)
    def __rmul__(self, o): return ew2("mul", o, self)
    def __truediv__(self, o): return ew2("div", self, o)
    def __rtruediv__(self, o): return ew2("div", o, self)
    def __floordiv__(self, o): return ew2("floordiv", self, o)
    def __rfloordiv__(self, o): return ew2("floordiv", o, self)
    def __mod__(self, o): return ew2("mod", self, o)
    def __pow__(self, o): return ew2("pow", self, o)
    def __rpow__(self, o): return ew2("pow", o, self)
    def __and__(self, o): return ew2("and", self, o)
    __rand__ = __and__
    def __or__(self, o): return ew2("or", self, o)
    __ror__ = __or__
    def __xor__(self, o): return ew2("xor", self, o)
    __rxor__ = __xor__
    def __lt__(self, o): return ew2("lt", self, o)
    def __le__(self, o): return ew2("le", self, o)
    def __gt__(self, o): return ew2("gt", self, o)
    def __ge__(self, o): return ew2("ge", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, dict)):
            return False
        return ew2("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, dict)):
            return True
        return ew2("ne", self, o)

    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)

    def _iop(self, op, o):
        if self.py or (not self.axes and not self.view):
            return ew2(op, self, o)       # python scalars are immutable
        r = ew2(op, self, o)
        if len(r.axes) > len(self.axes):
            raise ValueError("non-broadcastable output operand")
        if self.kind == "i" and r.kind == "f":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        self[...] = r
        return self

    def __iadd__(self, o): return self._iop("add", o)
    def __isub__(self, o): return self._iop("sub", o)
    def __imul__(self, o): return self._iop("mul", o)
    def __itruediv__(self, o): return self._iop("div", o)
    def __ipow__(self, o): return self._iop("pow", o)
    def __iand__(self, o): return self._iop("and", o)
    def __ior__(self, o): return self._iop("or", o)
    def __ixor__(self, o): return self._iop("xor", o)

    # -------------------------------------------------------- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_("sum", self, axis, keepdims)

    def prod(self, axis=None, keepdims=False): return reduce_("prod", self, axis, keepdims)
    def any(self, axis=None, out=None, keepdims=False): return reduce_("any", self, axis, keepdims)
    def all(self, axis=None, out=None, keepdims=False): return reduce_("all", self, axis, keepdims)
    def min(self, axis=None, out=None, keepdims=False, initial=None): return reduce_("min", self, axis, keepdims, initial)
    def max(self, axis=None, out=None, keepdims=False, initial=None): return reduce_("max", self, axis, keepdims, initial)

    def mean(self, axis=None):
        s = self.sum(axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def dot(self, o): return dot(self, o)
    def nonzero(self): return nonzero(self)

    def repeat(self, reps, axis=None):
        from . import npshim
        return npshim.repeat(self, reps, axis)

    def take(self, idx, axis=None):
        if axis is None:
            return self.ravel()[asarray(idx)]
        return self[(slice(None),) * (axis % self.ndim) + (asarray(idx),)]

    def compress(self, mask, axis=None):
        if axis is None:
            return self.ravel()[asarray(mask)]
        return self[(slice(None),) * (axis % self.ndim) + (asarray(mask),)]

    def argmin(self, axis=None):
        from . import npshim
        return npshim.argmin(self, axis)

    def choose(self, choices):
        from . import npshim
        return npshim.choose(self, choices)

    def conj(self): return self

    def round(self, *a):
        raise Unsupported("round")


class DType(object):
    def __init__(self, k):
        self.kind = k

    def __eq__(self, o):
        return dtype_of(o) == self.kind

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)


def dtype_of(dt):
    if dt is None:
        return None
    if isinstance(dt, DType):
        return dt.kind
    if dt is bool or dt in ("bool", "?", "b"):
        return "b"
    if dt is int or dt in ("int", "i", "int64", "int32"):
        return "i"
    if dt is float or dt in ("float", "f", "d", "float64", "f8"):
        return "f"
    name = getattr(dt, "__name__", "")
    if name in ("sx_float",):
        return "f"
    if name in ("sx_int",):
        return "i"
    if name in ("sx_bool",):
        return "b"
    raise Unsupported("dtype %r" % (dt,))


def caster(frm, to):
    if frm == to or to == "f":
        return V.num if to == "f" else (lambda x: x)
    if to == "b":
        return V.truth
    if to == "i" and frm == "b":
        return V.num

    def conv(x):
        x = V.num(x)
        if isinstance(x, float):
            raise Unsupported("special value cast to int")
        if x.is_const():
            c = x.const()
            return T.const(int(c))
        if all(T.ATOMS.list[a].sort == "I" for a in x.atoms()) and \
                all(c.denominator == 1 for c in x.d.values() if isinstance(c, Fraction)):
            return x
        raise Unsupported("truncation of a symbolic value")
    return conv


def cast(a, k):
    if k is None or k == a.kind:
        return a.copy()
    s = a.snap()
    c = caster(a.kind, k)
    return SArr(a.axes, lambda i: c(s.at(i)), k)


_write_log = []


def log_write(store):
    if _write_log:
        _write_log[-1](store)


def rd(fn, b):
    """Memoised read of a storage version."""
    k = (fn, b)
    c = CTX.cache
    r = c.get(k)
    if r is None:
        r = fn(b)
        c[k] = r
    return r


# ---------------------------------------------------------------- construction

def asarray(x, dtype=None):
    if isinstance(x, SArr):
        if dtype is not None and dtype != x.kind:
            return cast(x, dtype)
        return x
    if hasattr(x, "__sx_array__"):
        return x.__sx_array__()
    if isinstance(x, bool):
        return SArr.scalar(x, "b", py=True)
    if isinstance(x, int):
        r = SArr.scalar(T.const(x), "i", py=True)
        return cast(r, dtype) if dtype else r
    if isinstance(x, float):
        return SArr.scalar(V.lift(x), "f", py=True)
    if isinstance(x, Fraction):
        return SArr.scalar(T.const(x), "f", py=True)
    if isinstance(x, Poly):
        return SArr.scalar(x, "f", py=True)
    if isinstance(x, (list, tuple)):
        els = [asarray(y) for y in x]
        if not els:
            return SArr((CAxis(0),), lambda i: T.ZERO, dtype or "f")
        ax = els[0].axes
        for e in els[1:]:
            if len(e.axes) != len(ax) or not all(axis_equiv(p, q) for p, q in zip(e.axes, ax)):
                if len(e.axes) == len(ax) and all(isinstance(p, CAxis) and isinstance(q, CAxis) for p, q in zip(e.axes, ax)):
                    raise Unsupported("ragged array")
                raise Unsupported("array of differently shaped parts")
        k = promote(*[e.kind for e in els])
        snaps = [e.snap() for e in els]
        cs = [caster(e.kind, k) for e in els]

        def fn(i):
            return cs[i[0]](snaps[i[0]].at(i[1:]))
        r = SArr((CAxis(len(els)),) + tuple(ax), fn, k)
        return cast(r, dtype) if dtype else r
    raise Unsupported("array from %r" % (type(x),))


def index_addr(a, addr):
    """a[k] for the address of a position on its first axis."""
    r = SArr._view(a, a.axes[1:], IntStep(0, addr))
    if not r.axes:
        return SArr.scalar(r.at(), r.kind)
    return r


def drop_axis(a, k):
    return SArr._view(a, a.axes[:k] + a.axes[k + 1:], DropStep(k))


def slice_axis(v, k, s):
    ax = v.axes[k]
    def cv(x):
        if x is None or isinstance(x, int):
            return x
        if isinstance(x, SArr):
            if x.dim is not None and x.dim == ax:
                return ("end",)
            if x.kind == "f":
                raise TypeError("slice indices must be integers or None")
            p = x.item()
            if isinstance(p, Poly) and p.is_const():
                return int(p.const())
            return ("poly", p)
        if isinstance(x, float):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        raise Unsupported("slice bound")
    st, en, sp = cv(s.start), cv(s.stop), cv(s.step)
    if isinstance(ax, CAxis):
        if any(isinstance(z, tuple) for z in (st, en, sp)):
            raise Unsupported("symbolic slice")
        a, b, c = slice(st, en, sp).indices(ax.n)
        n = len(range(a, b, c))
        if a == 0 and c == 1 and n == ax.n:
            return v
        return SArr._view(v, v.axes[:k] + (CAxis(n),) + v.axes[k + 1:], SliceStep(k, a, c, n))
    if sp in (None, 1) and st in (None, 0) and (en is None or en == ("end",)):
        return v
    if isinstance(ax, BAxis) and en is None and isinstance(st, (int, type(None))) and isinstance(sp, int) and sp > 1 \
            and (st is None or st >= 0):
        # every sp-th element
        st = st or 0
        n = V.v_ceil((ax.size() - T.const(st)).scale(Fraction(1, sp)))
        new = BAxis(n)
        if not CTX.decide(ax.size() - T.const(st), POS):
            new = CAxis(0)
        return SArr._view(v, v.axes[:k] + (new,) + v.axes[k + 1:], SliceStep(k, st, sp, None))
    if sp in (None, 1, -1):
        return slice_run(v, k, ax, st, en, sp == -1)
    raise Unsupported("slice of a symbolic axis")


class Selection(object):
    """An advanced index on axis k of a view: result axes, and the way back."""
    def __init__(self, v, k, ind):
        self.k = k
        if k is None:
            # full nd boolean mask `ind`
            self.mask = ind
            if not all(axis_equiv(a, b) for a, b in zip(ind.axes, v.axes)):
                raise Unsupported("mask of another shape")
            self.nd = len(ind.axes)
            self.kind = "ndmask"
            self.msnap = ind.snap()
            self._nd(v)
            return
        if ind.kind == "b":
            if ind.ndim == 1:
                if not axis_equiv(ind.axes[0], v.axes[k]):
                    mism(ind.axes[0], v.axes[k])
                self.kind = "mask"
                self.msnap = ind.snap()
                if isinstance(v.axes[k], CAxis):
                    sub = concrete_sub(v.axes[k], self.msnap)
                    if sub is not None:
                        self.kind = "list"
                        self.idx = sub
                        self.axes = v.axes[:k] + (CAxis(len(sub)),) + v.axes[k + 1:]
                        return
                sub = SubAxis(v.axes[k], self.msnap)
                self.axes = v.axes[:k] + (sub,) + v.axes[k + 1:]
                return
            self.kind = "ndmask"
            if k != 0 or ind.ndim != v.ndim:
                raise Unsupported("partial nd mask")
            self.k = None
            self.nd = ind.ndim
            self.msnap = ind.snap()
            self._nd(v)
            return
        if ind.kind == "f":
            if ind.axes and isinstance(ind.axes[0], CAxis) and ind.axes[0].n == 0:
                pass
            else:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if ind.nz is not None and ind.nz[0] == "1d" and axis_equiv(ind.nz[1].parent, v.axes[k]):
            self.kind = "mask"
            self.msnap = ind.nz[1].mask
            self.axes = v.axes[:k] + (ind.nz[1],) + v.axes[k + 1:]
            return
        self.kind = "index"
        self.isnap = ind.snap()
        self.inverse = ind.inverse
        self.src = v.axes[k]
        self.iaxes = ind.axes
        self.axes = v.axes[:k] + ind.axes + v.axes[k + 1:]

    def _nd(self, v):
        if all(isinstance(a, CAxis) for a in v.axes):
            self.kind = "ndlist"
            self.idx = concrete_nd(v.axes, self.msnap)
            self.axes = (CAxis(len(self.idx)),)
        else:
            self.axes = (NdSubAxis(v.axes, self.msnap),)

    def src_index(self, j):
        """Index in the selection -> index in the view."""
        k = self.k
        if self.kind == "ndlist":
            return self.idx[j[0]]
        if self.kind == "ndmask":
            return tuple(j[0][1:])
        if self.kind == "list":
            return j[:k] + (self.idx[j[k]],) + j[k + 1:]
        if self.kind == "mask":
            return j
        n = len(self.iaxes)
        p = V.num(self.isnap.at(j[k:k + n]))
        if isinstance(p, float):
            raise Unsupported("special value as index")
        return j[:k] + (self.src.resolve(p),) + j[k + n:]

    def find(self, i):
        """Index in the view -> index in the selection, or None."""
        k = self.k
        if self.kind == "ndlist":
            i = tuple(i)
            return (self.idx.index(i),) if i in self.idx else None
        if self.kind == "ndmask":
            return (("q",) + tuple(i),) if V.truth(self.msnap.at(i)) else None
        if self.kind == "list":
            if i[k] in self.idx:
                return i[:k] + (self.idx.index(i[k]),) + i[k + 1:]
            return None
        if self.kind == "mask":
            return i if V.truth(self.msnap.at((i[k],))) else None
        if len(self.iaxes) == 1 and isinstance(self.iaxes[0], CAxis):
            hit = None
            for t in range(self.iaxes[0].n):       # later writes win
                p = V.num(self.isnap.at((t,)))
                if addr_eq(None, self.src.resolve(p), i[k]):
                    hit = t
            return None if hit is None else i[:k] + (hit,) + i[k + 1:]
        if self.inverse is not None:
            t = self.inverse(i[k])
            return None if t is None else i[:k] + (t,) + i[k + 1:]
        raise Unsupported("write through an index array")


class NdSubAxis(Axis):
    def __init__(self, axes, msnap):
        self.axs = axes
        self.msnap = msnap
        self.key = ("N", tuple(a.key for a in axes), msnap.key)

    def size(self):
        return T.app("len%d" % axis_id(self), [], "I")

    def generic(self):
        a = ("q",) + tuple(x.generic() for x in self.axs)
        if not V.truth(self.msnap.at(a[1:])):
            raise Infeasible()
        return a

    def pos(self, a):
        return posfun(self, a)


def concrete_sub(ax, msnap):
    """Selected positions of a concrete axis (forks on each element)."""
    return [k for k in range(ax.n) if V.truth(msnap.at((k,)))]


def concrete_nd(axes, msnap):
    import itertools
    return [i for i in itertools.product(*[range(a.n) for a in axes]) if V.truth(msnap.at(i))]


def mism(a, b):
    if isinstance(a, CAxis) and isinstance(b, CAxis):
        raise IndexError("boolean index did not match indexed array")
    d = a.size() - b.size()
    k, q = CTX.canon(d)
    if q.is_const() or not CTX.decide(d, ZER):
        raise IndexError("boolean index did not match indexed array")
    raise Unsupported("axes of possibly equal length")


def fancy_get(v, k, ind):
    sel = Selection(v, k, ind)
    s = v.snap()
    r = SArr(sel.axes, lambda j: s.at(sel.src_index(j)), v.kind)
    return r


# ---------------------------------------------------------------- broadcasting

def bmism(a, b):
    """Axes that cannot be matched: a numpy error, unless lengths may coincide."""
    if isinstance(a, CAxis) and isinstance(b, CAxis):
        raise ValueError("operands could not be broadcast together")
    for x, y in ((a, b), (b, a)):
        pass
    k, q = CTX.canon(a.size() - b.size())
    if q.is_const() and not q.is_zero():
        raise ValueError("operands could not be broadcast together")
    one_a = T.canon_one = None
    eq = CTX.decide(a.size() - b.size(), ZER)
    if not eq:
        for x in (a, b):
            if not isinstance(x, CAxis) and CTX.decide(x.size() - T.ONE, ZER):
                raise Unsupported("broadcast of a symbolic axis of length 1")
        raise ValueError("operands could not be broadcast together")
    raise Unsupported("axes of possibly equal length (%r, %r)" % (a, b))


def join_axis(a, b):
    if a == b:
        return a
    if isinstance(a, CAxis) and a.n == 1:
        return b
    if isinstance(b, CAxis) and b.n == 1:
        return a
    if axis_equiv(a, b):
        return a
    bmism(a, b)


def broadcast_axes(*arrs):
    n = max(len(a.axes) for a in arrs)
    out = []
    for k in range(n):
        cur = None
        for a in arrs:
            j = k - (n - len(a.axes))
            if j >= 0:
                cur = a.axes[j] if cur is None else join_axis(cur, a.axes[j])
        out.append(cur)
    return tuple(out)


def broadcast_to(a, axes):
    axes = tuple(axes)
    if len(a.axes) > len(axes):
        x = a
        while len(x.axes) > len(axes) and isinstance(x.axes[0], CAxis) and x.axes[0].n == 1:
            x = drop_axis(x, 0)
        if len(x.axes) > len(axes):
            raise ValueError("could not broadcast input array")
        a = x
    lead = len(axes) - len(a.axes)
    ones = []
    for x, y in zip(a.axes, axes[lead:]):
        if x == y:
            ones.append(False)
        elif isinstance(x, CAxis) and x.n == 1:
            ones.append(True)
        elif axis_equiv(x, y):
            ones.append(False)
        else:
            if isinstance(x, CAxis) and isinstance(y, CAxis):
                raise ValueError("could not broadcast input array")
            bmism(x, y)
    if not lead and not any(ones):
        return a
    return SArr._view(a, axes, BcastStep(lead, ones))


# ---------------------------------------------------------------- elementwise

def ew1(f, a, dtype=None):
    a = asarray(a)
    s = a.snap()
    k = dtype or ("i" if a.kind == "b" else a.kind)
    return SArr(a.axes, lambda i: f(s.at(i)), k, a.py)


def v_and(a, b): return V.truth(a) and V.truth(b)
def v_or(a, b): return V.truth(a) or V.truth(b)
def v_xor(a, b): return V.truth(a) != V.truth(b)


def v_floordiv(a, b):
    q = V.v_div(a, b)
    return V.v_floor(q)


def v_mod(a, b):
    raise Unsupported("%")


OPS = {"add": V.v_add, "sub": V.v_sub, "mul": V.v_mul, "and": v_and, "or": v_or, "xor": v_xor,
       "lt": V.v_lt, "le": V.v_le, "gt": V.v_gt, "ge": V.v_ge, "eq": V.v_eq, "ne": V.v_ne,
       "floordiv": v_floordiv, "mod": v_mod, "min": V.v_min, "max": V.v_max,
       "arctan2": V.v_arctan2}


def ew2(op, a, b):
    try:
        a, b = asarray(a), asarray(b)
    except Unsupported:
        if op in ("eq", "ne") and not isinstance(b, SArr):
            return op == "ne"
        raise
    axes = broadcast_axes(a, b)
    py = a.py and b.py
    # counts compared with 0: decided on the mask itself
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.count_of is not None and not y.axes and op in ("eq", "ne", "gt", "lt", "le", "ge"):
            yv = y.item()
            if isinstance(yv, Poly) and yv.is_const():
                o = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op) if sw else op
                c = yv.const()
                ex = x.count_of
                if (c == 0 and o in ("gt", "ne")) or (c == 1 and o == "ge"):
                    return reduce_("any", ex, None, False)
                if (c == 0 and o in ("eq", "le")) or (c == 1 and o == "lt"):
                    return ~reduce_("any", ex, None, False)
    sa, sb = broadcast_to(a, axes).snap(), broadcast_to(b, axes).snap()
    if op == "div":
        f = (lambda x, y: V.v_div(x, y, True)) if py else V.v_div
        k = "f"
    elif op == "pow":
        f = (lambda x, y: V.v_pow(x, y, True)) if py else V.v_pow
        k = promote(a.kind, b.kind, "i")
    else:
        f = OPS[op]
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            k = "b"
        elif op in ("and", "or", "xor"):
            if a.kind != "b" or b.kind != "b":
                raise Unsupported("bitwise operation on non-booleans")
            k = "b"
        else:
            k = promote(a.kind, b.kind, "i" if op in ("add", "sub", "mul") and not (a.kind == "b" and b.kind == "b") else "b")
            if a.kind == "b" and b.kind == "b":
                if op == "sub":
                    raise TypeError("numpy boolean subtract is not supported")
                if op == "add":
                    f, k = v_or, "b"
                elif op == "mul":
                    f, k = v_and, "b"
    r = SArr(axes, lambda i: f(sa.at(i), sb.at(i)), k, py)
    return r


# ---------------------------------------------------------------- reductions

def reduce_(op, a, axis, keepdims=False, initial=None):
    a = asarray(a)
    if initial is not None and op in ("min", "max"):
        # one more row
        ini = asarray(initial)
        if isinstance(axis, int) and -a.ndim <= axis < a.ndim and not ini.axes and isinstance(a.axes[axis % a.ndim], CAxis):
            k = axis % a.ndim
            n = a.axes[k].n
            s, si = a.snap(), ini.snap()
            a = SArr(a.axes[:k] + (CAxis(n + 1),) + a.axes[k + 1:],
                     lambda i: s.at(i) if i[k] < n else si.at(()), promote(a.kind, ini.kind))
        elif isinstance(axis, int) and -a.ndim <= axis < a.ndim and not ini.axes and not keepdims:
            return reduce_sym(op, a, axis % a.ndim, ini)
        else:
            raise Unsupported("initial value of a reduction")
    if axis is None:
        axs = list(range(a.ndim))
    elif isinstance(axis, tuple):
        axs = [x % a.ndim for x in axis]
    else:
        if not isinstance(axis, int):
            raise Unsupported("axis argument")
        if not -a.ndim <= axis < a.ndim:
            raise ValueError("axis out of bounds")
        axs = [axis % a.ndim]
    r = a
    if len(axs) > 1 and op in ("any", "all") and any(not isinstance(a.axes[k], CAxis) for k in axs) and len(axs) == a.ndim:
        return quant(op, a)
    if op == "sum" and a.kind == "b" and a.ndim == 1 and not isinstance(a.axes[0], CAxis):
        ax = SubAxis(a.axes[0], a.snap())
        r = SArr.scalar(ax.size(), "i", dim=ax)
        r.count_of = a
        return r
    for k in sorted(axs, reverse=True):
        r = reduce1(op, r, k)
    if keepdims:
        for k in sorted(axs):
            r = SArr._view(r, r.axes[:k] + (CAxis(1),) + r.axes[k:], NewStep(k))
    return r


def reduce1(op, a, k):
    ax = a.axes[k]
    s = a.snap()
    rest = a.axes[:k] + a.axes[k + 1:]
    if not isinstance(ax, CAxis):
        if op in ("any", "all"):
            return quant_axis(op, a, k)
        return reduce_sym(op, a, k)
    n = ax.n
    if n == 0 and op in ("min", "max"):
        raise ValueError("zero-size array to reduction operation")

    def fn(i):
        if op == "any":
            return any(V.truth(s.at(i[:k] + (j,) + i[k:])) for j in range(n))
        if op == "all":
            return all(V.truth(s.at(i[:k] + (j,) + i[k:])) for j in range(n))
        els = [V.num(s.at(i[:k] + (j,) + i[k:])) for j in range(n)]
        if op == "sum":
            r = T.ZERO
            for e in els:
                r = V.v_add(r, e)
            return r
        if op == "prod":
            r = T.ONE
            for e in els:
                r = V.v_mul(r, e)
            return r
        if not els:
            raise ValueError("zero-size array to reduction operation")
        r = els[0]
        for e in els[1:]:
            r = (V.v_min if op == "min" else V.v_max)(r, e)
        return r
    kind = "b" if op in ("any", "all") else ("i" if a.kind == "b" else a.kind)
    return SArr(rest, fn, kind)


def reduce_sym(op, a, k, initial=None):
    """min / max over a symbolic axis: the value at some address (a witness) that no other value is beyond, or, with an
    initial value, that value if no other is beyond it."""
    if op not in ("min", "max"):
        raise Unsupported("%s over a symbolic axis" % op)
    ax = a.axes[k]
    s = a.snap()
    si = initial.snap() if initial is not None else None
    rest = a.axes[:k] + a.axes[k + 1:]
    le = V.v_le if op == "min" else V.v_ge
    if initial is None:
        if CTX.decide(ax.size(), ZER):
            raise ValueError("zero-size array to reduction operation")

    def el(i, x):
        v = V.num(s.at(i[:k] + (x,) + i[k:]))
        if V.isnan(v):
            raise Unsupported("%s of values that may be nan" % op)
        return v

    def fn(i):
        key = ("reduce", op, s.key, si and si.key, k, i)
        if key in CTX.cache:
            return CTX.cache[key]
        if si is not None and CTX.choose(2) == 0:
            r = V.num(si.at(()))
        else:
            w = ax.generic()
            r = el(i, w)
            if si is not None:
                CTX.assume(not V.truth(le(V.num(si.at(())), r)))

        def fact(x):
            CTX.assume(V.truth(le(r, el(i, x))))
        CTX.cache[key] = r
        CTX.add_universal(ax, fact)
        return r
    return SArr(rest, fn, promote(a.kind, initial.kind) if initial is not None else a.kind)


class Exists(object):
    """Marker element: existence of an address with a property (decided by forking)."""


def quant(op, a):
    """any()/all() over all axes, at least one symbolic."""
    s = a.snap()
    axes = a.axes
    neg = op == "all"
    return SArr((), QuantFn(axes, s, neg), "b")


def quant_axis(op, a, k):
    s = a.snap()
    ax = a.axes[k]
    neg = op == "all"
    rest = a.axes[:k] + a.axes[k + 1:]
    if rest:
        def fn(i):
            s2 = IdxSnap(s, k, i)
            return QuantFn((ax,), s2, neg)(())
        return SArr(rest, fn, "b")
    return SArr((), QuantFn((ax,), s, neg), "b")


class IdxSnap(object):
    def __init__(self, s, k, i):
        self.s, self.k, self.i = s, k, i
        self.key = (s.key, k, i)

    def at(self, j):
        return self.s.at(self.i[:self.k] + j + self.i[self.k:])


class QuantFn(object):
    """exists addr: snap(addr) != neg; result xor neg."""
    def __init__(self, axes, snap, neg):
        self.axes, self.snap, self.neg = axes, snap, neg
        self.key = (tuple(a.key for a in axes), snap.key, neg)

    def __call__(self, idx):
        ex = self.exists()
        return (not ex) if self.neg else ex

    def exists(self):
        k = ("exists", self.key)
        if k in CTX.cache:
            return CTX.cache[k]
        # cheap: can it be decided outright?
        want = not self.neg

        def body():
            a = tuple(x.generic() for x in self.axes)
            return V.truth(self.snap.at(a)) == want
        res = CTX.explore(body)
        if not any(res):
            CTX.cache[k] = False
            return False
        allc = all(isinstance(x, CAxis) for x in self.axes)
        # demonic: fork into "one exists" (with a witness) and "none exists" (a universal fact)
        c = CTX.choose(2)
        if c == 0 and CTX.lazy_exists:
            # without a witness (only that there is something at all)
            for x in self.axes:
                if isinstance(x, (BAxis, SubAxis)):
                    CTX.assume_sign(x.size(), POS)
            if len(self.axes) == 1 and want and not isinstance(self.axes[0], CAxis):
                CTX.assume_sign(SubAxis(self.axes[0], self.snap).size(), POS)
            CTX.opaque = True
            CTX.cache[k] = True
            return True
        if c == 0:
            a = tuple(x.generic() for x in self.axes)
            CTX.assume(V.truth(self.snap.at(a)) == want)
            CTX.cache[k] = True
            return True
        sym = [x for x in self.axes if not isinstance(x, CAxis)]
        if len(sym) == 1:
            j = self.axes.index(sym[0])
            conc = [x for x in self.axes if isinstance(x, CAxis)]
            import itertools

            def fact(addr):
                for combo in itertools.product(*[range(x.n) for x in conc]):
                    full = list(combo)
                    full.insert(j, addr)
                    CTX.assume(V.truth(self.snap.at(tuple(full))) != want)
            CTX.add_universal(sym[0], fact)
            _universal_up(sym[0], fact)
        else:
            _multi_universal(self.axes, self.snap, want)
        CTX.cache[k] = False
        return False


def _universal_up(ax, fact):
    """A fact about all members of a selected axis is a conditional fact about its parent."""
    if isinstance(ax, SubAxis):
        def f2(addr, ax=ax, fact=fact):
            if V.truth(ax.mask.at((addr,))):
                fact(addr)
        CTX.add_universal(ax.parent, f2)
        _universal_up(ax.parent, f2)


def _multi_universal(axes, snap, want):
    # remembered; instantiated when all axes have a generic address
    raise Unsupported("quantifier over several symbolic axes")


# ---------------------------------------------------------------- products

def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    ka = a.ndim - 1
    kb = max(b.ndim - 2, 0)
    ax = a.axes[ka]
    if not axis_equiv(ax, b.axes[kb]):
        if isinstance(ax, CAxis) and isinstance(b.axes[kb], CAxis):
            raise ValueError("shapes not aligned")
        bmism(ax, b.axes[kb])
    if not isinstance(ax, CAxis):
        raise Unsupported("dot over a symbolic axis")
    n = ax.n
    sa, sb = a.snap(), b.snap()
    na = a.ndim - 1

    def fn(i):
        ia, ib = i[:na], i[na:]
        r = T.ZERO
        for j in range(n):
            r = V.v_add(r, V.v_mul(sa.at(ia + (j,)), sb.at(ib[:kb] + (j,) + ib[kb:])))
        return r
    return SArr(a.axes[:-1] + b.axes[:kb] + b.axes[kb + 1:], fn, promote(a.kind, b.kind, "i"))


def nonzero(a):
    a = asarray(a)
    if a.ndim == 0:
        raise Unsupported("nonzero of a scalar")
    if a.ndim == 1:
        ax = a.axes[0]
        if isinstance(ax, CAxis):
            idx = concrete_sub(ax, a.snap())
            r = asarray([T.const(k) for k in idx]) if idx else SArr((CAxis(0),), lambda i: T.ZERO, "i")
            r = cast(r, "i") if r.kind != "i" else r
            return (r,)
        b = a if a.kind == "b" else a != 0
        sub = SubAxis(ax, b.snap())
        r = SArr((sub,), lambda i: ax.pos(i[0]), "i")
        r.nz = ("1d", sub)
        return (r,)
    if a.ndim == 2 and isinstance(a.axes[1], CAxis) and not isinstance(a.axes[0], CAxis):
        # (X, k): aligned with X when every row has exactly one true element
        s = a.snap()
        n = a.axes[1].n
        X = a.axes[0]

        def body():
            ad = X.generic()
            return sum(1 for j in range(n) if V.truth(s.at((ad, j))))
        counts = CTX.explore(body)
        if all(c == 1 for c in counts):
            rows = SArr((X,), lambda i: X.pos(i[0]), "i")

            def col(i):
                for j in range(n):
                    if V.truth(s.at((i[0], j))):
                        return T.const(j)
                raise Infeasible()
            return rows, SArr((X,), col, "i")
    b = a if a.kind == "b" else a != 0
    if all(isinstance(x, CAxis) for x in a.axes):
        idx = concrete_nd(a.axes, b.snap())
        return tuple(SArr((CAxis(len(idx)),), lambda i, k=k: T.const(idx[i[0]][k]), "i") for k in range(a.ndim))
    sub = NdSubAxis(b.axes, b.snap())
    out = []
    for k in range(a.ndim):
        def fn(i, k=k):
            return b.axes[k].pos(i[0][1 + k])
        r = SArr((sub,), fn, "i")
        r.nz = ("nd", b)
        out.append(r)
    return tuple(out)


def reshape(a, shape):
    """reshape; concrete runs are regrouped, symbolic axes must survive (or flatten)."""
    shape = [s if not (isinstance(s, SArr) and s.dim is None) else s for s in shape]
    new = []
    for s in shape:
        if isinstance(s, int) and s == -1:
            new.append(None)
        else:
            new.append(axis_of_size(s))
    old = list(a.axes)
    syms = [x for x in old if not isinstance(x, CAxis)]
    if not syms:
        tot = 1
        for x in old:
            tot *= x.n
        known = 1
        for x in new:
            if x is not None:
                if not isinstance(x, CAxis):
                    raise Unsupported("reshape to symbolic size")
                known *= x.n
        if None in new:
            if known == 0 or tot % known:
                if known == 0 and tot == 0:
                    raise ValueError("cannot reshape")
                raise ValueError("cannot reshape array")
            new = [CAxis(tot // known) if x is None else x for x in new]
            known = tot
        if known != tot:
            raise ValueError("cannot reshape array")
        return SArr._view(a, new, ReshapeStep([("g", tuple(x.n for x in old), tuple(x.n for x in new))]))
    # one symbolic axis kept: match it, regroup the concrete axes on each side
    if len(syms) == 1:
        k = old.index(syms[0])
        left, right = old[:k], old[k + 1:]
        cand = [j for j, x in enumerate(new) if x is None or (not isinstance(x, CAxis) and axis_equiv(x, syms[0]))]
        # prefer explicit symbolic
        cs = [j for j in cand if new[j] is not None] or cand
        if len(cs) == 1:
            j = cs[0]
            nl, nr = new[:j], new[j + 1:]
            pl = pr = ql = qr = 1
            for x in left: pl *= x.n
            for x in right: pr *= x.n
            if new[j] is None or True:
                if None in nl and new[j] is not None:
                    raise Unsupported("reshape")
                for x in nl:
                    if x is None or not isinstance(x, CAxis): raise Unsupported("reshape")
                    ql *= x.n
                for x in nr:
                    if x is None or not isinstance(x, CAxis): raise Unsupported("reshape")
                    qr *= x.n
            if pl == ql and pr == qr:
                groups = []
                if left or nl:
                    groups.append(("g", tuple(x.n for x in left), tuple(x.n for x in nl)))
                groups.append(("keep",))
                if right or nr:
                    groups.append(("g", tuple(x.n for x in right), tuple(x.n for x in nr)))
                return SArr._view(a, nl + [syms[0]] + nr, ReshapeStep(groups))
    # full flattening
    if len(new) == 1 and new[0] is None:
        if len(old) == 2:
            return SArr._view(a, [ProdAxis(old[0], old[1])], ProdStep(0))
        if len(old) == 1:
            return a
    raise Unsupported("reshape %r -> %r" % (old, shape))
