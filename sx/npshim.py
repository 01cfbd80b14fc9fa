"""The numpy (and math) interface over symbolic arrays."""
import math as _math
import builtins as _b
import sys
import types
from fractions import Fraction
from . import terms as T
from .terms import Poly
from .ctx import CTX, INF, NAN, Unsupported, Infeasible
from .solve import NEG, ZER, POS
from . import values as V
from . import arr as A
from .arr import SArr, CAxis, BAxis, SubAxis, CatAxis, ProdAxis, asarray, ew1, ew2, reduce_, dot, nonzero, \
    axis_of_size, axis_equiv, broadcast_axes, broadcast_to, dtype_of, promote, reshape as _reshape

pi = SArr.scalar(T.PI, 'f', py=True)
inf = Inf = INF
nan = NaN = NAN
newaxis = None
ndarray = SArr


class _DT(object):
    def __init__(self, k, name):
        self.kind = k
        self.__name__ = name

    def __call__(self, x=0):
        return A.cast(asarray(x), self.kind)


class _BoolT(A.DType):
    def __call__(self, x=False):
        return A.cast(asarray(x), self.kind)


bool = bool_ = bool8 = _BoolT("b")
int_ = int32 = int64 = intp = int = _BoolT("i")
float_ = float64 = double = float = _BoolT("f")
_int, _float, _bool = _b.int, _b.float, _b.bool


def _shape(shape):
    if isinstance(shape, (tuple, list)):
        return [axis_of_size(s) for s in shape]
    return [axis_of_size(shape)]


def _const(axes, v, k):
    return SArr(axes, lambda i: v, k)


def _k(dtype, default="f"):
    k = dtype_of(dtype)
    return default if k is None else k


def _cv(v, k):
    return A.caster("f" if k != "b" else "b", k)(v)


def zeros(shape, dtype=None, order=None):
    k = _k(dtype)
    return _const(_shape(shape), False if k == "b" else T.ZERO, k)


def ones(shape, dtype=None, order=None):
    k = _k(dtype)
    return _const(_shape(shape), True if k == "b" else T.ONE, k)


_junk = [0]


def empty(shape, dtype=None, order=None):
    k = _k(dtype)
    CTX.counter += 1
    nm = "junk%d" % CTX.counter

    def fn(i):
        args, tag = [], ""
        for x in i:
            a, t = A.flat(x)
            args += a
            tag += t
        p = T.app(nm + tag, args)
        if k == "b":
            return CTX.decide(p, POS)
        return p
    return SArr(_shape(shape), fn, k)


def full(shape, v, dtype=None, order=None):
    v = asarray(v)
    k = _k(dtype, v.kind)
    r = empty(shape, A.DType(k))
    r[...] = v
    return r


def _like(a, f, dtype):
    a = asarray(a)
    return f(a.shape, A.DType(a.kind) if dtype is None else dtype)


def zeros_like(a, dtype=None): return _like(a, zeros, dtype)
def ones_like(a, dtype=None): return _like(a, ones, dtype)
def empty_like(a, dtype=None): return _like(a, empty, dtype)
def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape, v, A.DType(a.kind) if dtype is None else dtype)


def eye(n, M=None, dtype=None):
    m = n if M is None else M
    k = _k(dtype)
    one, zero = (True, False) if k == "b" else (T.ONE, T.ZERO)

    def fn(i):
        return one if A.addr_eq(None, i[0], i[1]) else zero
    return SArr((axis_of_size(n), axis_of_size(m)), fn, k)


identity = eye


def array(x, dtype=None, copy=True, ndmin=0):
    r = asarray(x)
    k = dtype_of(dtype)
    if k is not None and k != r.kind:
        r = A.cast(r, k)
    elif r is x or isinstance(x, SArr):
        r = r.copy()
    if r.py:
        r = r.copy()
        r.py = False
    while r.ndim < ndmin:
        r = r[None]
    return r


def asanyarray(x, dtype=None): return asarray(x, dtype_of(dtype))
ascontiguousarray = asanyarray
def asfarray(x): return asarray(x, "f")
def copy(x): return asarray(x).copy()


def _asarray(x, dtype=None):
    return asarray(x, dtype_of(dtype))


def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    if _isint(start) and _isint(step) and _val(start).is_zero() and _val(step) == T.ONE:
        ax = axis_of_size(stop) if (isinstance(stop, SArr) and stop.dim is not None) or _isint(stop) else None
        if ax is not None:
            if isinstance(ax, CAxis):
                return SArr((ax,), lambda i: T.const(i[0]), _k(dtype, "i"))
            r = SArr((ax,), lambda i: ax.pos(i[0]), _k(dtype, "i"))
            return r
    kk = "i" if _b.all(_isint(x) for x in (start, stop, step)) else "f"
    return _range(start, stop, step, _k(dtype, kk))


def _isint(x):
    if isinstance(x, SArr):
        return x.kind == "i"
    return isinstance(x, _int) and not isinstance(x, _bool)


def _val(x):
    x = asarray(x)
    return V.num(x.item())


def _range(start, stop, step, kind="f"):
    """arange with arbitrary step: ceil((stop-start)/step) elements."""
    a, b, s = _val(start), _val(stop), _val(step)
    for z in (a, b, s):
        if isinstance(z, _float):
            raise Unsupported("arange with a special value")
    q = V.v_div(b - a, s)
    if isinstance(q, _float):
        raise ValueError("arange: cannot compute length")
    n = V.v_ceil(q)
    if CTX.decide(n, NEG | ZER):
        ax = CAxis(0)
    elif n.is_const():
        ax = CAxis(_int(n.const()))
    else:
        ax = BAxis(n)
    return SArr((ax,), lambda i: a + ax.pos(i[0]) * s, kind)


def linspace(start, stop, num=50, endpoint=True, dtype=None):
    a, b = _val(start), _val(stop)
    nn = asarray(num)
    ax = axis_of_size(num if not isinstance(num, SArr) else num)
    n = ax.size()
    def fn(i):
        if isinstance(ax, CAxis) and ax.n == 1:
            return a
        d = n - T.ONE if endpoint else n
        if CTX.decide(d, ZER):
            return a
        return a + (b - a) * ax.pos(i[0]) * T.inv(d)
    return SArr((ax,), fn, "f")


class _RC(object):
    def __init__(self, col):
        self.col = col

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, str):
                raise Unsupported("r_ directive")
            if isinstance(k, slice):
                st = 0 if k.start is None else k.start
                sp = 1 if k.step is None else k.step
                if isinstance(sp, complex):
                    parts.append(linspace(st, k.stop, _int(_b.abs(sp))))
                else:
                    parts.append(arange(st, k.stop, sp))
            else:
                x = asarray(k)
                if x.ndim == 0:
                    x = x[None]
                elif self.col and x.ndim == 1:
                    pass
                parts.append(x)
        if self.col:
            ps = []
            for p in parts:
                if p.ndim == 1:
                    p = p[:, None]
                ps.append(p)
            return concatenate(ps, axis=-1)
        return concatenate(parts, axis=0)


r_ = _RC(False)
c_ = _RC(True)


class _S(object):
    def __getitem__(self, k):
        return k


s_ = index_exp = _S()


class _Grid(object):
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        rs = []
        for k in key:
            if isinstance(k.step, complex):
                raise Unsupported("grid with complex step")
            st = 0 if k.start is None else k.start
            sp = 1 if k.step is None else k.step
            rs.append(_range(st, k.stop, sp))
        n = len(rs)
        out = []
        for j, r in enumerate(rs):
            ix = tuple(slice(None) if q == j else None for q in range(n))
            out.append(r[ix])
        if self.sparse:
            return out
        axes = broadcast_axes(*out)
        return asarray([broadcast_to(o, axes).copy() for o in out])


ogrid = _Grid(True)
mgrid = _Grid(False)


def meshgrid(*xs, **kw):
    if kw.get("indexing", "xy") not in ("xy", "ij"):
        raise Unsupported("meshgrid")
    xs = [asarray(x) for x in xs]
    if len(xs) != 2:
        raise Unsupported("meshgrid of %d" % len(xs))
    if kw.get("indexing", "xy") == "xy":
        a, b = xs[0][None, :], xs[1][:, None]
    else:
        a, b = xs[0][:, None], xs[1][None, :]
    axes = broadcast_axes(a, b)
    return [broadcast_to(a, axes).copy(), broadcast_to(b, axes).copy()]


# ---------------------------------------------------------------- joining

def concatenate(arrs, axis=0):
    if isinstance(arrs, SArr):
        arrs = list(arrs)
    if hasattr(arrs, "__sx_concat__"):
        return arrs.__sx_concat__(axis)
    arrs = [asarray(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    nd = arrs[0].ndim
    for a in arrs:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis %= nd
    k = promote(*[a.kind for a in arrs])
    rest = list(arrs[0].axes)
    for a in arrs[1:]:
        for j in range(nd):
            if j != axis and not axis_equiv(a.axes[j], rest[j]):
                x, y = a.axes[j], rest[j]
                if isinstance(x, CAxis) and isinstance(y, CAxis):
                    raise ValueError("all the input array dimensions must match exactly")
                A.bmism(x, y)
    # drop empty concrete parts
    parts = [a for a in arrs if not (isinstance(a.axes[axis], CAxis) and a.axes[axis].n == 0)]
    if not parts:
        parts = [arrs[0]]
    if len(parts) == 1:
        return A.cast(parts[0], k)
    snaps = [p.snap() for p in parts]
    cs = [A.caster(p.kind, k) for p in parts]
    if _b.all(isinstance(p.axes[axis], CAxis) for p in parts):
        ns = [p.axes[axis].n for p in parts]

        def fn(i):
            j = i[axis]
            q = 0
            while j >= ns[q]:
                j -= ns[q]
                q += 1
            return cs[q](snaps[q].at(i[:axis] + (j,) + i[axis + 1:]))
        ax = CAxis(_b.sum(ns))
    else:
        def fn(i):
            _, q, ad = i[axis]
            return cs[q](snaps[q].at(i[:axis] + (ad,) + i[axis + 1:]))
        ax = CatAxis([p.axes[axis] for p in parts])
    axes = rest[:axis] + [ax] + rest[axis + 1:]
    return SArr(axes, fn, k)


def _seq(xs):
    if hasattr(xs, "__sx_concat__"):
        return xs
    return [asarray(x) for x in xs]


def atleast_1d(x):
    x = asarray(x)
    return x if x.ndim else x[None]


def atleast_2d(x):
    x = asarray(x)
    if x.ndim == 0:
        return x[None, None]
    if x.ndim == 1:
        return x[None, :]
    return x


def atleast_3d(x):
    raise Unsupported("atleast_3d")


def hstack(xs):
    if hasattr(xs, "__sx_concat__"):
        return xs.__sx_concat__("h")
    xs = [atleast_1d(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    if hasattr(xs, "__sx_concat__"):
        raise Unsupported("vstack of a symbolic list")
    return concatenate([atleast_2d(x) for x in xs], 0)


row_stack = vstack


def column_stack(xs):
    ys = []
    for x in xs:
        x = asarray(x)
        if x.ndim < 2:
            x = atleast_1d(x)[:, None]
        ys.append(x)
    return concatenate(ys, 1)


def dstack(xs):
    raise Unsupported("dstack")


def stack(xs, axis=0):
    xs = [asarray(x) for x in xs]
    nd = xs[0].ndim + 1
    axis %= nd
    ix = (slice(None),) * axis + (None,)
    return concatenate([x[ix] for x in xs], axis)


def append(a, v, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(v)], 0)
    return concatenate([asarray(a), asarray(v)], axis)


def tile(a, reps):
    a = asarray(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    while a.ndim < len(reps):
        a = a[None]
    reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    s = a.snap()
    axes = []
    modes = []
    for ax, r in zip(a.axes, reps):
        if isinstance(r, SArr) and r.dim is None and r.kind == "i":
            p = r.item()
            if isinstance(p, Poly) and p.is_const():
                r = _int(p.const())
        if isinstance(r, _int) and r == 1:
            axes.append(ax)
            modes.append(0)
        elif isinstance(ax, CAxis) and ax.n == 1:
            axes.append(axis_of_size(r))
            modes.append(1)
        elif isinstance(ax, CAxis) and isinstance(r, _int):
            axes.append(CAxis(ax.n * r))
            modes.append(ax.n)
        else:
            raise Unsupported("tile of a symbolic axis")

    def fn(i):
        return s.at(tuple(x if m == 0 else (0 if m == 1 and not isinstance(x, _int) else (x % m if m > 1 else 0))
                          for x, m in zip(i, modes)))
    return SArr(axes, fn, a.kind)


def repeat(a, reps, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    reps_a = asarray(reps)
    if reps_a.ndim == 0:
        r = reps_a.item()
        axis = axis % a.ndim
        if isinstance(a.axes[axis], CAxis) and a.axes[axis].n == 1:
            return tile(a, tuple(reps if k == axis else 1 for k in range(a.ndim)))
        if r.is_const() and r.const() == 1:
            return a.copy()
        if not r.is_const() or not isinstance(a.axes[axis], CAxis):
            raise Unsupported("repeat")
        r = [_int(r.const())] * a.axes[axis].n
    else:
        if not isinstance(a.axes[axis], CAxis):
            raise Unsupported("repeat on a symbolic axis")
        r = []
        for k in range(reps_a.axes[0].n):
            p = V.num(reps_a.at(k))
            if not p.is_const():
                raise Unsupported("repeat")
            r.append(_int(p.const()))
    src = [k for k, c in enumerate(r) for _ in range(c)]
    s = a.snap()
    axes = a.axes[:axis] + (CAxis(len(src)),) + a.axes[axis + 1:]
    return SArr(axes, lambda i: s.at(i[:axis] + (src[i[axis]],) + i[axis + 1:]), a.kind)


def delete(a, sel, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    sel = asarray(sel)
    ax = a.axes[axis]
    if sel.ndim == 0:
        sel = sel[None]
    if sel.kind == "b":
        raise Unsupported("delete with a mask")
    if isinstance(sel.axes[0], CAxis) and sel.axes[0].n == 0:
        return a.copy()
    if sel.nz is not None and sel.nz[0] == "1d" and axis_equiv(sel.nz[1].parent, ax):
        m = sel.nz[1].mask
        keep = SArr((ax,), lambda i: not V.truth(m.at(i)), "b")
    elif isinstance(sel.axes[0], CAxis):
        ss = sel.snap()
        n = sel.axes[0].n

        def kf(i):
            for j in range(n):
                if A.addr_eq(None, ax.resolve(V.num(ss.at((j,)))), i[0]):
                    return False
            return True
        keep = SArr((ax,), kf, "b")
    elif sel.inverse is not None:
        inv = sel.inverse
        keep = SArr((ax,), lambda i: inv(i[0]) is None, "b")
    else:
        raise Unsupported("delete with a general index array")
    return a[(slice(None),) * axis + (keep,)]


def insert(*a, **k):
    raise Unsupported("insert")


# ---------------------------------------------------------------- shape

def reshape(a, shape, order="C"): return asarray(a).reshape(shape)
def ravel(a, order="C"): return asarray(a).ravel()
def transpose(a, axes=None): return asarray(a).transpose() if axes is None else asarray(a).transpose(*axes)
def squeeze(a, axis=None): return asarray(a).squeeze(axis)
def swapaxes(a, i, j): return asarray(a).swapaxes(i, j)
def shape(a): return asarray(a).shape
def ndim(a): return asarray(a).ndim
def size(a, axis=None): return asarray(a).size if axis is None else asarray(a).shape[axis]


def rollaxis(a, axis, start=0):
    a = asarray(a)
    n = a.ndim
    axis %= n
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    perm = list(range(n))
    perm.remove(axis)
    perm.insert(start, axis)
    return a.transpose(*perm)


def moveaxis(a, src, dst):
    a = asarray(a)
    perm = [k for k in range(a.ndim) if k != src % a.ndim]
    perm.insert(dst % a.ndim, src % a.ndim)
    return a.transpose(*perm)


def expand_dims(a, axis):
    a = asarray(a)
    if axis < 0:
        axis += a.ndim + 1
    return a[(slice(None),) * axis + (None,)]


def broadcast_arrays(*xs, **kw):
    xs = [asarray(x) for x in xs]
    axes = broadcast_axes(*xs)
    return [broadcast_to(x, axes) for x in xs]


def broadcast_to_(a, shape):
    return broadcast_to(asarray(a), _shape(shape))


# ---------------------------------------------------------------- elementwise

def _u1(f, dtype=None):
    class U(object):
        def __call__(self, x, out=None, where=None):
            r = ew1(f, asarray(x), dtype)
            if out is not None:
                out[...] = r
                return out
            return _np(r)
    return U()


def _np(r):
    if r.py:
        s = r.snap()
        r2 = SArr(r.axes, lambda i: s.at(i), r.kind)
        r2.dim = r.dim
        return r2
    return r


def _u2(op):
    class U(object):
        def __call__(self, a, b, out=None):
            r = _np(ew2(op, asarray(a), asarray(b)))
            if out is not None:
                out[...] = r
                return out
            return r

        def outer(self, a, b):
            a, b = asarray(a), asarray(b)
            a2 = a[(Ellipsis,) + (None,) * b.ndim]
            return ew2(op, a2, b)

        def reduce(self, a, axis=0):
            m = {"add": "sum", "mul": "prod", "and": "all", "or": "any", "min": "min", "max": "max"}
            if op not in m:
                raise Unsupported("reduce of %s" % op)
            if isinstance(a, (list, tuple)):
                a = asarray(a)
            return reduce_(m[op], a, axis)

        def accumulate(self, a, axis=0):
            a = asarray(a)
            if op != "add" or a.ndim != 1:
                raise Unsupported("accumulate")
            return cumsum(a)
    return U()


def cumsum(a, axis=None):
    a = asarray(a)
    if a.ndim != 1 or not isinstance(a.axes[0], CAxis):
        raise Unsupported("cumsum")
    s = a.snap()

    def fn(i):
        r = T.ZERO
        for j in range(i[0] + 1):
            r = V.v_add(r, s.at((j,)))
        return r
    return SArr(a.axes, fn, promote(a.kind, "i"))


sqrt = _u1(V.v_sqrt, "f")
sin = _u1(V.v_sin, "f")
cos = _u1(V.v_cos, "f")
tan = _u1(V.v_tan, "f")
arccos = _u1(V.v_arccos, "f")
arcsin = _u1(V.v_arcsin, "f")
ceil = _u1(V.v_ceil, "f")
floor = _u1(V.v_floor, "f")
abs = absolute = fabs = _u1(V.v_abs)
negative = _u1(V.v_neg)
square = _u1(lambda x: V.v_mul(x, x))
isnan = _u1(lambda x: V.isnan(x), "b")
isinf = _u1(lambda x: isinstance(x, _float) and not V.isnan(x), "b")
isposinf = _u1(lambda x: isinstance(x, _float) and V.settle(x) == INF, "b")
isfinite = _u1(lambda x: not isinstance(x, _float), "b")
logical_not = _u1(lambda x: not V.truth(x), "b")
invert = bitwise_not = _u1(lambda x: not V.truth(x), "b")
reciprocal = _u1(lambda x: V.v_div(T.ONE, x))
radians = deg2rad = _u1(lambda x: V.v_mul(x, T.PI.scale(Fraction(1, 180))))


def _vsign(x):
    if isinstance(x, _float):
        return x if x != x else T.const(1 if x > 0 else -1)
    return T.const(V.sgn(x))


sign = _u1(_vsign)
add = _u2("add")
subtract = _u2("sub")
multiply = _u2("mul")
divide = true_divide = _u2("div")
power = _u2("pow")
less = _u2("lt")
less_equal = _u2("le")
greater = _u2("gt")
greater_equal = _u2("ge")
equal = _u2("eq")
not_equal = _u2("ne")
minimum = _u2("min")
maximum = _u2("max")
arctan2 = _u2("arctan2")


def _lg(op):
    u = _u2(op)
    class L(object):
        def __call__(self, a, b, out=None):
            a, b = asarray(a), asarray(b)
            if a.kind != "b":
                a = ew1(V.truth, a, "b")
            if b.kind != "b":
                b = ew1(V.truth, b, "b")
            r = ew2(op, a, b)
            if out is not None:
                out[...] = r
                return out
            return r
        def reduce(self, a, axis=0):
            return u.reduce(a, axis) if op != "xor" else _xor_reduce(a, axis)
    return L()


def _xor_reduce(a, axis):
    a = asarray(a)
    ax = a.axes[axis]
    if not isinstance(ax, CAxis):
        raise Unsupported("xor reduce")
    r = a[(slice(None),) * axis + (0,)]
    for k in range(1, ax.n):
        r = r ^ a[(slice(None),) * axis + (k,)]
    return r


logical_and = bitwise_and = _lg("and")
logical_or = bitwise_or = _lg("or")
logical_xor = bitwise_xor = _lg("xor")
hypot = lambda a, b: sqrt(asarray(a) ** 2 + asarray(b) ** 2)


def clip(a, lo, hi):
    return minimum(maximum(a, lo), hi)


def where(c, *ab):
    c = asarray(c)
    if not ab:
        return nonzero(c)
    a, b = asarray(ab[0]), asarray(ab[1])
    axes = broadcast_axes(c, a, b)
    sc, sa, sb = [broadcast_to(x, axes).snap() for x in (c, a, b)]
    k = promote(a.kind, b.kind)
    ca, cb = A.caster(a.kind, k), A.caster(b.kind, k)
    return SArr(axes, lambda i: ca(sa.at(i)) if V.truth(sc.at(i)) else cb(sb.at(i)), k)


def choose(sel, choices):
    sel = asarray(sel)
    if sel.kind == "f":
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64')")
    if isinstance(choices, SArr):
        ch = [choices[k] for k in range(len(choices))]
    else:
        ch = [asarray(c) for c in choices]
    axes = broadcast_axes(sel, *ch)
    ss = broadcast_to(sel, axes).snap()
    sc = [broadcast_to(c, axes).snap() for c in ch]
    k = promote(*[c.kind for c in ch])

    def fn(i):
        p = V.num(ss.at(i))
        for j in range(len(sc)):
            if CTX.decide(p - T.const(j), ZER):
                return sc[j].at(i)
        raise ValueError("invalid entry in choice array")
    return SArr(axes, fn, k)


def select(conds, choices, default=0):
    r = asarray(default)
    for c, x in list(zip(conds, choices))[::-1]:
        r = where(c, x, r)
    return r


def argmin(a, axis=None):
    a = asarray(a)
    if axis is None and a.ndim == 1:
        axis = 0
    ax = a.axes[axis]
    if not isinstance(ax, CAxis):
        raise Unsupported("argmin over a symbolic axis")
    s = a.snap()

    def fn(i):
        best, bi = V.num(s.at(i[:axis] + (0,) + i[axis:])), 0
        for j in range(1, ax.n):
            v = V.num(s.at(i[:axis] + (j,) + i[axis:]))
            if V.isnan(best):
                break
            if V.isnan(v) or V.v_lt(v, best):
                best, bi = v, j
        return T.const(bi)
    return SArr(a.axes[:axis] + a.axes[axis + 1:], fn, "i")


def argmax(a, axis=None):
    a = asarray(a)
    if a.kind == "b":
        a = A.cast(a, "i")
    return argmin(-a, axis)


def take(a, idx, axis=None): return asarray(a).take(idx, axis)
def compress(m, a, axis=None): return asarray(a).compress(m, axis)
def flatnonzero(a): return nonzero(asarray(a).ravel())[0]
def argwhere(a):
    raise Unsupported("argwhere")
def count_nonzero(a, axis=None):
    a = asarray(a)
    return (a if a.kind == "b" else a != 0).sum(axis)


def sum(a, axis=None, dtype=None, keepdims=False):
    if not isinstance(a, SArr):
        a = asarray(a)
    return reduce_("sum", a, axis, keepdims)


def prod(a, axis=None): return reduce_("prod", asarray(a), axis)
def any(a, axis=None, keepdims=False): return reduce_("any", asarray(a), axis, keepdims)
def all(a, axis=None, keepdims=False): return reduce_("all", asarray(a), axis, keepdims)
def min(a, axis=None, keepdims=False, initial=None): return reduce_("min", asarray(a), axis, keepdims, initial)
def max(a, axis=None, keepdims=False, initial=None): return reduce_("max", asarray(a), axis, keepdims, initial)
amin, amax = min, max
sometrue, alltrue = any, all
def mean(a, axis=None): return asarray(a).mean(axis)


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("stacked matmul")
    return dot(a, b)


def inner(a, b):
    a, b = asarray(a), asarray(b)
    return dot(a, b.T if b.ndim == 2 else b)


def vdot(a, b): return dot(ravel(a), ravel(b))
def outer(a, b):
    return multiply.outer(ravel(a), ravel(b))


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, _int):
        if axes != 1:
            raise Unsupported("tensordot")
        ia, ib = [a.ndim - 1], [0]
    else:
        ia, ib = axes
        ia = [ia] if isinstance(ia, _int) else list(ia)
        ib = [ib] if isinstance(ib, _int) else list(ib)
    if len(ia) != 1:
        raise Unsupported("tensordot over several axes")
    ka, kb = ia[0] % a.ndim, ib[0] % b.ndim
    ax = a.axes[ka]
    if not axis_equiv(ax, b.axes[kb]):
        raise ValueError("shape-mismatch for sum")
    if not isinstance(ax, CAxis):
        raise Unsupported("tensordot over a symbolic axis")
    sa, sb = a.snap(), b.snap()
    na = a.ndim - 1

    def fn(i):
        x, y = i[:na], i[na:]
        r = T.ZERO
        for j in range(ax.n):
            r = V.v_add(r, V.v_mul(sa.at(x[:ka] + (j,) + x[ka:]), sb.at(y[:kb] + (j,) + y[kb:])))
        return r
    return SArr(a.axes[:ka] + a.axes[ka + 1:] + b.axes[:kb] + b.axes[kb + 1:], fn, promote(a.kind, b.kind, "i"))


def einsum(spec, *ops, **kw):
    ops = [asarray(o) for o in ops]
    spec = spec.replace(" ", "")
    if "." in spec:
        # ellipsis: expand
        ins = (spec.split("->")[0]).split(",")
        nell = 0
        for t, o in zip(ins, ops):
            if "..." in t:
                nell = _b.max(nell, o.ndim - (len(t) - 3))
        names = "ABCDEFGH"[:nell]
        ins2 = []
        for t, o in zip(ins, ops):
            if "..." in t:
                n = o.ndim - (len(t) - 3)
                t = t.replace("...", names[nell - n:])
            ins2.append(t)
        if "->" in spec:
            outs = spec.split("->")[1].replace("...", names)
        else:
            cnt = "".join(ins).replace("...", "")
            outs = names + "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
        spec = ",".join(ins2) + "->" + outs
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        c = ins.replace(",", "")
        out = "".join(sorted(ch for ch in set(c) if c.count(ch) == 1))
    ins = ins.split(",")
    axes = {}
    for t, o in zip(ins, ops):
        if len(t) != o.ndim:
            raise ValueError("einstein sum subscripts do not match operand")
        for ch, ax in zip(t, o.axes):
            axes[ch] = A.join_axis(axes[ch], ax) if ch in axes else ax
    summed = [ch for ch in axes if ch not in out]
    for ch in summed:
        if not isinstance(axes[ch], CAxis):
            raise Unsupported("einsum over a symbolic axis")
    snaps = [o.snap() for o in ops]
    import itertools
    ones = [[isinstance(ax, CAxis) and ax.n == 1 for ax in o.axes] for o in ops]

    def fn(i):
        env = dict(zip(out, i))
        r = T.ZERO
        for combo in itertools.product(*[range(axes[ch].n) for ch in summed]):
            env.update(zip(summed, combo))
            t = T.ONE
            for s, names, on in zip(snaps, ins, ones):
                t = V.v_mul(t, s.at(tuple(0 if o1 else env[ch] for ch, o1 in zip(names, on))))
            r = V.v_add(r, t)
        return r
    return SArr([axes[ch] for ch in out], fn, promote(*[o.kind for o in ops] + ["i"]))



def cross(a, b, axis=None, **kw):
    a, b = asarray(a), asarray(b)
    if axis is not None and axis not in (-1,):
        a = moveaxis(a, axis, -1)
        b = moveaxis(b, axis, -1)
    for x in (a, b):
        if not (isinstance(x.axes[-1], CAxis) and x.axes[-1].n == 3):
            raise Unsupported("cross of non-3-vectors")
    axes = broadcast_axes(a, b)
    sa, sb = broadcast_to(a, axes).snap(), broadcast_to(b, axes).snap()

    def fn(i):
        k = i[-1]
        p, q = (k + 1) % 3, (k + 2) % 3
        b0 = i[:-1]
        return V.v_sub(V.v_mul(sa.at(b0 + (p,)), sb.at(b0 + (q,))), V.v_mul(sa.at(b0 + (q,)), sb.at(b0 + (p,))))
    r = SArr(axes, fn, promote(a.kind, b.kind, "i"))
    if axis is not None and axis not in (-1,):
        r = moveaxis(r, -1, axis)
    return r


def seterr(**kw):
    return {"divide": "warn", "over": "warn", "under": "ignore", "invalid": "warn"}


class errstate(object):
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def histogram2d(x, y, bins=10, range=None, normed=None, weights=None, density=None):
    """Constant numbers of samples and bins; the last bin includes its right edge, samples outside are left out."""
    x, y = asarray(x), asarray(y)
    if normed or density or range is None or x.ndim != 1 or y.ndim != 1:
        raise Unsupported("histogram2d")
    if isinstance(bins, (tuple, list)):
        bx, by = bins
    else:
        bx = by = bins
    if not (_isint(bx) and _isint(by)) or not (isinstance(x.axes[0], CAxis) and isinstance(y.axes[0], CAxis)):
        raise Unsupported("histogram2d")
    bx, by = [_int(_val(b).const()) for b in (bx, by)]
    n = x.axes[0].n
    if y.axes[0].n != n:
        raise ValueError("x and y must have the same length.")
    (xl, xh), (yl, yh) = [(_val(r[0]), _val(r[1])) for r in range]
    xs, ys = x.snap(), y.snap()
    w = None if weights is None else asarray(weights)
    ws = None if w is None else w.snap()
    acc = {}

    def place(v, lo, hi, k):
        if V.v_lt(v, lo) or V.v_gt(v, hi):
            return None
        for j in _b.range(k - 1):
            if V.v_lt(v, lo + (hi - lo).scale(Fraction(j + 1, k))):
                return j
        return k - 1
    for i in _b.range(n):
        a = place(xs.at((i,)), xl, xh, bx)
        b = place(ys.at((i,)), yl, yh, by)
        if a is None or b is None:
            continue
        acc[(a, b)] = V.v_add(acc.get((a, b), T.ZERO), T.ONE if ws is None else ws.at((i,)))
    H = SArr((CAxis(bx), CAxis(by)), lambda i: acc.get(tuple(i), T.ZERO), "f")
    return H, linspace(xl_(xl), xl_(xh), bx + 1), linspace(xl_(yl), xl_(yh), by + 1)


def xl_(p):
    return SArr.scalar(p, "f")


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarray(a), asarray(b)
    rt, at = [asarray(x).item() for x in (rtol, atol)]

    def close(x, y):
        x, y = V.num(x), V.num(y)
        if V.isnan(x) or V.isnan(y):
            return (equal_nan is True) and V.isnan(x) and V.isnan(y)
        if isinstance(x, _float) or isinstance(y, _float):
            return isinstance(x, _float) and isinstance(y, _float) and V.settle(x) == V.settle(y)
        return V.v_le(V.v_abs(V.v_sub(x, y)), V.v_add(V.num(at), V.v_mul(V.num(rt), V.v_abs(y))))
    axes = broadcast_axes(a, b)
    sa, sb = [broadcast_to(x, axes).snap() for x in (a, b)]
    return SArr(axes, lambda i: close(sa.at(i), sb.at(i)), "b")


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return V.truth(isclose(a, b, rtol, atol, equal_nan).all().item())


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.axes, b.axes):
        if not A.axis_equiv(x, y):
            if isinstance(x, CAxis) and isinstance(y, CAxis):
                return False
            raise Unsupported("array_equal of axes of unknown lengths")
    return V.truth((a == b).all().item())


def copysign(a, b):
    a, b = asarray(a), asarray(b)
    axes = broadcast_axes(a, b)
    sa, sb = [broadcast_to(x, axes).snap() for x in (a, b)]

    def fn(i):
        x, y = V.v_abs(V.num(sa.at(i))), V.num(sb.at(i))
        # the sign of a zero is not modelled: taken as positive
        return V.v_neg(x) if not V.isnan(y) and V.v_lt(y, T.ZERO) else x
    return SArr(axes, fn, "f")


def putmask(a, mask, values):
    values = asarray(values)
    if values.ndim:
        raise Unsupported("putmask with several values")
    a[mask] = values


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = globals()["where"](where, src, dst)


def flip(m, axis=None):
    m = asarray(m)
    ks = range(m.ndim) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    ks = [k % m.ndim for k in ks]
    return m[tuple(slice(None, None, -1) if k in ks else slice(None) for k in range(m.ndim))]


def flipud(m): return flip(m, 0)
def fliplr(m): return flip(m, 1)
def isscalar(x): return not isinstance(x, (list, tuple)) and (not isinstance(x, SArr) or (not x.axes))


def _no(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


unique, sort, argsort, lexsort, searchsorted, digitize = [_no(n) for n in
                                                          ("unique", "sort", "argsort", "lexsort", "searchsorted", "digitize")]


# ---------------------------------------------------------------- linalg

class LinAlgError(Exception):
    pass


def _inv(M):
    M = asarray(M)
    if M.ndim != 2 or not isinstance(M.axes[0], CAxis) or not isinstance(M.axes[1], CAxis) or M.axes[0].n != M.axes[1].n:
        raise Unsupported("inverse of a stacked or symbolic matrix")
    n = M.axes[0].n
    s = M.snap()

    memo_key = ("linv", s.key)

    def get():
        r = CTX.cache.get(memo_key)
        if r is None:
            r = mat_inverse([[V.num(s.at((i, j))) for j in range(n)] for i in range(n)])
            CTX.cache[memo_key] = r
        return r
    get()    # singularity is decided here
    return SArr(M.axes, lambda i: get()[i[0]][i[1]], "f")


def mat_mul(X, Y):
    n = len(X)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            r = T.ZERO
            for k in range(n):
                r = r + X[i][k] * Y[k][j]
            row.append(r)
        out.append(row)
    return out


def mat_inverse(X):
    n = len(X)
    for r in X:
        for x in r:
            if isinstance(x, _float):
                raise Unsupported("inverse of a matrix with special values")
    # rigid / orthogonal candidates, verified by multiplication
    cands = []
    if n == 4:
        R = [[X[i][j] for j in range(3)] for i in range(3)]
        Rt = [[R[j][i] for j in range(3)] for i in range(3)]
        t = [X[i][3] for i in range(3)]
        mt = []
        for i in range(3):
            r = T.ZERO
            for j in range(3):
                r = r - Rt[i][j] * t[j]
            mt.append(r)
        cands.append([Rt[i] + [mt[i]] for i in range(3)] + [[T.ZERO, T.ZERO, T.ZERO, T.ONE]])
    cands.append([[X[j][i] for j in range(n)] for i in range(n)])
    for c in cands:
        P = mat_mul(X, c)
        if _b.all(P[i][j] == (T.ONE if i == j else T.ZERO) for i in range(n) for j in range(n)):
            return c
    # adjugate / determinant
    det = _det(X)
    if CTX.decide(det, ZER):
        raise LinAlgError("Singular matrix")
    idet = T.inv(det)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            minor = [[X[a][b] for b in range(n) if b != i] for a in range(n) if a != j]
            m = _det(minor)
            if (i + j) % 2:
                m = -m
            row.append(m * idet)
        out.append(row)
    return out



def _det(X):
    n = len(X)
    if n == 0:
        return T.ONE
    if n == 1:
        return X[0][0]
    r = T.ZERO
    for j in range(n):
        if X[0][j].is_zero():
            continue
        m = _det([[X[a][b] for b in range(n) if b != j] for a in range(1, n)])
        t = X[0][j] * m
        r = r + t if j % 2 == 0 else r - t
    return r


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None:
        raise Unsupported("norm with order")
    x = asarray(x)
    return sqrt(reduce_("sum", x * x, axis, keepdims))


def _det_(M):
    M = asarray(M)
    n = M.axes[0].n
    s = M.snap()
    return SArr((), lambda i: _det([[V.num(s.at((a, b))) for b in range(n)] for a in range(n)]), "f")


def _solve(a, b):
    return dot(_inv(a), b)


class _Mod(types.ModuleType):
    def __init__(self, name, d):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(d)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


linalg = _Mod("numpy.linalg", {"inv": _inv, "norm": _norm, "LinAlgError": LinAlgError, "det": _det_, "solve": _solve,
                               "pinv": _inv})


# ---------------------------------------------------------------- random

def _uniform(low=0.0, high=1.0, size=None):
    CTX.counter += 1
    nm = "rnd%d" % CTX.counter
    lo, hi = _val(low), _val(high)
    axes = [] if size is None else _shape(size)

    def fn(i):
        args, tag = [], ""
        for x in i:
            a, t = A.flat(x)
            args += a
            tag += t
        p = T.app(nm + tag, args)
        CTX.assume_sign(p - lo, POS | ZER)
        CTX.assume_sign(hi - p, POS if not (hi - lo).is_zero() else POS | ZER)
        return p
    return SArr(axes, fn, "f")


def _rand(*shape):
    return _uniform(size=shape if shape else None)


random = _Mod("numpy.random", {"uniform": _uniform, "rand": _rand, "random": lambda size=None: _uniform(size=size),
                               "random_sample": lambda size=None: _uniform(size=size), "seed": lambda *a: None})

_exports = dict((k, v) for k, v in list(globals().items()) if not k.startswith("_"))
for _n in ("T", "V", "A", "CTX", "Poly", "SArr", "CAxis", "BAxis", "SubAxis", "CatAxis", "ProdAxis", "Unsupported",
           "Infeasible", "NEG", "ZER", "POS", "INF", "NAN", "Fraction", "sys", "types", "ew1", "ew2", "reduce_", "promote",
           "axis_of_size", "axis_equiv", "broadcast_axes", "dtype_of", "HIST", "mat_mul", "mat_inverse"):
    _exports.pop(_n, None)
_exports["broadcast_to"] = broadcast_to_
_exports["asarray"] = _asarray
_exports["dot"] = dot
_exports["nonzero"] = nonzero

numpy = _Mod("numpy", _exports)
numpy.linalg = linalg
numpy.random = random


# ---------------------------------------------------------------- math

def _m1(f):
    def g(x):
        x = asarray(x)
        r = SArr.scalar(f(x.item()), "f", py=True)
        return r
    return g


math = _Mod("math", {
    "pi": pi,
    "sin": _m1(V.v_sin), "cos": _m1(V.v_cos), "tan": _m1(lambda x: V.v_tan(x, True)),
    "sqrt": _m1(lambda x: V.v_sqrt(x, True)), "acos": _m1(lambda x: V.v_arccos(x, True)),
    "asin": _m1(lambda x: V.v_arcsin(x, True)),
    "atan2": lambda y, x: SArr.scalar(V.v_arctan2(asarray(y).item(), asarray(x).item()), "f", py=True),
    "fabs": _m1(V.v_abs), "ceil": _m1(V.v_ceil), "floor": _m1(V.v_floor),
    "hypot": lambda x, y: SArr.scalar(V.v_sqrt(V.v_add(V.v_mul(asarray(x).item(), asarray(x).item()),
                                                     V.v_mul(asarray(y).item(), asarray(y).item()))), "f", py=True),
    "radians": _m1(lambda x: V.v_mul(x, T.PI.scale(Fraction(1, 180)))),
    "pow": lambda x, y: asarray(x) ** y,
    "inf": INF, "nan": NAN,
    "isnan": lambda x: isinstance(asarray(x).item(), _float) and asarray(x).item() != asarray(x).item(),
    "isinf": lambda x: isinstance(asarray(x).item(), _float) and asarray(x).item() == asarray(x).item(),
})
