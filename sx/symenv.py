"""The symbolic environment of a contract."""
import traceback
from fractions import Fraction
from . import terms as T
from .terms import Poly
from . import values as V
from . import arr as A
from .arr import SArr, CAxis, BAxis, SubAxis, CatAxis
from . import npshim
from . import loader
from . import loops
from .ctx import CTX, INF, NAN, Infeasible, Unsupported, SpecSkip
from .solve import NEG, ZER, POS


def el(x):
    if isinstance(x, SV):
        return x.v
    if isinstance(x, SArr):
        return x.item()
    return V.lift(x)


class SV(object):
    """A specification value."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __add__(self, o): return SV(V.v_add(self.v, el(o)))
    __radd__ = __add__
    def __sub__(self, o): return SV(V.v_sub(self.v, el(o)))
    def __rsub__(self, o): return SV(V.v_sub(el(o), self.v))
    def __mul__(self, o): return SV(V.v_mul(self.v, el(o)))
    __rmul__ = __mul__
    def __truediv__(self, o): return SV(V.v_div(self.v, el(o)))
    def __rtruediv__(self, o): return SV(V.v_div(el(o), self.v))
    def __neg__(self): return SV(V.v_neg(self.v))
    def __pow__(self, n): return SV(V.v_pow(self.v, V.lift(n)))
    def __lt__(self, o): return V.v_lt(self.v, el(o))
    def __le__(self, o): return V.v_le(self.v, el(o))
    def __gt__(self, o): return V.v_gt(self.v, el(o))
    def __ge__(self, o): return V.v_ge(self.v, el(o))
    def __eq__(self, o): return V.v_eq(self.v, el(o))
    def __ne__(self, o): return V.v_ne(self.v, el(o))
    def __bool__(self): return V.truth(self.v)
    __hash__ = None

    def __repr__(self):
        return "SV(%r)" % (self.v,)


class Idx(object):
    def __init__(self, axis, addr):
        self.axis, self.addr = axis, addr


class SymEnv(object):
    mode = "sym"
    sym = True

    def __init__(self, prefix, tier="quick"):
        self.prefix = prefix
        self.tier = tier
        self.np = npshim.numpy
        self.math = npshim.math
        self.pi = SV(T.PI)
        self.inputs = {}

    # -------------------------------------------------------- the code
    def mod(self, name):
        return loader.module(name)

    # -------------------------------------------------------- inputs
    def _nm(self, name):
        return self.prefix + name

    def _constrain(self, p, pos=False, nonneg=False, nonzero=False, lo=None, hi=None):
        if pos:
            CTX.assume_sign(p, POS)
        if nonneg:
            CTX.assume_sign(p, POS | ZER)
        if nonzero:
            CTX.assume_sign(p, POS | NEG)
        if lo is not None:
            CTX.assume_sign(p - el(lo), POS | ZER)
        if hi is not None:
            CTX.assume_sign(el(hi) - p, POS | ZER)

    def real(self, name, **kw):
        p = T.var(self._nm(name))
        self._constrain(p, **kw)
        return SArr.scalar(p, "f", py=True)

    def choice(self, name, opts):
        """One of finitely many alternatives."""
        k = CTX.choose(len(opts))
        CTX.choices[name] = k
        return opts[k]

    def count(self, name, min=0):
        p = T.var(self._nm(name), "I")
        CTX.assume_sign(p - T.const(min), POS | ZER)
        ax = BAxis(p)
        return SArr.scalar(p, "i", py=True, dim=ax)

    def axis_of(self, n):
        if isinstance(n, A.Axis):
            return n
        return A.axis_of_size(n)

    def array(self, name, shape, kind="f", **kw):
        nm = self._nm(name)
        axes = [self.axis_of(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,))]

        def fn(i):
            args, tag = [], ""
            for x in i:
                a, t = A.flat(x)
                args += a
                tag += t
            p = T.app(nm + tag, args)
            if kind == "b":
                return CTX.decide(p, POS)
            self._constrain(p, **kw)
            return p
        return SArr(axes, fn, kind)

    def ufun(self, name, x, kind="f", of=None, **kw):
        """An unknown function (the of-th of a family) applied elementwise."""
        nm = self._nm(name)
        fam = []
        if of is not None:
            fam, tag = A.flat(of.addr) if isinstance(of, Idx) else A.flat(of)
            nm += tag
        x = A.asarray(x)
        s = x.snap()

        def fn(i):
            v = V.num(s.at(i))
            if isinstance(v, float):
                raise Unsupported("unknown function of a special value")
            p = T.app(nm, fam + [v])
            if kind == "b":
                return CTX.decide(p, POS)
            if kind == "t" and not CTX.decide(T.app(nm + ".hit", fam + [v]), POS):
                return INF
            self._constrain(p, **kw)
            return p
        return SArr(x.axes, fn, "f" if kind == "t" else kind)

    def unit(self, name, n=None):
        """A unit vector (3,), or n of them (3,n)."""
        nm = self._nm(name)
        axes = [CAxis(3)] + ([] if n is None else [self.axis_of(n)])

        def fn(i):
            args = []
            for x in i[1:]:
                args += A.flat(x)[0]
            ps = [T.app("%s.%d" % (nm, k), args) if args else T.var("%s.%d" % (nm, k)) for k in range(3)]
            T.unit_rule(ps)
            return ps[i[0]]
        return SArr(axes, fn, "f")

    def vector(self, name, n=None, **kw):
        nm = self._nm(name)
        axes = [CAxis(3)] + ([] if n is None else [self.axis_of(n)])

        def fn(i):
            args = []
            for x in i[1:]:
                args += A.flat(x)[0]
            p = T.app("%s.%d" % (nm, i[0]), args) if args else T.var("%s.%d" % (nm, i[0]))
            self._constrain(p, **kw)
            return p
        return SArr(axes, fn, "f")

    def incidence(self, n, one=False, name=""):
        """Unit directions and unit normals (3,n), without loss of generality in the form
        N = Q e_z, d = Q d' with rotations Q (one for all rays, or one per ray).
        Returns d, N and d' (d'_z is the cosine)."""
        nm = self._nm(name)
        ax = self.axis_of(n)

        def frame(addr):
            args = [] if one else A.flat(addr)[0]
            M = [[T.app("%sQ.r%d%d" % (nm, i, j), args) if args else T.var("%sQ.r%d%d" % (nm, i, j))
                  for j in range(3)] for i in range(3)]
            T.so3_rules(M)
            return M

        def loc(addr):
            args = A.flat(addr)[0]
            ps = [T.app("%sdl.%d" % (nm, k), args) for k in (2, 1, 0)]
            T.unit_rule(ps)
            return ps[::-1]

        def dfn(i):
            M, l = frame(i[1]), loc(i[1])
            return M[i[0]][0] * l[0] + M[i[0]][1] * l[1] + M[i[0]][2] * l[2]

        d = SArr((CAxis(3), ax), dfn, "f")
        N = SArr((CAxis(3), CAxis(1) if one else ax), lambda i: frame(i[1])[i[0]][2], "f")
        dl = SArr((CAxis(3), ax), lambda i: loc(i[1])[i[0]], "f")
        return d, N, dl

    def placed(self, n, near=False, axial=False, tag=""):
        """A rigid frame and a bundle of rays, given by local coordinates: d = R dl, v = R vl + t."""
        return Placed(self, n, axial, tag)

    def rotation(self, name):
        nm = self._nm(name)
        M = [[T.var("%s.r%d%d" % (nm, i, j)) for j in range(3)] for i in range(3)]
        T.so3_rules(M)
        return SArr((CAxis(3), CAxis(3)), lambda i: M[i[0]][i[1]], "f")

    def rigid(self, name):
        """A homogeneous rigid transform; also returns its rotation and translation."""
        R = self.rotation(name)
        t = self.vector(name + ".t")
        sR, st = R.snap(), t.snap()

        def fn(i):
            if i[0] == 3:
                return T.ONE if i[1] == 3 else T.ZERO
            return st.at((i[0],)) if i[1] == 3 else sR.at(i)
        return SArr((CAxis(4), CAxis(4)), fn, "f"), R, t

    def matrix4(self, name):
        """A general affine homogeneous transform (last row 0 0 0 1)."""
        return self._affine(name)

    def _affine(self, name):
        nm = self._nm(name)

        def fn(i):
            if i[0] == 3:
                return T.ONE if i[1] == 3 else T.ZERO
            return T.var("%s.m%d%d" % (nm, i[0], i[1]))
        return SArr((CAxis(4), CAxis(4)), fn, "f")

    def selector(self, name, n, m=None, distinct=False):
        """An index array into an axis of length n."""
        nm = self._nm(name)
        ax = self.axis_of(n)
        m = self.count(name + ".len") if m is None else m
        sx = self.axis_of(m)

        def fn(i):
            p = T.app(nm, A.flat(i[0])[0], "I")
            CTX.assume_sign(p, POS | ZER)
            CTX.assume_sign(ax.size() - p - T.ONE, POS | ZER)
            if distinct and not isinstance(i[0], (tuple, int)):
                CTX.cache[(nm, "selects", p)] = i[0]
            return p
        r = SArr((sx,), fn, "i")
        if distinct:
            T_inv = nm + "^-1"

            def inverse(addr):
                if (nm, "selects", addr) in CTX.cache:
                    return CTX.cache[(nm, "selects", addr)]
                # the position selecting addr, if any
                q = T.app(T_inv, A.flat(addr)[0], "I")
                if not (CTX.decide(q, POS | ZER) and CTX.decide(sx.size() - q - T.ONE, POS | ZER)):
                    return None
                CTX.assume_sign(T.app(nm, [q], "I") - addr, ZER)
                return q
            r.inverse = inverse
        return r

    # -------------------------------------------------------- arrays from spec values
    def arr(self, f, shape, kind="f"):
        """Array whose element at idx is f(idx...) (spec values)."""
        axes = [self.axis_of(s) for s in shape]

        def fn(i):
            r = f(*[k if isinstance(k, int) else Idx(ax, k) for k, ax in zip(i, axes)])
            return r if isinstance(r, bool) else el(r)
        return SArr(axes, fn, kind)

    def scalar(self, x):
        return SArr.scalar(el(x), "f", py=True)

    def s(self, x):
        """Spec value of a scalar."""
        return SV(V.num(el(x)))

    # -------------------------------------------------------- reading
    def at(self, a, *idx):
        a = A.asarray(a)
        if len(idx) != a.ndim:
            CTX.fail("shape: %d indices expected, array has %d axes" % (len(idx), a.ndim))
            raise SpecSkip()
        out = []
        for ax, i in zip(a.axes, idx):
            out.append(self._addr(ax, i))
        return SV(a.snap().at(tuple(out)))

    def _addr(self, ax, i):
        if isinstance(i, int):
            return ax.resolve(T.const(i))
        if isinstance(i, SV):
            return ax.resolve(i.v)
        if A.axis_equiv(ax, i.axis):
            return i.addr
        if isinstance(i.addr, int):
            return ax.resolve(T.const(i.addr))
        if isinstance(i.axis, (SubAxis, CatAxis)):
            a = A.convert(i.addr, i.axis, ax)
            if a is not None:
                return a
        return ax.resolve(i.axis.pos(i.addr))

    def bool_at(self, a, *idx):
        return V.truth(self.at(a, *idx).v)

    def axis(self, a, k):
        return A.asarray(a).axes[k]

    def indices(self, a):
        """All indices of an array of constant shape."""
        import itertools
        return list(itertools.product(*[range(ax.n) for ax in A.asarray(a).axes]))

    def size(self, a, k):
        return SV(A.asarray(a).axes[k].size())

    def ndim(self, a):
        return A.asarray(a).ndim

    # -------------------------------------------------------- axes
    def rank(self, mask, i):
        """Index, in an array compressed by mask, of the element i of the axis (mask[i] holds)."""
        s = A.asarray(mask)
        if isinstance(s.axes[0], CAxis):
            a = self._addr(s.axes[0], i)
            return sum(1 for k in range(a) if V.truth(s.at(k)))
        sub = SubAxis(s.axes[0], s.snap())
        return Idx(sub, self._addr(s.axes[0], i))

    def sub(self, mask):
        """The axis selected by a mask."""
        s = A.asarray(mask)
        if isinstance(s.axes[0], CAxis):
            return CAxis(sum(1 for k in range(s.axes[0].n) if V.truth(s.at(k))))
        return SubAxis(s.axes[0], s.snap())

    def cat(self, axes):
        axes = [self.axis_of(a) for a in axes]
        return cat_axis(axes)

    def cat_idx(self, axes, k, i):
        """Index, in a concatenation of axes, of index i of part k."""
        axes = [self.axis_of(a) for a in axes]
        keep = [j for j, a in enumerate(axes) if not (isinstance(a, CAxis) and a.n == 0)]
        ax = cat_axis(axes)
        if isinstance(ax, CAxis):
            off = sum(a.n for a in axes[:k])
            return off + self._addr(axes[k], i)
        if len(keep) == 1:
            return Idx(ax, self._addr(axes[k], i))
        return Idx(ax, ("c", keep.index(k), self._addr(axes[k], i)))

    def same_axis(self, name, a, b):
        """Obligation: two axes have the same length (and elements, for selections)."""
        a, b = self.axis_of(a), self.axis_of(b)
        if A.axis_equiv(a, b) or (isinstance(a, (SubAxis, CatAxis)) or isinstance(b, (SubAxis, CatAxis))) \
                and A.leaf_match(a, b) is not None:
            CTX.discharged(name)
            return True
        if isinstance(a, CAxis) and isinstance(b, CAxis):
            CTX.fail(name, "lengths %d and %d" % (a.n, b.n))
        else:
            CTX.prove(name, a.size() - b.size(), ZER)
        raise SpecSkip()

    def shape_is(self, name, a, shape):
        a = A.asarray(a)
        if a.ndim != len(shape):
            CTX.fail(name, "%d axes instead of %d" % (a.ndim, len(shape)))
            raise SpecSkip()
        for k, (ax, s) in enumerate(zip(a.axes, shape)):
            self.same_axis(name, ax, s)
        if not shape:
            CTX.discharged(name)

    def axes_same(self, a, b):
        return A.axis_equiv(self.axis_of(a), self.axis_of(b))

    def length_is(self, name, x, n):
        """Obligation: a length reported by the code is that of an axis."""
        d = getattr(x, "dim", None)
        if d is not None and A.axis_equiv(d, self.axis_of(n)):
            CTX.discharged(name)
            return True
        return self._cmp(name, x, SV(self.axis_of(n).size()), ZER)

    def length(self, n):
        """A dimension, comparable with the code's own."""
        return A.dim_value(self.axis_of(n))

    def number(self, n):
        return SArr.scalar(self.axis_of(n).size(), "i", py=True)

    def first_of(self, axis, j):
        """Index, in an array whose axis is that of j or a concatenation starting with it, of j."""
        if isinstance(axis, CatAxis):
            return Idx(axis, ("c", 0, self._addr(axis.parts[0], j)))
        return j

    def member_mask(self, sel, n):
        """Which indices below n a distinct selector contains."""
        inv = sel.inverse
        return SArr((self.axis_of(n),), lambda i: inv(i[0]) is not None, "b")

    def angle(self, name, obtuse=False):
        """An angle between 0 and pi/2 (or pi)."""
        a = self.real(name)
        p = a.item()
        CTX.assume_sign(p, POS | ZER)
        CTX.assume_sign(T.PI.scale(Fraction(1, 1 if obtuse else 2)) - p, POS | ZER)
        s, c = T.sincos(p)
        CTX.assume_sign(s, POS | ZER)
        if not obtuse:
            CTX.assume_sign(c, POS | ZER)
        return a

    # -------------------------------------------------------- logic
    def forall(self, ax, fn):
        ax = self.axis_of(ax)
        if isinstance(ax, CAxis):
            for k in range(ax.n):
                CTX.explore(lambda k=k: guarded(lambda: fn(k)))
            return

        def body():
            i = Idx(ax, ax.generic())
            guarded(lambda: fn(i))
        CTX.explore(body)

    def int_vars(self, *terms):
        """The integer variables in the given values (candidate witnesses)."""
        seen, out = set(), []

        def walk(x):
            if isinstance(x, T.Poly):
                for m in x.d:
                    for a, e in m:
                        at = T.ATOMS.list[a]
                        if a in seen:
                            continue
                        seen.add(a)
                        if at.kind == "var" and at.sort == "I":
                            out.append(SV(T.atom_poly(at)))
                        for y in at.args or ():
                            walk(y)
            elif isinstance(x, T.Atom):
                walk(T.atom_poly(x))
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
        for t in terms:
            walk(el(t))
        return out

    def exists(self, name, cands, pred):
        """Some candidate satisfies pred, a list of (relation, a, b)."""
        cands = list(cands)
        for fits in (lambda p: CTX.canon(p)[1].is_zero(), lambda p: CTX.entails(p, ZER)):
            for c in cands:
                ok = True
                for rel, a, b in pred(*c):
                    if rel == "eq":
                        x, y = V.num(el(a)), V.num(el(b))
                        if isinstance(x, float) or isinstance(y, float) or not fits(x - y):
                            ok = False
                            break
                if ok:
                    for rel, a, b in pred(*c):
                        getattr(self, rel)(name, a, b)
                    return
        CTX.opaque = True
        CTX.fail(name, "no witness found")

    def one(self, x):
        """An array with just this value."""
        v = el(x)
        return SArr((CAxis(1),), lambda i: v, "f")

    def which(self, x, m):
        """The one of 0..m-1 that x is."""
        p = V.num(el(x))
        if isinstance(p, float):
            raise SpecSkip()
        for k in range(m):
            if CTX.decide(p - T.const(k), ZER):
                CTX.discharged("value among 0..%d" % (m - 1))
                return k
        CTX.fail("value among 0..%d" % (m - 1))
        raise SpecSkip()

    def index_at(self, a, *i):
        return self.at(a, *i)

    def descend(self, b, a, p):
        """Indices into b derived (by selection, repetition, concatenation) from index p of a."""
        target = A.asarray(a).axes[0]
        addr = self._addr(target, p)
        chain = {target.key: addr}
        t, ad = target, addr
        while isinstance(t, CatAxis):
            t, ad = t.parts[ad[1]], ad[2]
            chain[t.key] = ad
        ax0 = A.asarray(b).axes[0]

        def desc(ax):
            if ax.key in chain:
                return [chain[ax.key]]
            out = []
            if isinstance(ax, CatAxis):
                out = [("c", k, x) for k, q in enumerate(ax.parts) for x in desc(q)]
            elif isinstance(ax, SubAxis):
                out = [x for x in desc(ax.parent) if V.truth(ax.mask.at((x,)))]
            for x in out:
                A.instantiate(ax, x)
            return out
        return [Idx(ax0, x) for x in desc(ax0)]

    def ordered(self, name, a, pred):
        """Obligation: elements with the property come before those without."""
        a = A.asarray(a)
        ax, sn = a.axes[0], a.snap()
        if isinstance(ax, CAxis):
            fl = [bool(pred(SV(sn.at((k,))))) for k in range(ax.n)]
            return self.true(name, fl == sorted(fl, reverse=True))
        seen_without = False
        for r, b, m in A.leaves(ax):
            def body():
                x = r.generic()
                if not m(x):
                    raise Infeasible()
                A.instantiate(ax, b(x))
                return bool(pred(SV(sn.at((b(x),)))))
            vals = set(CTX.explore(body))
            if True in vals and (seen_without or len(vals) > 1):
                CTX.opaque = True
                return CTX.fail(name)
            seen_without = seen_without or False in vals
        CTX.discharged(name)

    def case(self, fn):
        """Run fn on all paths of its own."""
        CTX.explore(lambda: guarded(fn))

    def off(self, a, b):
        pass

    def assume(self, b):
        if not b:
            raise Infeasible()

    def assume_all(self, n, fn):
        """fn(i) holds at every i."""
        ax = self.axis_of(n)
        if isinstance(ax, CAxis):
            for k in range(ax.n):
                self.assume(fn(k))
            return

        def fact(a):
            self.assume(fn(Idx(ax, a)))
        CTX.add_universal(ax, fact)

    def every(self, n, fn):
        """Does fn(i) hold at every i?"""
        ax = self.axis_of(n)
        if isinstance(ax, CAxis):
            return all(fn(k) for k in range(ax.n))
        if CTX.choose(2) == 0:
            self.assume_all(ax, fn)
            return True
        self.assume(not fn(Idx(ax, ax.generic())))
        return False

    def item(self, lst, i):
        """Element i of a list."""
        if isinstance(lst, loops.SymSeq):
            return lst.item(self._addr(lst.axis, i))
        if isinstance(i, Idx):
            i = i.axis.resolve(i.axis.pos(i.addr)) if not isinstance(i.addr, int) else i.addr
            if isinstance(i, T.Poly):
                for k in range(len(lst)):
                    if CTX.decide(i - T.const(k), ZER):
                        return lst[k]
                CTX.fail("one element per item", "%d elements" % len(lst))
                raise SpecSkip()
        return lst[i]

    def probe(self, lst, i):
        """Element i of a list, to be used in ways that change it."""
        if isinstance(lst, loops.SymSeq) and lst.only is not None:
            return lst.only.private(self._addr(lst.axis, i))
        return self.item(lst, i)

    def joined(self, lst, sizes, k, i, j=None):
        """Element i of the k-th of the runs (of the given sizes) a list consists of; with j = (c, m) element c of
        the i-th group of m."""
        if not isinstance(lst, loops.SymSeq):
            if all(isinstance(self.axis_of(n), CAxis) for n in sizes):
                n = [self.axis_of(n).n * (j[1] if j else 1) for n in sizes]
                i = i if isinstance(i, int) else i.addr
                return lst[sum(n[:k]) + (i * j[1] + j[0] if j else i)]
            raise Unsupported("structure of a list")
        if len(lst.parts) != len(sizes) or not isinstance(lst.parts[k], loops.SymList):
            raise Unsupported("structure of a list")
        p = lst.parts[k]
        if j is None or j[1] == 1:
            return p.item(self._addr(p.axis, i))
        if not isinstance(p.axis, A.ProdAxis):
            raise Unsupported("structure of a list")
        return p.item(("p", self._addr(p.axis.a, i), j[0]))

    def list_of(self, n, fn):
        """A list of n elements, the i-th one made by fn(i)."""
        ax = self.axis_of(n)
        if isinstance(ax, CAxis):
            return [fn(k) for k in range(ax.n)]
        return loops.SymSeq([loops.SymList(ax, lambda a: fn(Idx(ax, a)))])

    def probe_at(self, lst, i, k=0):
        """Element i of the k-th run of a list: of the list_of it was made from, or of what was added to it."""
        if isinstance(lst, loops.SymSeq):
            p = lst.parts[k] if k < len(lst.parts) else []
            if isinstance(p, loops.SymList):
                return p.private(self._addr(p.axis, i))
            return p[i]
        return lst[i]

    def frames(self, name, n):
        """n homogeneous transforms (n,4,4)."""
        nm = self._nm(name)

        def fn(i):
            if i[1] == 3:
                return T.ONE if i[2] == 3 else T.ZERO
            return T.app("%s.m%d%d" % (nm, i[1], i[2]), A.flat(i[0])[0])
        return SArr((self.axis_of(n), CAxis(4), CAxis(4)), fn, "f")

    def pick(self, a, i):
        """a[i]"""
        return A.index_addr(a, self._addr(a.axes[0], i))

    def list_len(self, lst):
        return SV(lst.size()) if isinstance(lst, loops.SymSeq) else SV(T.const(len(lst)))

    def skip(self):
        raise SpecSkip()

    def sqrt(self, x): return SV(V.v_sqrt(el(x)))
    def abs(self, x): return SV(V.v_abs(el(x)))
    def sin(self, x): return SV(V.v_sin(el(x)))
    def cos(self, x): return SV(V.v_cos(el(x)))
    def ceil(self, x): return SV(V.v_ceil(el(x)))
    def isinf(self, x): return isinstance(el(x), float) and V.settle(el(x)) == INF
    def isnan(self, x): return V.isnan(el(x))
    def finite(self, x): return not isinstance(el(x), float)

    # -------------------------------------------------------- obligations
    def _cmp(self, name, a, b, mask):
        a, b = V.num(el(a)), V.num(el(b))
        if isinstance(a, V.Wild) or isinstance(b, V.Wild):
            CTX.opaque = True
            return CTX.fail(name, "undefined value")
        if isinstance(a, float) or isinstance(b, float):
            ok = V.v_cmp(a, b, mask)
            if ok:
                CTX.discharged(name)
            else:
                CTX.fail(name, "%r vs %r" % (a, b))
            return ok
        return CTX.prove(name, a - b, mask)

    def eq(self, name, a, b): return self._cmp(name, a, b, ZER)
    def ne(self, name, a, b): return self._cmp(name, a, b, NEG | POS)
    def lt(self, name, a, b): return self._cmp(name, a, b, NEG)
    def le(self, name, a, b): return self._cmp(name, a, b, NEG | ZER)
    def gt(self, name, a, b): return self._cmp(name, a, b, POS)
    def ge(self, name, a, b): return self._cmp(name, a, b, POS | ZER)

    def true(self, name, b, detail=""):
        if b:
            CTX.discharged(name)
            return True
        return CTX.fail(name, detail)

    def trig_signs(self, x):
        """The sine is not negative from 0 to pi (for the sines in x)."""
        for a in list(el(x).atoms()):
            a = T.ATOMS.list[a]
            if a.kind in ("sin", "cos"):
                t = a.args[0]
                if CTX.decide(t, POS | ZER) and CTX.decide(T.PI - t, POS | ZER):
                    CTX.assume_sign(T.atom_poly(T.ATOMS.by_key[("sin", a.key)]), POS | ZER)

    def lemma(self, b):
        """A fact established by the obligations before it."""
        return b

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            CTX.discharged(name)
            return
        CTX.fail(name, "no exception")

    # -------------------------------------------------------- frame conditions
    def freeze(self, a):
        if isinstance(a, SArr):
            return (a, a.snap(), a.axes)
        return (a, None, None)

    def unchanged(self, name, fr):
        a, s, axes = fr
        if s is None:
            CTX.discharged(name)
            return
        if a.store.fn is s.fn:
            CTX.discharged(name)
            return
        now = a.snap()

        def body():
            i = tuple(ax.generic() for ax in axes)
            x, y = now.at(i), s.at(i)
            if isinstance(x, bool):
                self.true(name, x == y)
            else:
                self._cmp(name, SV(x), SV(y), ZER)
        CTX.explore(lambda: guarded(body))

    # -------------------------------------------------------- random numbers
    def note(self, **kw):
        pass


class Placed(object):
    def __init__(self, E, n, axial=False, tag=""):
        self.E = E
        self.frame, R, t = E.rigid(tag + "F")
        self.R = R
        dl = E.unit(tag + "dl", n)
        if axial:
            sgn = T.const(1 if E.choice("axial", ["up", "down"]) == "up" else -1)
            dl = SArr((CAxis(3), E.axis_of(n)), lambda i: sgn if i[0] == 2 else T.ZERO, "f")
        vl = E.vector(tag + "vl", n)
        self.dl, self.vl = dl, vl
        sR, st, sd, sv = R.snap(), t.snap(), dl.snap(), vl.snap()
        ax = E.axis_of(n)
        self.d = SArr((CAxis(3), ax), lambda i: sum((sR.at((i[0], k)) * sd.at((k, i[1])) for k in range(3)), T.ZERO), "f")
        self.v = SArr((CAxis(3), ax), lambda i: sum((sR.at((i[0], k)) * sv.at((k, i[1])) for k in range(3)),
                                                    st.at((i[0],))), "f")
        self.fr = [E.freeze(self.frame), E.freeze(self.d), E.freeze(self.v)]
        self.bundle = E.mod("tracer.ray_bundle").RayBundle(vertices=self.v, directions=self.d)

    def local_dir(self, x):
        return [sum((self.E.at(self.R, k, i) * x[k] for k in range(1, 3)), self.E.at(self.R, 0, i) * x[0]) for i in range(3)]

    def unchanged(self):
        for f, nm in zip(self.fr, ("frame", "directions", "vertices")):
            self.E.unchanged(nm + " not modified", f)


def cat_axis(axes):
    parts = [a for a in axes if not (isinstance(a, CAxis) and a.n == 0)]
    if not parts:
        return CAxis(0)
    if len(parts) == 1:
        return parts[0]
    if all(isinstance(a, CAxis) for a in parts):
        return CAxis(sum(a.n for a in parts))
    return CatAxis(parts)


def guarded(fn):
    """Run code; an exception escaping it is an obligation (the path must be impossible)."""
    try:
        return fn()
    except (Infeasible, SpecSkip, Unsupported):
        raise
    except T.TermTooBig:
        raise Unsupported("terms too big")
    except RecursionError:
        raise Unsupported("recursion limit")
    except Exception as e:
        CTX.fail("no-exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)), exc=True)
        raise SpecSkip()
