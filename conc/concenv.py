"""The concrete environment of a contract: draws inputs, runs the really running code (translated
/repo under PyPy and real numpy), evaluates the contract with tolerances.

A comparison in a contract whose two sides are within the tolerance is a boundary case that
floating point cannot settle: the case is skipped (unless strict, used when replaying a model)."""
import importlib
import math
import random
import numpy as np

np.seterr(all="ignore")
INF = float("inf")


class SpecSkip(Exception):
    pass


class Failure(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, name, detail)
        self.name, self.detail = name, detail


def val(x):
    if isinstance(x, CV):
        return x.v
    if isinstance(x, np.ndarray):
        return float(x.reshape(-1)[0]) if x.size == 1 else float(x)
    return float(x)


class CV(object):
    """A specification value."""
    __slots__ = ("v",)
    band = 1e-6
    strict = False

    def __init__(self, v):
        self.v = v

    def __add__(self, o): return CV(self.v + val(o))
    __radd__ = __add__
    def __sub__(self, o): return CV(self.v - val(o))
    def __rsub__(self, o): return CV(val(o) - self.v)
    def __mul__(self, o): return CV(self.v * val(o))
    __rmul__ = __mul__

    def __truediv__(self, o): return CV(div(self.v, val(o)))
    def __rtruediv__(self, o): return CV(div(val(o), self.v))
    def __neg__(self): return CV(-self.v)
    def __pow__(self, n): return CV(self.v ** n)

    def _near(self, o):
        b = val(o)
        a = self.v
        if a != a or b != b or math.isinf(a) or math.isinf(b):
            return False
        if CV.strict:
            return abs(a - b) <= 1e-13 * max(1.0, abs(a), abs(b)) and a != b
        return abs(a - b) <= CV.band * max(1.0, abs(a), abs(b))

    def _cmp(self, o):
        if self._near(o):
            if CV.strict:
                return 0
            raise SpecSkip("boundary")
        b = val(o)
        return (self.v > b) - (self.v < b)

    def __lt__(self, o): return self._cmp(o) < 0
    def __le__(self, o): return self._cmp(o) <= 0
    def __gt__(self, o): return self._cmp(o) > 0
    def __ge__(self, o): return self._cmp(o) >= 0
    def __eq__(self, o): return self._eq(o)

    def _eq(self, o):
        # equality as a branch condition: exact, near-misses are skipped
        b = val(o)
        if self.v == b:
            return True
        return self._cmp(o) == 0

    def __ne__(self, o): return not self._eq(o)
    def __bool__(self): return bool(self.v)
    __hash__ = None

    def __repr__(self):
        return "%r" % (self.v,)


def div(a, b):
    if b == 0:
        if a != a or a == 0:
            return float("nan")
        return math.copysign(INF, a) * math.copysign(1.0, b)
    return a / b


class Sel(object):
    """An axis selected by a mask, or a plain axis of a given length."""
    def __init__(self, n):
        self.n = n


def length(x):
    if isinstance(x, Sel):
        return x.n
    return int(x)


NICE = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.25, -2.0, 3.0]


class ConcEnv(object):
    mode = "conc"
    sym = False

    def __init__(self, seed, model=None, prefix="", tier="quick", strict=False):
        self.rng = random.Random(seed)
        self.nprng = np.random.RandomState(seed & 0x7fffffff)
        self.prefix = prefix
        self.tier = tier
        self.np = np
        self.math = math
        self.pi = CV(math.pi)
        self.log = {}
        self.nobl = 0
        self.obl_names = set()
        self.model = model
        CV.strict = strict
        # small bundles and nice numbers in a share of the cases
        self.nice = self.rng.random() < 0.35
        np.random.seed(seed & 0x7fffffff)

    def mod(self, name):
        return importlib.import_module(name)

    # -------------------------------------------------------- model lookup
    def _var(self, name):
        if self.model is None:
            return None
        return self.model["vars"].get(self.prefix + name)

    def _app(self, f, args):
        """Value of f(args) in the model; ray indices are mapped to the model's addresses."""
        if self.model is None:
            return None
        for a, v in self.model["apps"].get(self.prefix + f, ()):
            if len(a) == len(args) and all(abs(x - y) < 1e-9 for x, y in zip(a, args)):
                return v
        return None

    def _addr(self, k):
        ad = self.model["addrs"] if self.model else []
        return ad[k] if k < len(ad) else -1.0 - k

    # -------------------------------------------------------- inputs
    def _draw(self, pos=False, nonneg=False, nonzero=False, lo=None, hi=None):
        lo = None if lo is None else val(lo)
        hi = None if hi is None else val(hi)
        for _ in range(200):
            r = self.rng
            if lo is not None and hi is not None:
                x = r.choice([lo, hi, r.uniform(lo, hi), r.uniform(lo, hi), r.uniform(lo, hi)])
            elif lo is not None:
                x = lo + r.choice([0.0, 1.0, r.expovariate(1.0), r.expovariate(0.2)])
            elif hi is not None:
                x = hi - r.choice([0.0, 1.0, r.expovariate(1.0), r.expovariate(0.2)])
            elif self.nice or r.random() < 0.2:
                x = r.choice(NICE)
            else:
                x = r.gauss(0, r.choice([0.5, 1.0, 3.0]))
            if pos:
                x = abs(x)
            if nonneg:
                x = abs(x)
            if (pos or nonzero) and abs(x) < 1e-2:
                continue
            return float(x)
        return 1.0

    def real(self, name, **kw):
        x = self._var(name)
        if x is None:
            x = self._draw(**kw)
        self.log[name] = x
        return x

    def choice(self, name, opts):
        k = None
        if self.model is not None:
            k = self.model["choices"].get(name)
        if k is None:
            k = self.rng.randrange(len(opts))
        self.log[name] = repr(opts[k])
        return opts[k]

    def count(self, name, min=0):
        n = None
        if self.model is not None and self.model["addrs"]:
            n = max(min, len(self.model["addrs"]))
        if n is None:
            n = self.rng.choice([min, min + 1, min + 1, min + 2, min + 3, min + 5])
        self.log[name] = n
        return n

    def array(self, name, shape, kind="f", **kw):
        sh = tuple(length(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        out = np.empty(sh)
        for i in np.ndindex(*sh):
            v = None
            if self.model is not None:
                for args in (tuple(float(x) for x in i), tuple(float(x) for x in i[:-1]) + (self._addr(i[-1]),)):
                    v = self._app(name, args)
                    if v is not None:
                        break
            if v is None:
                v = self._draw(**kw)
            out[i] = v
        if kind == "b":
            out = out > 0
        self.log[name] = out.tolist()
        return out

    def ufun(self, name, x, kind="f", of=None, **kw):
        """An unknown function applied elementwise (drawn point by point, then remembered)."""
        x = np.asarray(x, dtype=float)
        memo = self.__dict__.setdefault("_ufuns", {}).setdefault((name, of), {})
        out = np.empty(x.shape, dtype=bool if kind == "b" else float)
        for i in np.ndindex(*x.shape):
            v = float(x[i])
            if v not in memo:
                if kind == "b":
                    memo[v] = self.rng.random() < 0.5
                elif kind == "t":
                    memo[v] = self.rng.choice([INF, INF, 1.0, 2.0, 0.0, 1e-7, 1e-6, 2e-6, 1e-5, 1e-3, 2.0 + 1e-6, 2.0 - 1e-9,
                                               1.000004, 70.0, 1e4, 3e7, self.rng.uniform(0, 4), self.rng.uniform(0, 4)])
                else:
                    memo[v] = self._draw(**kw)
            out[i] = memo[v]
        return out

    def _unit1(self):
        r = self.rng
        if self.nice or r.random() < 0.2:
            k = r.randrange(3)
            v = [0.0, 0.0, 0.0]
            v[k] = r.choice([1.0, -1.0])
            if r.random() < 0.3:
                j = (k + 1) % 3
                v[k], v[j] = 0.6 * v[k], r.choice([0.8, -0.8])
            return v
        while True:
            v = [r.gauss(0, 1) for _ in range(3)]
            n = math.sqrt(sum(x * x for x in v))
            if n > 1e-3:
                return [x / n for x in v]

    def _units(self, name, n, order=(0, 1, 2)):
        out = np.empty((3, n))
        for i in range(n):
            v = [self._app("%s.%d" % (name, k), (self._addr(i),)) for k in range(3)]
            out[:, i] = complete_unit(v, self._unit1())
        return out

    def unit(self, name, n=None):
        if n is None:
            v = [self._var("%s.%d" % (name, k)) for k in range(3)]
            out = np.array(complete_unit(v, self._unit1()))
        else:
            out = self._units(name, length(n))
        self.log[name] = out.tolist()
        return out

    def vector(self, name, n=None, **kw):
        if n is None:
            out = np.array([self._or(self._var("%s.%d" % (name, k)), kw) for k in range(3)])
        else:
            n = length(n)
            out = np.empty((3, n))
            for i in range(n):
                for k in range(3):
                    out[k, i] = self._or(self._app("%s.%d" % (name, k), (self._addr(i),)), kw)
        self.log[name] = out.tolist()
        return out

    def _or(self, v, kw):
        return self._draw(**kw) if v is None else v

    def _rot(self):
        r = self.rng
        if r.random() < 0.15:
            return np.eye(3)
        if self.nice or r.random() < 0.15:
            p = list(range(3))
            r.shuffle(p)
            M = np.zeros((3, 3))
            for i, j in enumerate(p):
                M[i, j] = r.choice([1.0, -1.0])
            if np.linalg.det(M) < 0:
                M[:, 0] *= -1
            return M
        q = np.array([r.gauss(0, 1) for _ in range(4)])
        q /= np.sqrt((q ** 2).sum())
        a, b, c, d = q
        return np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)],
                         [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
                         [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])

    def _rotm(self, get):
        M = self._rot()
        if self.model is not None:
            V = [[get(i, j) for j in range(3)] for i in range(3)]
            if any(x is not None for r in V for x in r):
                for i in range(3):
                    for j in range(3):
                        if V[i][j] is not None:
                            M[i, j] = V[i][j]
                u, s, vt = np.linalg.svd(M)
                M = u.dot(vt)
                if np.linalg.det(M) < 0:
                    u[:, 2] *= -1
                    M = u.dot(vt)
        return M

    def placed(self, n, near=False, axial=False, tag=""):
        return Placed(self, length(n), near, axial, tag)

    def rotation(self, name):
        M = self._rotm(lambda i, j: self._var("%s.r%d%d" % (name, i, j)))
        self.log[name] = M.tolist()
        return M

    def rigid(self, name):
        R = self.rotation(name)
        t = self.vector(name + ".t")
        F = np.eye(4)
        F[:3, :3] = R
        F[:3, 3] = t
        return F, R, t

    def matrix4(self, name):
        F = np.eye(4)
        for i in range(3):
            for j in range(4):
                F[i, j] = self._or(self._var("%s.m%d%d" % (name, i, j)), {})
        self.log[name] = F.tolist()
        return F

    def incidence(self, n, one=False, name=""):
        n = length(n)
        dl = self._units(name + "dl", n)
        r = self.rng
        for i in range(n):
            if self.model is None and r.random() < 0.15:
                dl[:, i] = r.choice([(0, 0, 1), (0, 0, -1), (0, 1, 0), (0.6, 0, 0.8), (0, 0.6, -0.8)])
        Q1 = self._rotm(lambda i, j: self._var("%sQ.r%d%d" % (name, i, j)))
        d = np.empty((3, n))
        N = np.empty((3, 1 if one else n))
        for k in range(n):
            Q = Q1 if one else self._rotm(lambda i, j: self._app("%sQ.r%d%d" % (name, i, j), (self._addr(k),)))
            d[:, k] = Q.dot(dl[:, k])
            if not one:
                N[:, k] = Q[:, 2]
        if one:
            N[:, 0] = Q1[:, 2]
        self.log["d"], self.log["N"] = d.tolist(), N.tolist()
        return d, N, dl

    def selector(self, name, n, m=None, distinct=False):
        n = length(n)
        r = self.rng
        if distinct:
            k = r.randint(0, n) if m is None else min(length(m), n)
            sel = sorted(r.sample(range(n), k)) if r.random() < 0.7 else r.sample(range(n), k)
        else:
            k = 0 if n == 0 else (r.randint(0, n + 2) if m is None else length(m))
            sel = [r.randrange(n) for _ in range(k)]
            if m is None and r.random() < 0.5:
                sel = sorted(set(sel))
        out = np.array(sel, dtype=int)
        self.log[name] = out.tolist()
        return out

    # -------------------------------------------------------- arrays from spec values
    def arr(self, f, shape, kind="f"):
        sh = tuple(length(s) for s in shape)
        out = np.empty(sh)
        for i in np.ndindex(*sh):
            out[i] = val(f(*i))
        return out > 0 if kind == "b" else out

    def scalar(self, x): return val(x)
    def s(self, x): return CV(val(x))

    # -------------------------------------------------------- reading
    def at(self, a, *idx):
        a = np.asarray(a)
        if a.ndim != len(idx):
            raise Failure("shape", "array has %d axes, %d expected" % (a.ndim, len(idx)))
        ii = tuple(int(i.v) if isinstance(i, CV) else i for i in idx)
        for i, n in zip(ii, a.shape):
            if not -n <= i < n:
                raise Failure("shape", "index %r out of bounds for shape %r" % (ii, a.shape))
        return CV(float(a[ii]))

    def bool_at(self, a, *idx):
        return bool(self.at(a, *idx).v)

    def axis(self, a, k): return Sel(np.asarray(a).shape[k])
    def axis_of(self, n): return Sel(length(n))
    def indices(self, a): return list(np.ndindex(*np.asarray(a).shape))
    def ndim(self, a): return np.asarray(a).ndim
    def size(self, a, k): return CV(float(np.asarray(a).shape[k]))

    def one(self, x): return np.array([val(x)])

    def which(self, x, m):
        k = int(round(val(x)))
        self.true("value among 0..%d" % (m - 1), 0 <= k < m and k == val(x))
        return k

    def index_at(self, a, *i): return int(np.asarray(a)[i])

    def descend(self, b, a, p):
        return [int(r) for r in np.nonzero(np.asarray(b) == p)[0]]

    def ordered(self, name, a, pred):
        flags = [bool(pred(CV(float(x)))) for x in np.asarray(a)]
        self.true(name, flags == sorted(flags, reverse=True))

    def exists(self, name, cands, pred):
        for c in cands:
            if all(self._rel(rel, a, b) for rel, a, b in pred(*c)):
                return
        self.true(name, False)

    def _rel(self, rel, a, b):
        a, b = float(val(a)), float(val(b))
        tol = 1e-7 * (1 + abs(a) + abs(b))
        return {"eq": abs(a - b) <= tol, "lt": a < b + tol, "le": a <= b + tol, "gt": a > b - tol, "ge": a >= b - tol}[rel]

    # -------------------------------------------------------- axes
    def rank(self, mask, i):
        return int(np.asarray(mask)[:i].sum())

    def sub(self, mask):
        return Sel(int(np.asarray(mask).sum()))

    def cat(self, axes):
        return Sel(sum(length(a) for a in axes))

    def cat_idx(self, axes, k, i):
        return sum(length(a) for a in axes[:k]) + i

    def axes_same(self, a, b): return length(a) == length(b)
    def length(self, n): return length(n)

    def length_is(self, name, x, n):
        return self.true(name, x == length(n), "%r instead of %d" % (x, length(n)))

    def number(self, n): return length(n)
    def first_of(self, axis, j): return j

    def member_mask(self, sel, n):
        out = np.zeros(length(n), dtype=bool)
        out[np.asarray(sel, dtype=int)] = True
        return out

    def angle(self, name, obtuse=False):
        x = self._var(name)
        top = math.pi if obtuse else math.pi / 2
        if x is None:
            x = self.rng.choice([0.0, math.pi / 2, 0.1, 4.65e-3, self.rng.uniform(0, top)])
        x = min(max(x, 0.0), top)
        self.log[name] = x
        return x

    def _obl(self, name):
        self.nobl += 1
        self.obl_names.add(name)

    def same_axis(self, name, a, b):
        self._obl(name)
        if length(a) != length(b):
            raise Failure(name, "length %d instead of %d" % (length(a), length(b)))
        return True

    def shape_is(self, name, a, shape):
        self._obl(name)
        sh = tuple(length(s) for s in shape)
        if np.asarray(a).shape != sh:
            raise Failure(name, "shape %r instead of %r" % (np.asarray(a).shape, sh))

    # -------------------------------------------------------- logic
    def forall(self, ax, fn):
        for k in range(length(ax)):
            try:
                fn(k)
            except SpecSkip:
                pass

    def case(self, fn):
        try:
            fn()
        except SpecSkip:
            pass

    def off(self, a, b):
        """Rounding may put a on the other side of b: not a case to judge."""
        if not CV.strict and CV(val(a))._near(b):
            raise SpecSkip("boundary")

    def assume(self, b):
        if not b:
            raise SpecSkip("assumption")

    def assume_all(self, n, fn):
        for i in range(length(n)):
            self.assume(fn(i))

    def every(self, n, fn):
        return all(fn(i) for i in range(length(n)))

    def item(self, lst, i):
        if not i < len(lst):
            raise Failure("one element per item", "%d elements" % len(lst))
        return lst[i]

    def probe(self, lst, i): return self.item(lst, i)
    def probe_at(self, lst, i, k=0): return self.item(lst, i)

    def joined(self, lst, sizes, k, i, j=None):
        n = [length(n) * (j[1] if j else 1) for n in sizes]
        at = sum(n[:k]) + (i * j[1] + j[0] if j else i)
        return lst[at] if at < len(lst) else None

    def list_of(self, n, fn):
        return [fn(k) for k in range(length(n))]

    def frames(self, name, n):
        F = np.array([self.rigid("%s.%d" % (name, k))[0] for k in range(length(n))]).reshape(-1, 4, 4)
        self.log[name] = F.tolist()
        return F

    def pick(self, a, i): return a[i]

    def list_len(self, lst):
        return CV(float(len(lst)))

    def trig_signs(self, x):
        pass

    def skip(self):
        raise SpecSkip()

    def sqrt(self, x):
        v = val(x)
        return CV(math.sqrt(v) if v >= 0 else (0.0 if v > -1e-12 else float("nan")))

    def abs(self, x): return CV(abs(val(x)))
    def ceil(self, x):
        x = val(x)
        if abs(x - round(x)) < 1e-6 and x != round(x):
            raise SpecSkip("boundary")
        return CV(float(math.ceil(x)))

    def sin(self, x): return CV(math.sin(val(x)))
    def cos(self, x): return CV(math.cos(val(x)))
    def isinf(self, x): return val(x) > 1e9       # (rounding turns parallel rays into very far hits)
    def isnan(self, x): return val(x) != val(x)
    def finite(self, x): return abs(val(x)) < 1e9

    # -------------------------------------------------------- obligations
    tol = 1e-6

    def _slack(self, a, b):
        return self.tol * max(1.0, abs(a), abs(b))

    def _chk(self, name, a, b, ok, rel):
        self._obl(name)
        if not ok:
            raise Failure(name, "%r %s %r does not hold" % (a, rel, b))
        return True

    def eq(self, name, a, b):
        a, b = val(a), val(b)
        ok = (a == b) or (not math.isinf(a) and not math.isinf(b) and abs(a - b) <= self._slack(a, b))
        return self._chk(name, a, b, ok, "==")

    def ne(self, name, a, b):
        a, b = val(a), val(b)
        return self._chk(name, a, b, a != b, "!=")

    def le(self, name, a, b):
        a, b = val(a), val(b)
        return self._chk(name, a, b, a <= b or (not math.isinf(a - b) and a <= b + self._slack(a, b)), "<=")

    def ge(self, name, a, b): return self.le(name, b, a)
    lt, gt = le, ge

    def true(self, name, b, detail=""):
        self._obl(name)
        if not b:
            raise Failure(name, detail or "does not hold")
        return True

    def raises(self, name, exc, fn):
        self._obl(name)
        try:
            fn()
        except exc:
            return
        raise Failure(name, "no exception")

    # -------------------------------------------------------- frame conditions
    def freeze(self, a):
        if isinstance(a, np.ndarray):
            return (a, a.copy())
        return (a, None)

    def unchanged(self, name, fr):
        self._obl(name)
        a, c = fr
        if c is None:
            return
        if a.shape != c.shape or not np.array_equal(np.nan_to_num(a), np.nan_to_num(c)):
            raise Failure(name, "array modified")

    def note(self, **kw):
        self.log.update(kw)


class Placed(object):
    def __init__(self, E, n, near, axial, tag=""):
        self.E = E
        self.frame, self.R, t = E.rigid(tag + "F")
        dl = E.unit(tag + "dl", n)
        if axial:
            dl = np.zeros((3, n))
            dl[2] = 1. if E.choice("axial", ["up", "down"]) == "up" else -1.
        vl = E.vector(tag + "vl", n)
        if near and E.model is None:
            # aim a share of the rays at points around the origin
            r = E.rng
            for i in range(n):
                if r.random() < 0.6:
                    s = r.choice([0.2, 0.5, 1.0, 2.0])
                    p = np.array([r.gauss(0, s), r.gauss(0, s), r.choice([0.0, r.gauss(0, s)])])
                    vl[:, i] = p - r.choice([1.0, 2.0, 5.0, r.uniform(0, 3), -1.0]) * dl[:, i]
        self.dl, self.vl = dl, vl
        self.d = self.R.dot(dl)
        self.v = self.R.dot(vl) + t[:, None]
        E.log[tag + "vl"], E.log[tag + "dl"] = vl.tolist(), dl.tolist()
        self.fr = [E.freeze(self.frame), E.freeze(self.d), E.freeze(self.v)]
        self.bundle = E.mod("tracer.ray_bundle").RayBundle(vertices=self.v, directions=self.d)

    def local_dir(self, x):
        return [sum((CV(self.R[k, i]) * x[k] for k in range(1, 3)), CV(self.R[0, i]) * x[0]) for i in range(3)]

    def unchanged(self):
        for f, nm in zip(self.fr, ("frame", "directions", "vertices")):
            self.E.unchanged(nm + " not modified", f)


def complete_unit(v, dflt):
    """A unit vector with the given components where known."""
    if all(x is None for x in v):
        return dflt
    known = sum(x * x for x in v if x is not None)
    miss = [k for k in range(3) if v[k] is None]
    out = [0.0 if x is None else x for x in v]
    if miss:
        rest = math.sqrt(max(0.0, 1 - known))
        out[miss[0]] = rest
    n = math.sqrt(sum(x * x for x in out))
    if n < 1e-9:
        return dflt
    return [x / n for x in out]
