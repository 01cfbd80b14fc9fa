"""Arithmetic on array elements: finite reals (Poly), +-inf, nan, booleans."""
import math
from fractions import Fraction
from . import terms as T
from .terms import Poly
from .ctx import CTX, INF, NAN, Unsupported
from .solve import NEG, ZER, POS


def lift(x):
    """A Python/numpy number as an element."""
    if isinstance(x, Poly) or x is True or x is False:
        return x
    if isinstance(x, int):
        return T.const(x)
    if isinstance(x, Fraction):
        return T.const(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return x
        if x == math.pi:
            return T.PI
        return T.const(T.frac_of_float(x))
    raise Unsupported("cannot lift %r" % (type(x),))


def num(x):
    """Booleans count as 0/1."""
    if x is True:
        return T.ONE
    if x is False:
        return T.ZERO
    return x


class Wild(float):
    """Some special value: +inf, -inf or nan, not known which."""
    def __repr__(self):
        return "wild"


WILD = Wild(NAN)


def settle(x):
    """Fork on what an unknown special value is."""
    if isinstance(x, Wild):
        CTX.opaque = True
        return (INF, -INF, NAN)[CTX.choose(3)]
    return x


def sos(p):
    if p.sos:
        return p.sos
    if p.is_const():
        c = p.const()
        return 2 if c > 0 else (1 if c == 0 else 0)
    return 0


def is_special(x):
    return isinstance(x, float)


def isnan(x):
    if isinstance(x, Wild):
        CTX.opaque = True
        return CTX.choose(2) == 0
    return isinstance(x, float) and x != x


def hardnan(x):
    return isinstance(x, float) and not isinstance(x, Wild) and x != x


def sgn(p):
    """-1/0/1, forking."""
    if CTX.decide(p, POS):
        return 1
    if CTX.decide(p, NEG):
        return -1
    return 0


def v_neg(a):
    a = num(a)
    if isinstance(a, Wild):
        return a
    return -a


def v_add(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            if isinstance(a, Wild) or isinstance(b, Wild):
                return NAN if hardnan(a) or hardnan(b) else WILD
            return a + b
        return a if isinstance(a, float) else b
    r = a + b
    x = sos(a)
    if x:
        y = sos(b)
        if y and not r.is_const():
            r.sos = max(x, y)
    return r


def v_sub(a, b):
    return v_add(a, v_neg(b))


def v_mul(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            if isinstance(a, Wild) or isinstance(b, Wild):
                return NAN if hardnan(a) or hardnan(b) else WILD
            return a * b
        if not isinstance(a, float):
            a, b = b, a
        if isinstance(a, Wild):
            return a
        if a != a:
            return NAN
        k, q = CTX.canon(b)
        if q.is_zero():
            return NAN
        m = CTX.possible(q)
        if m == ZER:
            return NAN
        if m == POS:
            return a if k > 0 else -a
        if m == NEG:
            return a if k < 0 else -a
        return WILD
    r = a * b
    if a is b or a == b:
        r.sos = max(r.sos, 1)
    else:
        x = sos(a)
        if x:
            y = sos(b)
            if y and not r.is_const():
                r.sos = max(r.sos, min(x, y))
    return r


def v_div(a, b, py=False):
    a, b = num(a), num(b)
    if isinstance(b, float):
        b = settle(b)
        if b != b or isinstance(a, float):
            return NAN
        return T.ZERO
    if isinstance(a, Wild):
        if py and CTX.decide(b, ZER):
            raise ZeroDivisionError("float division by zero")
        return a
    if isinstance(a, float):
        if a != a:
            return NAN
        s = sgn(b)
        if s == 0:
            if py:
                raise ZeroDivisionError("float division by zero")
            # sign of the zero is not tracked
            CTX.opaque = True
            return a if CTX.choose(2) == 0 else -a
        return a if s > 0 else -a
    if CTX.decide(b, ZER):
        if py:
            raise ZeroDivisionError("float division by zero")
        s = sgn(a)
        if s == 0:
            return NAN
        # the sign of a zero divisor is not tracked: both infinities are possible
        CTX.opaque = True
        return INF if CTX.choose(2) == 0 else -INF
    return a * T.inv(b)


def v_sqrt(a, py=False):
    a = settle(num(a))
    if isinstance(a, float):
        if a == INF:
            return INF
        return NAN
    if a.is_const() and a.const() < 0 or not CTX.decide(a, POS | ZER):
        if py:
            raise ValueError("math domain error")
        return NAN
    if CTX.decide(a, ZER):
        return T.ZERO
    c, q, s = T.sqrt_parts(a)
    if not s.is_const():
        CTX.positive(s)
    if q.is_const():
        r = q.scale(c if q.const() > 0 else -c)
    else:
        r = q.scale(c if CTX.decide(q, POS) else -c)
    return r * s


def v_abs(a):
    a = num(a)
    if isinstance(a, Wild):
        return a
    if isinstance(a, float):
        return abs(a)
    if CTX.lazy_abs:
        k, q = CTX.canon(a)
        m = CTX.possible(q)
        if m & NEG and m & POS:
            at = T.abs_atom(T.primitive(a)[1])
            return at.scale(abs(T.primitive(a)[0]))
    return a if CTX.decide(a, POS | ZER) else -a


def v_cmp(a, b, mask):
    """sign(a-b) in mask."""
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        if hardnan(a) or hardnan(b):
            return mask == (NEG | POS)
        if isinstance(a, Wild) or isinstance(b, Wild):
            CTX.opaque = True
            return CTX.choose(2) == 0
        fa = a if isinstance(a, float) else 0.0
        fb = b if isinstance(b, float) else 0.0
        s = NEG if fa < fb else (POS if fa > fb else ZER)
        return bool(s & mask)
    return CTX.decide(a - b, mask)


def v_lt(a, b): return v_cmp(a, b, NEG)
def v_le(a, b): return v_cmp(a, b, NEG | ZER)
def v_gt(a, b): return v_cmp(a, b, POS)
def v_ge(a, b): return v_cmp(a, b, POS | ZER)


def v_eq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return v_cmp(a, b, ZER)


def v_ne(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return v_cmp(a, b, NEG | POS)


def v_min(a, b):
    a, b = settle(a), settle(b)
    if isnan(a) or isnan(b):
        return NAN
    return num(a) if v_le(a, b) else num(b)


def v_max(a, b):
    a, b = settle(a), settle(b)
    if isnan(a) or isnan(b):
        return NAN
    return num(a) if v_ge(a, b) else num(b)


def v_pow(a, n, py=False):
    a = num(a)
    n = num(n)
    if isinstance(n, Poly) and n.is_const():
        c = n.const()
        if c.denominator == 1:
            c = int(c)
            if isinstance(a, Wild) and c != 0:
                a = settle(a) if c < 0 else a
                if isinstance(a, Wild):
                    return a
            if isinstance(a, float):
                if c == 0:
                    return T.ONE
                if c < 0:
                    return NAN if a != a else T.ZERO
                return a ** c
            if c >= 0:
                r = a.pow(c)
                if c and c % 2 == 0 and not r.is_const():
                    r.sos = max(r.sos, 1, sos(a))
                return r
            return v_div(T.ONE, a.pow(-c), py)
        if c == Fraction(1, 2):
            return v_sqrt(a, py)
        if c == Fraction(-1, 2):
            return v_div(T.ONE, v_sqrt(a, py), py)
    raise Unsupported("power with exponent %r" % (n,))


def v_sin(a):
    a = num(a)
    if isinstance(a, float):
        return NAN
    return T.sincos(a)[0]


def v_cos(a):
    a = num(a)
    if isinstance(a, float):
        return NAN
    return T.sincos(a)[1]


def v_tan(a, py=False):
    a = num(a)
    if isinstance(a, float):
        return NAN
    s, c = T.sincos(a)
    return v_div(s, c, py)


def v_arccos(a, py=False):
    a = num(a)
    if isinstance(a, float):
        return NAN
    if not (CTX.decide(T.ONE - a, POS | ZER) and CTX.decide(T.ONE + a, POS | ZER)):
        if py:
            raise ValueError("math domain error")
        return NAN
    if a.is_const():
        c = a.const()
        tab = {Fraction(1): Fraction(0), Fraction(0): Fraction(1, 2), Fraction(-1): Fraction(1),
               Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}
        if c in tab:
            return T.PI.scale(tab[c])
    s = v_sqrt(T.ONE - a * a)
    return T.arc("arccos", (a,), s, a)


def v_arcsin(a, py=False):
    a = num(a)
    if isinstance(a, float):
        return NAN
    if not (CTX.decide(T.ONE - a, POS | ZER) and CTX.decide(T.ONE + a, POS | ZER)):
        if py:
            raise ValueError("math domain error")
        return NAN
    if a.is_const():
        c = a.const()
        tab = {Fraction(1): Fraction(1, 2), Fraction(0): Fraction(0), Fraction(-1): Fraction(-1, 2),
               Fraction(1, 2): Fraction(1, 6), Fraction(-1, 2): Fraction(-1, 6)}
        if c in tab:
            return T.PI.scale(tab[c])
    c = v_sqrt(T.ONE - a * a)
    return T.arc("arcsin", (a,), a, c)


def v_arctan2(y, x):
    y, x = num(y), num(x)
    if y is NAN or x is NAN or y != y or x != x:
        return NAN
    if isinstance(y, float) or isinstance(x, float):
        raise Unsupported("arctan2 of an infinity")
    CTX.assume_sign(x * x + y * y, POS | ZER)       # a sum of squares
    r = v_sqrt(x * x + y * y)
    if CTX.decide(r, ZER):
        CTX.assume_sign(x, ZER)
        CTX.assume_sign(y, ZER)
        return T.ZERO       # (signed zeros are not tracked)
    ir = T.inv(r)
    return T.arc("arctan2", (y, x), y * ir, x * ir)


def v_ceil(a):
    a = num(a)
    if isinstance(a, float):
        return a
    if a.is_const():
        c = a.const()
        return T.const(-((-c.numerator) // c.denominator))
    at = T.ATOMS.get("ceil", a, "ceil(%r)" % (a,), (a,), sort="I")
    return T.atom_poly(at)


def v_floor(a):
    a = num(a)
    if isinstance(a, float):
        return a
    if a.is_const():
        c = a.const()
        return T.const(c.numerator // c.denominator)
    at = T.ATOMS.get("floor", a, "floor(%r)" % (a,), (a,), sort="I")
    return T.atom_poly(at)


def truth(a):
    """Truth value of an element."""
    if isinstance(a, bool):
        return a
    if isinstance(a, float):
        return True
    return CTX.decide(a, NEG | POS)
