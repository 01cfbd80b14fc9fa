"""Hash-consed multivariate polynomials over Q, kept in normal form.

A polynomial is a sum of monomials over *atoms*: input variables, applications of
uninterpreted functions to index terms, and defined quantities (square roots, inverses,
sines and cosines ...).  Defined atoms carry rewrite rules (sqrt(p)^2 -> p,
LM(p)*inv(p) -> ..., cos^2 -> 1 - sin^2), input families may carry ideal rules (unit vectors,
rotation matrices); every polynomial is reduced by all of them.  All rules decrease
in one well-founded monomial order (weighted degree, then lexicographic, newest atom first),
so reduction terminates.
"""
from fractions import Fraction
from math import isqrt, gcd

ZERO_MON = ()


class Atom(object):
    __slots__ = ("id", "kind", "key", "name", "args", "weight", "rules", "sort", "facts")

    def __repr__(self):
        return self.name


class Atoms(object):
    """The atom table (one per process)."""
    def __init__(self):
        self.by_key = {}
        self.list = []

    def get(self, kind, key, name, args=(), weight=Fraction(1), sort="R"):
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom()
            a.id = len(self.list)
            a.kind = kind
            a.key = key
            a.name = name
            a.args = args
            a.weight = weight
            a.rules = []
            a.sort = sort
            a.facts = None
            self.list.append(a)
            self.by_key[k] = a
        return a


ATOMS = Atoms()


def mon_weight(m):
    L = ATOMS.list
    w = 0
    for a, e in m:
        w += L[a].weight * e
    return w


def mon_key(m):
    """Sort key of a monomial (bigger = larger in the order)."""
    # weighted degree, then lex with the newest atom first
    return (mon_weight(m), tuple((a, e) for a, e in reversed(m)))


def mon_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    out = []
    i = j = 0
    while i < len(m) and j < len(n):
        a, e = m[i]
        b, f = n[j]
        if a == b:
            out.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            out.append(m[i])
            i += 1
        else:
            out.append(n[j])
            j += 1
    out.extend(m[i:])
    out.extend(n[j:])
    return tuple(out)


def mon_div(m, n):
    """m/n or None."""
    out = []
    j = 0
    for a, e in m:
        if j < len(n) and n[j][0] == a:
            f = n[j][1]
            if f > e:
                return None
            if e > f:
                out.append((a, e - f))
            j += 1
        else:
            if j < len(n) and n[j][0] < a:
                return None
            out.append((a, e))
    if j < len(n):
        return None
    return tuple(out)


_nf_mon = {}   # monomial -> dict (normal form); cleared whenever a rule is added


def add_rule(lhs_mon, rhs_dict):
    """Register lhs_mon -> rhs (dict).  Looked up from the atom of the lhs with the highest id."""
    top = lhs_mon[-1][0]
    ATOMS.list[top].rules.append((lhs_mon, rhs_dict))
    _nf_mon.clear()


def _dict_add(d, m, c):
    v = d.get(m)
    if v is None:
        d[m] = c
    else:
        v = v + c
        if v == 0:
            del d[m]
        else:
            d[m] = v


class TermTooBig(Exception):
    pass


MAXTERMS = 20000


def nf_mon(m):
    r = _nf_mon.get(m)
    if r is not None:
        return r
    L = ATOMS.list
    for a, e in m:
        for lhs, rhs in L[a].rules:
            q = mon_div(m, lhs)
            if q is not None:
                out = {}
                for n, c in rhs.items():
                    for n2, c2 in nf_mon(mon_mul(q, n)).items():
                        _dict_add(out, n2, c * c2)
                if len(out) > MAXTERMS:
                    raise TermTooBig()
                _nf_mon[m] = out
                return out
    r = {m: 1}
    _nf_mon[m] = r
    return r


class Poly(object):
    __slots__ = ("d", "_h", "_atoms", "sos")

    def __init__(self, d):
        self.d = d
        self.sos = 0           # 1: computed as a sum of squares (>= 0), 2: with a positive constant (> 0)
        self._h = None
        self._atoms = None

    # identity
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.d or (len(self.d) == 1 and ZERO_MON in self.d)

    def const(self):
        return self.d.get(ZERO_MON, Fraction(0)) if self.d else Fraction(0)

    def is_zero(self):
        return not self.d

    def __add__(self, o):
        if len(self.d) < len(o.d):
            a, b = o.d, self.d
        else:
            a, b = self.d, o.d
        d = dict(a)
        for m, c in b.items():
            _dict_add(d, m, c)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            _dict_add(d, m, -c)
        return Poly(d)

    def scale(self, c):
        if c == 0:
            return ZERO
        return Poly({m: k * c for m, k in self.d.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        if len(self.d) * len(o.d) > 400000:
            raise TermTooBig()
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = c * e
                for m2, c2 in nf_mon(mon_mul(m, n)).items():
                    _dict_add(d, m2, k * c2)
        if len(d) > MAXTERMS:
            raise TermTooBig()
        return Poly(d)

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m in self.d:
                for a, e in m:
                    s.add(a)
            self._atoms = s
        return self._atoms

    def lead(self):
        m = max(self.d, key=mon_key)
        return m, self.d[m]

    def wdeg(self):
        return max([mon_weight(m) for m in self.d] or [0])

    def renorm(self):
        """Re-reduce after new rules were registered."""
        d = {}
        for m, c in self.d.items():
            for m2, c2 in nf_mon(m).items():
                _dict_add(d, m2, c * c2)
        return Poly(d)

    def __repr__(self):
        if not self.d:
            return "0"
        L = ATOMS.list
        out = []
        for m in sorted(self.d, key=mon_key, reverse=True):
            c = self.d[m]
            s = "*".join(L[a].name + ("^%d" % e if e > 1 else "") for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = str(c) + "*" + s
            out.append(s)
            if len(out) > 40:
                out.append("...")
                break
        return " + ".join(out).replace("+ -", "- ")


ZERO = Poly({})
ONE = Poly({ZERO_MON: Fraction(1)})


def const(c):
    c = Fraction(c)
    return Poly({ZERO_MON: c}) if c else ZERO


def frac_of_float(x):
    """A float literal as the decimal the source shows."""
    return Fraction(repr(float(x)))


def atom_poly(a):
    return Poly({((a.id, 1),): Fraction(1)})


def var(name, sort="R"):
    return atom_poly(ATOMS.get("var", name, name, sort=sort))


def app(f, args, sort="R"):
    args = tuple(args)
    a = ATOMS.get("app", (f, args), "%s(%s)" % (f, ",".join(map(repr, args))), args, sort=sort)
    return atom_poly(a)


PI = var("pi")

# ---------------------------------------------------------------- canonical forms

def primitive(p):
    """p = c*q with q having coprime integer coefficients and positive leading one."""
    if p.is_zero():
        return Fraction(0), p
    den = 1
    for c in p.d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    num = 0
    for c in p.d.values():
        num = gcd(num, int(c * den))
    k = Fraction(num, den)
    m, c = p.lead()
    if c < 0:
        k = -k
    return k, p.scale(1 / k)


# ---------------------------------------------------------------- defined atoms

def _is_atom(p, kinds=None):
    """(atom) if p is exactly one atom."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS.list[m[0][0]]
            if kinds is None or a.kind in kinds:
                return a
    return None


def inv(p):
    """1/p, assuming p != 0 (the caller has established that)."""
    if p.is_const():
        return const(1 / p.const())
    k, q = primitive(p)
    if len(q.d) == 1:
        (m, c), = q.d.items()
        r = const(1 / (k * c))
        for a, e in m:
            r = r * _inv_atom(ATOMS.list[a]).pow(e)
        return r
    # common monomial factor
    common = None
    for m in q.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    if common:
        cm = tuple(sorted(common.items()))
        q2 = Poly({mon_div(m, cm): c for m, c in q.d.items()})
        return inv(Poly({cm: Fraction(1)})) * inv(q2).scale(1 / k)
    a = ATOMS.get("inv", q, "inv(%r)" % (q,), (q,))
    if not a.rules:
        m, c = q.lead()
        lhs = mon_mul(m, ((a.id, 1),))
        rhs = {ZERO_MON: 1 / c}
        for n, e in q.d.items():
            if n != m:
                _dict_add(rhs, mon_mul(n, ((a.id, 1),)), -e / c)
        a.rules.append((lhs, rhs))
        _nf_mon.clear()
    return atom_poly(a).scale(1 / k)


def _inv_atom(a):
    if a.kind == "inv":
        return a.args[0]
    if a.kind == "inva":
        return atom_poly(a.args[0])
    if ("inva", a.id) in ATOMS.by_key:
        return atom_poly(ATOMS.by_key[("inva", a.id)])
    ip = inv(a.args[0]) if a.kind == "sqrt" else None
    b = ATOMS.get("inva", a.id, "inv(%s)" % a.name, (a,))
    b.rules.append((((a.id, 1), (b.id, 1)), {ZERO_MON: Fraction(1)}))
    if ip is not None:
        # inv(sqrt p)^2 -> inv(p)
        b.weight = max(Fraction(1), ip.wdeg() / 2)
        b.rules.append((((b.id, 2),), dict(ip.d)))
    _nf_mon.clear()
    return atom_poly(b)


def _isqrt_frac(c):
    """c = s^2 * r with r squarefree-ish (only perfect-square parts found cheaply)."""
    n, d = c.numerator, c.denominator
    # c = n*d / d^2
    n = n * d
    s = Fraction(1, d)
    r = n
    k = 2
    while k * k <= r and k < 2000:
        while r % (k * k) == 0:
            r //= k * k
            s *= k
        k += 1
    q = isqrt(r)
    if q * q == r:
        s *= q
        r = 1
    return s, r


_sq_cache = {}


def square_factor(p):
    """(q, r) with p = q^2 * r.  Uses the monomial content, and sympy on small polynomials."""
    if p in _sq_cache:
        return _sq_cache[p]
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
    sq = tuple(sorted((a, e // 2) for a, e in (common or {}).items() if e >= 2))
    q = Poly({sq: Fraction(1)})
    if sq:
        dbl = tuple((a, 2 * e) for a, e in sq)
        r = Poly({mon_div(m, dbl): c for m, c in p.d.items()})
    else:
        r = p
    if 3 <= len(r.d) <= 40 and len(r.atoms()) <= 8:
        import sympy
        atoms = sorted(r.atoms())
        syms = sympy.symbols(["x%d" % i for i in range(len(atoms))])
        ix = {a: s for a, s in zip(atoms, syms)}
        e = sympy.Integer(0)
        for m, c in r.d.items():
            t = sympy.Rational(c.numerator, c.denominator)
            for a, ex in m:
                t = t * ix[a] ** ex
            e += t
        c0, fl = sympy.sqf_list(e, *syms)
        back = {s: atom_poly(ATOMS.list[a]) for s, a in zip(syms, atoms)}
        q2 = ONE
        rest = const(Fraction(int(c0.p), int(c0.q)))
        for fac, mult in fl:
            fp = ZERO
            for mon, c in sympy.Poly(fac, *syms).terms():
                t = const(Fraction(int(c.p), int(c.q)))
                for s, ex in zip(syms, mon):
                    if ex:
                        t = t * back[s].pow(ex)
                fp = fp + t
            if mult >= 2:
                q2 = q2 * fp.pow(mult // 2)
            if mult % 2:
                rest = rest * fp
        if q2 != ONE:
            q = q * q2
            r = rest
    _sq_cache[p] = (q, r)
    return q, r


def sqrt_parts(p):
    """sqrt(p) = |c*q| * sqrt(r): returns (c, q, s) with c > 0 rational, s the sqrt term."""
    if p.is_zero():
        return Fraction(1), ZERO, ONE
    k, u = primitive(p)
    if k < 0:
        k, u = -k, -u
    q, r = square_factor(u)
    k2, r2 = primitive(r)
    if k2 < 0:
        k2, r2 = -k2, -r2
    s, rest = _isqrt_frac(k * k2)
    r3 = r2.scale(Fraction(rest))
    if r3.is_const():
        c2, rest = _isqrt_frac(r3.const())
        s = s * c2
        r3 = const(rest)
    if r3 == ONE:
        return s, q, ONE
    a = ATOMS.get("sqrt", r3, "sqrt(%r)" % (r3,), (r3,))
    if not a.rules:
        a.weight = max(Fraction(1), r3.wdeg() / 2)
        if r3.wdeg() > 2 * a.weight:
            a.weight = r3.wdeg()
        a.rules.append((((a.id, 2),), dict(r3.d)))
        _nf_mon.clear()
    return s, q, atom_poly(a)


def abs_atom(q):
    """|q| as a term of its own: nonnegative, with square q^2."""
    r = q * q
    a = ATOMS.get("sqrt", r, "abs(%r)" % (q,), (r,))
    if not a.rules:
        a.weight = max(Fraction(1), r.wdeg() / 2)
        if r.wdeg() > 2 * a.weight:
            a.weight = r.wdeg()
        a.rules.append((((a.id, 2),), dict(r.d)))
        _nf_mon.clear()
    return atom_poly(a)


def sincos(p):
    """(sin p, cos p) as polynomials; exact at rational multiples of pi, pi/2."""
    # split off the multiple of pi
    pid = next(iter(PI.d))
    c = p.d.get(pid, Fraction(0))
    rest = Poly({m: k for m, k in p.d.items() if m != pid})
    s1, c1 = _sincos_pi(c)
    if s1 is None:
        rest, s1, c1 = p, ZERO, ONE
    if rest.is_zero():
        return s1, c1
    m, k = rest.lead()
    neg = k < 0
    base = -rest if neg else rest
    sa = ATOMS.get("sin", base, "sin(%r)" % (base,), (base,))
    ca = ATOMS.get("cos", base, "cos(%r)" % (base,), (base,))
    if not ca.rules:
        ca.rules.append((((ca.id, 2),), {ZERO_MON: Fraction(1), ((sa.id, 2),): Fraction(-1)}))
        _nf_mon.clear()
    s2, c2 = atom_poly(sa), atom_poly(ca)
    # arccos / arcsin / arctan2
    a = _is_atom(base)
    if a is not None and a.kind in ("arccos", "arcsin", "arctan2"):
        s2, c2 = a.facts
    if neg:
        s2 = -s2
    return s1 * c2 + c1 * s2, c1 * c2 - s1 * s2


def _sincos_pi(c):
    c = c % 2
    table = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
    if c in table:
        s, k = table[c]
        return const(s), const(k)
    r2 = None
    if (c * 4).denominator == 1:
        s, q, r2 = sqrt_parts(const(2))
        h = r2.scale(Fraction(1, 2))
        i = int(c * 4)
        sg = {1: (1, 1), 3: (1, -1), 5: (-1, -1), 7: (-1, 1)}[i]
        return h.scale(sg[0]), h.scale(sg[1])
    if (c * 6).denominator == 1:
        s, q, r3 = sqrt_parts(const(3))
        h = r3.scale(Fraction(1, 2))
        o = const(Fraction(1, 2))
        i = int(c * 6)
        t = {1: (o, h), 2: (h, o), 4: (h, -o), 5: (o, -h), 7: (-o, -h), 8: (-h, -o), 10: (-h, o), 11: (-o, h)}
        return t[i]
    return None, None


def arc(kind, args, sin_, cos_):
    """An arccos/arcsin/arctan2 atom whose sine and cosine are known terms."""
    a = ATOMS.get(kind, (tuple(args), sin_, cos_), "%s(%s)" % (kind, ",".join(map(repr, args))), tuple(args))
    a.facts = (sin_, cos_)
    return atom_poly(a)


def unit_rule(polys):
    """Register p2^2 -> 1 - p0^2 - p1^2 for three single-atom polynomials."""
    a = [_is_atom(p) for p in polys]
    a = sorted(a, key=lambda x: x.id)
    top = a[-1]
    if any(l == ((top.id, 2),) for l, r in top.rules):
        return
    for x in a:
        x.facts = (x.facts or ()) + ((ONE - atom_poly(x), 6), (ONE + atom_poly(x), 6))
    rhs = {ZERO_MON: Fraction(1)}
    for x in a[:-1]:
        rhs[((x.id, 2),)] = Fraction(-1)
    top.rules.append((((top.id, 2),), rhs))
    _nf_mon.clear()


_so3 = None


def so3_rules(mat):
    """Register the ideal of proper rotations on a 3x3 matrix of fresh variable atoms
    (consecutive ids, row by row)."""
    global _so3
    if _so3 is None:
        import sympy
        R = [[sympy.Symbol("r%d%d" % (i, j)) for j in range(3)] for i in range(3)]
        M = sympy.Matrix(R)
        vs = [R[i][j] for i in range(3) for j in range(3)][::-1]
        eqs = list(M * M.T - sympy.eye(3)) + list(M.T * M - sympy.eye(3)) + list(M - M.cofactor_matrix())
        G = sympy.groebner(eqs, *vs, order="grlex")
        _so3 = []
        for g in G.exprs:
            P = sympy.Poly(g, *vs)
            terms = P.terms(order="grlex")
            lm, lc = terms[0]
            def conv(mon):
                return tuple((8 - i, e) for i, e in reversed(list(enumerate(mon))) if e)
            rhs = {conv(m): -Fraction(int(c.p), int(c.q)) / Fraction(int(lc.p), int(lc.q)) for m, c in terms[1:]}
            _so3.append((conv(lm), rhs))
    ids = [next(iter(mat[i][j].d))[0][0] for i in range(3) for j in range(3)]
    assert ids == sorted(ids)
    if ATOMS.list[ids[-1]].rules:
        return
    def tr(m):
        return tuple((ids[k], e) for k, e in m)
    for lhs, rhs in _so3:
        add_rule(tr(lhs), {tr(m): c for m, c in rhs.items()})


# ---------------------------------------------------------------- denominators

def _replace_inv(p, a, q, even):
    """Multiply p by q^K where a = inv(q) occurs up to power K (K made even if asked)."""
    K = 0
    for m in p.d:
        for x, e in m:
            if x == a.id:
                K = max(K, e)
    if even and K % 2:
        K += 1
    parts = {}
    for m, c in p.d.items():
        e = 0
        rest = []
        for x, ex in m:
            if x == a.id:
                e = ex
            else:
                rest.append((x, ex))
        parts.setdefault(e, {})
        _dict_add(parts[e], tuple(rest), c)
    out = ZERO
    for e, d in parts.items():
        out = out + Poly(d) * q.pow(K - e)
    return out


def clear_denoms(p, even=True, sign_of=None):
    """p times a positive quantity (even=True) / a non-zero quantity (even=False), free of
    inverses.  sign_of(q) may return +1/-1 when the sign of q is known, so that an odd power
    can be used."""
    guard = 0
    while True:
        ids = [x for x in p.atoms() if ATOMS.list[x].kind in ("inv", "inva")]
        if not ids:
            return p
        a = ATOMS.list[max(ids)]
        q = a.args[0] if a.kind == "inv" else atom_poly(a.args[0])
        K = max(e for m in p.d for x, e in m if x == a.id)
        s = sign_of(q) if (even and sign_of and K % 2) else None
        if even and K % 2 and not s:
            p = _replace_inv(p, a, q, True)
        else:
            p = _replace_inv(p, a, q, False)
            if s == -1:
                p = -p
        guard += 1
        if guard > 60:
            raise TermTooBig()


def equal(p, q):
    d = p - q
    if d.is_zero():
        return True
    d = clear_denoms(d, even=False)
    return d.is_zero()


# ---------------------------------------------------------------- numeric evaluation

def evalf(p, env, depth=0):
    """Evaluate with env: atom id -> float for input atoms."""
    import math
    tot = 0.0
    for m, c in p.d.items():
        t = float(c)
        for a, e in m:
            t *= atom_value(ATOMS.list[a], env) ** e
        tot += t
    return tot


def atom_value(a, env):
    import math
    v = env.get(a.id)
    if v is not None:
        return v
    if a.kind == "var" and a.name == "pi":
        v = math.pi
    elif a.kind == "sqrt":
        v = math.sqrt(max(0.0, evalf(a.args[0], env)))
    elif a.kind == "inv":
        v = 1.0 / evalf(a.args[0], env)
    elif a.kind == "inva":
        v = 1.0 / atom_value(a.args[0], env)
    elif a.kind == "sin":
        v = math.sin(evalf(a.args[0], env))
    elif a.kind == "cos":
        v = math.cos(evalf(a.args[0], env))
    elif a.kind == "arccos":
        v = math.acos(evalf(a.args[0], env))
    elif a.kind == "arcsin":
        v = math.asin(evalf(a.args[0], env))
    elif a.kind == "arctan2":
        v = math.atan2(evalf(a.args[0], env), evalf(a.args[1], env))
    elif a.kind in ("ceil",):
        v = math.ceil(evalf(a.args[0], env))
    else:
        raise KeyError(a.name)
    env[a.id] = v
    return v
