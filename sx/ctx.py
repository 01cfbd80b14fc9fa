"""Path exploration: decisions, path facts, obligations."""
import time
from fractions import Fraction
from . import terms as T
from . import solve as S
from .solve import NEG, ZER, POS

INF = float("inf")
NAN = float("nan")


class Infeasible(Exception):
    """The current path contradicts its own facts (or an assumption): drop it."""


class Unsupported(Exception):
    """The code left the verifier's reach."""


class SpecSkip(Exception):
    """A contract case does not apply on this path."""


class TooManyPaths(Unsupported):
    pass


class Cache(dict):
    """Memo table of a path; reads fall through to the enclosing path's table."""
    __slots__ = ("parent",)

    def __init__(self, parent=None):
        dict.__init__(self)
        self.parent = parent

    def get(self, k, default=None):
        c = self
        while c is not None:
            if dict.__contains__(c, k):
                return dict.__getitem__(c, k)
            c = c.parent
        return default

    def __contains__(self, k):
        c = self
        while c is not None:
            if dict.__contains__(c, k):
                return True
            c = c.parent
        return False

    def __getitem__(self, k):
        c = self
        while c is not None:
            if dict.__contains__(c, k):
                return dict.__getitem__(c, k)
            c = c.parent
        raise KeyError(k)


class Obligation(object):
    __slots__ = ("name", "status", "how", "detail", "facts", "goal", "time", "model", "exact")

    def __init__(self, name, status, how, detail="", facts=None, goal=None, t=0.0):
        self.name = name
        self.status = status      # discharged / failed / unknown
        self.how = how
        self.detail = detail
        self.facts = facts
        self.goal = goal
        self.time = t
        self.model = None
        self.exact = True


class Ctx(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.signs = {}
        self.facts = []            # (poly, mask)
        self.universals = []       # (axis, fn(addr) -> assumes)
        self.cache = Cache()
        self.addrs = []            # (axis, addr) generic addresses drawn on this path
        self.counter = 0
        self.prefix = []
        self.pos = 0
        self.alts = []
        self.taken = []
        self.depth = 0
        self.obls = []
        self.npaths = 0
        self.feas_timeout = 400
        self.prove_timeout = 8000
        self.deadline = None
        self.subst = []
        self.opaque = False
        self.loopstack = []
        self.maxpaths = 3000
        self.choices = {}
        self.lazy_abs = False
        self.lazy_exists = False
        self.nofeas = False

    # ------------------------------------------------------------ state
    def save(self):
        return (dict(self.signs), len(self.facts), len(self.universals), self.cache, self.counter,
                self.prefix, self.pos, self.alts, self.taken, len(self.addrs), self.opaque, dict(self.choices))

    def restore(self, st):
        self.signs, nf, nu, self.cache, self.counter, self.prefix, self.pos, self.alts, self.taken = \
            dict(st[0]), st[1], st[2], st[3], st[4], st[5], st[6], st[7], st[8]
        del self.facts[nf:]
        del self.universals[nu:]
        del self.addrs[st[9]:]
        self.opaque = st[10]
        self.choices = dict(st[11])

    def fresh(self, base, sort="R"):
        self.counter += 1
        return T.var("%s#%d" % (base, self.counter), sort)

    def add_universal(self, axis, fact):
        self.universals.append((axis, fact))
        for ax, a in list(self.addrs):
            if ax == axis:
                fact(a)

    # ------------------------------------------------------------ signs
    def quick_sign(self, p):
        """Mask of possible signs of p from cheap reasoning."""
        if p.is_const():
            c = p.const()
            return POS if c > 0 else (NEG if c < 0 else ZER)
        L = T.ATOMS.list
        anyp = anyn = False
        strict = False
        for m, c in p.d.items():
            sg = 1
            nonzero = True
            for a, e in m:
                am = self.atom_sign(L[a])
                if e % 2 == 0:
                    if am & ZER:
                        nonzero = False
                else:
                    if am == POS:
                        pass
                    elif am == NEG:
                        sg = -sg
                    elif am == (POS | ZER):
                        nonzero = False
                    elif am == (NEG | ZER):
                        sg = -sg
                        nonzero = False
                    else:
                        return 7
            if sg * c > 0:
                anyp = True
            else:
                anyn = True
            if anyp and anyn:
                return 7
            if nonzero:
                strict = True
        if anyp:
            return POS if strict else POS | ZER
        return NEG if strict else NEG | ZER

    def atom_sign(self, a):
        p = T.atom_poly(a)
        m = self.signs.get(p, 7)
        if a.kind == "sqrt":
            m &= POS | ZER
            k, q = T.primitive(a.args[0])
            am = self.signs.get(q, 7)
            if k > 0 and not am & ZER:
                m &= POS
            if k > 0 and am == ZER:
                m &= ZER
            if a.args[0].is_const():
                m &= POS
        elif a.kind == "inva":
            m &= self.atom_sign(a.args[0])
            m &= NEG | POS
        elif a.kind == "inv":
            q = a.args[0]
            m &= self.signs.get(q, 7) & (NEG | POS)
        elif a.kind == "var" and a.name == "pi":
            m &= POS
        elif a.kind == "arccos":
            m &= POS | ZER
        return m

    def sign_of(self, q):
        k, r = T.primitive(q)
        m = self.signs.get(r, 7) & self.quick_sign(r)
        if m == POS:
            return 1 if k > 0 else -1
        if m == NEG:
            return -1 if k > 0 else 1
        return None

    @staticmethod
    def flip(mask):
        return (POS if mask & NEG else 0) | (mask & ZER) | (NEG if mask & POS else 0)

    def canon(self, p):
        p = p.renorm()
        p = T.clear_denoms(p, True, self.sign_of)
        p = p.renorm()
        k, q = T.primitive(p)
        return k, q

    def learn(self, q, mask):
        """Record the canonical fact sign(q) in mask."""
        cur = self.signs.get(q, 7)
        new = cur & mask
        if new == 0:
            raise Infeasible()
        if new != cur:
            self.signs[q] = new
            self.facts.append((q, new))
            self.propagate(q, new)

    def propagate(self, q, mask):
        # a positive multiple of a monomial: sign facts of single factors
        if len(q.d) == 1:
            (m, c), = q.d.items()
            if mask == ZER and len(m) == 1:
                self.learn(T.atom_poly(T.ATOMS.list[m[0][0]]), ZER)
            if not mask & ZER:
                for a, e in m:
                    p = T.atom_poly(T.ATOMS.list[a])
                    if p != q:
                        self.learn(p, NEG | POS)

    def possible(self, q):
        return self.signs.get(q, 7) & self.quick_sign(q)

    def modzero(self, q):
        """Possible signs of q from those of q - c*z for facts z = 0."""
        best = 7
        for z, m in self.facts:
            if m != ZER or z is q or len(z.d) < 2 or len(z.d) > 40:
                continue
            tried = set()
            for mon, c in list(z.d.items())[:6]:
                if mon in q.d:
                    f = q.d[mon] / c
                    if f in tried:
                        continue
                    tried.add(f)
                    r = q - z.scale(f)
                    if len(r.d) >= len(q.d):
                        continue
                    k, r = self.canon(r)
                    if r.is_const():
                        v = 0 if r.is_zero() else k * r.const()
                        return POS if v > 0 else (NEG if v < 0 else ZER)
                    pm = self.possible(r)
                    best &= self.flip(pm) if k < 0 else pm
                    if best in (POS, NEG, ZER):
                        return best
        return best

    def radical(self, q, depth=0):
        """Possible signs of A*sqrt(R) + B, from the signs of A, B and A^2 R - B^2."""
        L = T.ATOMS.list
        best = 7
        cands = set()
        for m in q.d:
            for a, e in m:
                if L[a].kind == "sqrt":
                    cands.add(a)
        if len(cands) > 3 or len(q.d) > 60:
            return 7
        for a in sorted(cands):
            A, B = {}, {}
            ok = True
            for m, c in q.d.items():
                es = [e for x, e in m if x == a]
                if not es:
                    B[m] = c
                elif es[0] == 1:
                    A[tuple(y for y in m if y[0] != a)] = c
                else:
                    ok = False
            if not ok:
                continue
            A, B = T.Poly(A), T.Poly(B)
            if B.is_zero():
                continue

            def sgn(p):
                k, r = self.canon(p)
                if r.is_const():
                    c = 0 if r.is_zero() else k * r.const()
                    return POS if c > 0 else (NEG if c < 0 else ZER)
                m = self.possible(r)
                if m == 7 and depth < 1:
                    m &= self.radical(r, depth + 1)
                return self.flip(m) if k < 0 else m
            sa = sgn(A)
            if sa & NEG and sa & POS:
                continue
            if len(A.d) * len(B.d) > 200:
                continue
            d = sgn(A * A * L[a].args[0] - B * B)
            m = 7
            if not d & NEG:
                m = (POS | ZER) if d & ZER else POS
                if sa & NEG:
                    m = self.flip(m)
            elif not d & (POS | ZER):
                m = sgn(B)
            best &= m
        return best

    def positive(self, s):
        """A valid fact (no need to tell the solver)."""
        self.signs[s] = self.signs.get(s, 7) & POS
        if not self.signs[s]:
            raise Infeasible()

    def use_sos(self, p, k, q):
        if p.sos and not q.is_const():
            m = POS if p.sos == 2 else POS | ZER
            if k < 0:
                m = self.flip(m)
            new = self.signs.get(q, 7) & m
            if not new:
                raise Infeasible()
            self.signs[q] = new

    # ------------------------------------------------------------ decisions
    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def decide(self, p, mask):
        """Truth of sign(p) in mask on this path; forks when open."""
        k, q = self.canon(p)
        if q.is_const():
            c = k * q.const() if not q.is_zero() else 0
            s = POS if c > 0 else (NEG if c < 0 else ZER)
            return bool(s & mask)
        self.use_sos(p, k, q)
        if k < 0:
            mask = self.flip(mask)
        cur = self.possible(q)
        if cur & mask and cur & ~mask & 7:
            cur &= self.radical(q)
        if cur & mask and cur & ~mask & 7:
            cur &= self.modzero(q)
        if not cur & mask:
            return False
        if not cur & ~mask & 7:
            return True
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(ch)
            if ch[0] == "f":          # was decided by the solver
                self.learn(q, mask if ch[1] else ~mask & 7)
                return ch[1]
            self.learn(q, mask if ch[1] else ~mask & 7)
            return ch[1]
        self.check_deadline()
        if self.nofeas:
            r1 = r2 = "unknown"
        else:
            r1, _ = S.check(self.facts, [(q, cur & mask)], self.feas_timeout)
        if r1 == "unsat":
            ch = ("f", False)
        else:
            if not (self.nofeas):
                r2, _ = S.check(self.facts, [(q, cur & ~mask & 7)], self.feas_timeout)
            if r2 == "unsat":
                ch = ("f", True)
            else:
                ch = ("d", True)
                self.alts.append(list(self.taken) + [("d", False)])
        self.pos += 1
        self.prefix = list(self.taken) + [ch]
        self.taken.append(ch)
        self.learn(q, mask if ch[1] else ~mask & 7)
        return ch[1]

    def choose(self, n):
        """Demonic choice among n alternatives."""
        if n == 1:
            return 0
        if n == 0:
            raise Infeasible()
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(ch)
            return ch[1]
        for k in range(n - 1, 0, -1):
            self.alts.append(list(self.taken) + [("c", k)])
        ch = ("c", 0)
        self.pos += 1
        self.prefix = list(self.taken) + [ch]
        self.taken.append(ch)
        return 0

    def assume(self, b):
        if not b:
            raise Infeasible()

    def assume_sign(self, p, mask):
        k, q = self.canon(p)
        if q.is_const():
            c = k * q.const() if not q.is_zero() else 0
            s = POS if c > 0 else (NEG if c < 0 else ZER)
            if not s & mask:
                raise Infeasible()
            return
        self.learn(q, self.flip(mask) if k < 0 else mask)

    # ------------------------------------------------------------ exploration
    def explore(self, fn, maxpaths=None):
        """Run fn on every path below the current one; returns the list of results."""
        st = self.save()
        self.depth += 1
        todo = [[]]
        out = []
        n = 0
        try:
            while todo:
                pre = todo.pop()
                self.restore(st)
                self.cache = Cache(st[3])
                self.prefix, self.pos, self.alts, self.taken = pre, 0, [], []
                n += 1
                self.npaths += 1
                if n > (maxpaths or self.maxpaths):
                    raise TooManyPaths("more than %d paths" % n)
                try:
                    out.append(fn())
                except (Infeasible, SpecSkip):
                    pass
                todo.extend(self.alts)
        finally:
            self.restore(st)
            self.depth -= 1
        return out

    # ------------------------------------------------------------ obligations
    def prove(self, name, p, mask, detail=""):
        """Obligation: sign(p) in mask under the path facts."""
        t0 = time.time()
        k, q = self.canon(p)
        if q.is_const():
            c = k * q.const() if not q.is_zero() else 0
            s = POS if c > 0 else (NEG if c < 0 else ZER)
            if s & mask:
                S.STATS["ring"] += 1
                self.obls.append(Obligation(name, "discharged", "ring", t=time.time() - t0))
                return True
            return self._prove_solver(name, [], detail, t0)
        self.use_sos(p, k, q)
        if k < 0:
            mask = self.flip(mask)
        cur = self.possible(q)
        if cur & ~mask & 7 == NEG or cur & ~mask & 7 == POS:
            # a perfect square?
            sq = T.square_factor(q)[1]
            if sq.is_const():
                cur &= (POS | ZER) if sq.const() > 0 else (NEG | ZER)
        if cur & ~mask & 7:
            cur &= self.radical(q)
        if cur & ~mask & 7:
            cur &= self.modzero(q)
        if not cur & ~mask & 7:
            S.STATS["ring"] += 1
            self.obls.append(Obligation(name, "discharged", "ring", t=time.time() - t0))
            return True
        return self._prove_solver(name, [(q, cur & ~mask & 7)], detail, t0)

    def entails(self, p, mask, timeout=1000):
        """Whether the path facts imply sign(p) in mask (no obligation)."""
        k, q = self.canon(p)
        if q.is_const():
            c = k * q.const() if not q.is_zero() else 0
            return bool((POS if c > 0 else (NEG if c < 0 else ZER)) & mask)
        if k < 0:
            mask = self.flip(mask)
        cur = self.possible(q) & self.radical(q) & self.modzero(q)
        if not cur & ~mask & 7:
            return True
        return S.check(self.facts, [(q, cur & ~mask & 7)], timeout, ("z3",))[0] == "unsat"

    def discharged(self, name):
        S.STATS["ring"] += 1
        self.obls.append(Obligation(name, "discharged", "ring"))

    def fail(self, name, detail="", exc=False):
        """Obligation that the current path is impossible."""
        return self._prove_solver(name, [], detail, time.time(), exc)

    def _prove_solver(self, name, extra, detail, t0, exc=False):
        self.check_deadline()
        r, how = None, None
        for be, to in (("z3", 600), ("cvc5", 2000), ("z3", self.prove_timeout), ("cvc5", self.prove_timeout)):
            if extra:
                r, _ = S.check(self.facts, extra, to, (be,))
            else:
                r = self._facts_consistent(to, be)
            how = be
            if r != "unknown":
                break
            if not extra and be == "z3" and any(S.focused(self.facts, [f]) for f in self.facts[-8:]):
                r = "unsat"
                break
        sure = True
        if r == "sat" and extra:
            # the facts left out because they share nothing with the goal
            c = self._facts_consistent(2000, "z3")
            if c == "unsat":
                r = "unsat"
            sure = c == "sat"
            if r == "sat" and S.has_ints(self.facts, extra):
                c, _ = S.check(self.facts, extra, 2000, ("z3",), ints=True)
                if c == "unsat":
                    r, how = "unsat", "z3"
                sure = sure and c == "sat"
        ob = Obligation(name, {"unsat": "discharged", "sat": "failed", "unknown": "unknown"}[r], how,
                        detail, None, None, time.time() - t0)
        if r != "unsat":
            ob.facts = list(self.facts)
            ob.goal = list(extra)
            ob.exact = not self.opaque and not exc and sure
            if r == "sat" and sum(1 for o in self.obls if o.name == name and o.model) < 2:
                ob.model = self.describe(self.model_of(ob))
        self.obls.append(ob)
        return r == "unsat"

    def _facts_consistent(self, to, be):
        """'unsat' if the facts of this path are contradictory."""
        # component by component
        L = [(p, m, set(p.atoms())) for p, m in self.facts]
        comps = []
        for p, m, at in L:
            _, at = S.def_facts(at)
            hit = [c for c in comps if c[1] & at]
            new = ([(p, m)], set(at))
            for c in hit:
                new[0].extend(c[0])
                new[1].update(c[1])
                comps.remove(c)
            comps.append(new)
        worst = "sat"
        for fs, at in comps:
            r, _ = S.check([], fs, to, (be,))
            if r == "unsat":
                return "unsat"
            if r == "unknown":
                worst = "unknown"
        return worst

    def describe(self, m):
        """A solver model as values of the named inputs."""
        if m is None:
            return None
        L = T.ATOMS.list
        env = dict(m)
        vs, apps, addrs = {}, {}, set()
        for x, v in m.items():
            a = L[x]
            if a.kind == "var":
                if a.name.startswith("i#"):
                    addrs.add(v)
                else:
                    vs[a.name] = v
            elif a.kind == "app":
                try:
                    apps.setdefault(a.key[0], []).append(([T.evalf(p, env) for p in a.args], v))
                except KeyError:
                    pass
        return {"vars": vs, "apps": apps, "addrs": sorted(addrs), "choices": dict(self.choices)}

    def model_of(self, ob, timeout=10000):
        r, m = S.check(ob.facts, ob.goal, timeout, ("z3",), want_model=True)
        return m if r == "sat" else None


CTX = Ctx()
