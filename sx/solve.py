"""SMT back ends: z3 (API) and cvc5 (API) on conjunctions of polynomial sign conditions."""
import math
import time
from fractions import Fraction
import z3
from . import terms as T

NEG, ZER, POS = 1, 2, 4
STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "ring": 0}

_zv = {}


def zvar(a):
    v = _zv.get(a.id)
    if v is None:
        v = z3.Real("a%d" % a.id)
        _zv[a.id] = v
    return v


def zpoly(p):
    L = T.ATOMS.list
    ts = []
    for m, c in p.d.items():
        t = None
        for a, e in m:
            for _ in range(e):
                t = zvar(L[a]) if t is None else t * zvar(L[a])
        k = z3.RealVal(str(c))
        ts.append(k if t is None else (t if c == 1 else k * t))
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def zlit(p, mask):
    e = zpoly(p)
    return {NEG: e < 0, ZER: e == 0, POS: e > 0, NEG | ZER: e <= 0, ZER | POS: e >= 0,
            NEG | POS: e != 0}[mask]


PI_LO, PI_HI = Fraction(31415926535, 10**10), Fraction(31415926536, 10**10)


def def_facts(atom_ids):
    """Defining facts of the atoms, closed under the atoms they mention.
    Returns list of (poly, mask) and the closed atom id set."""
    L = T.ATOMS.list
    todo = list(atom_ids)
    seen = set(todo)
    out = []
    def add(p, mask):
        out.append((p, mask))
        for x in p.atoms():
            if x not in seen:
                seen.add(x)
                todo.append(x)
    while todo:
        a = L[todo.pop()]
        ap = T.atom_poly(a)
        if a.kind == "sqrt":
            add(ap, ZER | POS)
            # s^2 - arg = 0, built raw (the product would rewrite itself away)
            d = {((a.id, 2),): Fraction(1)}
            for m, c in a.args[0].d.items():
                T._dict_add(d, m, -c)
            add(T.Poly(d), ZER)
        elif a.kind in ("inv", "inva"):
            q = a.args[0] if a.kind == "inv" else T.atom_poly(a.args[0])
            d = {T.ZERO_MON: Fraction(-1)}
            for m, c in q.d.items():
                T._dict_add(d, T.mon_mul(m, ((a.id, 1),)), c)
            add(T.Poly(d), ZER)
        elif a.kind in ("sin", "cos"):
            s = T.ATOMS.by_key[("sin", a.key)]
            c = T.ATOMS.by_key[("cos", a.key)]
            add(T.Poly({((s.id, 2),): Fraction(1), ((c.id, 2),): Fraction(1), T.ZERO_MON: Fraction(-1)}), ZER)
        elif a.kind == "var" and a.name == "pi":
            add(ap - T.const(PI_LO), POS)
            add(ap - T.const(PI_HI), NEG)
        elif a.kind == "arccos":
            add(ap, ZER | POS)
            add(T.PI - ap, ZER | POS)
        elif a.kind == "arcsin":
            add(T.PI.scale(Fraction(1, 2)) - ap, ZER | POS)
            add(T.PI.scale(Fraction(1, 2)) + ap, ZER | POS)
        elif a.kind == "arctan2":
            add(T.PI - ap, ZER | POS)
            add(T.PI + ap, POS)
        elif a.kind == "ceil":
            add(ap - a.args[0], ZER | POS)
            add(ap - a.args[0] - T.ONE, NEG)
        elif a.kind == "floor":
            add(a.args[0] - ap, ZER | POS)
            add(ap + T.ONE - a.args[0], POS)
        # ideal rules of input atoms (unit vectors, rotation matrices) as facts
        if a.kind in ("var", "app"):
            for lhs, rhs in a.rules:
                d = {lhs: Fraction(1)}
                for m, c in rhs.items():
                    T._dict_add(d, m, -c)
                if all(x in seen for m in d for x, e in m):
                    out.append((T.Poly(d), ZER))
                elif len(lhs) == 1:
                    add(T.Poly(d), ZER)
            if a.facts:
                for p, mask in a.facts:
                    add(p, mask)
    return out, seen


def slice_facts(facts, goal_atoms):
    """Facts transitively sharing atoms with the goal."""
    L = T.ATOMS.list
    fa = []
    for p, mask in facts:
        fa.append((p, mask, set(p.atoms())))
    sel = set(goal_atoms)
    # atoms linked through definitions
    def close(s):
        d, seen = def_facts(s)
        return seen
    sel = close(sel)
    used = [False] * len(fa)
    changed = True
    while changed:
        changed = False
        for i, (p, mask, at) in enumerate(fa):
            if not used[i]:
                if at & sel or not at:
                    used[i] = True
                    if not at <= sel:
                        sel |= close(at)
                    changed = True
    return [(p, m) for (p, m, at), u in zip(fa, used) if u], sel


def app_congruence(seen):
    """Congruence constraints for applications of one function at different arguments."""
    L = T.ATOMS.list
    groups = {}
    for x in seen:
        a = L[x]
        if a.kind == "app" and a.args:
            groups.setdefault(a.key[0], []).append(a)
    out = []
    for f, l in groups.items():
        if len(l) < 2 or len(l) > 6:
            continue
        for i in range(len(l)):
            for j in range(i):
                diffs = [x - y for x, y in zip(l[i].args, l[j].args)]
                if any(d.is_const() and not d.is_zero() for d in diffs):
                    continue
                out.append((diffs, T.atom_poly(l[i]) - T.atom_poly(l[j])))
    return out


_cache = {}


def tighten(p, m):
    """Strict inequalities between integers."""
    if m not in (NEG, POS):
        return p, m
    L = T.ATOMS.list
    den = 1
    for mon, c in p.d.items():
        for a, e in mon:
            if L[a].sort != "I":
                return p, m
        d = Fraction(c).denominator
        den = den * d // math.gcd(den, d)
    q = p.scale(Fraction(den))
    return (q + T.ONE, NEG | ZER) if m == NEG else (q - T.ONE, POS | ZER)


def has_ints(facts, extra):
    goal_atoms = set()
    for p, m in extra:
        goal_atoms |= p.atoms()
    sl, sel = slice_facts(facts, goal_atoms)
    L = T.ATOMS.list
    at = set(sel)
    for p, m in sl:
        at |= p.atoms()
    return any(L[a].sort == "I" for a in at)


def check(facts, extra, timeout_ms=1000, backends=("z3",), want_model=False, clauses=(), ints=False):
    """Satisfiability of facts + extra (lists of (poly, mask)).
    Returns 'unsat', 'sat' or 'unknown' (and a model dict if wanted).
    clauses: list of lists of (poly, mask), disjunctions."""
    goal_atoms = set()
    for p, m in extra:
        goal_atoms |= p.atoms()
    for cl in clauses:
        for p, m in cl:
            goal_atoms |= p.atoms()
    sl, sel = slice_facts(facts, goal_atoms) if not want_model else (list(facts), None)
    allf = list(sl) + list(extra)
    atoms = set()
    for p, m in allf:
        atoms |= p.atoms()
    for cl in clauses:
        for p, m in cl:
            atoms |= p.atoms()
    defs, seen = def_facts(atoms)
    cong = app_congruence(seen)
    allf = [tighten(p, m) for p, m in allf]
    defs = [tighten(p, m) for p, m in defs]
    key = (frozenset(allf), tuple(tuple(c) for c in clauses), timeout_ms, tuple(backends), ints)
    if not want_model and key in _cache:
        return _cache[key], None
    res, model = "unknown", None
    for be in backends:
        if be == "z3":
            res, model = _z3(allf, defs, cong, clauses, timeout_ms, want_model, ints)
        else:
            res, model = _cvc5(allf, defs, cong, clauses, timeout_ms)
        if res != "unknown":
            break
    if res == "unknown" and extra and not want_model and focused(facts, extra, min(timeout_ms, 500)):
        res = "unsat"
    if not want_model:
        _cache[key] = res
    return res, model


def focused(facts, extra, timeout_ms=500):
    """Whether the facts about nothing but the atoms of the goal refute it."""
    at = set()
    for p, m in extra:
        at |= p.atoms()
    _, at = def_facts(at)
    sub = [(p, m) for p, m in facts if p.atoms() <= at and (p, m) not in extra]
    if len(sub) == len(facts):
        return False
    allf = [tighten(p, m) for p, m in sub + list(extra)]
    key = ("focused", frozenset(allf))
    if key not in _cache:
        defs, seen = def_facts(at)
        _cache[key] = _z3(allf, [tighten(p, m) for p, m in defs], app_congruence(seen), (), timeout_ms, False)[0]
    return _cache[key] == "unsat"


def _z3(allf, defs, cong, clauses, timeout_ms, want_model, ints=False):
    t0 = time.time()
    s = z3.Solver() if ints else z3.SolverFor("QF_NRA")
    if ints:
        L = T.ATOMS.list
        at = set()
        for p, m in list(allf) + list(defs):
            at |= p.atoms()
        for a in at:
            if L[a].sort == "I":
                s.add(z3.IsInt(zvar(L[a])))
    s.set("timeout", int(timeout_ms))
    for p, m in allf:
        s.add(zlit(p, m))
    for p, m in defs:
        s.add(zlit(p, m))
    for diffs, d in cong:
        s.add(z3.Implies(z3.And([zpoly(x) == 0 for x in diffs]), zpoly(d) == 0))
    for cl in clauses:
        s.add(z3.Or([zlit(p, m) for p, m in cl]))
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        model = None
        if want_model:
            m = s.model()
            model = {}
            for d in m.decls():
                nm = d.name()
                if nm.startswith("a") and nm[1:].isdigit():
                    v = m[d]
                    try:
                        if z3.is_algebraic_value(v):
                            v = v.approx(20)
                        model[int(nm[1:])] = float(v.as_fraction())
                    except Exception:
                        pass
        return "sat", model
    return "unknown", None


def _cvc5(allf, defs, cong, clauses, timeout_ms):
    """cvc5 in a child process (its own time limit is not always honoured)."""
    import os
    import select
    import signal
    t0 = time.time()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = b"unknown"
        try:
            import resource
            lim = int(timeout_ms / 1000.0) + 3 + int(sum(os.times()[:2]))
            resource.setrlimit(resource.RLIMIT_CPU, (lim, lim))
            res = _cvc5_run(allf, defs, cong, clauses, timeout_ms).encode()
        finally:
            os.write(w, res)
            os._exit(0)
    os.close(w)
    res = "unknown"
    if select.select([r], [], [], timeout_ms / 1000.0 + 1.0)[0]:
        res = os.read(r, 100).decode() or "unknown"
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    STATS["cvc5_calls"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return res, None


def _cvc5_run(allf, defs, cong, clauses, timeout_ms):
    import cvc5
    from cvc5 import Kind
    tm = cvc5.TermManager()
    s = cvc5.Solver(tm)
    s.setLogic("QF_NRA")
    s.setOption("tlimit-per", str(int(timeout_ms)))
    R = tm.getRealSort()
    vs = {}
    L = T.ATOMS.list

    def cp(p):
        ts = []
        for m, c in p.d.items():
            fs = [tm.mkReal(c.numerator, c.denominator) if isinstance(c, Fraction) else tm.mkReal(c)]
            for a, e in m:
                if a not in vs:
                    vs[a] = tm.mkConst(R, "a%d" % a)
                fs.extend([vs[a]] * e)
            ts.append(tm.mkTerm(Kind.MULT, *fs) if len(fs) > 1 else fs[0])
        if not ts:
            return tm.mkReal(0)
        return tm.mkTerm(Kind.ADD, *ts) if len(ts) > 1 else ts[0]

    zero = tm.mkReal(0)

    def lit(p, m):
        e = cp(p)
        if m == NEG:
            return tm.mkTerm(Kind.LT, e, zero)
        if m == ZER:
            return tm.mkTerm(Kind.EQUAL, e, zero)
        if m == POS:
            return tm.mkTerm(Kind.GT, e, zero)
        if m == NEG | ZER:
            return tm.mkTerm(Kind.LEQ, e, zero)
        if m == ZER | POS:
            return tm.mkTerm(Kind.GEQ, e, zero)
        return tm.mkTerm(Kind.DISTINCT, e, zero)
    for p, m in list(allf) + list(defs):
        s.assertFormula(lit(p, m))
    for diffs, d in cong:
        lhs = [tm.mkTerm(Kind.EQUAL, cp(x), zero) for x in diffs]
        lhs = lhs[0] if len(lhs) == 1 else tm.mkTerm(Kind.AND, *lhs)
        s.assertFormula(tm.mkTerm(Kind.IMPLIES, lhs, tm.mkTerm(Kind.EQUAL, cp(d), zero)))
    for cl in clauses:
        ls = [lit(p, m) for p, m in cl]
        s.assertFormula(ls[0] if len(ls) == 1 else tm.mkTerm(Kind.OR, *ls))
    r = s.checkSat()
    if r.isUnsat():
        return "unsat"
    if r.isSat():
        return "sat"
    return "unknown"
