"""Loops over symbolic collections.

A comprehension [e for x in it] whose iterable has a symbolic length becomes a SymList: element k is
e evaluated at the k-th item, for a generic k (the map rule: the bodies are independent of each other,
which is checked: evaluating the body must not write to an array or object that existed before).

A `for` statement over such an iterable becomes a ForLoop (the independent-iterations rule): its body is
run once for a generic iteration, on every path, to find what it changes, which may be
- the part of an existing array that belongs to the iteration (a[i], a[:,i], ...),
- the iteration's own element of lists of symbolic length (objects made by earlier loops),
- one append to each of some lists that are empty before the loop.
Any other effect, a read of another iteration's part of what the loop changes, or a local variable carried from
one iteration to the next or out of the loop is outside the rule (Unsupported). After the loop, the
i-th part of the arrays, and the i-th elements of the lists, are what the body run for iteration i on the
state before the loop leaves there."""
import ast
import sys
import traceback
from . import terms as T
from . import arr as A
from .arr import SArr, CAxis, Clock
from .ctx import CTX, Unsupported, Infeasible, SpecSkip

MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "update", "setdefault", "add", "clear",
            "popitem", "discard", "appendleft", "popleft", "extendleft", "difference_update", "intersection_update"}


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def call(f, *args):
    return ast.Call(name(f), list(args), [])


def pure(e):
    """An expression that can be evaluated twice."""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    if isinstance(e, ast.Subscript):
        return pure(e.value) and all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.Subscript, ast.Slice,
                                                    ast.Tuple, ast.Load, ast.UnaryOp, ast.USub, ast.BinOp, ast.Add,
                                                    ast.Sub, ast.Mult)) for x in ast.walk(e.slice))
    return False


def bound_names(body):
    out = set()
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def sets_first(body, n):
    """Is the name given a new value before it is read in these statements?"""
    for st in body:
        uses = [x for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == n]
        if uses:
            return isinstance(st, ast.Assign) and all(isinstance(x.ctx, ast.Store) for x in uses)
    return False


class Loads(ast.NodeVisitor):
    """Names read in a function outside a given loop (a loop that sets a name itself does not read it from elsewhere)."""
    def __init__(self, skip, after):
        self.skip, self.names, self.set = skip, set(), []
        self.after = after and (skip.end_lineno, skip.end_col_offset)      # reads before the loop do not count

    def visit_For(self, node):
        if node is self.skip:
            self.visit(node.iter)
            return
        self.visit(node.iter)
        self.set.append({x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)} |
                        {n for n in bound_names(node.body) if sets_first(node.body, n)})
        for st in node.body:
            self.visit(st)
        self.set.pop()
        for st in node.orelse:
            self.visit(st)

    def _comp(self, node):
        self.set.append({x.id for g in node.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)})
        self.generic_visit(node)
        self.set.pop()

    visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = _comp

    def visit_Lambda(self, node):
        self.set.append({a.arg for a in node.args.args})
        self.generic_visit(node)
        self.set.pop()

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and not any(node.id in s for s in self.set):
            if not self.after or not hasattr(node, "lineno") or (node.lineno, node.col_offset) >= self.after:
                self.names.add(node.id)


class Body(ast.NodeTransformer):
    """The body of a loop as a function body: continue -> return, X.append(e) noted. .bad says why it cannot be."""
    def __init__(self, local):
        self.bad, self.inner, self.local, self.lists = None, 0, local, {}

    def no(self, why):
        self.bad = self.bad or why

    def visit_Return(self, node):
        self.no("return from a loop")
        return node

    def visit_Break(self, node):
        if not self.inner:
            self.no("break")
        return node

    def visit_Continue(self, node):
        return node if self.inner else ast.copy_location(ast.Return(None), node)

    def visit_Yield(self, node):
        self.no("yield")
        return node

    visit_YieldFrom = visit_Await = visit_Global = visit_Nonlocal = visit_NamedExpr = visit_Yield

    def _loop(self, node):
        self.inner += 1
        self.generic_visit(node)
        self.inner -= 1
        return node

    visit_For = visit_While = _loop

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            self.no("super()")
        if isinstance(f, ast.Attribute) and f.attr == "append" and len(node.args) == 1 and not node.keywords and \
                not self.inner:
            x = f.value
            base = x
            while isinstance(base, ast.Attribute):
                base = base.value
            if isinstance(base, ast.Name) and base.id not in self.local:
                k = ast.dump(x)
                self.lists.setdefault(k, (len(self.lists), x))
                val = self.visit(node.args[0])
                return ast.copy_location(call("__sx_app__", ast.Constant(self.lists[k][0]), x, val), node)
        self.generic_visit(node)
        return node


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.fns, self.classes, self.n, self.depth = [], [], 0, 0

    # ------------------------------------------------ comprehensions and displays
    def _comp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.ifs or g.is_async:
            return node
        t = g.target
        if isinstance(t, ast.Name):
            names, star = [t.id], False
        elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
            names, star = [x.id for x in t.elts], True
        else:
            return node
        for x in ast.walk(node.elt):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return node
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[],
                                       defaults=[]), node.elt)
        new = ast.Call(name("__sx_comp__"), [lam, g.iter, ast.Constant(star),
                                             ast.Constant(isinstance(node, ast.GeneratorExp))], [])
        return ast.copy_location(new, node)

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    def _display(self, node):
        self.generic_visit(node)
        if isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            return ast.copy_location(call("__sx_new__", node), node)
        return node

    visit_List = visit_Dict = visit_Set = _display

    # ------------------------------------------------ effects
    def mangle(self, a):
        if self.classes and a.startswith("__") and not a.endswith("__"):
            return "_" + self.classes[-1].lstrip("_") + a
        return a

    def touches(self, targets):
        out = []
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    o = self.plain(x.value) if pure(x.value) else ast.Constant(None)
                    out.append(ast.Expr(call("__sx_touch__", o, ast.Constant(self.mangle(x.attr)))))
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    o = self.plain(x.value) if pure(x.value) else ast.Constant(None)
                    arg = [o, ast.Constant(None)]
                    if pure(x.value) and isinstance(x.value, ast.Attribute) and x.value.attr == "__dict__":
                        arg.append(self.plain(x.value.value))
                    out.append(ast.Expr(call("__sx_touch__", *arg)))
        return out

    @staticmethod
    def plain(e):
        return ast.parse(ast.unparse(e), mode="eval").body

    def _assign(self, node):
        t = node.targets if hasattr(node, "targets") else [node.target]
        pre = self.touches(t)
        self.generic_visit(node)
        return [ast.copy_location(x, node) for x in pre] + [node]

    visit_Assign = visit_AugAssign = visit_Delete = _assign

    def visit_AnnAssign(self, node):
        return self._assign(node) if node.value is not None else node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            node.func = ast.copy_location(call("__sx_mut__", f.value, ast.Constant(f.attr)), f)
        elif isinstance(f, ast.Name) and f.id in ("dict", "list", "set", "sorted"):
            return ast.copy_location(call("__sx_fresh__", node), node)
        return node

    def visit_ClassDef(self, node):
        self.classes.append(node.name)
        old, self.fns = self.fns, []
        self.generic_visit(node)
        self.fns = old
        self.classes.pop()
        return node

    def visit_FunctionDef(self, node):
        self.fns.append(node)
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        self.fns.pop()
        if node.name == "__init__" and self.classes and node.args.args:
            k = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(k, ast.copy_location(ast.Expr(call("__sx_born__", name(node.args.args[0].arg))), node.body[0]))
        return node

    # ------------------------------------------------ loops
    def visit_While(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_For(self, node):
        if not self.fns:
            self.generic_visit(node)
            return node
        body = node.body
        t = node.target
        if isinstance(t, ast.Name):
            names, star = [t.id], False
        elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
            names, star = [x.id for x in t.elts], True
        else:
            names, star = None, False
        import copy
        local = bound_names(body)
        loads = Loads(node, not self.depth)
        for st in self.fns[-1].body:
            loads.visit(st)
        bad = None
        if names is None:
            bad = "loop target"
        elif node.orelse:
            bad = "for ... else"
        elif (local | set(names)) & loads.names:
            bad = "variable set in a loop and read elsewhere"
        fn = Body(local | set(names or ()))
        sym = []
        for st in copy.deepcopy(body):
            r = fn.visit(st)
            sym.extend(r if isinstance(r, list) else [r])
        bad = bad or fn.bad
        for x, (k, e) in fn.lists.items():
            if isinstance(e, ast.Name) and e.id in bound_names(sym):
                bad = bad or "list rebound in the loop"
        # both forms of the body get the other rewrites
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        self.n += 1
        it, fname, lp = "__sx_it_%d" % self.n, "__sx_body_%d" % self.n, "__sx_lp_%d" % self.n
        node.iter, src = name(it), node.iter
        if bad:
            alt = [ast.Expr(call("__sx_bad__", ast.Constant(bad)))]
        else:
            tmp = []
            self.depth += 1
            for st in sym:
                r = self.visit(st)
                tmp.extend(r if isinstance(r, list) else [r])
            self.depth -= 1
            f = ast.FunctionDef(fname, ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[],
                                                     kw_defaults=[], defaults=[]), tmp or [ast.Pass()], [])
            f.type_params = []
            grown = []
            for x, (k, e) in sorted(fn.lists.items(), key=lambda z: z[1][0]):
                e = copy.deepcopy(e)
                if isinstance(e, ast.Name):
                    grown.append(ast.Tuple([ast.Constant(None), ast.Constant(e.id), e], ast.Load()))
                else:
                    grown.append(ast.Tuple([copy.deepcopy(e.value), ast.Constant(self.mangle(e.attr)), e], ast.Load()))
            alt = [f, ast.Assign([name(lp, ast.Store())], call("__sx_for__", name(it), name(fname), ast.Constant(star),
                                                               ast.Tuple(grown, ast.Load())))]
            for x, (k, e) in sorted(fn.lists.items(), key=lambda z: z[1][0]):
                tgt = copy.deepcopy(e)
                tgt.ctx = ast.Store()
                e = copy.deepcopy(e)
                alt.extend(self.touches([tgt]))
                alt.append(ast.Assign([tgt], call("__sx_appended__", name(lp), ast.Constant(k), e)))
        out = [ast.Assign([name(it, ast.Store())], src),
               ast.If(ast.Compare(call("__sx_symbolic__", name(it)), [ast.Is()], [ast.Constant(None)]), [node], alt)]
        return [ast.copy_location(x, node) for x in out]


# ---------------------------------------------------------------- evaluation of one iteration

OWN = {}            # id -> (object, root of the run that made it, list and address it is the element of)
JOURNAL = []        # [time, undo, redo, undone now] of changes to objects outside loops
LAZY = [False]


class Run(object):
    """The evaluation of one item of a list, or of one iteration of a loop."""
    released = False        # what it made is the specification's own

    def __init__(self, loop, addr, parent=None, discover=False):
        self.loop, self.addr, self.discover, self.parent = loop, addr, discover, parent
        self.root = parent.root if parent is not None else self
        if parent is None:
            self.made, self.used = [], {}
        self.saved, self.wrote, self.bad, self.work, self.appends = {}, {}, {}, {}, {}
        self.loud = discover

    # arrays made outside
    def row(self, st, view):
        lp = self.loop
        for k, a in A.row_of(view, len(st.axes)):
            if a == self.addr and A.axis_equiv(st.axes[k], lp.axis):
                return k
        return None

    def writes(self, st, view):
        if self.loop is None:
            raise Unsupported("loop body writes to an array made outside it")
        k = self.row(st, view)
        if k is None:
            raise Unsupported("loop body writes to the part of an array that belongs to other iterations")
        if not self.discover and st not in self.loop.arrays:
            raise Unsupported("loop with varying effects")
        if self.wrote.setdefault(st, k) != k:
            raise Unsupported("loop body writes to two axes of an array")
        if st not in self.saved:
            self.saved[st] = (st.fn, st.wrote)

    def reads(self, st, view):
        if self.discover and self.row(st, view) is None:
            self.bad[st] = True

    def owns(self, o):
        w = OWN.get(id(o))
        return w is not None and w[0] is o and w[1] is self.root

    def __enter__(self):
        self.back = (Clock.run, Clock.asof)
        Clock.run = self
        t = self.loop.made if self.loop is not None else self.made_at
        Clock.asof = t if Clock.asof is None else min(t, Clock.asof)
        self.undone = []
        for e in reversed(JOURNAL):
            if e[0] <= Clock.asof:
                break
            if not e[3]:
                e[1]()
                e[3] = True
                self.undone.append(e)
        return self

    def __exit__(self, *a):
        for e in reversed(self.undone):
            e[2]()
            e[3] = False
        Clock.run, Clock.asof = self.back
        return False


class ItemRun(Run):
    def __init__(self, made_at, parent=None):
        Run.__init__(self, None, None, parent)
        self.made_at = made_at
        self.loud = False


def born(o):
    r = Clock.run
    if r is not None and id(o) not in OWN:
        OWN[id(o)] = (o, r.root, None)
    elif r is not None and OWN[id(o)][0] is not o:
        OWN[id(o)] = (o, r.root, None)


def new(x):
    if Clock.run is not None:
        Clock.run.root.made.append(x)
    return x


def fresh(x):
    """What a call of dict, list, set or sorted gave."""
    return new(x) if type(x) in (list, dict, set) else x


_missing = object()


def touch(o, attr, owner=None):
    """Before an attribute (or, with no attribute, an item) of o is set."""
    r = Clock.run
    if isinstance(o, SArr):
        return              # see SArr.stamp
    if r is None:
        if not LAZY[0]:
            return
        w = OWN.get(id(o))
        if w is not None and w[0] is o and not w[1].released:
            raise Unsupported("an element of a list of symbolic length is changed outside a loop over it")
        if isinstance(o, SymSeq) or o is None:
            raise Unsupported("assignment the loop rules cannot follow")
        record(o, attr)
        return
    if attr is None and type(o) in (list, dict, set):
        if any(x is o for x in r.root.made):
            return
        if owner is not None and r.owns(owner):
            return          # the object's __dict__
    elif attr is not None and r.owns(o):
        return
    raise Unsupported("loop body changes an object made outside it")


def record(o, attr):
    Clock.now += 1
    if attr is None:
        if type(o) in (list, dict, set):
            old = o.copy()
            cell = []

            def undo():
                cell[:] = [o.copy()]
                fill(o, old)

            def redo():
                fill(o, cell[0])
            JOURNAL.append([Clock.now, undo, redo, False])
        return
    d = getattr(o, "__dict__", None)
    if d is None:
        return
    old = d.get(attr, _missing)
    cell = []

    def undo():
        cell[:] = [d.get(attr, _missing)]
        put(d, attr, old)

    def redo():
        put(d, attr, cell[0])
    if isinstance(d, dict):
        JOURNAL.append([Clock.now, undo, redo, False])


def put(d, k, v):
    if v is _missing:
        d.pop(k, None)
    else:
        d[k] = v


def fill(o, c):
    if type(o) is list:
        o[:] = c
    else:
        o.clear()
        o.update(c)


def mut(o, attr):
    """The mutating method of a container."""
    if type(o) in (list, dict, set):
        touch(o, None)
    elif Clock.run is not None and isinstance(o, (list, dict, set)):
        raise Unsupported("loop body changes an object made outside it")
    return getattr(o, attr)


def sx_setattr(o, n, v):
    touch(o, n)
    setattr(o, n, v)


# ---------------------------------------------------------------- collections of symbolic length

class SymRange(object):
    def __init__(self, args):
        if len(args) != 1:
            raise Unsupported("range with symbolic bounds")
        self.n = args[0]
        self.axis = A.axis_of_size(self.n)

    def item(self, addr):
        return SArr.scalar(self.axis.pos(addr), "i", py=True)

    def __iter__(self):
        raise Unsupported("loop of symbolic length")

    def __sx_len__(self):
        return self.n


class SymZip(object):
    def __init__(self, parts):
        self.parts = parts
        self.axis = parts[0].axis
        for p in parts[1:]:
            if not A.axis_equiv(p.axis, self.axis):
                raise Unsupported("zip of lists of different symbolic lengths")

    def item(self, addr):
        return tuple(p.item(addr) for p in self.parts)

    def __iter__(self):
        raise Unsupported("loop of symbolic length")


class AxisRange(object):
    def __init__(self, axis, start=0):
        self.axis, self.start = axis, start

    def item(self, addr):
        return SArr.scalar(self.axis.pos(addr) + T.const(self.start), "i", py=True)


def is_value(r):
    return r is None or isinstance(r, (SArr, int, float, str))


class SymList(object):
    """A list with one element per address of an axis."""
    _n = 0

    def __init__(self, axis, fn, of=None):
        if Clock.run is not None:
            raise Unsupported("nested loops of symbolic length")
        self.axis, self.fn, self.of = axis, fn, of
        SymList._n += 1
        self.id = SymList._n
        self.made = Clock.now
        self.updates = []       # the loops that change our elements
        self.used = {}          # other lists whose elements ours may contain
        self.stale = None
        LAZY[0] = True

    def version(self):
        t = Clock.asof
        return len(self.updates) if t is None else sum(1 for lp in self.updates if lp.made < t)

    released = False

    def private(self, addr):
        """A copy of an element, for a specification to probe."""
        run = ItemRun(self.made)
        r = self.build(addr, self.version(), None, run)
        run.released = True
        return r

    def build(self, addr, v, parent=None, run=None):
        run = run or ItemRun(self.made, parent)
        with run:
            r = self.fn(addr, run) if self.of else self.fn(addr)
            if isinstance(r, SArr) and r.store.birth <= Clock.asof:
                r = r.copy()
        if is_value(r):
            return r
        w = OWN.get(id(r))
        if w is not None and w[0] is r and w[1] is not run.root and w[2] is not None:
            return w[2][0].item(w[2][1])         # an element of another list: as that is now
        for lp in self.updates[:v]:
            lp.execute(addr, run, {(self.id, addr): (self, addr, r)})
        # elements of other lists that are part of this one
        now = Clock.asof if Clock.asof is not None else Clock.now
        for l in run.root.used.values():
            if l is not self:
                self.used[l.id] = l
                if any(self.made <= lp.made < now for lp in l.updates):
                    raise Unsupported("list made of elements that have been changed since")
        if self.stale is not None and self.stale < now:
            raise Unsupported("elements changed through another list")
        if w is not None and w[0] is r and w[1] is run.root:
            OWN[id(r)] = (r, run.root, (self, addr))
        return r

    def item(self, addr):
        run = Clock.run
        if run is not None and run.loop is not None:
            # the iteration's own element, as a copy it may change
            k = (self.id, addr)
            if k in run.work:
                return run.work[k][2]
            if addr != run.addr or not A.axis_equiv(self.axis, run.loop.axis):
                raise Unsupported("loop body uses the elements of other iterations")
            r = self.build(addr, self.version(), run)
            if not is_value(r):
                run.root.used[self.id] = self
            elif isinstance(r, SArr):
                r.store.elem = self         # not to be written: the write would be lost
            run.work[k] = (self, addr, r)
            return r
        v = self.version()
        k = ("symlist", self.id, addr, v)
        c = CTX.cache
        if k not in c:
            Clock.run = None
            try:
                r = self.build(addr, v)
            finally:
                Clock.run = run
            c[k] = r
        r = c[k]
        if run is not None and not is_value(r):
            run.root.used[self.id] = self
        return r

    def __sx_array__(self, dtype=None):
        """As one array: all elements have the shape of the generic one."""
        shapes = []

        def body():
            e = A.asarray(self.item(self.axis.generic()))
            shapes.append((e.axes, e.kind))
        CTX.explore(body)
        if not shapes:
            raise Unsupported("list of unknown element shape")
        axes, kind = shapes[0]
        for a, k in shapes[1:]:
            if len(a) != len(axes) or not all(A.axis_equiv(x, y) for x, y in zip(a, axes)) or k != kind:
                raise Unsupported("elements of different shapes")
        return SArr((self.axis,) + tuple(axes), lambda i: A.asarray(self.item(i[0])).at(*i[1:]) if len(i) > 1 else
                    A.asarray(self.item(i[0])).item(), kind)


class SymSeq(object):
    """A list: runs of known elements (lists) and runs of symbolic length (SymLists)."""
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, list):
                if not p:
                    continue
                if self.parts and isinstance(self.parts[-1], list):
                    self.parts[-1] = self.parts[-1] + p
                    continue
                p = list(p)
            self.parts.append(p)

    @property
    def only(self):
        """The SymList, if that is all there is."""
        if len(self.parts) == 1 and isinstance(self.parts[0], SymList):
            return self.parts[0]
        return None

    def axis_of_all(self):
        if self.only is None:
            raise Unsupported("list of known and symbolic parts")
        return self.only.axis

    axis = property(axis_of_all)

    def item(self, addr):
        if self.only is None:
            raise Unsupported("list of known and symbolic parts")
        return self.only.item(addr)

    def size(self):
        n = T.ZERO
        for p in self.parts:
            n = n + (T.const(len(p)) if isinstance(p, list) else p.axis.size())
        return n

    def __iter__(self):
        raise Unsupported("loop of symbolic length")

    def __getitem__(self, k):
        if isinstance(k, SArr) and not k.axes and k.kind == "i":
            p = k.item()
            if not (isinstance(p, T.Poly) and p.is_const()):
                if self.only is None:
                    raise Unsupported("index of a list of known and symbolic parts")
                return self.only.item(self.only.axis.resolve(p))
            k = int(p.const())
        if not isinstance(k, int):
            raise Unsupported("index of a list of symbolic length")
        if k >= 0 and isinstance(self.parts[0], list) and k < len(self.parts[0]):
            return self.parts[0][k]
        if k < 0 and isinstance(self.parts[-1], list) and -k <= len(self.parts[-1]):
            return self.parts[-1][k]
        if self.only is None:
            raise Unsupported("index of a list of known and symbolic parts")
        return self.only.item(self.only.axis.resolve(T.const(k)))

    def _parts(self, o):
        if isinstance(o, SymSeq):
            return o.parts
        if isinstance(o, list):
            return [o]
        raise TypeError("can only concatenate list to list")

    def __add__(self, o):
        return new(SymSeq(self.parts + self._parts(o)))

    def __radd__(self, o):
        return new(SymSeq(self._parts(o) + self.parts))

    def extend(self, o):
        if Clock.run is not None:
            raise Unsupported("loop body changes an object made outside it")
        old = self.parts
        now = SymSeq(self.parts + self._parts(o)).parts
        Clock.now += 1

        def undo():
            self.parts = old

        def redo():
            self.parts = now
        redo()
        JOURNAL.append([Clock.now, undo, redo, False])

    def append(self, x):
        self.extend([x])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("%s of a list of symbolic length" % a)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of lists of symbolic length")

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self.__sx_len__() > 0)

    def __sx_len__(self):
        if self.only is not None:
            return A.dim_value(self.only.axis)
        return SArr.scalar(self.size(), "i", py=True)

    def __sx_array__(self, dtype=None):
        if self.only is None:
            raise Unsupported("array of a list of known and symbolic parts")
        return self.only.__sx_array__(dtype)


def symbolic(it):
    if isinstance(it, (SymRange, SymSeq, SymZip)):
        return it
    if isinstance(it, SArr) and it.axes and not isinstance(it.axes[0], CAxis):
        return ArrItems(it)
    return None


class ArrItems(object):
    def __init__(self, a):
        self.a, self.axis = a, a.axes[0]

    def item(self, addr):
        return A.index_addr(self.a, addr)


def sx_comp(f, it, star, gen):
    s = symbolic(it)
    if s is None:
        items = (f(*x) for x in it) if star else (f(x) for x in it)
        return items if gen else new(list(items))
    # what the body's free variables are now: it is evaluated later
    f = bind_now(f)

    def over(s):
        return SymList(s.axis, (lambda a: f(*s.item(a))) if star else (lambda a: f(s.item(a))))
    if isinstance(s, SymSeq):
        return SymSeq([[f(*x) if star else f(x) for x in p] if isinstance(p, list) else over(p) for p in s.parts])
    return SymSeq([over(s)])


class Growing(object):
    """Stands for a list that a loop appends to: the body may do nothing else with it."""
    def __init__(self, lst):
        self.lst = lst

    def __getattr__(self, a):
        raise Unsupported("loop body uses the list it appends to")

    def no(self, *a):
        raise Unsupported("loop body uses the list it appends to")

    __len__ = __iter__ = __getitem__ = __setitem__ = __add__ = __radd__ = __iadd__ = __contains__ = __eq__ = __ne__ = no
    __bool__ = __sx_len__ = __sx_array__ = __mul__ = __rmul__ = __delitem__ = no
    __hash__ = object.__hash__


def bind_now(f, names={}):
    """A copy of a function whose closure no longer follows later assignments."""
    import types
    if f.__closure__ is None:
        return f
    cells = []
    for nm, c in zip(f.__code__.co_freevars, f.__closure__):
        if nm in names:
            cells.append(types.CellType(names[nm]))
            continue
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


# ---------------------------------------------------------------- for statements

class ForLoop(object):
    def __init__(self, s, body, star, grown=()):
        if Clock.run is not None:
            raise Unsupported("nested loops of symbolic length")
        self.s, self.axis, self.star = s, s.axis, star
        self.body = bind_now(body, {n: Growing(l) for o, n, l in grown if o is None})
        LAZY[0] = True
        Clock.now += 1
        self.made = Clock.now
        self.arrays, self.lists, self.alias = {}, {}, {}
        held = [(o, n, l) for o, n, l in grown if o is not None]
        for o, n, l in held:
            o.__dict__[n] = Growing(l)
        try:
            self.discover()
        finally:
            for o, n, l in held:
                o.__dict__[n] = l
        Clock.now += 1

    def call(self, addr):
        x = self.s.item(addr)
        self.body(*x) if self.star else self.body(x)

    def finish(self, run):
        out = {}
        for st, (fn, wrote) in run.saved.items():
            out[st] = st.fn
            st.fn, st.wrote = fn, wrote
        run.finals = out

    def discover(self):
        runs, errs = [], []

        def body():
            a = self.axis.generic()
            run = Run(self, a, discover=True)
            try:
                with run:
                    try:
                        self.call(a)
                    finally:
                        self.finish(run)
            except (Infeasible, SpecSkip, Unsupported, T.TermTooBig):
                raise
            except Exception as e:
                errs.append("%s: %s" % (type(e).__name__, e))
            runs.append(run)
        CTX.explore(body)
        if errs:
            raise Unsupported("loop body may raise %s" % errs[0])
        bad = {}
        lists = None
        touched = {}
        for r in runs:
            for st, k in r.wrote.items():
                if self.arrays.setdefault(st, k) != k:
                    raise Unsupported("loop body writes to two axes of an array")
            bad.update(r.bad)
            ks = {k: len(v) for k, v in r.appends.items()}
            if lists is not None and ks != lists:
                raise Unsupported("loop that appends to a list in some iterations only")
            lists = ks
            for (lid, a), (lst, addr, obj) in r.work.items():
                if not is_value(obj):
                    touched[lid] = lst
            objs = {}
            for k, v in sorted(r.appends.items()):
                if is_value(v[0]):
                    continue
                for k0, o in objs.items():
                    if o is v[0]:
                        self.alias.setdefault(k, set()).add(k0)
                        break
                else:
                    if objs:
                        raise Unsupported("loop that appends objects to two lists")
                    objs[k] = v[0]
        for k, v in self.alias.items():
            if len(v) != 1 or any(r.appends[k][0] is not r.appends[next(iter(v))][0] for r in runs):
                raise Unsupported("loop that appends objects to two lists")
        for st in self.arrays:
            if st in bad:
                raise Unsupported("loop body reads an array written by other iterations")
        if lists and any(n != 1 for n in lists.values()):
            raise Unsupported("loop that appends more than once to a list")
        self.keys = set(lists or ())
        for st, k in self.arrays.items():
            self.layer(st, k)
        for lst in touched.values():
            lst.updates.append(self)
            for l in lst.used.values():
                l.stale = self.made if l.stale is None else min(self.made, l.stale)

    def layer(self, st, k):
        base = st.fn
        self.arrays[st] = (k, base)
        Clock.now += 1

        def fn(b):
            run = self.run(b[k])
            return A.rd(run.finals.get(st, base), b)
        st.hist = (Clock.now, base, st.hist)
        st.wrote = Clock.now
        st.fn = fn

    def execute(self, addr, parent=None, pre=None):
        run = Run(self, addr, parent)
        if pre:
            run.work.update(pre)
        keep = [(st, st.fn, st.wrote) for st in self.arrays]
        try:
            for st, (k, base) in self.arrays.items():
                st.fn, st.wrote = base, 0
            with run:
                self.call(addr)
            run.finals = {st: st.fn for st in self.arrays}
        finally:
            for st, f, w in keep:
                st.fn, st.wrote = f, w
        return run

    def run(self, addr):
        """The memoised evaluation of an iteration."""
        k = ("forloop", id(self), addr)
        c = CTX.cache
        r = c.get(k)
        if r is None:
            old = Clock.run
            Clock.run = None
            try:
                r = self.execute(addr)
            finally:
                Clock.run = old
            c[k] = r
        return r

    def appended(self, key):
        if key not in self.keys:
            return None          # no iteration
        if key in self.alias:
            return self.appended(next(iter(self.alias[key])))
        if key in self.lists:
            return self.lists[key]
        self.lists[key] = SymList(self.axis, lambda a, parent: self.execute(a, parent).appends[key][0], of=self)
        self.lists[key].made = self.made
        return self.lists[key]


class Loop(object):
    """A for statement over a sequence with symbolic parts: the parts in turn."""
    def __init__(self, s, body, star, grown):
        for g in grown:
            if type(g[2]) is not list or g[2]:
                raise Unsupported("loop that appends to a list that is not empty")
            if sys.getrefcount(g[2]) > 3:
                raise Unsupported("loop that appends to a list with two names")
        if not isinstance(s, SymSeq):
            self.parts = [ForLoop(s, body, star, grown)]
            return
        self.parts = []
        for p in s.parts:
            if isinstance(p, SymList):
                self.parts.append(ForLoop(p, body, star, grown))
                continue
            if grown:
                raise Unsupported("loop that appends, over a list of known and symbolic parts")
            for x in p:
                body(*x) if star else body(x)

    def appended(self, key, old):
        for p in self.parts:
            l = p.appended(key)
            if l is not None:
                return SymSeq([l])
        return old


def sx_app(key, lst, val):
    r = Clock.run
    if r is None or r.loop is None:
        raise Unsupported("append")
    r.appends.setdefault(key, []).append(val)


def sx_bad(why):
    raise Unsupported("loop of symbolic length: " + why)


def sx_for(it, body, star, grown=()):
    return Loop(symbolic(it), body, star, grown)


def sx_appended(lp, key, old):
    return lp.appended(key, old)


def sx_iter(x):
    return iter(x)


def sx_zip(*a):
    s = [symbolic(x) for x in a]
    if not any(x is not None for x in s):
        return zip(*a)
    if any(x is None for x in s):
        raise Unsupported("zip of lists of fixed and symbolic lengths")
    return SymZip([x.only or x if isinstance(x, SymSeq) else x for x in s])


def sx_enumerate(x, start=0):
    s = symbolic(x)
    if s is None:
        return enumerate(x, start)
    if not isinstance(start, int):
        raise Unsupported("enumerate")
    return SymZip([AxisRange(s.axis, start), s])


def sx_reduce(f, it, *init):
    import functools
    import operator
    if not isinstance(it, SymSeq):
        return functools.reduce(f, it, *init)
    if not init and any(isinstance(p, list) and p and isinstance(p[0], (list, SymSeq)) for p in it.parts):
        init = ([],)            # a sum of lists, at least one
    if f is not operator.add or not init or not isinstance(init[0], (list, SymSeq)):
        raise Unsupported("reduction of a list of symbolic length")
    acc = init[0]
    for p in it.parts:
        if isinstance(p, list):
            for x in p:
                acc = acc + x
            continue
        lens = set()

        def one():
            x = p.item(p.axis.generic())
            lens.add(len(x) if type(x) is list else None)
        CTX.explore(one)
        if not lens:
            continue
        if len(lens) > 1 or None in lens:
            raise Unsupported("sum of lists of unknown lengths")
        m = lens.pop()
        if m == 1:
            acc = acc + SymSeq([SymList(p.axis, lambda a, p=p: p.item(a)[0])])
        elif m:
            acc = acc + SymSeq([SymList(A.ProdAxis(p.axis, CAxis(m)), lambda a, p=p: p.item(a[1])[a[2]])])
    return acc


class Functools(object):
    def __getattr__(self, n):
        import functools
        return sx_reduce if n == "reduce" else getattr(functools, n)


BUILTINS = {"__sx_iter__": sx_iter, "__sx_comp__": sx_comp, "__sx_new__": new, "__sx_fresh__": fresh, "__sx_touch__": touch, "__sx_mut__": mut,
            "__sx_born__": born, "__sx_symbolic__": symbolic, "__sx_for__": sx_for, "__sx_app__": sx_app,
            "__sx_appended__": sx_appended, "__sx_bad__": sx_bad, "zip": sx_zip, "enumerate": sx_enumerate,
            "setattr": sx_setattr}
