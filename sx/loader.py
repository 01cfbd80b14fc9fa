"""Executes the translated modules of /repo in the verifier's world.

The text executed is exactly what /opt/vp's translator produces from /repo's current tree, with
one mechanical change to its syntax tree: float literals become exact rationals, and loops and
comprehensions over symbolic iterables go through __sx_iter__ / __sx_comp__ (see loops.py).
numpy and math resolve to the shims; len, range, float ... to versions that know symbolic values.
"""
import ast
import builtins
import hashlib
import importlib
import importlib.abc
import importlib.util
import os
import sys
from . import terms as T
from . import npshim
from . import arr as A
from .arr import SArr, CAxis
from .ctx import CTX, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
TRANSLATOR = "/opt/vp/py3/translate.py"
SKIP = ("qt", "mayavi_ui")


def translator():
    spec = importlib.util.spec_from_file_location("vp_translate", TRANSLATOR)
    m = importlib.util.module_from_spec(spec)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        spec.loader.exec_module(m)
    return m


def translate_all(repo=None):
    """dict: relative path -> translated source, for the tracer package."""
    repo = repo or REPO
    tr = None
    out = {}
    top = os.path.join(repo, "tracer")
    for dp, dn, fn in os.walk(top):
        dn[:] = sorted(d for d in dn if d not in SKIP and not d.startswith("__"))
        for f in sorted(fn):
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, repo)
                if tr is None:
                    tr = translator()
                src = tr.translate(p)
                if isinstance(src, tuple):
                    src = src[0]
                out[rel] = src
    return out


# ---------------------------------------------------------------- syntax tree pass

class Transform(ast.NodeTransformer):
    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(ast.Call(ast.Name("__sx_c__", ast.Load()), [node], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Transform().visit(tree)
    from . import loops
    tree = loops.Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# ---------------------------------------------------------------- builtins

def sx_c(x):
    return SArr.scalar(T.const(T.frac_of_float(x)), "f", py=True)


def sx_len(x):
    if isinstance(x, SArr):
        if not x.axes:
            raise TypeError("len() of unsized object")
        return A.dim_value(x.axes[0])
    if hasattr(x, "__sx_len__"):
        return x.__sx_len__()
    return len(x)


def _as_int(x):
    if isinstance(x, SArr):
        p = x.item()
        if isinstance(p, T.Poly) and p.is_const():
            if x.kind == "f":
                raise TypeError("'float' object cannot be interpreted as an integer")
            return int(p.const())
        return x
    return x


def sx_range(*a):
    a = [_as_int(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    from . import loops
    return loops.SymRange(a)


class _Meta(type):
    def __instancecheck__(cls, x):
        return cls.check(x)


class sx_float(metaclass=_Meta):
    def __new__(cls, x=0.0):
        if isinstance(x, SArr):
            v = x.item()
            return SArr.scalar(A.V.num(v), "f", py=True)
        r = float(x)
        if r != r or r in (float("inf"), float("-inf")):
            return r
        return SArr.scalar(T.const(T.frac_of_float(r)), "f", py=True)

    @staticmethod
    def check(x):
        return isinstance(x, float) or (isinstance(x, SArr) and not x.axes and x.kind == "f")


class sx_int(metaclass=_Meta):
    def __new__(cls, x=0):
        if isinstance(x, SArr):
            v = A.V.num(x.item())
            if isinstance(v, float):
                raise ValueError("cannot convert float to integer")
            if v.is_const():
                return int(v.const())
            if x.kind == "i":
                return x
            if CTX.decide(v, A.NEG):
                r = A.V.v_ceil(v)
            else:
                r = A.V.v_floor(v)
            return SArr.scalar(r, "i", py=True)
        return int(x)

    @staticmethod
    def check(x):
        return isinstance(x, int) or (isinstance(x, SArr) and not x.axes and x.kind == "i" and x.py)


class sx_bool(metaclass=_Meta):
    def __new__(cls, x=False):
        return bool(x)

    @staticmethod
    def check(x):
        return isinstance(x, bool)


def _seqred(op, native):
    def f(*a, **k):
        if len(a) == 1 and isinstance(a[0], SArr):
            x = a[0]
            if x.ndim == 1 and not k:
                if isinstance(x.axes[0], CAxis) and op in ("min", "max"):
                    return native(*a, **k)
                return A.reduce_(op, x if op not in ("any", "all") or x.kind == "b" else x != 0, None)
        return native(*a, **k)
    return f


def sx_any(x):
    if isinstance(x, SArr) and x.ndim == 1:
        return bool((x if x.kind == "b" else x != 0).any())
    return any(x)


def sx_all(x):
    if isinstance(x, SArr) and x.ndim == 1:
        return bool((x if x.kind == "b" else x != 0).all())
    return all(x)


def sx_sum(x, start=0):
    if isinstance(x, SArr) and x.ndim == 1 and not isinstance(x.axes[0], CAxis):
        return x.sum() + start
    return sum(x, start)


def sx_round(x, n=None):
    if isinstance(x, SArr):
        raise Unsupported("round")
    return round(x) if n is None else round(x, n)


ALLOWED = {"types", "operator", "functools", "itertools", "copy", "collections", "__future__", "warnings", "abc"}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top == "numpy":
            if name == "numpy":
                return npshim.numpy
            if name in ("numpy.linalg", "numpy.random"):
                return getattr(npshim, name.split(".")[1]) if fromlist else npshim.numpy
            raise Unsupported("import %s" % name)
        if top == "math":
            return npshim.math
        if name == "functools":
            from . import loops
            return loops.Functools()
        if top != "tracer" and top not in ALLOWED:
            raise Unsupported("import %s" % name)
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    from . import loops
    d = dict(builtins.__dict__)
    d.update({"len": sx_len, "range": sx_range, "float": sx_float, "int": sx_int, "bool": sx_bool, "any": sx_any,
              "all": sx_all, "sum": sx_sum, "round": sx_round, "__import__": sx_import, "__sx_c__": sx_c,
              "print": lambda *a, **k: None})
    d.update(loops.BUILTINS)
    return d


# ---------------------------------------------------------------- import hook

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, srcs):
        self.srcs = srcs
        self.codes = {}
        self.b = make_builtins()

    def rel(self, name):
        base = name.replace(".", "/")
        if base + ".py" in self.srcs:
            return base + ".py", False
        if base + "/__init__.py" in self.srcs:
            return base + "/__init__.py", True
        return None, False

    def find_spec(self, name, path, target=None):
        if name != "tracer" and not name.startswith("tracer."):
            return None
        rel, pkg = self.rel(name)
        if rel is None:
            return None
        return importlib.util.spec_from_loader(name, self, origin="repo:" + rel, is_package=pkg)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        rel, pkg = self.rel(module.__name__)
        if rel not in self.codes:
            self.codes[rel] = transform(self.srcs[rel], "repo:" + rel)
        module.__dict__["__builtins__"] = self.b
        exec(self.codes[rel], module.__dict__)


_finder = None


def install(srcs):
    global _finder
    if _finder is not None:
        sys.meta_path.remove(_finder)
    purge()
    _finder = Finder(srcs)
    sys.meta_path.insert(0, _finder)


def purge():
    for m in list(sys.modules):
        if m == "tracer" or m.startswith("tracer."):
            del sys.modules[m]


def module(name):
    return importlib.import_module(name)


# ---------------------------------------------------------------- coverage of repo functions

class Reach(object):
    """Names of the /repo functions entered (cheap: sys.monitoring, once per code object)."""
    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        self.tool = m.PROFILER_ID
        m.use_tool_id(self.tool, "reach")
        m.register_callback(self.tool, m.events.PY_START, self.cb)
        m.set_events(self.tool, m.events.PY_START)
        m.restart_events()
        return self

    def cb(self, code, off):
        if code.co_filename.startswith("repo:"):
            q = code.co_qualname
            if q != "<module>" and "__sx_" not in q:
                self.seen.add(code.co_filename[5:] + ":" + q)
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        m.free_tool_id(self.tool)
        return False
