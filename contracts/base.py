"""Registry of contracts.  A contract is a function of an environment E; the same text is
discharged by the deductive engine (sx/symenv.py) and executed on the really running code
(conc/concenv.py)."""

ALL = []


class Contract(object):
    def __init__(self, prop, name, fn, bound, cases, thorough, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.bound = bound          # None: holds without bound; else text stating the bound
        self.cases = cases          # concrete cases per quick run
        self.thorough = thorough    # only in thorough runs
        self.opts = opts

    @property
    def id(self):
        return "%s/%s" % (self.prop, self.name)


def contract(prop, name=None, bound=None, cases=150, thorough=False, **opts):
    def deco(fn):
        ALL.append(Contract(prop, name or fn.__name__, fn, bound, cases, thorough, opts))
        return fn
    return deco


MODULES = ["c_optics", "c_geom", "c_bundle", "c_frames", "c_models", "c_engine", "c_state", "c_mesh"]


def load(names=None):
    import importlib
    for m in names or MODULES:
        importlib.import_module("contracts." + m)
    return ALL


# ---------------------------------------------------------------- vector helpers on spec values

def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def add3(a, b):
    return [x + y for x, y in zip(a, b)]


def sub3(a, b):
    return [x - y for x, y in zip(a, b)]


def scale3(k, a):
    return [k * x for x in a]


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def col(E, arr, i):
    return [E.at(arr, k, i) for k in range(3)]


def row(E, arr, i):
    return [E.at(arr, i, k) for k in range(3)]


def vec(E, arr):
    return [E.at(arr, k) for k in range(3)]


def mat(E, arr, n=3, m=None):
    return [[E.at(arr, i, j) for j in range(m or n)] for i in range(n)]


def matvec(M, v):
    return [sum((M[i][j] * v[j] for j in range(1, len(v))), M[i][0] * v[0]) for i in range(len(M))]


def matmul(A, B):
    n, k, m = len(A), len(B), len(B[0])
    return [[sum((A[i][q] * B[q][j] for q in range(1, k)), A[i][0] * B[0][j]) for j in range(m)] for i in range(n)]


def transpose(M):
    return [list(r) for r in zip(*M)]


def prove_vec_eq(E, name, a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        E.eq("%s[%d]" % (name, k), x, y)


def prove_mat_eq(E, name, A, B):
    for i, (r, s) in enumerate(zip(A, B)):
        for j, (x, y) in enumerate(zip(r, s)):
            E.eq("%s[%d,%d]" % (name, i, j), x, y)
