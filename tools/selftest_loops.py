import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import loops, loader, npshim, arr as A, terms as T
from sx.ctx import CTX, Unsupported
from sx.symenv import SymEnv
src='''
import numpy as N
class O(object):
    def __init__(self, x):
        self.x = x
        self.l = []
    def bump(self, d):
        self.x = self.x + d
def rows(n):
    a = N.zeros((n,3))
    for i in range(n):
        a[i] = i*2
        a[i,1] += 1
    return a
def alias(n):
    l = []
    m = l
    for i in range(n):
        l.append(i)
    return m
def uses(n):
    l = []
    for i in range(n):
        l.append(len(l))
    return l
def carried(n):
    a = N.zeros(n)
    for i in range(n):
        a[i] = a[i-1] + 1
    return a
def acc(n):
    t = 0
    for i in range(n):
        t = t + i
    return t
def objs(n):
    l = []
    for i in range(n):
        l.append(O(i))
    for o in l:
        o.bump(1)
    k = [o.x for o in l]
    for o in l:
        o.bump(5)
    return k, [o.x for o in l]
class H(object):
    def __init__(self, n):
        self.l = []
        self.d = 1
        for i in range(n):
            self.l.append(O(i))
    def go(self):
        for o in self.l:
            o.bump(self.d)
def attr(n):
    h = H(n)
    h.go()
    h.d = 10
    h.go()
    h.d = 100
    return [o.x for o in h.l]
def shared(n):
    z = O(0)
    l = []
    for i in range(n):
        z.bump(1)
        l.append(z)
    return l
def whole(n):
    a = N.zeros(n)
    for i in range(n):
        a[:] = i
    return a
def scat(n):
    a = N.zeros(n)
    for i in range(n):
        a[n-1-i] = i
    return a
def cond(n):
    l = []
    for i in range(n):
        if i > 3:
            l.append(i)
    return l
def after(n):
    for i in range(n):
        j = i
    return j
def two(n):
    l, m = [], []
    for i in range(n):
        o = O(i)
        l.append(o)
        m.append(o)
    for o in l:
        o.bump(7)
    return [o.x for o in m]
def two2(n):
    l, m = [], []
    for i in range(n):
        o = O(i)
        l.append(o)
        m.append((o, 1))
    for o in l:
        o.bump(7)
    return [o[0].x for o in m]
def embed(n):
    l = [O(i) for i in range(n)]
    m = [O(o) for o in l]
    for o in l:
        o.bump(7)
    return [o.x.x for o in m]
def embed2(n):
    l = [O(i) for i in range(n)]
    m = [O(o) for o in l]
    for o in m:
        o.x.bump(7)
    return [o.x for o in l]
def copyl(n):
    l = [O(i) for i in range(n)]
    m = [o for o in l]
    for o in m:
        o.bump(7)
    return [o.x for o in l]
def straight(n):
    l = [O(i) for i in range(n)]
    l[0].bump(3)
    return [o.x for o in l]
def inner(n):
    l = [N.zeros(3) for i in range(n)]
    for a in l:
        a[0] = 5
    return l
def rebind(n):
    k = 2
    l = [k*i for i in range(n)]
    k = 3
    return l
'''
code=loader.transform(src,"repo:toy.py")
b=loader.make_builtins()
g={"__builtins__":b,"__name__":"toy"}
exec(code,g)
def run(name):
    def body():
        E=SymEnv("t"); n=E.count("n",min=1)
        r=g[name](n)
        def show(x):
            if isinstance(x,tuple): return tuple(show(y) for y in x)
            if isinstance(x,loops.SymSeq): x=x.__sx_array__()
            x=A.asarray(x)
            if not x.axes: return x.item()
            a=x.axes[0].generic()
            rest=[0]*(x.ndim-1)
            if x.ndim>1: return [x.at(a,k) for k in range(3)]
            return x.at(a)
        return show(r)
    try: return CTX.explore(body)
    except Unsupported as e: return "Unsupported: %s"%e
    except Exception as e: import traceback; return traceback.format_exc(limit=-3)
for nm in [k for k,v in g.items() if callable(v) and not isinstance(v,type) and k!='__builtins__']: print(nm, run(nm))
