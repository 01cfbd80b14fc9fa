"""C12 optics managers, C13 receivers, C14 ray bundles, C18 sources, C19 diffuse reflection."""
from contracts.base import (contract, dot3, col, vec, cross3, add3, sub3, scale3, mat, matvec, prove_vec_eq)

PROPS = ("vertices", "directions", "energy", "parents", "ref_index", "temp", "pol", "coh")
ROWS = {"vertices": (3,), "directions": (3,), "pol": (2,), "coh": (2, 2)}       # dimensions besides the rays


def dims(p, n):
    return ROWS.get(p, ()) + (n,)


class Bundle(object):
    """A ray bundle with all basic properties and three user-defined ones, of one, two and three dimensions."""
    def __init__(self, E, name, n, over=None):
        self.E, self.n = E, n
        self.arr = {}
        for p in PROPS:
            if over and p in over:
                self.arr[p] = over[p]
            elif p in ROWS:
                self.arr[p] = E.array(name + "." + p, dims(p, n))
            elif p == "parents":
                self.arr[p] = E.selector(name + "." + p, 10**6, n)
            else:
                self.arr[p] = E.array(name + "." + p, (n,), nonneg=True)
        self.fr = dict((p, E.freeze(a)) for p, a in self.arr.items())
        self.old = dict((p, a.copy()) for p, a in self.arr.items())
        self.b = E.mod("tracer.ray_bundle").RayBundle(**self.arr)

    def untouched(self):
        for p in PROPS:
            self.E.unchanged("source %s not modified" % p, self.fr[p])
            self.E.true("source keeps its %s" % p, getattr(self.b, "get_" + p)() is self.arr[p])


def get(E, b, p, j):
    """Values of property p of ray j of a bundle (or of a dict of arrays)."""
    a = b[p] if isinstance(b, dict) else getattr(b, "get_" + p)()
    places = [()]
    for k in ROWS.get(p, ()):
        places = [x + (q,) for x in places for q in range(k)]
    return [E.at(a, *(x + (j,))) for x in places]


def shapes(E, b, n, what="result"):
    for p in PROPS:
        a = getattr(b, "get_" + p)()
        E.shape_is("%s: one %s per ray" % (what, p), a, dims(p, n))
    E.length_is("%s: number of rays" % what, b.get_num_rays(), n)


def same_ray(E, b, j, src, i, skip=(), what="taken from its source ray"):
    for p in PROPS:
        if p not in skip:
            prove_vec_eq(E, "%s %s" % (p, what), get(E, b, p, j), get(E, src, p, i))


# ------------------------------------------------------------------------------------ C14

def _replacement(E, m):
    """Some properties given explicitly: keyword arguments of inherit() and the values by property name."""
    kind = E.choice("replaced", ["none", "basic", "directions", "user"])
    if kind == "none":
        return {}, {}
    if kind == "basic":
        v, e = E.array("new.v", (3, m)), E.array("new.e", (m,))
        r = E.array("new.r", (m,))
        return {"vertices": v, "energy": e, "ref_index": r}, {"vertices": v, "energy": e, "ref_index": r}
    if kind == "directions":
        d = E.array("new.d", (3, m))
        p = E.selector("new.p", 1000, m)
        return {"direction": d, "parents": p}, {"directions": d, "parents": p}
    t = E.array("new.t", (m,))
    q = E.array("new.q", (2, m))
    c = E.array("new.c", (2, 2, m))
    return {"temp": t, "pol": q, "coh": c}, {"temp": t, "pol": q, "coh": c}


@contract("C14", "inherit_indices")
def inherit_idx(E):
    n = E.count("n")
    B = Bundle(E, "b", n)
    sel = E.selector("sel", n)
    m = E.axis(sel, 0)
    kw, rep = _replacement(E, m)
    out = B.b.inherit(sel, **kw)
    B.untouched()
    shapes(E, out, m)

    def ray(j):
        same_ray(E, out, j, B.old, E.at(sel, j), skip=rep)
        for p in rep:
            prove_vec_eq(E, p + " as given", get(E, out, p, j), get(E, rep, p, j))
    E.forall(m, ray)


@contract("C14", "inherit_mask")
def inherit_mask(E):
    n = E.count("n")
    B = Bundle(E, "b", n)
    mask = E.array("mask", (n,), kind="b")
    m = E.sub(mask)
    kw, rep = _replacement(E, m)
    out = B.b.inherit(mask, **kw)
    B.untouched()
    shapes(E, out, m)

    def ray(i):
        if not E.bool_at(mask, i):
            return
        j = E.rank(mask, i)
        same_ray(E, out, j, B.old, i, skip=rep)
        for p in rep:
            prove_vec_eq(E, p + " as given", get(E, out, p, j), get(E, rep, p, j))
    E.forall(n, ray)


@contract("C14", "inherit_all")
def inherit_all(E):
    n = E.count("n")
    B = Bundle(E, "b", n)
    kw, rep = _replacement(E, n)
    out = B.b.inherit(**kw)
    B.untouched()
    shapes(E, out, n)
    E.forall(n, lambda j: same_ray(E, out, j, B.old, j, skip=rep))
    # the new bundle has data of its own
    for p in PROPS:
        if p not in rep:
            getattr(out, "set_" + p)(0, E.np.array([True]) if False else slice(None))
    for p in PROPS:
        if p not in rep:
            E.unchanged("changing the new bundle leaves the source's %s alone" % p, B.fr[p])


@contract("C14", "delete_rays")
def delete_rays(E):
    n = E.count("n")
    B = Bundle(E, "b", n)
    sel = E.selector("sel", n, distinct=True)
    gone = E.member_mask(sel, n)
    keep = E.arr(lambda i: not E.bool_at(gone, i), (n,), kind="b")
    out = B.b.delete_rays(sel)
    B.untouched()
    shapes(E, out, E.sub(keep))

    def ray(i):
        if E.bool_at(keep, i):
            same_ray(E, out, E.rank(keep, i), B.old, i, what="taken from its surviving ray")
    E.forall(n, ray)


@contract("C14", "add")
def add(E):
    n, m = E.count("n"), E.count("m")
    A, B = Bundle(E, "a", n), Bundle(E, "b", m)
    out = A.b + B.b
    A.untouched()
    B.untouched()
    shapes(E, out, E.cat([n, m]))
    E.forall(n, lambda i: same_ray(E, out, E.cat_idx([n, m], 0, i), A.old, i))
    E.forall(m, lambda i: same_ray(E, out, E.cat_idx([n, m], 1, i), B.old, i))


def _concat(k):
    @contract("C14", "concatenate_%d" % k, bound="%d bundles" % k, cases=60)
    def concat(E):
        rb = E.mod("tracer.ray_bundle")
        ns = [E.count("n%d" % q) for q in range(k)]
        Bs = [Bundle(E, "b%d" % q, ns[q]) for q in range(k)]
        out = rb.concatenate_rays([B.b for B in Bs])
        for B in Bs:
            B.untouched()
        if k == 0:
            for p in PROPS[:5]:
                a = getattr(out, "get_" + p)()
                E.shape_is("empty %s" % p, a, dims(p, 0))
            E.true("no rays", out.get_num_rays() == 0)
            return
        shapes(E, out, E.cat(ns))
        for q in range(k):
            E.forall(ns[q], lambda i: same_ray(E, out, E.cat_idx(ns, q, i), Bs[q].old, i))


for _k in range(4):
    _concat(_k)


@contract("C14", "get_selected")
def get_selected(E):
    n = E.count("n")
    B = Bundle(E, "b", n)
    sel = E.selector("sel", n)
    p = E.choice("property", PROPS)
    got = getattr(B.b, "get_" + p)(sel)
    B.untouched()
    m = E.axis(sel, 0)
    E.shape_is("one value per selected ray", got, dims(p, m))
    E.forall(m, lambda j: prove_vec_eq(E, "value of the selected ray", get(E, {p: got}, p, j),
                                       get(E, B.old, p, E.at(sel, j))))


@contract("C14", "set_selected")
def set_selected(E):
    n = E.count("n")
    B = Bundle(E, "b", n)
    sel = E.selector("sel", n, distinct=True)
    gone = E.member_mask(sel, n)
    p = E.choice("property", PROPS)
    m = E.axis(sel, 0)
    new = E.selector("new", 1000, m) if p == "parents" else E.array("new", dims(p, m))
    getattr(B.b, "set_" + p)(new, sel)

    def selected(j):
        prove_vec_eq(E, "selected ray has the new value", get(E, B.b, p, E.at(sel, j)), get(E, {p: new}, p, j))

    def other(i):
        if not E.bool_at(gone, i):
            prove_vec_eq(E, "other rays keep theirs", get(E, B.b, p, i), get(E, B.old, p, i))
        for q in PROPS:
            if q != p:
                prove_vec_eq(E, "other properties untouched", get(E, B.b, q, i), get(E, B.old, q, i))
    E.forall(m, selected)
    E.forall(n, other)


@contract("C14", "set_all")
def set_all(E):
    n = E.count("n")
    B = Bundle(E, "b", n)
    p = E.choice("property", PROPS)
    new = E.array("new", dims(p, n))
    getattr(B.b, "set_" + p)(new)

    def ray(i):
        for q in PROPS:
            prove_vec_eq(E, "new value" if q == p else "other properties untouched", get(E, B.b, q, i),
                         get(E, {p: new} if q == p else B.old, q, i))
    E.forall(n, ray)


# ------------------------------------------------------------------------------------ C12

class Geometry(object):
    """Any geometry manager honouring C04-C08: a hit point and unit normal per selected ray."""
    def __init__(self, points, normals, up):
        self.p, self.n, self.u = points, normals, up

    def get_intersection_points_global(self): return self.p
    def get_normals(self): return self.n
    def up(self): return self.u


class Scene(object):
    """Rays with normals N = Q e_z and directions d = Q dl per ray; a selection of them hits."""
    def __init__(self, E, indices=None, tag=""):
        self.E = E
        n = self.n = E.count(tag + "n")
        d, N, dl = E.incidence(n, name=tag)
        over = {"directions": d}
        if indices:
            side = E.array(tag + "side", (n,), kind="b")
            over["ref_index"] = E.arr(lambda i: indices[0] if E.bool_at(side, i) else indices[1], (n,))
        self.B = Bundle(E, tag + "in", n, over)
        self.sel = E.selector(tag + "sel", n, distinct=True)
        self.m = E.axis(self.sel, 0)
        self.pts = E.array(tag + "pts", (3, self.m))
        self.N = N[:, self.sel]
        self.up = E.unit(tag + "up")
        self.geo = Geometry(self.pts, self.N, self.up)
        self.fr = [E.freeze(x) for x in (self.pts, self.N, self.up, self.sel)]

    def frame(self):
        self.B.untouched()
        for f in self.fr:
            self.E.unchanged("geometry data and selection not modified", f)

    def inherited(self, out, k, j, i, skip=()):
        """Outgoing ray k comes from selected ray j, index i of the bundle."""
        E = self.E
        prove_vec_eq(E, "starts at the hit point", get(E, out, "vertices", k), col(E, self.pts, j))
        E.eq("names its parent", E.at(out.get_parents(), k), i)
        same_ray(E, out, k, self.B.old, i, skip=("vertices", "directions", "energy", "parents") + tuple(skip),
                 what="inherited from the parent")


def reflected(x, u):
    c = dot3(x, u)
    return [a - 2 * c * b for a, b in zip(x, u)]


@contract("C12", "reflective")
def reflective(E):
    oc = E.mod("tracer.optics_callables")
    S = Scene(E)
    a = E.real("absorptivity", lo=0, hi=1)
    out = oc.Reflective(a)(S.geo, S.B.b, S.sel)
    S.frame()
    shapes(E, out, S.m, "one ray per selected ray")

    def ray(j):
        i = E.at(S.sel, j)
        S.inherited(out, j, j, i)
        E.eq("energy (1-a)", E.at(out.get_energy(), j), (1 - E.s(a)) * get(E, S.B.old, "energy", i)[0])
        prove_vec_eq(E, "reflected direction", get(E, out, "directions", j),
                     reflected(get(E, S.B.old, "directions", i), col(E, S.N, j)))
    E.forall(S.m, ray)


@contract("C12", "perfect_mirror")
def perfect_mirror(E):
    oc = E.mod("tracer.optics_callables")
    S = Scene(E)
    out = oc.perfect_mirror(S.geo, S.B.b, S.sel)
    S.frame()
    shapes(E, out, S.m, "one ray per selected ray")

    def ray(j):
        i = E.at(S.sel, j)
        S.inherited(out, j, j, i)
        E.eq("all energy kept", E.at(out.get_energy(), j), get(E, S.B.old, "energy", i)[0])
    E.forall(S.m, ray)


@contract("C12", "one_sided")
def one_sided(E):
    oc = E.mod("tracer.optics_callables")
    S = Scene(E)
    a = E.real("absorptivity", lo=0, hi=1)
    out = oc.AbsorberReflector(a)(S.geo, S.B.b, S.sel)
    S.frame()
    shapes(E, out, S.m, "one ray per selected ray")

    def ray(j):
        i = E.at(S.sel, j)
        S.inherited(out, j, j, i)
        x = get(E, S.B.old, "directions", i)
        e = E.at(out.get_energy(), j)
        if dot3(x, vec(E, S.up)) > 0:
            E.eq("from below: all absorbed", e, 0)
        else:
            E.eq("from above: energy (1-a)", e, (1 - E.s(a)) * get(E, S.B.old, "energy", i)[0])
        prove_vec_eq(E, "reflected direction", get(E, out, "directions", j), reflected(x, col(E, S.N, j)))
    E.forall(S.m, ray)


@contract("C12", "diffuse")
def diffuse(E):
    oc = E.mod("tracer.optics_callables")
    S = Scene(E)
    a = E.real("absorptivity", lo=0, hi=1)
    out = oc.LambertianReflector(a)(S.geo, S.B.b, S.sel)
    S.frame()
    shapes(E, out, S.m, "one ray per selected ray")

    def ray(j):
        i = E.at(S.sel, j)
        S.inherited(out, j, j, i)
        E.eq("energy (1-a)", E.at(out.get_energy(), j), (1 - E.s(a)) * get(E, S.B.old, "energy", i)[0])
    E.forall(S.m, ray)


@contract("C12", "toggle_ref_idx")
def toggle(E):
    oc = E.mod("tracer.optics_callables")
    na, nb = E.real("na", pos=True), E.real("nb", pos=True)
    n = E.count("n")
    side = E.array("side", (n,), kind="b")
    cur = E.arr(lambda i: na if E.bool_at(side, i) else nb, (n,))
    r = oc.RefractiveHomogenous(na, nb).toggle_ref_idx(cur)
    E.shape_is("one index per ray", r, (n,))
    E.forall(n, lambda i: E.eq("the other index of the pair", E.at(r, i),
                               E.s(nb) if E.bool_at(side, i) else E.s(na)))


@contract("C12", "refractive", cost=5)
def refractive(E):
    oc, opt = E.mod("tracer.optics_callables"), E.mod("tracer.optics")
    na, nb = E.real("na", pos=True), E.real("nb", pos=True)
    S = Scene(E, (na, nb))
    out = oc.RefractiveHomogenous(na, nb)(S.geo, S.B.b, S.sel)
    S.frame()

    def media(i):
        """Index the ray travels in, and the other."""
        n1 = get(E, S.B.old, "ref_index", i)[0]
        return n1, (E.s(nb) if n1 == E.s(na) else E.s(na))

    def passes(j):
        i = E.at(S.sel, j)
        n1, n2 = media(i)
        c = dot3(get(E, S.B.old, "directions", i), col(E, S.N, j))
        return n1 * n1 * (1 - c * c) <= n2 * n2
    mask = E.arr(passes, (S.m,), kind="b")
    energy = out.get_energy()
    extra = not E.axes_same(E.axis(energy, 0), S.m)
    parts = [S.m, E.sub(mask)] if extra else [S.m]
    for p in PROPS:
        if S.B.b.has_property(p) and (E.length(S.m) != 0 or p in PROPS[:5]):
            a = getattr(out, "get_" + p)()
            ax = E.cat(parts)
            E.shape_is("reflected rays, then refracted: " + p, a, dims(p, ax))

    def ray(j):
        i = E.at(S.sel, j)
        n1, n2 = media(i)
        k = E.cat_idx(parts, 0, j)
        e0 = get(E, S.B.old, "energy", i)[0]
        S.inherited(out, k, j, i)
        x, u = get(E, S.B.old, "directions", i), col(E, S.N, j)
        prove_vec_eq(E, "reflected direction", get(E, out, "directions", k), reflected(x, u))
        if not E.bool_at(mask, j):
            E.eq("total reflection keeps all energy", E.at(energy, k), e0)
            return
        E.true("every transmitted ray is sent on", extra)
        q = E.cat_idx(parts, 1, E.rank(mask, j))
        S.inherited(out, q, j, i, skip=("ref_index",))
        E.eq("refracted ray has the other index", E.at(out.get_ref_index(), q), n2)
        y = get(E, out, "directions", q)
        c = dot3(x, u)
        if c != 0 or n1 != n2:      # at exactly grazing incidence between equal indices the share is undefined
            E.eq("energies add up", E.at(energy, k) + E.at(energy, q), e0)
        if c != 0 or n1 != n2:
            prove_vec_eq(E, "refracted direction obeys Snell's law", [n2 * (r - dot3(y, u) * s) for r, s in zip(y, u)],
                         [n1 * (r - c * s) for r, s in zip(x, u)])
    E.forall(S.m, ray)


@contract("C12", "refractive_fresnel", cost=5)
def refractive_fresnel(E):
    """The share of the energy that is reflected is the Fresnel reflectance (C11)."""
    oc, opt = E.mod("tracer.optics_callables"), E.mod("tracer.optics")
    na, nb = E.real("na", pos=True), E.real("nb", pos=True)
    S = Scene(E, (na, nb))
    out = oc.RefractiveHomogenous(na, nb)(S.geo, S.B.b, S.sel)
    energy = out.get_energy()
    n1 = S.B.old["ref_index"][S.sel]
    n2 = E.arr(lambda j: E.s(nb) if E.at(n1, j) == E.s(na) else E.s(na), (S.m,))
    R = opt.fresnel(S.B.old["directions"][:, S.sel], S.N, n1, n2)

    def ray(j):
        i = E.at(S.sel, j)
        a, b = E.at(n1, j), E.at(n2, j)
        c = dot3(get(E, S.B.old, "directions", i), col(E, S.N, j))
        E.assume(a * a * (1 - c * c) <= b * b)
        E.assume(c != 0)
        E.true("every transmitted ray is sent on", not E.axes_same(E.axis(energy, 0), S.m))
        k = E.first_of(E.axis(energy, 0), j)
        E.eq("reflected share", E.at(energy, k), get(E, S.B.old, "energy", i)[0] * E.at(R, j))
    E.forall(S.m, ray)


# ------------------------------------------------------------------------------------ C19

@contract("C19", "lambertian")
def lambertian(E):
    oc = E.mod("tracer.optics_callables")
    n = E.count("n", min=E.choice("at least", [0, 1, 2]))
    B = Bundle(E, "in", n)
    sel = E.selector("sel", n, n)
    N = E.unit("N", n)
    a = E.real("absorptivity", lo=0, hi=1)
    geo = Geometry(E.array("pts", (3, n)), N, E.unit("up"))
    out = oc.LambertianReflector(a)(geo, B.b, sel)
    d = out.get_directions()
    E.shape_is("one direction per ray", d, (3, n))

    def ray(j):
        x, u = col(E, d, j), col(E, N, j)
        E.eq("unit direction", dot3(x, x), 1)
        E.ge("on the side of the normal", dot3(x, u), 0)
    E.forall(n, ray)


# ------------------------------------------------------------------------------------ C18

@contract("C18", "pillbox")
def pillbox(E):
    src = E.mod("tracer.sources")
    n = E.count("n")
    ang = E.angle("ang")
    d = src.pillbox_sunshape_directions(n, ang)
    E.shape_is("the requested number of directions", d, (3, n))

    def ray(i):
        x = col(E, d, i)
        E.eq("unit direction", dot3(x, x), 1)
        E.ge("within the cone around +Z", x[2], E.cos(ang))
    E.forall(n, ray)


@contract("C18", "solar_disk")
def solar_disk(E):
    src = E.mod("tracer.sources")
    n = E.count("n", min=1)
    ang = E.angle("ang")
    c, u = E.vector("center"), E.unit("direction")
    r = E.real("radius", nonneg=True)
    flux = E.real("flux", nonneg=True) if E.choice("flux", [True, False]) else None
    fr = [E.freeze(c), E.freeze(u)]
    b = src.solar_disk_bundle(n, c[:, None], u, r, ang, flux)
    for f in fr:
        E.unchanged("arguments not modified", f)
    v, d = b.get_vertices(), b.get_directions()
    E.shape_is("the requested number of starting points", v, (3, n))
    E.shape_is("the requested number of directions", d, (3, n))
    if flux is not None:
        E.shape_is("one energy per ray", b.get_energy(), (n,))

    def ray(i):
        x, w = col(E, d, i), sub3(col(E, v, i), vec(E, c))
        E.eq("unit direction", dot3(x, x), 1)
        E.ge("deviates at most by the angle", dot3(x, vec(E, u)), E.cos(ang))
        E.eq("starts in the plane of the disk", dot3(w, vec(E, u)), 0)
        E.le("starts within the radius", dot3(w, w), E.s(r) * E.s(r))
        if flux is not None:
            E.eq("equal energies totalling flux times area", E.at(b.get_energy(), i) * E.s(E.number(n)),
                 E.s(flux) * E.pi * E.s(r) * E.s(r))
    E.forall(n, ray)


@contract("C18", "square", cases=300)
def square(E):
    src, sg = E.mod("tracer.sources"), E.mod("tracer.spatial_geometry")
    k = E.count("k", min=1)
    c, u = E.vector("center"), E.unit("direction")
    w = E.real("width", pos=True)
    N = E.number(k)
    if E.choice("rays", ["any number", "square number"]) == "square number":
        N = N * E.number(k)
    fr = [E.freeze(c), E.freeze(u)]
    b = src.square_bundle(N, c[:, None], u, w)
    for f in fr:
        E.unchanged("arguments not modified", f)
    v, d = b.get_vertices(), b.get_directions()
    ax = E.axis(v, 1)
    E.shape_is("one direction per starting point", d, (3, ax))
    R = sg.rotation_to_z(u)                   # its first two columns span the plane, see C03
    e1, e2 = [col(E, R, j) for j in (0, 1)]
    side = E.ceil(E.sqrt(E.s(N)))
    E.eq("as many rays as places on the grid", E.size(v, 1), side * side)

    def ray(i):
        prove_vec_eq(E, "along the given direction", col(E, d, i), vec(E, u))
        off = sub3(col(E, v, i), vec(E, c))
        E.eq("starts in the plane through the centre", dot3(off, vec(E, u)), 0)
        x, y, h = dot3(off, e1), dot3(off, e2), 2 * E.s(w) / E.sqrt(E.s(N))
        if E.sym:
            vs = E.int_vars(x, y)
            cands = [(p, q) for p in vs for q in vs]
        else:
            cands = [(int(round((x.v + w) / h.v)), int(round((y.v + w) / h.v)))]
        E.exists("on the grid over the square", cands, lambda p, q: [
            ("eq", x, h * p - E.s(w)), ("eq", y, h * q - E.s(w)), ("ge", p, 0), ("ge", q, 0), ("lt", x, E.s(w)), ("lt", y, E.s(w))])
    E.forall(ax, ray)


# ------------------------------------------------------------------------------------ C13

def _receiver(k, diffuse):
    """k calls, with resets anywhere between them."""
    @contract("C13", "%s_%d" % ("diffuse" if diffuse else "reflective", k), bound="%d bundles" % k, cases=60)
    def receiver(E):
        oc = E.mod("tracer.optics_callables")
        a = E.real("absorptivity", lo=0, hi=1)
        rec = (oc.LambertianReceiver if diffuse else oc.ReflectiveReceiver)(a)
        plain = (oc.LambertianReflector if diffuse else oc.Reflective)(a)
        seen, calls = [], []
        for q in range(k):
            before = E.choice("before%d" % q, ["nothing", "look", "reset", "look and reset"] if q and k < 3
                              else ["nothing", "look and reset"] if q else ["nothing"])
            if "look" in before:
                rec.get_all_hits()
            if "reset" in before:
                rec.reset()
                seen = []
            n = E.count("n%d" % q)
            B = Bundle(E, "in%d" % q, n)
            sel = E.selector("sel%d" % q, n, distinct=True)
            m = E.axis(sel, 0)
            N = E.unit("N%d" % q, m)
            pts = E.array("pts%d" % q, (3, m))
            geo = Geometry(pts, N, E.unit("up%d" % q))
            old = pts.copy()
            out = rec(geo, B.b, sel)
            B.untouched()
            E.length_is("one ray goes on per ray that hit", out.get_num_rays(), m)
            if not diffuse:
                ref = plain(geo, B.b, sel)
                E.forall(m, lambda j: same_ray(E, out, j, ref, j, what="as without the accounting"))
            E.forall(m, lambda j: E.eq("deposited plus outgoing energy is the incoming energy",
                                       E.at(out.get_energy(), j) + E.s(a) * get(E, B.old, "energy", E.at(sel, j))[0],
                                       get(E, B.old, "energy", E.at(sel, j))[0]))
            # whatever happens to the outgoing rays later
            if E.choice("then%d" % q, ["keep", "change"]) == "change":
                out.set_energy(0 * E.np.ones(out.get_num_rays()))
                out.set_vertices(0 * E.np.ones((3, out.get_num_rays())))
            seen.append((m, sel, B.old["energy"], old))
        if E.choice("reset at end", [False, True]):
            rec.reset()
            seen = []
        for turn in ("reported", "reported again"):
            en, hits = rec.get_all_hits()
            axes = [s[0] for s in seen]
            E.shape_is("one energy %s per hit" % turn, en, (E.cat(axes) if axes else 0,))
            E.shape_is("one hit point %s per hit" % turn, hits, (3, E.cat(axes) if axes else 0))
            for q, (m, sel, energy, pts) in enumerate(seen):
                def hit(j):
                    t = E.cat_idx(axes, q, j)
                    E.eq("energy deposited, " + turn, E.at(en, t), E.s(a) * E.at(energy, E.at(sel, j)))
                    prove_vec_eq(E, "hit point, " + turn, col(E, hits, t), col(E, pts, j))
                E.forall(m, hit)


for _k in range(4):
    _receiver(_k, False)
for _k in range(1, 3):
    _receiver(_k, True)
