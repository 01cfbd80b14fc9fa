"""C17 tracing leaves its inputs alone and leaves nothing behind."""
from contracts.base import contract, col, vec, mat, prove_vec_eq, prove_mat_eq
from contracts.c_geom import flat_geometry, quadric
from contracts.c_bundle import Scene, PROPS, ROWS
from contracts.c_models import frame_of
from contracts.c_engine import Tracing, Thing, World, _bundle

FLAT = ("infinite", "rect", "round", "triangle")


class Same(object):
    """Gives the same parameters again: two things built through it are built alike."""
    def __init__(self, E):
        self._E, self._c = E, {}

    def __getattr__(self, name):
        f = getattr(self._E, name)
        if name not in ("real", "vector", "rotation", "unit"):
            return f

        def again(*a, **kw):
            if (name, a) not in self._c:
                self._c[(name, a)] = f(*a, **kw)
            return self._c[(name, a)]
        return again


def geometry(E, kind):
    """A geometry manager and the condition on local ray directions under which it is specified."""
    if kind in FLAT:
        return flat_geometry(E, kind)[0], None
    Q = quadric(E, kind)
    return Q.gm, Q.pre


def rays_of(E, P, n, tag):
    return E.mod("tracer.ray_bundle").RayBundle(
        vertices=P.v, directions=P.d, energy=E.array(tag + "energy", (n,), nonneg=True),
        ref_index=E.array(tag + "ref", (n,), pos=True), parents=E.selector(tag + "parents", 1000, n))


def same(E, what, x, y):
    if E.isnan(x) or E.isnan(y):
        E.true(what + ": undefined alike", E.isnan(x) and E.isnan(y))
    else:
        E.eq(what, x, y)


def alike(E, what, a, b, m):
    """Two bundles are the same, ray by ray."""
    for p in PROPS[:5]:
        x, y = getattr(a, "get_" + p)(), getattr(b, "get_" + p)()
        E.shape_is("%s: number of %s" % (what, p), x, (3, m) if p in ROWS else (m,))
        E.shape_is("%s: number of %s" % (what, p), y, (3, m) if p in ROWS else (m,))

    def ray(j):
        for p in PROPS[:5]:
            x, y = getattr(a, "get_" + p)(), getattr(b, "get_" + p)()
            if p in ROWS:
                for u, v in zip(col(E, x, j), col(E, y, j)):
                    same(E, "%s: same %s" % (what, p), u, v)
            else:
                same(E, "%s: same %s" % (what, p), E.at(x, j), E.at(y, j))
    return ray


PAST = ["registered", "selected", "traced", "done", "only done"]


def _surface_state(kind, pasts=PAST, tag="", **kw):
    @contract("C17", "surface_%s%s" % (kind, tag), cases=120, **kw)
    def surface_state(E):
        sf, oc = E.mod("tracer.surface"), E.mod("tracer.optics_callables")
        S = Same(E)
        (g1, pre), (g2, _) = geometry(S, kind), geometry(S, kind)
        a = E.real("absorptivity", lo=0, hi=1)
        used, fresh = sf.Surface(g1, oc.Reflective(a)), sf.Surface(g2, oc.Reflective(a))
        na, nb = E.count("na"), E.count("n")
        A, B = E.placed(na, near=True, tag="A."), E.placed(nb, near=True)
        ra, rb = rays_of(E, A, na, "A."), rays_of(E, B, nb, "")
        frozen = [(x, E.freeze(x)) for x in (rb.get_energy(), rb.get_ref_index(), rb.get_parents())]
        past = E.choice("past", pasts)
        used.transform_frame(A.frame)
        if past == "only done":
            used.done()
        else:
            used.register_incoming(ra)
            if past != "registered":
                used.select_rays(E.selector("A.sel", na))
                if past != "selected":
                    used.get_outgoing()
                    if past == "done":
                        used.done()
        A.unchanged()
        used.transform_frame(B.frame)
        fresh.transform_frame(B.frame)
        t1, t2 = used.register_incoming(rb), fresh.register_incoming(rb)
        t1, t2 = t1.copy(), t2.copy()
        E.shape_is("one distance per ray", t1, (nb,))
        E.shape_is("one distance per ray", t2, (nb,))

        def dist(i):
            if pre:
                pre(col(E, B.dl, i))
            x, y = E.at(t1, i), E.at(t2, i)
            if not E.finite(x) or not E.finite(y):
                E.true("same misses", not E.finite(x) and not E.finite(y))
            else:
                E.eq("same distance", x, y)
        E.forall(nb, dist)
        sel = E.selector("sel", nb)
        used.select_rays(sel)
        fresh.select_rays(sel)
        o1, o2 = used.get_outgoing(), fresh.get_outgoing()
        m = E.axis(sel, 0)
        ray = alike(E, "outgoing", o1, o2, m)

        def out(j):
            i = E.at(sel, j)
            if pre:
                pre(col(E, B.dl, i))
            E.assume(E.finite(E.at(t2, i)))
            ray(j)
        E.forall(m, out)
        used.done()
        B.unchanged()
        for x, f in frozen:
            E.unchanged("bundle not modified", f)
        E.true("bundle keeps its arrays", rb.get_vertices() is B.v and rb.get_directions() is B.d and
               rb.get_energy() is frozen[0][0] and rb.get_ref_index() is frozen[1][0] and rb.get_parents() is frozen[2][0])
        for s in (used, fresh):
            prove_mat_eq(E, "not moved", frame_of(E, s), mat(E, B.frame, 4))


for _k in FLAT + ("cylinder", "paraboloid", "dish"):
    _surface_state(_k, cost=1 if _k in FLAT else 3)
for _k in ("sphere", "hemisphere", "sphere_cut_plane", "sphere_cut_sphere"):
    _surface_state(_k, nofeas=True, cost=5)
for _p in PAST:
    _surface_state("finite_cylinder", [_p], "_" + _p.replace(" ", "_"), cost=6)
    _surface_state("hexagonal_dish", [_p], "_" + _p.replace(" ", "_"), lazy_abs=True, nofeas=True, cost=8, thorough=True)
_surface_state("hexagonal_dish", conc_only=True)


# ------------------------------------------------------------------------------------ optics

def _optics_state(name, make, indices=False, odd=False, **kw):
    @contract("C17", "optics_%s" % name, cases=120, **kw)
    def optics_state(E):
        oc = E.mod("tracer.optics_callables")
        S = Same(E)
        used, fresh = make(S, oc), make(S, oc)
        old = Scene(E, tag="A.", indices=indices and not odd and [S.real("n1", pos=True), S.real("n2", pos=True)])
        for _ in range(1 if indices else E.choice("times", [1, 2])):
            used(old.geo, old.B.b, old.sel)
        old.frame()
        now = Scene(E, indices=indices and [S.real("n1", pos=True), S.real("n2", pos=True)])
        a, b = used(now.geo, now.B.b, now.sel), fresh(now.geo, now.B.b, now.sel)
        now.frame()
        old.frame()
        m = E.axis(a.get_energy(), 0)
        E.same_axis("same number of rays", E.axis(b.get_energy(), 0), m)
        E.forall(m, alike(E, "outgoing", a, b, m))


_optics_state("reflective", lambda E, oc: oc.Reflective(E.real("a", lo=0, hi=1)))
_optics_state("one_sided", lambda E, oc: oc.AbsorberReflector(E.real("a", lo=0, hi=1)))
_optics_state("receiver", lambda E, oc: oc.ReflectiveReceiver(E.real("a", lo=0, hi=1)))
_optics_state("refractive", lambda E, oc: oc.RefractiveHomogenous(E.real("n1", pos=True), E.real("n2", pos=True)), True, cost=5)
_optics_state("refractive_odd_past", lambda E, oc: oc.RefractiveHomogenous(E.real("n1", pos=True), E.real("n2", pos=True)), True, True, conc_only=True,
              bound="sampled; any past indices")


# ------------------------------------------------------------------------------------ engine

def _engine_state(shape, children, reps, twice=False, **kw):
    @contract("C17", "engine_%s_%s_%d" % ("_".join(map(str, shape)), "".join(map(str, children)), reps), cases=60,
              bound="%d objects with %s surfaces; %d steps; any number of rays" % (len(shape), shape, reps), lazy_exists=True, **kw)
    def engine_state(E):
        """The source bundle is left alone, and an engine traces as it did before."""
        te = E.mod("tracer.tracer_engine")
        n = E.count("n")
        ids = E.array("id", (n,))
        source = _bundle(E, n, ids, energy=E.array("energy", (n,)), parents=E.np.arange(E.length(n)),
                         ref_index=E.array("ref", (n,)))
        names = ("vertices", "directions", "energy", "parents", "ref_index")
        arrays = [(p, getattr(source, "get_" + p)()) for p in names]
        frozen = [(p, a, E.freeze(a)) for p, a in arrays]
        low = E.real("min_energy")

        def world():
            surfs = [Tracing(E, k, c) for k, c in enumerate(children)]
            things, k = [], 0
            for m in shape:
                things.append(Thing(E, k, surfs[k:k + m], (False, True)))
                k += m
            return World(things)
        w = world()
        eng = te.TracerEngine(w)
        eng.ray_tracer(source, reps, low)
        for p, a, f in frozen:
            E.unchanged("source %s not modified" % p, f)
            E.true("source keeps its %s" % p, getattr(source, "get_" + p)() is a)
        if not twice:
            return
        first = [eng.tree[k] for k in range(eng.tree.num_bunds())]
        m = E.count("m")
        eng.ray_tracer(_bundle(E, m, E.array("id2", (m,)), energy=E.array("energy2", (m,)), parents=E.np.arange(E.length(m)),
                               ref_index=E.array("ref2", (m,))), reps, low)
        v, d = eng.ray_tracer(source, reps, low)
        again = [eng.tree[k] for k in range(eng.tree.num_bunds())]
        E.true("as many bundles the second time", len(first) == len(again))
        for a, b in zip(first, again):
            ax = E.axis(a.get_parents(), 0)
            E.same_axis("as many rays the second time", E.axis(b.get_parents(), 0), ax)
            E.forall(ax, alike(E, "second trace", b, a, ax))


_engine_state((1,), (1,), 1)
_engine_state((1, 1), (1, 2), 1)
_engine_state((1,), (2,), 2)
_engine_state((1, 2), (1, 2, 1), 3, True, conc_only=True)


@contract("C17", "model_not_moved", cases=40, bound="one rectangular mirror in an object in an assembly; one step; any number of rays",
          lazy_exists=True)
def model_not_moved(E):
    sf, oc, fs = E.mod("tracer.surface"), E.mod("tracer.optics_callables"), E.mod("tracer.flat_surface")
    asm, ob, te = E.mod("tracer.assembly"), E.mod("tracer.object"), E.mod("tracer.tracer_engine")
    n = E.count("n")
    P = E.placed(n, near=True)
    rays = rays_of(E, P, n, "")
    s = sf.Surface(fs.RectPlateGM(E.real("w", pos=True), E.real("h", pos=True)), oc.Reflective(E.real("a", lo=0, hi=1)))
    o = ob.AssembledObject(surfs=[s], transform=P.frame)
    a = asm.Assembly(objects=[o])
    own = [(x, x.get_transform()) for x in (s, o, a)]
    frozen = [E.freeze(t) for x, t in own]
    arrays = [(p, getattr(rays, "get_" + p)()) for p in PROPS[:5]]
    kept = [E.freeze(x) for p, x in arrays]
    te.TracerEngine(a).ray_tracer(rays, 1, E.real("min_energy"))
    for f in frozen:
        E.unchanged("transforms not modified", f)
    for x, t in own:
        prove_mat_eq(E, "placed as before", mat(E, x.get_transform(), 4), mat(E, t, 4))
    for f in kept:
        E.unchanged("source not modified", f)
    E.true("source keeps its arrays", all(getattr(rays, "get_" + p)() is x for p, x in arrays))


def some_model(E):
    """A maker of some model built of the real parts."""
    kind = E.choice("model", ["lens", "minidish", "petal", "triangles", "scene", "homogenizer"])
    r = E.rng
    asm, ob, sf, oc = (E.mod("tracer." + m) for m in ("assembly", "object", "surface", "optics_callables"))
    if kind == "lens":
        R1, R2 = r.choice([3., -3., 5., None]), r.choice([-4., 4., 7.])
        lens = E.mod("tracer.models.spherical_lens").SphericalLens
        return lambda: asm.Assembly(objects=[lens(1.5, 0.6, R1, R2, 1.5)])
    if kind == "minidish":
        m = E.mod("tracer.models.tau_minidish")
        return lambda: m.standard_minidish(2., 50., 2)[0]
    if kind == "petal":
        m = E.mod("tracer.models.PETAL_dish")
        return lambda: m.PETAL(2., 1.2, 0.9, 1.3, 0.2, 0.1, 0.9)
    if kind == "homogenizer":
        m = E.mod("tracer.models.homogenizer")
        return lambda: m.rect_homogenizer(1., 1.4, 2., 0.8)
    if kind == "triangles":
        v = E.np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(5)])
        f = E.np.array([[0, 1, 2], [1, 2, 3], [2, 3, 4], [0, 3, 4]])
        t = E.mod("tracer.models.triangulated_surface")
        return lambda: asm.Assembly(objects=[t.TriangulatedSurface(v.copy(), f.copy(), oc.Reflective(0.2))])
    fs, cy, ss, pb, bs = (E.mod("tracer." + m) for m in ("flat_surface", "cylinder", "sphere_surface", "paraboloid", "boundary_shape"))
    places = [(E.vector("p%d" % k), E.rotation("q%d" % k)) for k in range(4)]

    def make():
        geoms = [fs.RoundPlateGM(1.), cy.FiniteCylinder(1., 2.), ss.CutSphereGM(1., bs.BoundarySphere(location=E.np.r_[0., 0., 1.])),
                 ss.HemisphereGM(0.8)]
        opts = [oc.ReflectiveReceiver(0.5), oc.Reflective(0.1), oc.RefractiveHomogenous(1., 1.5), oc.AbsorberReflector(0.3)]
        surfs = [sf.Surface(g, o, location=p.copy(), rotation=q.copy()) for g, o, (p, q) in zip(geoms, opts, places)]
        return asm.Assembly(objects=[ob.AssembledObject(surfs=surfs[:1]), ob.AssembledObject(surfs=surfs[1:])])
    return make


@contract("C17", "models", cases=60, conc_only=True, bound="sampled models built of the real parts, bundles of up to 12 rays, 3 steps")
def models(E):
    rb, te = E.mod("tracer.ray_bundle"), E.mod("tracer.tracer_engine")
    make = some_model(E)
    used, fresh = make(), make()

    def rays(tag):
        n = E.count(tag + "n")
        P = E.placed(n, near=True, tag=tag)
        k = E.length(n)
        return rb.RayBundle(vertices=P.vl, directions=P.dl, energy=E.array(tag + "energy", (n,), pos=True),
                            ref_index=E.np.ones(k), parents=E.np.arange(k))
    first, now = rays("A."), rays("")
    frames = [frame_of(E, s) for s in used.get_surfaces()]
    names = PROPS[:5]
    kept = [E.freeze(getattr(now, "get_" + p)()) for p in names]
    eng = te.TracerEngine(used)
    for _ in range(E.choice("times", [1, 2])):
        eng.ray_tracer(first, 3, 0.)
    va, da = eng.ray_tracer(now, 3, 0.)
    other = te.TracerEngine(fresh)
    vb, db = other.ray_tracer(now, 3, 0.)
    for f in kept:
        E.unchanged("source not modified", f)
    for s, f, t in zip(used.get_surfaces(), frames, fresh.get_surfaces()):
        prove_mat_eq(E, "not moved", frame_of(E, s), f)
        prove_mat_eq(E, "not moved", frame_of(E, t), f)
    E.true("same number of bundles", eng.tree.num_bunds() == other.tree.num_bunds())
    for k in range(eng.tree.num_bunds()):
        a, b = eng.tree[k], other.tree[k]
        m = E.axis(a.get_energy(), 0)
        E.same_axis("same number of rays", E.axis(b.get_energy(), 0), m)
        E.forall(m, alike(E, "bundle", a, b, m))


def _changed(prop):
    @contract(prop, "model_changed_between_traces", cases=60, conc_only=True,
              bound="sampled models built of the real parts; one thing added or moved between two traces of up to 12 rays, 3 steps")
    def changed(E):
        """An engine traces through the model as it is now, not as it was at an earlier trace."""
        rb, te, asm, ob, sf, oc, fs = (E.mod("tracer." + m) for m in (
            "ray_bundle", "tracer_engine", "assembly", "object", "surface", "optics_callables", "flat_surface"))
        make = some_model(E)
        used, fresh = make(), make()
        n = E.count("n")
        P = E.placed(n, near=True)
        k = E.length(n)
        rays = rb.RayBundle(vertices=P.vl, directions=P.dl, energy=E.array("energy", (n,), pos=True),
                            ref_index=E.np.ones(k), parents=E.np.arange(k))
        how = E.choice("change", ["object added", "assembly added", "surface added", "moved", "part moved"])
        place, turn = E.vector("at"), E.rotation("turn")

        def change(m):
            s = sf.Surface(fs.RoundPlateGM(3.), oc.Reflective(0.25), location=place.copy(), rotation=turn.copy())
            if how == "object added":
                m.add_object(ob.AssembledObject(surfs=[s]))
            elif how == "assembly added":
                m.add_assembly(asm.Assembly(objects=[ob.AssembledObject(surfs=[s])]))
            elif how == "surface added":
                m.get_objects()[0].add_surface(s)
                m.transform_children()
            elif how == "moved":
                m.set_location(place.copy())
                m.set_rotation(turn.copy())
            else:
                o = m.get_local_objects()
                (o[0] if o else m.get_objects()[0]).set_location(place.copy())
                m.transform_children()
        eng = te.TracerEngine(used)
        eng.ray_tracer(rays, 3, 0.)
        change(used)
        change(fresh)
        eng.ray_tracer(rays, 3, 0.)
        other = te.TracerEngine(fresh)
        other.ray_tracer(rays, 3, 0.)
        E.true("same number of bundles", eng.tree.num_bunds() == other.tree.num_bunds())
        for q in range(eng.tree.num_bunds()):
            a, b = eng.tree[q], other.tree[q]
            m = E.axis(a.get_energy(), 0)
            E.same_axis("same number of rays", E.axis(b.get_energy(), 0), m)
            E.forall(m, alike(E, "bundle", a, b, m))


for _p in ("C15", "C17"):
    _changed(_p)
