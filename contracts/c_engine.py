"""C15 nearest visible surface, C16 trace tree, C17 nothing left behind."""
from contracts.base import contract, col, vec, mat, prove_vec_eq, prove_mat_eq

TOL = 1e-6


def _bundle(E, n, ids, energy=None, **kw):
    """n rays; the x coordinate of a ray's vertex is what the surfaces' answers depend on."""
    rb = E.mod("tracer.ray_bundle")
    v = E.arr(lambda k, i: E.at(ids, i) if k == 0 else E.s(0), (3, n))
    return rb.RayBundle(vertices=v, directions=E.unit("dir", n), energy=energy, **kw)


class Hits(object):
    """A surface that answers each ray on its own with a distance, or infinity."""
    def __init__(self, E, k):
        self.E, self.k = E, k
        self.asked = []

    def dist(self, x):
        return self.E.ufun("dist%d" % self.k, x, "t", nonneg=True)

    def register_incoming(self, bundle):
        self.asked.append(bundle)
        return self.dist(bundle.get_vertices()[0])


def nearest(E, ts, allowed):
    """Indices of the surfaces at which a ray arrives: those at the smallest admissible distance."""
    ok = [k for k, t in enumerate(ts) if allowed[k] and E.finite(t) and t > TOL]
    best = []
    for k in ok:
        if all(ts[k] <= ts[q] for q in ok):
            best.append(k)
    return best


def _intersect(ns):
    @contract("C15", "intersect_%d" % ns, bound="%d surfaces, any number of rays" % ns if ns else None, cases=200,
              lazy_exists=True, exact_data=True, cost=4 if ns > 2 else 1)
    def intersect(E):
        te = E.mod("tracer.tracer_engine")
        n = E.count("n")
        ids = E.array("id", (n,))
        b = _bundle(E, n, ids)
        surfs = [Hits(E, k) for k in range(ns)]
        owner_of = E.np.array([E.choice("owner of surface %d" % k, [0, 1]) for k in range(ns)])
        free, first = E.array("free", (n,), kind="b"), E.array("first", (n,), kind="b")
        own = E.np.where(free, -1, E.np.where(first, 0, 1))
        rel = E.array("relevant", (ns, n), kind="b")
        eng = te.TracerEngine(None)
        stack, owned = eng.intersect_ray(b, surfs, None, owner_of, own, rel)
        E.shape_is("one answer per surface and ray", stack, (ns, n))
        E.shape_is("one record of tests per surface and ray", owned, (ns, n))
        dist = [s.dist(ids) for s in surfs]

        def ray(i):
            allowed = [E.bool_at(rel, k, i) and (E.bool_at(free, i) or E.at(own, i) == E.at(owner_of, k)) for k in range(ns)]
            best = nearest(E, [E.at(d, i) for d in dist], allowed)
            for k in range(ns):
                E.true("assigned exactly to the nearest surface it may see", E.bool_at(stack, k, i) == (k in best))
                E.true("tested exactly by the surfaces it may see", E.bool_at(owned, k, i) == allowed[k])
        E.forall(n, ray)
        for s in surfs:
            for q in s.asked:
                E.true("directions go with their rays", q is b or E.ndim(q.get_directions()) == 2)


for _k in range(4):
    _intersect(_k)


class HitsOf(Hits):
    """The k-th of any number of such surfaces."""
    def dist(self, x):
        return self.E.ufun("dist", x, "t", of=self.k, nonneg=True)


@contract("C15", "intersect_any", cases=300, lazy_exists=True, exact_data=True, cost=4)
def intersect_any(E):
    """Any number of surfaces, any number of rays."""
    te = E.mod("tracer.tracer_engine")
    n, ns = E.count("n"), E.count("ns")
    ids = E.array("id", (n,))
    b = _bundle(E, n, ids)
    surfs = E.list_of(ns, lambda k: HitsOf(E, k))
    second = E.array("owned by the second", (ns,), kind="b")
    owner_of = E.np.where(second, 1, 0)
    free, first = E.array("free", (n,), kind="b"), E.array("first", (n,), kind="b")
    own = E.np.where(free, -1, E.np.where(first, 0, 1))
    rel = E.array("relevant", (ns, n), kind="b")
    eng = te.TracerEngine(None)
    stack, owned = eng.intersect_ray(b, surfs, None, owner_of, own, rel)
    E.shape_is("one answer per surface and ray", stack, (ns, n))
    E.shape_is("one record of tests per surface and ray", owned, (ns, n))

    def allowed(k, i):
        return E.bool_at(rel, k, i) and (E.bool_at(free, i) or E.at(own, i) == E.at(owner_of, k))

    def time(k, i):
        """The distance at which a ray arrives at a surface, if it counts."""
        if not allowed(k, i):
            return None
        t = E.at(HitsOf(E, k).dist(ids), i)
        return t if E.finite(t) and t > TOL else None

    def ray(k, i):
        E.true("tested exactly by the surfaces it may see", E.bool_at(owned, k, i) == allowed(k, i))
        t = time(k, i)

        def not_nearer(q):
            u = time(q, i)
            return u is None or t <= u
        E.true("assigned exactly to the nearest surface it may see",
               E.bool_at(stack, k, i) == (t is not None and E.every(ns, not_nearer)))
    E.forall(ns, lambda k: E.forall(n, lambda i: ray(k, i)))


# ------------------------------------------------------------------------------------ C16

class Tracing(Hits):
    """A surface that also sends rays on: one or two per arriving ray, each at a place and with an energy of its own.
    The vertex of an outgoing ray is (hit point, number of the surface, number of the child)."""
    def __init__(self, E, k, children):
        Hits.__init__(self, E, k)
        self.children = children

    def dist(self, x):
        # which of several hits counts is the subject of C15: here, distances are known
        E = self.E
        return E.np.where(E.ufun("hit%d" % self.k, x, "b"), (2., 3., 2.)[self.k], E.np.inf)

    def register_incoming(self, bundle):
        self.b = bundle
        return Hits.register_incoming(self, bundle)

    def select_rays(self, idxs):
        self.sel = idxs

    def place(self, x, c):
        return self.E.ufun("place%d_%d" % (self.k, c), x)

    def energy(self, x, c):
        return self.E.ufun("energy%d_%d" % (self.k, c), x)

    def get_outgoing(self):
        E = self.E
        x = self.b.get_vertices()[0][self.sel]
        out = []
        for c in range(self.children):
            z = E.np.zeros_like(x)
            v = E.np.vstack((self.place(x, c), z + self.k, z + c))
            out.append(self.b.inherit(self.sel, vertices=v, energy=self.energy(x, c), parents=E.np.array(self.sel)))
        return out[0] if len(out) == 1 else E.mod("tracer.ray_bundle").concatenate_rays(out)

    def done(self):
        self.b = None


class Thing(object):
    """An object deciding by itself which rays it keeps and which of its surfaces they may meet next."""
    def __init__(self, E, first, surfaces, fixed=None):
        self.E, self.first, self.surfaces, self.fixed = E, first, surfaces, fixed

    def get_surfaces(self):
        return self.surfaces

    def own(self, x, s):
        if self.fixed is not None:
            return x == x if self.fixed[0] else x != x
        return self.E.ufun("own%d" % (self.first + s), x, "b")

    def sees(self, x, s, q):
        if self.fixed is not None:
            return x == x if self.fixed[1] else x != x
        return self.E.ufun("sees%d_%d" % (self.first + s, q), x, "b")

    def own_rays(self, rays, surface_id):
        return self.own(rays.get_vertices()[0], int(surface_id))

    def surfaces_for_next_iteration(self, rays, surface_id):
        x = rays.get_vertices()[0]
        return self.E.np.vstack([self.sees(x, int(surface_id), q) for q in range(len(self.surfaces))])


class World(object):
    def __init__(self, things):
        self.things = things

    def get_objects(self):
        return self.things

    def get_surfaces(self):
        return [s for t in self.things for s in t.surfaces]


def _trace(shape, children, reps, fixed=None, **kw):
    @contract("C16", "trace_%s_%s_%d%s" % ("_".join(map(str, shape)), "".join(map(str, children)), reps,
                                           "" if not fixed else "_" + "".join(str(int(f)) for p in fixed for f in p)),
              bound="%d objects with %s surfaces sending on %s rays per hit; %d steps; any number of rays" %
              (len(shape), shape, children, reps), cases=80, lazy_exists=True, exact_data=True, **kw)
    def trace(E):
        te = E.mod("tracer.tracer_engine")
        n = E.count("n")
        ids = E.array("id", (n,))
        source = _bundle(E, n, ids, energy=E.array("energy", (n,)), parents=E.np.arange(E.length(n)),
                         ref_index=E.array("ref", (n,)))
        surfs = [Tracing(E, k, c) for k, c in enumerate(children)]
        things, owner, k = [], [], 0
        for j, m in enumerate(shape):
            things.append(Thing(E, k, surfs[k:k + m], fixed and fixed[j]))
            owner += [j] * m
            k += m
        low = E.real("min_energy")
        eng = te.TracerEngine(World(things))
        v, d = eng.ray_tracer(source, reps, low)
        low = E.s(low)
        tree = eng.tree
        nb = tree.num_bunds()
        E.true("no more bundles than steps", 1 <= nb <= reps + 1)
        E.true("the source comes first", tree[0] is source)

        def arrivals(level, p):
            """Surfaces at which ray p of a recorded bundle arrives next."""
            B = tree[level]
            x = E.at(B.get_vertices(), 0, p)
            xs = E.one(x)
            allowed = [True] * len(surfs)
            if level > 0:
                if not E.at(B.get_energy(), p) > low:
                    return x, []
                s = E.which(E.at(B.get_vertices(), 1, p), len(surfs))
                o = owner[s]
                kept = E.bool_at(things[o].own(xs, s - things[o].first), 0)
                for q in range(len(surfs)):
                    if owner[q] != o:
                        allowed[q] = not kept
                    else:
                        allowed[q] = E.bool_at(things[o].sees(xs, s - things[o].first, q - things[o].first), 0)
            return x, nearest(E, [E.at(t.dist(xs), 0) for t in surfs], allowed)

        for level in range(1, nb):
            B, A = tree[level], tree[level - 1]
            ax = E.axis(B.get_parents(), 0)
            E.shape_is("vertices per ray", B.get_vertices(), (3, ax))
            E.shape_is("directions per ray", B.get_directions(), (3, ax))
            E.shape_is("energy per ray", B.get_energy(), (ax,))

            def ray(r):
                p = E.index_at(B.get_parents(), r)
                x, at = arrivals(level - 1, p)
                s = E.which(E.at(B.get_vertices(), 1, r), len(surfs))
                c = E.which(E.at(B.get_vertices(), 2, r), surfs[s].children)
                E.true("came from a ray that arrived there", s in at)
                xs = E.one(x)
                E.eq("starts where its parent hit", E.at(B.get_vertices(), 0, r), E.at(surfs[s].place(xs, c), 0))
                E.eq("energy given by the surface", E.at(B.get_energy(), r), E.at(surfs[s].energy(xs, c), 0))
                E.eq("inherits from its parent", E.at(B.get_ref_index(), r), E.at(A.get_ref_index(), p))
                prove_vec_eq(E, "inherits its parent's direction", col(E, B.get_directions(), r), col(E, A.get_directions(), p))
            E.forall(ax, ray)

            def children_of(p):
                x, at = arrivals(level - 1, p)
                want = sorted((s, c) for s in at for c in range(surfs[s].children))
                got = sorted((E.which(E.at(B.get_vertices(), 1, r), len(surfs)),
                              E.which(E.at(B.get_vertices(), 2, r), 2)) for r in E.descend(B.get_parents(), A.get_parents(), p))
                E.true("every child of every live ray is recorded once", want == got, "%r instead of %r" % (got, want))
            E.forall(E.axis(A.get_parents(), 0), children_of)
            E.ordered("rays at or below the cut-off are recorded last", B.get_energy(), lambda e: e > low)
        # the end
        last = tree[nb - 1]
        if nb < reps + 1:
            E.forall(E.axis(last.get_parents(), 0), lambda p: E.true("stops only when no rays remain", not arrivals(nb - 1, p)[1]))
        live = last if nb > 1 else source
        if reps:
            _returned(E, v, d, tree, nb, reps, low)
        else:
            E.same_axis("no step: the source is returned", E.axis(v, 1), n)
            E.forall(n, lambda i: prove_vec_eq(E, "no step: the source is returned", col(E, v, i), col(E, source.get_vertices(), i)))


def _returned(E, v, d, tree, nb, reps, low):
    """What is returned: the live rays of the last step."""
    B = tree[nb - 1]
    if nb < reps + 1:
        # the last step left nothing alive
        E.same_axis("nothing alive is returned", E.axis(v, 1), 0)
        E.same_axis("nothing alive is returned", E.axis(d, 1), 0)
        return
    live = E.arr(lambda i: E.at(B.get_energy(), i) > low, (E.axis(B.get_energy(), 0),), "b")
    E.same_axis("as many as are alive", E.axis(v, 1), E.sub(live))
    E.same_axis("as many as are alive", E.axis(d, 1), E.sub(live))

    def ray(i):
        if E.bool_at(live, i):
            j = E.rank(live, i)
            prove_vec_eq(E, "vertices of the last live bundle", col(E, v, j), col(E, B.get_vertices(), i))
            prove_vec_eq(E, "directions of the last live bundle", col(E, d, j), col(E, B.get_directions(), i))
    E.forall(E.axis(B.get_energy(), 0), ray)


_trace((1,), (1,), 0)
_trace((1,), (1,), 1)
_trace((1, 1), (1, 2), 1)
_trace((2,), (2, 1), 1)
_trace((1,), (2,), 2)
_trace((1, 1), (1, 1), 2, conc_only=True)
_trace((1, 1), (1, 1), 2, fixed=((True, False), (False, True)), thorough=True, cost=9)
_trace((1, 1), (1, 1), 2, fixed=((False, False), (True, True)))


def _last_only(n_obj, reps, **kw):
    @contract("C16", "last_bundle_only_%d_%d" % (n_obj, reps), cases=60, lazy_exists=True, exact_data=True,
              bound="%d objects of one surface, %d steps; any number of rays" % (n_obj, reps), **kw)
    def last_bundle_only(E):
        """Without a tree, the same rays come out, and only the last bundle is recorded."""
        te = E.mod("tracer.tracer_engine")
        n = E.count("n")
        ids = E.array("id", (n,))
        energy, dirs = E.array("energy", (n,)), E.unit("dir", n)
        low = E.real("min_energy")
        res = []
        for tree in (True, False):
            b = E.mod("tracer.ray_bundle").RayBundle(
                vertices=E.arr(lambda k, i: E.at(ids, i) if k == 0 else E.s(0), (3, n)), directions=dirs,
                energy=energy, parents=E.np.arange(E.length(n)))
            surfs = [Tracing(E, k, 1) for k in range(n_obj)]
            eng = te.TracerEngine(World([Thing(E, k, [s]) for k, s in enumerate(surfs)]))
            res.append((eng, eng.ray_tracer(b, reps, low, tree)))
        (ea, (va, da)), (eb, (vb, db)) = res
        E.true("one bundle recorded", eb.tree.num_bunds() == 1)
        ax = E.axis(va, 1)
        E.same_axis("same number of rays", E.axis(vb, 1), ax)
        E.same_axis("same number of directions", E.axis(db, 1), ax)

        def ray(i):
            prove_vec_eq(E, "same vertices", col(E, vb, i), col(E, va, i))
            prove_vec_eq(E, "same directions", col(E, db, i), col(E, da, i))
        E.forall(ax, ray)


_last_only(1, 1)
_last_only(2, 1)
_last_only(2, 3, conc_only=True)


def _history(levels):
    @contract("C16", "history_%d" % levels, bound="%d recorded bundles of any size" % (levels + 1), cases=60)
    def history(E):
        tt = E.mod("tracer.trace_tree")
        rb = E.mod("tracer.ray_bundle")
        tree = tt.RayTree()
        ns = [E.count("n%d" % k, min=1) for k in range(levels + 1)]
        parents = [E.selector("parents%d" % k, ns[max(k - 1, 0)], ns[k]) for k in range(levels + 1)]
        bunds = [rb.RayBundle(vertices=E.array("v%d" % k, (3, ns[k])), parents=parents[k]) for k in range(levels + 1)]
        for b in bunds:
            tree.append(b)
        E.true("all recorded", tree.num_bunds() == levels + 1)
        E.true("in order", all(tree[k] is b for k, b in enumerate(bunds)))
        got = tree.ordered_parents()
        E.true("one list of parents per step", len(got) == levels)
        for k in range(levels):
            E.same_axis("one parent per ray", E.axis(got[k], 0), ns[k + 1])
            E.forall(ns[k + 1], lambda i: E.eq("parents in order", E.at(got[k], i), E.at(parents[k + 1], i)))
        for level in list(range(levels + 1)) + [None]:
            top = levels if level is None else level
            start = E.selector("start%s" % level, ns[top], 1)[0]
            h = tree.ray_history(start, level)
            E.shape_is("one ray per bundle back to the source", h, (top + 1,))
            E.eq("starts with the ray", E.at(h, 0), E.s(start))
            for k in range(top):
                E.eq("each is the parent of the one before", E.at(h, k + 1), E.at(parents[top - k], E.index_at(h, k)))


for _k in (0, 1, 2, 3):
    _history(_k)


# ------------------------------------------------------------------------------------ C13, in a trace

class Noting(Tracing):
    """A surface that, as a receiver does, remembers the rays it was asked about."""
    def __init__(self, E, k, children):
        Tracing.__init__(self, E, k, children)
        self.noted = []

    def get_outgoing(self):
        self.noted.append(self.b.get_vertices()[0][self.sel])
        return Tracing.get_outgoing(self)


def _noted(shape, tree):
    @contract("C13", "asked_once_%s%s" % ("_".join(map(str, shape)), "" if tree else "_no_tree"), cases=60, lazy_exists=True, exact_data=True,
              bound="%d objects with %s surfaces, one step; any number of rays" % (len(shape), shape))
    def noted(E):
        """In a step of a trace, a surface is asked once, and for the rays that hit it, each once, in order."""
        te = E.mod("tracer.tracer_engine")
        n = E.count("n")
        ids = E.array("id", (n,))
        source = _bundle(E, n, ids, energy=E.array("energy", (n,)), parents=E.np.arange(E.length(n)), ref_index=E.array("ref", (n,)))
        surfs = [Noting(E, k, 1) for k in range(sum(shape))]
        things, k = [], 0
        for m in shape:
            things.append(Thing(E, k, surfs[k:k + m], (False, True)))
            k += m
        te.TracerEngine(World(things)).ray_tracer(source, 1, E.real("min_energy"), tree)

        def arrives(s, i):
            xs = E.one(E.at(ids, i))
            return s in nearest(E, [E.at(t.dist(xs), 0) for t in surfs], [True] * len(surfs))
        for s, t in enumerate(surfs):
            calls = [x for x in t.noted]
            if not calls:
                E.forall(n, lambda i: E.true("a surface that is hit is asked", not arrives(s, i)))
                continue
            E.true("asked once", len(calls) == 1)
            mask = E.arr(lambda i: arrives(s, i), (n,), "b")
            E.same_axis("asked for the rays that hit it", E.axis(calls[0], 0), E.sub(mask))

            def ray(i):
                if E.bool_at(mask, i):
                    E.eq("in order", E.at(calls[0], E.rank(mask, i)), E.at(ids, i))
            E.forall(n, ray)


_noted((1,), True)
_noted((1, 1), True)
_noted((2,), True)
_noted((1,), False)


@contract("C13", "in_traces", cases=60, conc_only=True, bound="sampled: five receivers of different absorptivity, two traces of up to 4 steps, bundles of up to 12 rays")
def in_traces(E):
    """What the receivers report is what the trees of the traces say."""
    asm, ob, sf, oc, fs, cy, ss, rb, te = (E.mod("tracer." + m) for m in (
        "assembly", "object", "surface", "optics_callables", "flat_surface", "cylinder", "sphere_surface", "ray_bundle", "tracer_engine"))
    np = E.np
    ab = [0.1, 0.3, 0.45, 0.6, 0.8]
    geoms = [fs.RectPlateGM(2.5, 2.), fs.RoundPlateGM(1.5), cy.FiniteCylinder(1.5, 2.), ss.HemisphereGM(1.2), ss.SphericalGM(4.)]
    recs = [oc.ReflectiveReceiver(a) for a in ab]
    surfs = [sf.Surface(g, r, location=E.vector("p%d" % k), rotation=E.rotation("q%d" % k)) for k, (g, r) in enumerate(zip(geoms, recs))]
    cut = E.choice("cut", [0, 1, 2, 5])
    objs = [ob.AssembledObject(surfs=x) for x in (surfs[:cut], surfs[cut:]) if x]
    eng = te.TracerEngine(asm.Assembly(objects=objs))
    want = [([], []) for _ in recs]
    low = E.choice("min_energy", [-1., 0., 0.2])
    for q in range(2):
        if E.choice("reset%d" % q, [False, True]):
            for r in recs:
                r.reset()
            want = [([], []) for _ in recs]
        n = E.count("n%d" % q)
        P = E.placed(n, near=True, tag="T%d." % q)
        k = E.length(n)
        rays = rb.RayBundle(vertices=P.vl, directions=P.dl, energy=np.ones(k), ref_index=np.ones(k), parents=np.arange(k))
        eng.ray_tracer(rays, 4, low)
        for level in range(1, eng.tree.num_bunds()):
            B, A = eng.tree[level], eng.tree[level - 1]
            for j in range(B.get_num_rays()):
                e, p = float(A.get_energy()[int(B.get_parents()[j])]), B.get_vertices()[:, j]
                part = 1 - float(B.get_energy()[j]) / e
                s = min(range(5), key=lambda s: abs(ab[s] - part))
                want[s][0].append(ab[s] * e)
                want[s][1].append(p)
        if E.choice("look%d" % q, [False, True]):
            for r in recs:
                r.get_all_hits()
    for s, r in enumerate(recs):
        en, hits = r.get_all_hits()
        E.true("as many hits as the trees say", len(en) == len(want[s][0]) and hits.shape == (3, len(en)),
               "%d instead of %d" % (len(en), len(want[s][0])))
        if low > 0:
            # weak rays are moved to the end of their bundle: compare as sets
            en_o, w_o = sorted(float(x) for x in en), sorted(want[s][0])
            for x, y in zip(en_o, w_o):
                E.eq("energy deposited", E.s(x), E.s(y))
            continue
        for j in range(len(en)):
            E.eq("energy deposited", E.s(float(en[j])), E.s(want[s][0][j]))
            prove_vec_eq(E, "hit point", col(E, hits, j), [E.s(float(x)) for x in want[s][1][j]])
