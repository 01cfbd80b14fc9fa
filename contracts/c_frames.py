"""C24 bounding volumes, C02 frames, C01 nested transforms, C26 enumerations."""
from contracts.base import (contract, dot3, col, row, vec, cross3, add3, sub3, scale3, mat, matvec, matmul, prove_vec_eq,
                            prove_mat_eq)


def rot_of(E, F):
    return [[E.at(F, i, j) for j in range(3)] for i in range(3)]


def trans_of(E, F):
    return [E.at(F, i, 3) for i in range(3)]


def apply4(E, F, p):
    """Homogeneous transform (spec matrix 4x4) applied to a point."""
    return [F[i][0] * p[0] + F[i][1] * p[1] + F[i][2] * p[2] + F[i][3] for i in range(3)]


def points_at(E, F, loc, n, name="q"):
    """Points (n,3) given by local coordinates q in the frame F (4x4 spec matrix) around the local point loc."""
    q = E.vector(name, n)
    s = mat(E, F, 4)
    pts = E.arr(lambda i, k: apply4(E, s, add3([E.at(q, c, i) for c in range(3)], loc))[k], (n, 3))
    return q, pts


# ------------------------------------------------------------------------------------ C24

def _place(E, b):
    """Puts a bounding volume into space in one of the ways offered; returns the frame of its container."""
    how = E.choice("placed", ["not moved", "transform_frame", "twice", "in an object"])
    if how == "not moved":
        return E.np.eye(4)
    F, R, t = E.rigid("F")
    if how == "twice":
        G = E.rigid("G")[0]
        b.transform_frame(G)
        b.transform_frame(F)
        return F
    if how == "transform_frame":
        b.transform_frame(F)
        return F
    obj = E.mod("tracer.object").AssembledObject(bounds=[b], transform=F)
    E.mod("tracer.assembly").Assembly(objects=[obj])
    return F


@contract("C24", "sphere")
def bsphere(E):
    bs = E.mod("tracer.boundary_shape")
    r = E.real("r", pos=True)
    n = E.count("n")
    loc = E.vector("loc")
    located = E.choice("located", [True, False, "moved"])
    if located is True:
        b = bs.BoundarySphere(location=loc, radius=r)
    elif located == "moved":
        b = bs.BoundarySphere(location=E.vector("loc0"), radius=r)
        b.set_location(loc)
    else:
        b = bs.BoundarySphere(radius=r)
        loc = E.np.zeros(3)
    fl = E.freeze(loc)
    F = _place(E, b)
    q, pts = points_at(E, F, vec(E, loc), n)
    fr = E.freeze(pts)
    got = b.in_bounds(pts)
    E.unchanged("points not modified", fr)
    E.unchanged("location not modified", fl)
    E.shape_is("one answer per point", got, (n,))

    def pt(i):
        x = col(E, q, i)
        E.true("inside exactly when within the radius", E.bool_at(got, i) == (dot3(x, x) <= E.s(r) * E.s(r)))
    E.forall(n, pt)


def _local_volume(kind):
    @contract("C24", kind)
    def vol(E):
        bs = E.mod("tracer.boundary_shape")
        n = E.count("n")
        own, R, t = E.rigid("own")
        how = E.choice("given", ["both", "location", "neither", "set later", "moved"])
        kw = {}
        if how == "both":
            kw = {"location": t, "rotation": R}
        elif how == "location":
            kw = {"location": t}
        d = E.real("d", pos=True)
        b = bs.BoundaryCylinder(d, **kw) if kind == "cylinder" else bs.BoundaryPlane(**kw)
        I = E.np.eye(4)
        if how == "set later":
            b.set_transform(own)
            F, _, _ = E.rigid("F")
            b.transform_frame(F)
        else:
            if how == "moved":
                b.set_location(t)
                b.set_rotation(R)
            F = _place(E, b)
        # local frame of the volume
        if how in ("both", "set later", "moved"):
            L = mat(E, own, 4)
        else:
            L = mat(E, I, 4)
            if how == "location":
                for k in range(3):
                    L[k][3] = E.at(t, k)
        q = E.vector("q", n)
        sF = mat(E, F, 4)
        pts = E.arr(lambda i, k: apply4(E, sF, apply4(E, L, col(E, q, i)))[k], (n, 3))
        fr = E.freeze(pts)
        got = b.in_bounds(pts)
        E.unchanged("points not modified", fr)
        E.shape_is("one answer per point", got, (n,))

        def pt(i):
            x = col(E, q, i)
            if kind == "cylinder":
                E.true("inside exactly when within the radius of the axis",
                       E.bool_at(got, i) == (4 * (x[0] * x[0] + x[1] * x[1]) <= E.s(d) * E.s(d)))
            else:
                E.true("inside exactly on the positive side of the plane", E.bool_at(got, i) == (x[2] >= 0))
        E.forall(n, pt)


_local_volume("cylinder")
_local_volume("plane")


@contract("C24", "sphere_rect")
def sphere_rect(E):
    """The plane is the xy plane of P; the centre of the sphere has coordinates c there."""
    bs = E.mod("tracer.boundary_shape")
    r = E.real("r", pos=True)
    P, R, t = E.rigid("P")
    c = E.vector("c")
    loc = E.np.array([0., 0., 0.])
    sP = mat(E, P, 4)
    glob = apply4(E, sP, vec(E, c))
    if E.choice("placed", ["own location", "container"]) == "own location":
        b = bs.BoundarySphere(location=E.arr(lambda k: glob[k], (3,)), radius=r)
    else:
        b = bs.BoundarySphere(radius=r)
        T = E.np.eye(4)
        for k in range(3):
            T[k, 3] = E.scalar(glob[k])
        b.transform_frame(T)
    rr = E.s(r) * E.s(r)
    E.assume(E.at(c, 2) * E.at(c, 2) <= rr)
    x0, x1, y0, y1 = [E.s(x) for x in b.bounding_rect_for_plane(P)]
    x, y = E.s(E.real("x")), E.s(E.real("y"))

    def inside(x, y):
        w = sub3([x, y, 0], vec(E, c))
        return dot3(w, w)

    def contains():
        E.assume(inside(x, y) <= rr)
        E.ge("contains the circle: left", x, x0)
        E.le("contains the circle: right", x, x1)
        E.ge("contains the circle: bottom", y, y0)
        E.le("contains the circle: top", y, y1)
    E.case(contains)
    E.eq("touches the circle: left", inside(x0, E.at(c, 1)), rr)
    E.eq("touches the circle: right", inside(x1, E.at(c, 1)), rr)
    E.eq("touches the circle: bottom", inside(E.at(c, 0), y0), rr)
    E.eq("touches the circle: top", inside(E.at(c, 0), y1), rr)


# ------------------------------------------------------------------------------------ C02

def framed(E, kind):
    if kind == "surface":
        return E.mod("tracer.surface").Surface
    if kind == "volume":
        return E.mod("tracer.boundary_shape").BoundaryPlane
    if kind == "assembly":
        return E.mod("tracer.assembly").Assembly
    return E.mod("tracer.object").AssembledObject


class Expected(object):
    """What location, rotation and transform should read."""
    def __init__(self, E):
        self.E = E
        self.M = mat(E, E.np.eye(4), 4)

    def set_loc(self, l):
        for k in range(3):
            self.M[k][3] = l[k]

    def set_rot(self, R):
        for i in range(3):
            for j in range(3):
                self.M[i][j] = R[i][j]

    def check(self, x, what):
        E = self.E
        T = x.get_transform()
        E.shape_is(what + ": transform is 4x4", T, (4, 4))
        prove_mat_eq(E, what + ": transform", mat(E, T, 4), self.M)
        E.shape_is(what + ": location has 3 components", x.get_location(), (3,))
        prove_vec_eq(E, what + ": location is the translation column", vec(E, x.get_location()),
                     [self.M[k][3] for k in range(3)])
        E.shape_is(what + ": rotation is 3x3", x.get_rotation(), (3, 3))
        prove_mat_eq(E, what + ": rotation is the upper-left block", mat(E, x.get_rotation(), 3),
                     [[self.M[i][j] for j in range(3)] for i in range(3)])


def _setters(kind):
    @contract("C02", "setters_" + kind, bound="sequences of up to 3 setter calls", cases=100)
    def setters(E):
        cls = framed(E, kind)
        X = Expected(E)
        given = []
        loc, rot = E.vector("loc0"), E.array("rot0", (3, 3))
        if kind == "object":
            if E.choice("construct", [0, 1]):
                M = E.array("M0", (4, 4))
                given.append((M, M.copy()))
                x = cls(transform=M)
                X.M = mat(E, given[-1][1], 4)
            else:
                x = cls()
        else:
            kw = {}
            how = E.choice("construct", ["nothing", "location", "rotation", "both"])
            if how in ("location", "both"):
                kw["location"] = loc
                X.set_loc(vec(E, loc))
            if how in ("rotation", "both"):
                kw["rotation"] = rot
                X.set_rot(mat(E, rot, 3))
            if kind == "surface":
                kw.update({"geometry": None, "optics": None})
            x = cls(**kw)
        given += [(loc, loc.copy()), (rot, rot.copy())]
        X.check(x, "after construction")
        for q in range(3):
            op = E.choice("op%d" % q, ["location", "rotation", "transform", "bad", "stop"])
            if op == "stop":
                break
            if op == "location":
                a = E.vector("loc%d" % (q + 1))
                given.append((a, a.copy()))
                x.set_location(a)
                X.set_loc(vec(E, given[-1][1]))
            elif op == "rotation":
                a = E.array("rot%d" % (q + 1), (3, 3))
                given.append((a, a.copy()))
                x.set_rotation(a)
                X.set_rot(mat(E, given[-1][1], 3))
            elif op == "transform":
                a = E.array("M%d" % (q + 1), (4, 4))
                given.append((a, a.copy()))
                x.set_transform(a)
                X.M = mat(E, given[-1][1], 4)
            else:
                for sh in ((4,), (3, 1), (1, 3), (1,), (0,), (1, 1), (3, 3), ()):
                    E.raises("location of the wrong shape rejected", ValueError, lambda: x.set_location(E.np.ones(sh)))
                for sh in ((4, 4), (3,), (1, 3), (3, 1), (1, 1), (2, 3), (9,), (1, 3, 3), (1,), ()):
                    E.raises("rotation of the wrong shape rejected", ValueError, lambda: x.set_rotation(E.np.ones(sh)))
            X.check(x, "after setting")
        for a, old in given:
            for k, i in enumerate(E.indices(a)):
                E.eq("arguments not modified", E.at(a, *i), E.at(old, *i))
        # later changes to the arguments do not move the thing
        for a, old in given:
            a[...] = 7.
        X.check(x, "after the caller reuses the arguments")


for _k in ("surface", "volume", "object", "assembly"):
    _setters(_k)


@contract("C02", "global_to_local")
def global_to_local(E):
    sf = E.mod("tracer.surface")
    n = E.count("n")
    own, R, t = E.rigid("own")
    s = sf.Surface(None, None, location=t, rotation=R)
    moved = E.choice("moved", [0, 1, "stretched"])
    F = E.rigid("F")[0] if moved else None
    if moved == "stretched":
        # a frame that is not rigid: axes of different lengths
        k = [E.s(E.real("k%d" % j, pos=True)) for j in range(3)] + [1]
        sF = mat(E, F, 4)
        F = E.arr(lambda i, j: sF[i][j] * k[j], (4, 4))
    L = mat(E, own, 4)
    if F is not None:
        s.transform_frame(F)
    q = E.vector("q", n)
    sF = mat(E, F, 4) if F is not None else mat(E, E.np.eye(4), 4)
    pts = E.arr(lambda k, i: apply4(E, sF, apply4(E, L, col(E, q, i)))[k], (3, n))
    fr = E.freeze(pts)
    got = s.global_to_local(pts)
    E.unchanged("points not modified", fr)
    E.same_axis("one point per point", E.axis(got, 1), n)
    E.forall(n, lambda i: prove_vec_eq(E, "local coordinates", col(E, got, i), col(E, q, i)))


class MeshGeometry(object):
    def __init__(self, x, y, z):
        self.m = x, y, z

    def mesh(self, resolution):
        return self.m


@contract("C02", "mesh_global")
def mesh_global(E):
    sf = E.mod("tracer.surface")
    n, m = E.count("n", min=1), E.count("m", min=1)
    own, R, t = E.rigid("own")
    x, y, z = E.array("x", (n, m)), E.array("y", (n, m)), E.array("z", (n, m))
    s = sf.Surface(MeshGeometry(x, y, z), None, location=t, rotation=R)
    F = E.rigid("F")[0] if E.choice("moved", [0, 1]) else None
    if F is not None:
        s.transform_frame(F)
    g = s.mesh(E.real("resolution", pos=True))
    E.shape_is("three coordinates per mesh point", g, (3, n, m))
    L = mat(E, own, 4)
    sF = mat(E, F, 4) if F is not None else mat(E, E.np.eye(4), 4)
    E.forall(n, lambda i: E.forall(m, lambda j: prove_vec_eq(
        E, "frame applied to the local mesh", [E.at(g, k, i, j) for k in range(3)],
        apply4(E, sF, apply4(E, L, [E.at(x, i, j), E.at(y, i, j), E.at(z, i, j)])))))


# ------------------------------------------------------------------------------------ C01, C26

class Catcher(object):
    """A geometry that notes the frame the surface hands to it."""
    def __init__(self):
        self.frame = None

    def find_intersections(self, frame, bundle):
        self.frame = frame
        return None


class Node(object):
    """Specification tree: transforms as given, leaves with their own frames."""
    _n = 0

    def __init__(self, E, kind, T=None, kids=(), x=None, catcher=None):
        self.E, self.kind, self.kids, self.x, self.catcher = E, kind, list(kids), x, catcher
        self.T = mat(E, E.np.eye(4), 4) if T is None else T

    def leaves(self, above):
        t = matmul(above, self.T)
        if self.kind in ("surface", "volume", "ball"):
            yield self, t
        for k in self.kids:
            for l in k.leaves(t):
                yield l


def _rigid(E, name):
    """A rigid transform (array and specification matrix)."""
    F = E.rigid(name)[0]
    return F, mat(E, F, 4)


def make_surface(E, name):
    own, R, t = E.rigid(name)
    c = Catcher()
    s = E.mod("tracer.surface").Surface(c, None, location=t, rotation=R)
    return Node(E, "surface", mat(E, own, 4), x=s, catcher=c)


def make_volume(E, name):
    own, R, t = E.rigid(name)
    return Node(E, "volume", mat(E, own, 4), x=E.mod("tracer.boundary_shape").BoundaryPlane(location=t, rotation=R))


def make_ball(E, name):
    """A bounding sphere of radius 1: its centre shows where it is."""
    t = E.vector(name + ".t")
    T = mat(E, E.np.eye(4), 4)
    for k in range(3):
        T[k][3] = E.at(t, k)
    return Node(E, "ball", T, x=E.mod("tracer.boundary_shape").BoundarySphere(location=t))


def make_object(E, name, ns, nb, moved=True, vol=make_volume):
    surfs = [make_surface(E, "%s.s%d" % (name, k)) for k in range(ns)]
    vols = [vol(E, "%s.b%d" % (name, k)) for k in range(nb)]
    cls = E.mod("tracer.object").AssembledObject
    T = None
    kw = {}
    if ns or not moved:
        kw["surfs"] = [s.x for s in surfs]
    if nb:
        kw["bounds"] = [b.x for b in vols]
    if moved:
        F, T = _rigid(E, name + ".T")
        kw["transform"] = F
    return Node(E, "object", T, surfs + vols, cls(**kw))


def make_assembly(E, name, subs, objs, moved=True):
    cls = E.mod("tracer.assembly").Assembly
    T, kw = None, {}
    if moved:
        F, R, t = E.rigid(name + ".T")
        T = mat(E, F, 4)
        kw = {"location": t, "rotation": R}
    if objs:
        kw["objects"] = [o.x for o in objs]
    if subs:
        kw["subassemblies"] = [a.x for a in subs]
    return Node(E, "assembly", T, subs + objs, cls(**kw))


def check_frames(E, root, what):
    n = E.count("n", min=1)
    bundle = E.mod("tracer.ray_bundle").RayBundle(vertices=E.np.zeros((3, 1)), directions=E.np.ones((3, 1)))
    for leaf, F in root.leaves(mat(E, E.np.eye(4), 4)):
        if leaf.kind == "surface":
            leaf.x.register_incoming(bundle)
            prove_mat_eq(E, what + ": surface frame is the product from the root", mat(E, leaf.catcher.frame, 4), F)
        elif leaf.kind == "ball":
            q = E.vector("q", n)
            pts = E.arr(lambda i, k: F[k][3] + E.at(q, k, i), (n, 3))
            got = leaf.x.in_bounds(pts)

            def pt(i):
                E.true(what + ": bounding sphere is at the product from the root",
                       E.bool_at(got, i) == (dot3(col(E, q, i), col(E, q, i)) <= 1))
            E.forall(n, pt)
        else:
            q = E.vector("q", n)
            pts = E.arr(lambda i, k: apply4(E, F, col(E, q, i))[k], (n, 3))
            got = leaf.x.in_bounds(pts)

            def pt(i):
                E.true(what + ": bounding volume frame is the product from the root",
                       E.bool_at(got, i) == (E.at(q, 2, i) >= 0))
            E.forall(n, pt)


TREES = ["objects", "deep", "two subassemblies", "object alone", "empty object", "volumes", "chain"]


def build(E, tree, small=False):
    """A specification tree with the real things in it."""
    if tree == "objects":
        return make_assembly(E, "r", [], [make_object(E, "o1", 2, 0), make_object(E, "o2", 1, 1, moved=False)])
    if tree == "deep":
        b = make_assembly(E, "b", [], [make_object(E, "o1", 1, 1, vol=make_ball)])
        a = make_assembly(E, "a", [b], [make_object(E, "o2", 1, 0)])
        return make_assembly(E, "r", [a], [make_object(E, "o3", 1, 0)], moved=False)
    if tree == "two subassemblies":
        a = make_assembly(E, "a", [], [make_object(E, "o1", 1, 0), make_object(E, "o2", 2, 0)])
        b = make_assembly(E, "b", [], [make_object(E, "o3", 1, 0)], moved=False)
        return make_assembly(E, "r", [a, b], [])
    if tree == "object alone":
        return make_object(E, "o", 2, 1)
    if tree == "volumes":
        a = make_assembly(E, "a", [], [make_object(E, "o1", 0, 1, vol=make_ball)])
        return make_assembly(E, "r", [a], [make_object(E, "o2", 0, 1)])
    if tree == "chain":
        x = make_assembly(E, "a0", [], [make_object(E, "o", 1, 0)])
        for k in range(2):
            x = make_assembly(E, "a%d" % (k + 1), [x], [], moved=not k)
        return make_assembly(E, "r", [x], [])
    return make_object(E, "o", 0, 0, moved=False)


def _root_op(E, root, tag=""):
    ops = ["set_transform", "set_location", "set_rotation", "transform_children"]
    if root.kind == "assembly":
        ops += ["add_object", "add_object at", "add_assembly", "add_assembly at"]
    else:
        ops += ["add_surface", "add_boundary"]
    op = E.choice("op" + tag, ops)
    F, R, t = E.rigid("new" + tag)
    S = mat(E, F, 4)
    fr = E.freeze(F)
    if op == "set_transform":
        root.x.set_transform(F)
        root.T = S
    elif op == "set_location":
        root.x.set_location(t)
        root.T = [root.T[i][:3] + [S[i][3]] for i in range(3)] + [root.T[3]]
    elif op == "set_rotation":
        root.x.set_rotation(R)
        root.T = [S[i][:3] + [root.T[i][3]] for i in range(3)] + [root.T[3]]
    elif op == "transform_children":
        root.x.transform_children()
    elif op.startswith("add_object"):
        o = make_object(E, "added" + tag, 1, 1, vol=make_ball)
        if op.endswith("at"):
            root.x.add_object(o.x, F)
            o.T = S
        else:
            root.x.add_object(o.x)
            o.T = mat(E, E.np.eye(4), 4)
        root.kids.append(o)
        prove_mat_eq(E, "child is given exactly the transform passed", mat(E, o.x.get_transform(), 4), o.T)
    elif op.startswith("add_assembly"):
        a = make_assembly(E, "added" + tag, [], [make_object(E, "added.o" + tag, 1, 0)])
        if op.endswith("at"):
            root.x.add_assembly(a.x, F)
            a.T = S
        else:
            root.x.add_assembly(a.x)
            a.T = mat(E, E.np.eye(4), 4)
        root.kids.insert(len([k for k in root.kids if k.kind == "assembly"]), a)
        prove_mat_eq(E, "child is given exactly the transform passed", mat(E, a.x.get_transform(), 4), a.T)
    elif op == "add_surface":
        s = make_surface(E, "added" + tag)
        root.x.add_surface(s.x)
        root.kids.append(s)
    else:
        b = make_volume(E, "added" + tag)
        root.x.add_boundary(b.x)
        root.kids.append(b)
    E.unchanged("argument not modified", fr)


def _child_op(E, root):
    """Something may happen further down first; the root puts it right."""
    kids = [k for k in root.kids if k.kind in ("assembly", "object")]
    if not kids or E.choice("child", ["left alone", "moved"]) == "left alone":
        return
    k = kids[0]
    while k.kids and k.kids[0].kind == "assembly":
        k = k.kids[0]
    F, S = _rigid(E, "child")
    how = E.choice("child moved by", ["transform", "location"])
    if how == "transform":
        k.x.set_transform(F)
        k.T = S
    else:
        k.x.set_location(E.np.array(F[:3, 3]))
        k.T = [k.T[i][:3] + [S[i][3]] for i in range(3)] + [k.T[3]]


def _frames(tree):
    @contract("C01", tree.replace(" ", "_"), bound="the tree '%s', two operations" % tree, cases=60, cost=3)
    def frames(E):
        root = build(E, tree)
        check_frames(E, root, "after construction")
        _child_op(E, root)
        _root_op(E, root)
        check_frames(E, root, "after an operation on the root")


for _t in TREES:
    _frames(_t)


# any number of children: each level of a tree passes the product on to every one of them

def _catching(E, F):
    """A surface in the frame F."""
    return E.mod("tracer.surface").Surface(Catcher(), None, location=E.np.array(F[:3, 3]), rotation=E.np.array(F[:3, :3]))


def _frame_seen(E, surface):
    surface.register_incoming(E.mod("tracer.ray_bundle").RayBundle(vertices=E.np.zeros((3, 1)), directions=E.np.ones((3, 1))))
    return mat(E, surface.get_geometry_manager().frame, 4)


def _many(name, make, kids, leaf, levels, adds):
    """make: the root holding a list of n things; kids: that list, asked from the root; leaf: the surface in one of them."""
    @contract("C01", name, cases=60)
    def many(E):
        n = E.count("n")
        fr = [E.frames("level%d" % k, n) for k in range(levels)]
        root = make(E, n, fr)
        root_T = [mat(E, root.get_transform(), 4)]
        extra = []

        def product(i):
            F = root_T[0]
            for f in fr:
                F = matmul(F, mat(E, E.pick(f, i), 4))
            return F

        def check(what):
            def one(i):
                prove_mat_eq(E, what + ": surface frame is the product from the root",
                             _frame_seen(E, leaf(E.probe_at(kids(root), i))), product(i))
            E.forall(n, one)
            for x, F in extra:
                prove_mat_eq(E, what + ": frame of the one added is the product from the root", _frame_seen(E, leaf(x)),
                             matmul(root_T[0], F))
        for turn in range(2):
            F, R, t = E.rigid("new%d" % turn)
            S = mat(E, F, 4)
            op = E.choice("op%d" % turn, ["set_transform", "set_location", "set_rotation", "transform_children"] +
                          (["add"] if adds else []))
            if op == "set_transform":
                root.set_transform(F)
                root_T[0] = S
            elif op == "set_location":
                root.set_location(t)
                root_T[0] = [root_T[0][i][:3] + [S[i][3]] for i in range(3)] + [root_T[0][3]]
            elif op == "set_rotation":
                root.set_rotation(R)
                root_T[0] = [S[i][:3] + [root_T[0][i][3]] for i in range(3)] + [root_T[0][3]]
            elif op == "transform_children":
                root.transform_children()
            else:
                G = E.rigid("own%d" % turn)[0]
                extra.append(adds(E, root, F, G))
            check("after operation %d" % (turn + 1))


def _object_in(E, F, surface):
    return E.mod("tracer.object").AssembledObject(surfs=[surface], transform=F)


def _root_assembly(E, **kw):
    F, R, t = E.rigid("root")
    return E.mod("tracer.assembly").Assembly(location=t, rotation=R, **kw)


def _add_object(E, root, F, G):
    o = _object_in(E, None, _catching(E, G))
    root.add_object(o, F)
    return o, matmul(mat(E, F, 4), mat(E, G, 4))


def _add_surface(E, root, F, G):
    s = _catching(E, G)
    root.add_surface(s)
    return s, mat(E, G, 4)


_many("any_number_of_objects",
      lambda E, n, fr: _root_assembly(E, objects=E.list_of(n, lambda i: _object_in(
          E, E.pick(fr[0], i), _catching(E, E.pick(fr[1], i))))),
      lambda r: r.get_local_objects(), lambda o: o.get_surfaces()[0], 2, _add_object)
_many("any_number_of_surfaces",
      lambda E, n, fr: E.mod("tracer.object").AssembledObject(
          surfs=E.list_of(n, lambda i: _catching(E, E.pick(fr[0], i))), transform=E.rigid("root")[0]),
      lambda r: r.get_surfaces(), lambda s: s, 1, _add_surface)


def _sub(E, F, o):
    return E.mod("tracer.assembly").Assembly(objects=[o], location=E.np.array(F[:3, 3]), rotation=E.np.array(F[:3, :3]))


_many("any_number_of_subassemblies",
      lambda E, n, fr: _root_assembly(E, subassemblies=E.list_of(n, lambda i: _sub(
          E, E.pick(fr[0], i), _object_in(E, E.pick(fr[1], i), _catching(E, E.pick(fr[2], i)))))),
      lambda r: r.get_assemblies(), lambda a: a.get_objects()[0].get_surfaces()[0], 3, None)


class Child(object):
    """Stands for any subassembly, object, surface or volume: notes the product it is handed. Should the code come to
    address its children in another way, this says nothing (the contracts with real children do)."""
    seen = None

    def __init__(self, E):
        self.skip = E.skip

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.skip()

    def transform_children(self, transform):
        self.seen = transform

    transform_frame = transform_children


def _step(name, make, lists):
    """The step of the induction over the depth of a tree: whatever it is handed, a node hands the product with its own
    transform to every child; and changing its own transform does so at once, as the root."""
    @contract("C01", name, cases=60)
    def step(E):
        n, m = E.count("n"), E.count("m")
        F, R, t = E.rigid("own")
        root = make(E, E.list_of(n, lambda i: Child(E)), E.list_of(m, lambda i: Child(E)), F, R, t)
        T = mat(E, F, 4)
        op = E.choice("op", ["none", "set_transform", "set_location", "set_rotation"])
        G, R, t = E.rigid("new")
        S = mat(E, G, 4)
        if op == "set_transform":
            root.set_transform(G)
            T = S
        elif op == "set_location":
            root.set_location(t)
            T = [T[i][:3] + [S[i][3]] for i in range(3)] + [T[3]]
        elif op == "set_rotation":
            root.set_rotation(R)
            T = [S[i][:3] + [T[i][3]] for i in range(3)] + [T[3]]
        prove_mat_eq(E, "own transform as set", mat(E, root.get_transform(), 4), T)

        def all_given(what, want):
            for k, size in enumerate((n, m)):
                def one(i):
                    got = E.probe_at(lists(root)[k], i).seen
                    if got is None:
                        E.skip()
                    prove_mat_eq(E, what, mat(E, got, 4), want)
                E.forall(size, one)
        if op != "none":
            all_given("as the root: every child is handed the node's transform", T)
        A = E.matrix4("above")
        fr = E.freeze(A)
        root.transform_children(A)
        all_given("every child is handed the product", matmul(mat(E, A, 4), T))
        prove_mat_eq(E, "own transform kept", mat(E, root.get_transform(), 4), T)
        E.unchanged("argument not modified", fr)
        root.transform_children()
        all_given("every child is handed the node's transform by default", T)


_step("step_assembly", lambda E, a, o, F, R, t: E.mod("tracer.assembly").Assembly(
    objects=o, subassemblies=a, location=t, rotation=R), lambda r: (r.get_assemblies(), r.get_local_objects()))
_step("step_object", lambda E, s, b, F, R, t: E.mod("tracer.object").AssembledObject(surfs=s, bounds=b, transform=F),
      lambda r: (r.get_surfaces(), r.get_boundaries()))


@contract("C01", "step_leaf", cases=60)
def step_leaf(E):
    """The base of that induction: what a surface or bounding volume is handed, with its own frame, is where it is."""
    kind = E.choice("kind", ["surface", "volume", "ball"])
    leaf = {"surface": make_surface, "volume": make_volume, "ball": make_ball}[kind](E, "leaf")
    holder = leaf
    for turn in range(E.choice("times", [0, 1, 2])):
        A, S = _rigid(E, "above%d" % turn)
        leaf.x.transform_frame(A)
        holder = Node(E, "object", S, [leaf])
    check_frames(E, holder, "handed a transform")


def _enumerate(node):
    objs = []
    if node.kind == "object":
        return [node]
    for k in node.kids:
        if k.kind == "assembly":
            objs += _enumerate(k)
    return objs + [k for k in node.kids if k.kind == "object"]


def check_enumeration(E, root):
    want = _enumerate(root)
    wants = [s.x for o in want for s in o.kids if s.kind == "surface"]
    for turn in ("listed", "listed again"):
        if root.kind == "assembly":
            got = list(root.x.get_objects())
            E.true("objects of subassemblies then own, " + turn, len(got) == len(want) and
                   all(a is b.x for a, b in zip(got, want)))
            cnt = [len(o.get_surfaces()) for o in got]
            E.true("running count of surfaces, " + turn, sum(cnt) == len(wants))
        gs = list(root.x.get_surfaces())
        E.true("surfaces of those objects in that order, " + turn, len(gs) == len(wants) and all(a is b for a, b in zip(gs, wants)))


@contract("C26", "enumeration", bound="eight trees, up to two additions", cases=100)
def enumeration(E):
    tree = E.choice("tree", TREES + ["empty"])
    root = build(E, tree) if tree != "empty" else make_assembly(E, "r", [], [])
    check_enumeration(E, root)
    for q in range(2):
        _root_op(E, root, str(q))
        check_enumeration(E, root)


@contract("C26", "any_number", cases=100)
def enumeration_any(E):
    """Any number of subassemblies and objects."""
    asm, ob = E.mod("tracer.assembly").Assembly, E.mod("tracer.object").AssembledObject
    n, m, ns = E.count("n"), E.count("m"), E.choice("surfaces", [1, 2])

    def obj(name):
        return ob(surfs=[E.mod("tracer.surface").Surface(Catcher(), None) for _ in range(ns)])
    subs = E.list_of(n, lambda i: asm(objects=[obj("sub")]))
    objs = E.list_of(m, lambda i: obj("own"))
    root = asm(objects=objs, subassemblies=subs)
    moved = E.choice("moved", [False, True])
    if moved:
        root.set_transform(E.rigid("T")[0])
    for turn in ("listed", "listed again"):
        got = root.get_objects()
        E.eq("as many objects as there are, " + turn, E.list_len(got), E.s(E.length(n)) + E.s(E.length(m)))
        E.forall(n, lambda i: E.true("objects of subassemblies first, " + turn, E.joined(got, (n, m), 0, i) is
                                     E.item(root.get_assemblies(), i).get_objects()[0]))
        E.forall(m, lambda i: E.true("own objects after them, " + turn, E.joined(got, (n, m), 1, i) is
                                     E.item(root.get_local_objects(), i)))
        sf = root.get_surfaces()
        E.eq("as many surfaces as there are, " + turn, E.list_len(sf), ns * (E.s(E.length(n)) + E.s(E.length(m))))
        for c in range(ns):
            for k, size in enumerate((n, m)):
                E.forall(size, lambda i: E.true("surfaces of those objects in that order, " + turn,
                                                E.joined(sf, (n, m), k, i, (c, ns)) is
                                                E.joined(got, (n, m), k, i).get_surfaces()[c]))
