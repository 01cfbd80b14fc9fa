"""C03 transform constructors; C04-C08 ray/surface intersections and normals."""
from contracts.base import (contract, dot3, col, vec, cross3, add3, sub3, scale3, mat, matvec, matmul, transpose,
                            prove_vec_eq, prove_mat_eq)

EYE = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def det3(M):
    return dot3(M[0], cross3(M[1], M[2]))


# ------------------------------------------------------------------------------------ C03

def _proper(E, M, what="rotation"):
    prove_mat_eq(E, what + " is orthonormal", matmul(M, transpose(M)), EYE)
    E.eq(what + " is proper", det3(M), 1)


@contract("C03", "general_axis_rotation")
def general_axis(E):
    sg = E.mod("tracer.spatial_geometry")
    a = E.unit("axis")
    ang = E.real("angle")
    fr = E.freeze(a)
    M = sg.general_axis_rotation(a, ang)
    E.unchanged("axis not modified", fr)
    E.shape_is("3x3", M, (3, 3))
    M, k = mat(E, M), vec(E, a)
    _proper(E, M)
    prove_vec_eq(E, "axis fixed", matvec(M, k), k)
    # any perpendicular vector turns by the angle, counterclockwise
    w = vec(E, E.vector("w"))
    p = cross3(k, w)
    want = add3(scale3(E.cos(ang), p), scale3(E.sin(ang), cross3(k, p)))
    prove_vec_eq(E, "perpendicular vectors turn by the angle (right-hand rule)", matvec(M, p), want)


@contract("C03", "shortcuts")
def shortcuts(E):
    sg = E.mod("tracer.spatial_geometry")
    ang = E.real("angle")
    k = E.choice("axis", [0, 1, 2])
    M = [sg.rotx, sg.roty, sg.rotz][k](ang)
    E.shape_is("4x4", M, (4, 4))
    G = sg.general_axis_rotation(E.np.array([1. if j == k else 0. for j in range(3)]), ang)
    M4, G = mat(E, M, 4), mat(E, G)
    want = [G[i] + [0] for i in range(3)] + [[0, 0, 0, 1]]
    prove_mat_eq(E, "agrees with the general rotation", M4, want)
    _proper(E, [r[:3] for r in M4[:3]])


@contract("C03", "translate")
def translate(E):
    sg = E.mod("tracer.spatial_geometry")
    t = [E.real(c) for c in "xyz"]
    M = sg.translate(*t)
    E.shape_is("4x4", M, (4, 4))
    p = vec(E, E.vector("p"))
    got = matvec(mat(E, M, 4), p + [E.s(1)])
    prove_vec_eq(E, "displaces by the vector", got, add3(p, [E.s(x) for x in t]) + [1])


@contract("C03", "generate_transform")
def generate_transform(E):
    sg = E.mod("tracer.spatial_geometry")
    a = E.unit("axis")
    ang = E.real("angle")
    t = E.vector("t")
    fr = [E.freeze(a), E.freeze(t)]
    M = sg.generate_transform(a, ang, t[:, None])
    for f in fr:
        E.unchanged("arguments not modified", f)
    E.shape_is("4x4", M, (4, 4))
    G = mat(E, sg.general_axis_rotation(a, ang))
    p = vec(E, E.vector("p"))
    got = matvec(mat(E, M, 4), p + [E.s(1)])
    prove_vec_eq(E, "rotates, then translates", got, add3(matvec(G, p), vec(E, t)) + [1])
    prove_vec_eq(E, "last row", [E.at(M, 3, j) for j in range(4)], [0, 0, 0, 1])


def _to_z_spec(E, M, u):
    """M: 3x3 spec values, u the direction."""
    prove_vec_eq(E, "Z axis is the direction", [M[i][2] for i in range(3)], u)
    E.eq("X axis in the original XY plane", M[2][0], 0)
    _proper(E, M)
    if u[0] == 0 and u[1] == 0 and u[2] > 0:
        prove_mat_eq(E, "identity for +Z", M, EYE)


@contract("C03", "rotation_to_z_one")
def rot_z_one(E):
    sg = E.mod("tracer.spatial_geometry")
    u = E.unit("u")
    fr = E.freeze(u)
    M = sg.rotation_to_z(u)
    E.unchanged("direction not modified", fr)
    E.shape_is("3x3 for one direction", M, (3, 3))
    _to_z_spec(E, mat(E, M), vec(E, u))


@contract("C03", "rotation_to_z_many")
def rot_z_many(E):
    sg = E.mod("tracer.spatial_geometry")
    n = E.count("n", min=2)
    u = E.unit("u", n)
    fr = E.freeze(u)
    M = sg.rotation_to_z(u.T)
    E.unchanged("directions not modified", fr)
    E.shape_is("one 3x3 per direction", M, (n, 3, 3))
    E.forall(n, lambda i: _to_z_spec(E, [[E.at(M, i, a, b) for b in range(3)] for a in range(3)], col(E, u, i)))


# ------------------------------------------------------------------------------------ geometries

def triangle(E):
    u = [E.real("u0"), E.real("u1")]
    w = [E.real("w0"), E.real("w1")]
    det = E.s(u[0]) * E.s(w[1]) - E.s(u[1]) * E.s(w[0])
    E.assume(det != 0)
    verts = E.np.array([[u[0], w[0]], [u[1], w[1]], [0., 0.]])
    gm = E.mod("tracer.triangular_face").TriangularFace(verts)
    us, ws = [E.s(x) for x in u], [E.s(x) for x in w]

    def inside(p):
        a = p[0] * ws[1] - p[1] * ws[0]
        b = us[0] * p[1] - us[1] * p[0]
        if det > 0:
            return a >= 0 and b >= 0 and a + b <= det
        return a <= 0 and b <= 0 and a + b >= det
    return gm, inside


def flat_geometry(E, kind):
    fs = E.mod("tracer.flat_surface")
    if kind == "infinite":
        return fs.FlatGeometryManager(), (lambda p: True)
    if kind == "rect":
        w, h = E.real("w", pos=True), E.real("h", pos=True)
        return fs.RectPlateGM(w, h), (lambda p: E.abs(p[0]) <= E.s(w) / 2 and E.abs(p[1]) <= E.s(h) / 2)
    if kind == "round":
        r = E.real("r", pos=True)
        return fs.RoundPlateGM(r), (lambda p: p[0] * p[0] + p[1] * p[1] <= E.s(r) * E.s(r))
    return triangle(E)


def point(v, d, t):
    return [a + t * b for a, b in zip(v, d)]


def _flat_expect(E, inside, v, d):
    """Distance to the surface along a local ray, or None."""
    if E.abs(d[2]) <= 1e-10:
        return None
    t = -v[2] / d[2]
    if t < 0:
        return None
    return t if inside(point(v, d, t)) else None


def _check_prm(E, prm, n, expect, P):
    E.shape_is("one distance per ray", prm, (n,))

    def ray(i):
        t = expect(col(E, P.vl, i), col(E, P.dl, i))
        if t is None:
            E.true("miss reported as infinity", E.isinf(E.at(prm, i)), "reported a hit")
        else:
            E.eq("first valid hit reported", E.at(prm, i), t)
    E.forall(n, ray)


def _check_points(E, gm, prm, n, P, again=None):
    """Hit points of any selection are the ray points at the reported distances."""
    sel = E.selector("sel", n)
    dist = prm.copy()
    gm.select_rays(sel)
    pts = gm.get_intersection_points_global()
    E.shape_is("one point per selected ray", pts, (3, E.axis(sel, 0)))

    def hit(j):
        i = E.at(sel, j)
        t = E.at(dist, i)
        E.assume(E.finite(t))
        prove_vec_eq(E, "hit point is the ray point at the distance", col(E, pts, j),
                     point(col(E, P.v, i), col(E, P.d, i), t))
    E.forall(E.axis(sel, 0), hit)


def _flat(kind):
    def fn(E):
        n = E.count("n")
        gm, inside = flat_geometry(E, kind)
        P = E.placed(n, near=True)
        prm = gm.find_intersections(P.frame, P.bundle)
        _check_prm(E, prm, n, lambda v, d: _flat_expect(E, inside, v, d), P)
    contract("C04", kind + "_distance")(fn)

    def pts(E):
        n = E.count("n")
        gm, inside = flat_geometry(E, kind)
        P = E.placed(n, near=True)
        prm = gm.find_intersections(P.frame, P.bundle)
        _check_points(E, gm, prm, n, P)
        P.unchanged()
    contract("C04", kind + "_points")(pts)


for _k in ("infinite", "rect", "round", "triangle"):
    _flat(_k)


# ------------------------------------------------------------------------------------ quadrics

class Quadric(object):
    """gm: the geometry manager; eq(v, d) -> a, b, c of a t^2 + 2 b t + c = 0 in local coordinates;
    grad(p); belongs(p)."""
    def __init__(self, gm, eq, grad, belongs, pre=None, prop=None):
        self.gm, self.eq, self.grad, self.belongs, self.pre = gm, eq, grad, belongs, pre


def quadric(E, kind):
    if kind in ("sphere", "hemisphere", "sphere_cut_plane", "sphere_cut_sphere", "sphere_cut_none", "sphere_cut_cylinder"):
        ss = E.mod("tracer.sphere_surface")
        r = E.real("r", pos=True)
        belongs = lambda p: True
        if kind == "sphere":
            gm = ss.SphericalGM(r)
        elif kind == "hemisphere":
            gm = ss.HemisphereGM(r)
            belongs = lambda p: p[2] <= 0
        elif kind == "sphere_cut_none":
            gm = ss.CutSphereGM(r)
        elif kind == "sphere_cut_cylinder":
            bs = E.mod("tracer.boundary_shape")
            Q, c, D = E.rotation("bR"), E.vector("bt"), E.real("bD", pos=True)
            gm = ss.CutSphereGM(r, bs.BoundaryCylinder(D, location=c, rotation=Q))
            ax = [[E.at(Q, k, j) for k in range(3)] for j in range(2)]

            def belongs(p):
                q = sub3(p, vec(E, c))
                x, y = dot3(q, ax[0]), dot3(q, ax[1])
                return x * x + y * y <= E.s(D) * E.s(D) / 4
        elif kind == "sphere_cut_plane":
            bs = E.mod("tracer.boundary_shape")
            Q, c = E.rotation("bR"), E.vector("bt")
            gm = ss.CutSphereGM(r, bs.BoundaryPlane(location=c, rotation=Q))
            z = [E.at(Q, k, 2) for k in range(3)]
            belongs = lambda p: dot3(sub3(p, vec(E, c)), z) >= 0
        else:
            bs = E.mod("tracer.boundary_shape")
            c, b = E.vector("bt"), E.real("br", pos=True)
            gm = ss.CutSphereGM(r, bs.BoundarySphere(location=c, radius=b))

            def belongs(p):
                q = sub3(p, vec(E, c))
                return dot3(q, q) <= E.s(b) * E.s(b)
        return Quadric(gm, lambda v, d: (1, dot3(d, v), dot3(v, v) - E.s(r) * E.s(r)), lambda p: p, belongs)
    if kind in ("cylinder", "finite_cylinder"):
        cy = E.mod("tracer.cylinder")
        D = E.real("D", pos=True)
        R2 = E.s(D) * E.s(D) / 4
        if kind == "cylinder":
            gm, belongs = cy.InfiniteCylinder(D), lambda p: True
        else:
            h = E.real("h", pos=True)
            gm, belongs = cy.FiniteCylinder(D, h), lambda p: E.abs(p[2]) <= E.s(h) / 2

        def pre(d):
            a = d[0] * d[0] + d[1] * d[1]
            E.assume(a == 0 or a > 1e-10)
        return Quadric(gm, lambda v, d: (d[0] * d[0] + d[1] * d[1], d[0] * v[0] + d[1] * v[1],
                                         v[0] * v[0] + v[1] * v[1] - R2),
                       lambda p: [p[0], p[1], 0], belongs, pre)
    pb = E.mod("tracer.paraboloid")
    belongs = lambda p: True
    if kind == "paraboloid":
        a, b = E.real("a", pos=True), E.real("b", pos=True)
        gm = pb.Paraboloid(a, b)
        ka, kb = 1 / (E.s(a) * E.s(a)), 1 / (E.s(b) * E.s(b))
    else:
        D, f = E.real("D", pos=True), E.real("f", pos=True)
        ka = kb = 1 / (4 * E.s(f))
        if kind == "dish":
            gm = pb.ParabolicDishGM(D, f)
            belongs = lambda p: p[0] * p[0] + p[1] * p[1] <= E.s(D) * E.s(D) / 4
        else:
            gm = pb.HexagonalParabolicDishGM(D, f)
            R, s3 = E.s(D) / 2, E.sqrt(E.s(3))
            belongs = lambda p: (E.abs(p[0]) <= s3 / 2 * R and E.abs(p[1]) <= R - E.abs(p[0]) / s3)

    def pre(d):
        A = ka * d[0] * d[0] + kb * d[1] * d[1]
        E.assume(A == 0 or A > 1e-10)
    return Quadric(gm, lambda v, d: (ka * d[0] * d[0] + kb * d[1] * d[1],
                                     ka * d[0] * v[0] + kb * d[1] * v[1] - d[2] / 2,
                                     ka * v[0] * v[0] + kb * v[1] * v[1] - v[2]),
                   lambda p: [2 * ka * p[0], 2 * kb * p[1], E.s(-1)], belongs, pre)


def _nearest(E, Q, v, d):
    """Smallest positive root with a valid point, or None."""
    if Q.pre:
        Q.pre(d)
    a, b, c = Q.eq(v, d)
    if not isinstance(a, int) and a == 0:
        if b == 0:
            E.off(c, 0)
            return None
        roots = [-c / (2 * b)]
    else:
        disc = b * b - a * c
        if disc < 0:
            return None
        s = E.sqrt(disc)
        roots = [(-b - s) / a, (-b + s) / a]
    for t in roots:
        if t > 0 and Q.belongs(point(v, d, t)):
            return t
    return None


def _quad(prop, kind, **kw):
    def fn(E):
        n = E.count("n")
        Q = quadric(E, kind)
        P = E.placed(n, near=True)
        prm = Q.gm.find_intersections(P.frame, P.bundle)
        _check_prm(E, prm, n, lambda v, d: _nearest(E, Q, v, d), P)
    contract(prop, kind + "_distance", **kw)(fn)

    def pts(E):
        n = E.count("n")
        Q = quadric(E, kind)
        P = E.placed(n, near=True)
        prm = Q.gm.find_intersections(P.frame, P.bundle)
        _check_points(E, Q.gm, prm, n, P)
        P.unchanged()
    contract(prop, kind + "_points", **kw)(pts)


for _p, _k in (("C05", "sphere"), ("C05", "hemisphere"), ("C05", "sphere_cut_plane"), ("C05", "sphere_cut_sphere"),
               ("C05", "sphere_cut_none"), ("C05", "sphere_cut_cylinder"), ("C06", "cylinder"), ("C06", "finite_cylinder"), ("C07", "paraboloid"),
               ("C07", "dish"), ("C07", "hexagonal_dish")):
    _quad(_p, _k, lazy_abs=_k == "hexagonal_dish", nofeas=_k == "hexagonal_dish")


@contract("C07", "focus")
def focus(E):
    """A ray hitting a dish parallel to the axis is reflected through the focus."""
    pb, opt = E.mod("tracer.paraboloid"), E.mod("tracer.optics")
    n = E.count("n")
    D, f = E.real("D", pos=True), E.real("f", pos=True)
    gm = (pb.ParabolicDishGM if E.choice("dish", [0, 1]) else pb.HexagonalParabolicDishGM)(D, f)
    P = E.placed(n, near=True, axial=True)
    prm = gm.find_intersections(P.frame, P.bundle).copy()
    sel = E.selector("sel", n)
    gm.select_rays(sel)
    pts, nrm = gm.get_intersection_points_global(), gm.get_normals()
    out = opt.reflections(P.d[:, sel], nrm)
    foc = [E.at(P.frame, k, 3) + E.s(f) * E.at(P.frame, k, 2) for k in range(3)]

    def ray(j):
        i = E.at(sel, j)
        E.assume(E.finite(E.at(prm, i)))
        w = sub3(foc, col(E, pts, j))
        r = col(E, out, j)
        prove_vec_eq(E, "reflected along the line through the focus", cross3(w, r), [0, 0, 0])
    E.forall(E.axis(sel, 0), ray)


# ------------------------------------------------------------------------------------ C08

def _normals(kind):
    def fn(E):
        n = E.count("n")
        if kind in ("infinite", "rect", "round", "triangle"):
            gm, inside = flat_geometry(E, kind)
            grad = lambda p: [0, 0, E.s(1)]
            pre = None
        else:
            Q = quadric(E, kind)
            gm, grad, pre = Q.gm, Q.grad, Q.pre
        P = E.placed(n, near=True)
        prm = gm.find_intersections(P.frame, P.bundle).copy()
        sel = E.selector("sel", n)
        gm.select_rays(sel)
        nrm, pts = gm.get_normals(), gm.get_intersection_points_global()
        E.shape_is("one normal per selected ray", nrm, (3, E.axis(sel, 0)))
        E.shape_is("one point per selected ray", pts, (3, E.axis(sel, 0)))

        def ray(j):
            i = E.at(sel, j)
            if pre:
                pre(col(E, P.dl, i))
            t = E.at(prm, i)
            E.assume(E.finite(t))
            x = col(E, nrm, j)
            E.eq("unit normal", dot3(x, x), 1)
            E.le("faces the incoming ray", dot3(x, col(E, P.d, i)), 0)
            loc = P.local_dir(x)
            g = grad(point(col(E, P.vl, i), col(E, P.dl, i), t))
            prove_vec_eq(E, "perpendicular to the surface", cross3(loc, g), [0, 0, 0])
        E.forall(E.axis(sel, 0), ray)
    contract("C08", kind, lazy_abs=kind == "hexagonal_dish", nofeas=kind == "hexagonal_dish")(fn)


for _k in ("infinite", "rect", "round", "triangle", "sphere", "hemisphere", "sphere_cut_plane", "sphere_cut_sphere",
           "cylinder", "finite_cylinder", "paraboloid", "dish", "hexagonal_dish"):
    _normals(_k)
