"""C25 meshes lie on their surfaces, inside the aperture up to a mesh step, and cover them."""
import math

from contracts.base import contract


def points(E, mesh, name="mesh"):
    """The shape of a mesh, and a function that reads a point of it."""
    E.true("three coordinate arrays", len(mesh) == 3)
    x, y, z = mesh
    for a in (x, y, z):
        if E.ndim(a) != 2:
            E.true("two-dimensional mesh", False)
    n, m = E.axis(x, 0), E.axis(x, 1)
    E.shape_is("y for every mesh point", y, (n, m))
    E.shape_is("z for every mesh point", z, (n, m))
    E.gt("mesh is not empty", E.size(x, 0) * E.size(x, 1), 0)
    return n, m, lambda i, j: [E.at(x, i, j), E.at(y, i, j), E.at(z, i, j)]


def every(E, n, m, fn):
    E.forall(n, lambda i: E.forall(m, lambda j: fn(i, j)))


def resolution(E):
    return E.real("resolution", pos=True)


@contract("C25", "rect", cases=80)
def rect(E):
    w, h, res = E.real("width", pos=True), E.real("height", pos=True), resolution(E)
    gm = E.mod("tracer.flat_surface").RectPlateGM(w, h)
    n, m, at = points(E, gm.mesh(res))
    w, h, res = E.s(w), E.s(h), E.s(res)

    def inside(i, j):
        p = at(i, j)
        E.eq("on the plane", p[2], 0)
        for k, s in ((0, w), (1, h)):
            E.le("inside the plate", p[k], s / 2)
            E.ge("inside the plate", p[k], -s / 2)
    every(E, n, m, inside)
    for i, j, sx, sy in ((0, 0, -1, -1), (-1, 0, 1, -1), (0, -1, -1, 1), (-1, -1, 1, 1)):
        p = at(i, j)
        E.eq("edge to edge in x", p[0], sx * w / 2)
        E.eq("edge to edge in y", p[1], sy * h / 2)


@contract("C25", "rect_degenerate", cases=20, conc_only=True)
def rect_degenerate(E):
    """The coarsest meshes still reach all corners."""
    w, h = E.real("width", pos=True), E.real("height", pos=True)
    gm = E.mod("tracer.flat_surface").RectPlateGM(w, h)
    x, y, z = gm.mesh(1e-3 / max(w, h))
    E.true("just the corners", x.shape == (2, 2))
    E.eq("full width", E.at(x, 1, 0) - E.at(x, 0, 0), w)
    E.eq("full height", E.at(y, 0, 1) - E.at(y, 0, 0), h)


@contract("C25", "round", cases=60)
def round_(E):
    R, res = E.real("R", pos=True), resolution(E)
    gm = E.mod("tracer.flat_surface").RoundPlateGM(R)
    n, m, at = points(E, gm.mesh(res))
    R, res = E.s(R), E.s(res)

    def inside(i, j):
        p = at(i, j)
        E.eq("on the plane", p[2], 0)
        E.le("within a step of the plate", p[0] * p[0] + p[1] * p[1], (R + 1 / res) * (R + 1 / res))
    every(E, n, m, inside)
    rim(E, n, m, at, R, res)


def rim(E, n, m, at, R, res):
    """The outermost points are at the rim, up to a step."""
    def reach(j):
        p = at(-1, j)
        if R * res > 1:
            E.ge("reaches the rim up to a step", p[0] * p[0] + p[1] * p[1], (R - 1 / res) * (R - 1 / res))
    E.forall(m, reach)


@contract("C25", "dish", cases=60)
def dish(E):
    D, f, res = E.real("D", pos=True), E.real("f", pos=True), resolution(E)
    gm = E.mod("tracer.paraboloid").ParabolicDishGM(D, f)
    n, m, at = points(E, gm.mesh(res))
    D, f, res = E.s(D), E.s(f), E.s(res)

    def on(i, j):
        p = at(i, j)
        E.eq("on the paraboloid", p[2] * 4 * f, p[0] * p[0] + p[1] * p[1])
        E.le("within a step of the dish", p[0] * p[0] + p[1] * p[1], (D / 2 + 1 / res) * (D / 2 + 1 / res))
    every(E, n, m, on)
    rim(E, n, m, at, D / 2, res)


@contract("C25", "sphere", cases=40)
def sphere(E):
    R, res = E.real("R", pos=True), resolution(E)
    gm = E.mod("tracer.sphere_surface").SphericalGM(R)
    n, m, at = points(E, gm.mesh(res))
    R = E.s(R)

    def on(i, j):
        p = at(i, j)
        E.eq("on the sphere", p[0] * p[0] + p[1] * p[1] + p[2] * p[2], R * R)
    every(E, n, m, on)


@contract("C25", "hemisphere", cases=40)
def hemisphere(E):
    R, res = E.real("R", pos=True), resolution(E)
    gm = E.mod("tracer.sphere_surface").HemisphereGM(R)
    n, m, at = points(E, gm.mesh(res))
    R, res = E.s(R), E.s(res)

    def on(i, j):
        p = at(i, j)
        E.eq("on the sphere", p[0] * p[0] + p[1] * p[1] + p[2] * p[2], R * R)
        E.trig_signs(p[2])
        E.le("in the lower half up to a step", p[2], 1 / res)
    every(E, n, m, on)


@contract("C25", "cylinder", cases=60)
def cylinder(E):
    D, h, res = E.real("D", pos=True), E.real("height", pos=True), resolution(E)
    gm = E.mod("tracer.cylinder").FiniteCylinder(D, h)
    n, m, at = points(E, gm.mesh(res))
    D, h, res = E.s(D), E.s(h), E.s(res)

    def on(i, j):
        p = at(i, j)
        E.eq("on the cylinder", p[0] * p[0] + p[1] * p[1], D * D / 4)
        E.le("within a step of the height", p[2], h / 2 + 1 / res)
        E.ge("within a step of the height", p[2], -h / 2 - 1 / res)
    every(E, n, m, on)

    def ends(j):
        E.eq("starts at the lower end", at(0, j)[2], -h / 2)
        E.ge("reaches the upper end up to a step", at(-1, j)[2], h / 2 - 1 / res)
    E.forall(m, ends)


@contract("C21", "mesh", cases=60)
@contract("C25", "triangle", cases=60)
def triangle(E):
    """Mesh points of a triangular face are combinations of its corners with weights in [0, 1] adding up to 1."""
    tf = E.mod("tracer.triangular_face")
    u, w = [E.real("u0"), E.real("u1")], [E.real("w0"), E.real("w1")]
    us, ws = [E.s(k) for k in u], [E.s(k) for k in w]
    det = us[0] * ws[1] - us[1] * ws[0]
    E.assume(det != 0)
    gm = tf.TriangularFace(E.np.array([[u[0], w[0]], [u[1], w[1]], [0., 0.]]))
    r = E.count("resolution", min=2)
    n, m, at = points(E, gm.mesh(E.length(r)))
    E.same_axis("as many points along an edge as requested", n, r)
    E.same_axis("as many points between the edges as requested", m, r)

    def inside(i, j):
        p = at(i, j)
        E.eq("on the plane", p[2], 0)
        a = (p[0] * ws[1] - p[1] * ws[0]) / det
        b = (us[0] * p[1] - us[1] * p[0]) / det
        E.ge("inside the triangle", a, 0)
        E.ge("inside the triangle", b, 0)
        E.le("inside the triangle", a + b, 1)
    every(E, n, m, inside)
    E.raises("too coarse a mesh is refused", ValueError, lambda: gm.mesh(1))


def _cover(kind):
    @contract("C25", "cover_" + kind, cases=25, conc_only=True, bound="random points of random surfaces")
    def cover(E):
        """No point of the surface is further than two mesh steps from the mesh (measured across the axis for a dish)."""
        import numpy as np
        fs, ss = E.mod("tracer.flat_surface"), E.mod("tracer.sphere_surface")
        a, b = E.real("a", lo=0.3, hi=3), E.real("b", lo=0.3, hi=3)
        res = E.real("res", lo=0.4, hi=6)
        u, v = [np.array([E.real("%s%d" % (q, k), lo=0, hi=1) for k in range(12)]) for q in "uv"]
        ang, pi = 2 * math.pi * u, math.pi
        if kind == "rect":
            gm, P = fs.RectPlateGM(a, b), [a * (u - .5), b * (v - .5), 0 * u]
        elif kind == "round":
            gm, P = fs.RoundPlateGM(a), [a * v * np.cos(ang), a * v * np.sin(ang), 0 * u]
        elif kind == "dish":
            gm = E.mod("tracer.paraboloid").ParabolicDishGM(2 * a, b)
            P = [a * v * np.cos(ang), a * v * np.sin(ang), 0 * u]
        elif kind == "cylinder":
            gm, P = E.mod("tracer.cylinder").FiniteCylinder(2 * a, b), [a * np.cos(ang), a * np.sin(ang), b * (v - .5)]
        else:
            gm = (ss.SphericalGM if kind == "sphere" else ss.HemisphereGM)(a)
            th = (pi * v) if kind == "sphere" else pi / 2 * (1 + v)
            P = [a * np.sin(th) * np.cos(ang), a * np.sin(th) * np.sin(ang), a * np.cos(th)]
        M = [np.ravel(c) for c in gm.mesh(res)]
        if kind == "dish":
            M[2] = 0 * M[2]
        d = np.sqrt(sum((p[:, None] - m[None, :])**2 for p, m in zip(P, M))).min(axis=1)
        for k in range(12):
            E.le("a mesh point within two steps", E.s(float(d[k])), 2. / res)


for _k in ("rect", "round", "dish", "cylinder", "sphere", "hemisphere"):
    _cover(_k)
