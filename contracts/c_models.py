"""C20 heliostat fields, C21 triangulated surfaces, C22 concentrator parts, C23 lenses, C25 meshes."""
from contracts.base import (contract, dot3, col, row, vec, cross3, add3, sub3, scale3, mat, matvec, matmul, prove_vec_eq,
                            prove_mat_eq)
from contracts.c_frames import apply4


def frame_of(E, surface):
    """The frame a surface works in, as seen by its geometry."""
    got = []
    gm = surface.get_geometry_manager()

    def spy(frame, ray_bundle=None, *rest, **kw):
        got.append(frame)
        return E.np.array([E.np.inf])
    gm.find_intersections = spy
    rb = E.mod("tracer.ray_bundle")
    b = rb.RayBundle(vertices=E.np.array([[0.], [0.], [5.]]), directions=E.np.array([[0.], [0.], [1.]]))
    try:
        surface.register_incoming(b)
    finally:
        del gm.find_intersections
    return mat(E, got[0], 4)


def column(M, j):
    return [M[i][j] for i in range(3)]


def is_rigid(E, name, M):
    x, y, z = [column(M, j) for j in range(3)]
    for a, b, v in ((x, x, 1), (y, y, 1), (z, z, 1), (x, y, 0), (x, z, 0), (y, z, 0)):
        E.eq(name + ": rotation is orthonormal", dot3(a, b), v)
    E.eq(name + ": rotation is proper", dot3(cross3(x, y), z), 1)
    prove_vec_eq(E, name + ": last row", M[3], [0, 0, 0, 1])


# ------------------------------------------------------------------------------------ C20

@contract("C20", "solar_vector")
def solar(E):
    hf = E.mod("tracer.models.heliostat_field")
    az, el = E.real("azimuth"), E.angle("elevation", obtuse=True)
    s = hf.solar_vector(az, el)
    E.shape_is("3 components", s, (3,))
    prove_vec_eq(E, "sun direction", vec(E, s), [-E.sin(az) * E.sin(el), -E.cos(az) * E.sin(el), E.cos(el)])


def _field(name, count, **kw):
    @contract("C20", name, **kw)
    def field(E):
        hf = E.mod("tracer.models.heliostat_field")
        w, h = E.real("width", pos=True), E.real("height", pos=True)
        a = E.real("absorptivity", lo=0, hi=1)
        aim = E.real("aim")
        # every position other than the target's is so far away in some direction
        k = count(E)
        t = E.unit("towards", k)
        q = E.array("distance", (k,), pos=True)
        what = E.choice("history", ["aim", "change height, aim", "aim twice"])
        old_aim = E.real("aim0") if what == "change height, aim" else aim
        pos = E.arr(lambda i, c: (E.s(aim) if c == 2 else E.s(0)) - E.at(q, i) * E.at(t, c, i), (k, 3))
        old = pos.copy()
        f = hf.HeliostatField(pos, w, h, a, old_aim)
        E.eq("one heliostat per position", E.list_len(f.get_heliostats()), E.length(k))
        E.eq("as many objects in the field", E.list_len(f.get_objects()), E.length(k))

        def before(i):
            one = E.item(f.get_heliostats(), i)
            E.true("the heliostats are the field's objects", E.item(f.get_objects(), i) is one)
            E.true("one mirror per heliostat", len(one.get_surfaces()) == 1)
            M = frame_of(E, E.probe(f.get_heliostats(), i).get_surfaces()[0])
            prove_vec_eq(E, "stands at its position before aiming", column(M, 3), row(E, old, i))
            prove_vec_eq(E, "faces down before aiming", column(M, 2), [0, 0, -1])
            is_rigid(E, "before aiming", M)
        E.forall(k, before)
        if what == "change height, aim":
            f.set_aim_height(aim)
        for turn in range(2 if what == "aim twice" else 1):
            az, el = E.real("azimuth%d" % turn), E.angle("elevation%d" % turn, obtuse=True)
            s = [-E.sin(az) * E.sin(el), -E.cos(az) * E.sin(el), E.cos(el)]
            # sun not exactly opposite the target
            E.assume_all(k, lambda i, s=s: 1 + dot3(s, col(E, t, i)) > 0)
            f.aim_to_sun(az, el)

        def after(i):
            one = E.item(f.get_heliostats(), i)
            E.true("still the field's objects", E.item(f.get_objects(), i) is one)
            M = frame_of(E, E.probe(f.get_heliostats(), i).get_surfaces()[0])
            prove_vec_eq(E, "stands at its position", column(M, 3), row(E, old, i))
            is_rigid(E, "aimed", M)
            n = column(M, 2)
            # the normal is along the bisector of the directions to the sun and to the target, hence (reflection law, C09)
            # sunlight is reflected to the target
            g = add3(s, col(E, t, i))
            E.eq("normal is a unit vector", dot3(n, n), 1)
            prove_vec_eq(E, "normal is parallel to the bisector of sun and target", cross3(n, g), [0, 0, 0])
            E.gt("the reflective side faces the sun and the target", dot3(n, g), 0)
            prove_vec_eq(E, "positions given are not modified", row(E, pos, i), row(E, old, i))
        E.forall(k, after)


_field("field", lambda E: E.count("heliostats"), cases=100, cost=3)
for _k in range(3):
    _field("field_%d" % _k, lambda E, k=_k: k, bound="%d heliostats" % _k, cases=20, cost=4)


@contract("C20", "radial_stagger")
def radial_stagger(E):
    hf = E.mod("tracer.models.heliostat_field")
    few = {} if E.sym else {"hi": 6}          # keep concrete fields small
    a0, a1 = E.real("start"), E.real("end")
    da, dr = E.real("az_space", lo=0.3), E.real("r_space", lo=0.3)
    r0, r1 = E.real("rmin", pos=True, **few), E.real("rmax", pos=True, **few)
    E.assume(E.s(a0) < E.s(a1))
    E.assume(E.s(r0) < E.s(r1))
    p = hf.radial_stagger(a0, a1, da, r0, r1, dr)
    E.true("a row of x and y per heliostat", E.ndim(p) == 2)
    E.eq("two coordinates", E.size(p, 1), 2)
    a0, a1, da, r0, r1, dr = [E.s(v) for v in (a0, a1, da, r0, r1, dr)]

    def one(i):
        x, y = E.at(p, i, 0), E.at(p, i, 1)
        if E.sym:
            vs = E.int_vars(x, y)
            cands = [(u, v, q) for u in vs for v in vs for q in (0, 1)]
        else:
            import math
            R, S, A, D = r0.v, dr.v, a0.v, da.v / 2
            j = int(round((math.hypot(x.v, y.v) - R) / S))
            ang = math.atan2(y.v, x.v)
            cands = []
            for w in range(-3, 4):
                m = int(round((ang + 2 * math.pi * w - A) / D))
                cands.append(((j - j % 2) // 2, (m - j % 2) // 2, j % 2))

        def pred(u, v, q):
            # row 2u+q, place 2v+q within it
            r, th = r0 + (2 * u + q) * dr, a0 + (2 * v + q) * da / 2
            return [("eq", x, r * E.cos(th)), ("eq", y, r * E.sin(th)), ("ge", u, 0), ("ge", v, 0), ("lt", r, r1), ("lt", th, a1)]
        E.exists("stands on a grid point within the boundaries, alternating", cands, pred)
    E.forall(E.axis(p, 0), one)
    # as many as the grid has places: every other place of every row
    nr, na = E.ceil((r1 - r0) / dr), E.ceil((a1 - a0) / (da / 2))
    E.eq("every place of the staggered grid is taken", E.size(p, 0), E.ceil(nr / 2) * E.ceil(na / 2) +
                E.ceil((nr - 1) / 2) * E.ceil((na - 1) / 2))


# ------------------------------------------------------------------------------------ C22

@contract("C22", "one_sided_mirror")
def one_sided_mirror(E):
    om = E.mod("tracer.models.one_sided_mirror")
    w, h = E.real("width", pos=True), E.real("height", pos=True)
    a = E.real("absorptivity", lo=0, hi=1)
    obj = om.rect_one_sided_mirror(w, h, a)
    E.true("one surface", len(obj.get_surfaces()) == 1)
    _plate(E, obj.get_surfaces()[0], w, h)
    _never_again(E, obj, 1)
    _one_sided_optics(E, obj.get_surfaces()[0], a)


def _plate(E, surface, w, h):
    """A w by h rectangle around the surface's origin."""
    rb = E.mod("tracer.ray_bundle")
    n = E.count("np")
    v = E.vector("pv", n)
    vv = E.arr(lambda k, i: E.at(v, k, i) if k < 2 else E.s(1), (3, n))
    d = E.arr(lambda k, i: E.s(0) if k < 2 else E.s(-1), (3, n))
    gm = surface.get_geometry_manager()
    prm = gm.find_intersections(E.np.eye(4), rb.RayBundle(vertices=vv, directions=d))

    def ray(i):
        ins = E.abs(E.at(v, 0, i)) <= E.s(w) / 2 and E.abs(E.at(v, 1, i)) <= E.s(h) / 2
        E.true("has the given extents", E.finite(E.at(prm, i)) == ins)
    E.forall(n, ray)
    gm.done()


def _never_again(E, obj, ns):
    n = E.count("nr")
    rb = E.mod("tracer.ray_bundle")
    b = rb.RayBundle(vertices=E.vector("rv", n), directions=E.unit("rd", n), energy=E.array("re", (n,)))
    for k in range(ns):
        rel = obj.surfaces_for_next_iteration(b, k)
        E.shape_is("relevance per surface and ray", rel, (ns, n))
        E.forall(n, lambda i: [E.true("not tested against the same object next", not E.bool_at(rel, q, i)) for q in range(ns)])
        own = obj.own_rays(b, k)
        E.shape_is("ownership per ray", own, (n,))
        E.forall(n, lambda i: E.true("owns no rays", not E.bool_at(own, i)))


def _one_sided_optics(E, surface, a):
    """A ray from above keeps 1-a of its energy, one from below nothing."""
    rb = E.mod("tracer.ray_bundle")
    n = E.count("no")
    d = E.unit("od", n)
    b = rb.RayBundle(vertices=E.vector("ov", n), directions=d, energy=E.array("oe", (n,)))
    e0 = b.get_energy().copy()
    sel = E.np.arange(E.length(n))
    geo = Up(E, d, n)
    out = surface.get_optics_manager()(geo, b, sel)

    def ray(i):
        e = E.at(out.get_energy(), i)
        if E.at(d, 2, i) > 0:
            E.eq("opaque from below", e, 0)
        else:
            E.eq("reflects with the given efficiency", e, (1 - E.s(a)) * E.at(e0, i))
    E.forall(n, ray)


class Up(object):
    def __init__(self, E, d, n):
        self.N = E.arr(lambda k, i: E.s(1) if k == 2 else E.s(0), (3, n))
        self.p = E.array("opts", (3, n))
        self.u = E.np.array([0., 0., 1.])

    def get_intersection_points_global(self): return self.p
    def get_normals(self): return self.N
    def up(self): return self.u


@contract("C22", "one_sided_receiver")
def one_sided_rec(E):
    om = E.mod("tracer.models.one_sided_mirror")
    w, h = E.real("width", pos=True), E.real("height", pos=True)
    a = E.real("absorptivity", lo=0, hi=1)
    front, obj = om.one_sided_receiver(w, h, a)
    ss = obj.get_surfaces()
    E.true("front and back", len(ss) == 2 and ss[0] is front)
    F, B = frame_of(E, ss[0]), frame_of(E, ss[1])
    I = mat(E, E.np.eye(4), 4)
    prove_mat_eq(E, "front at the origin", F, I)
    prove_vec_eq(E, "back parallel to the front", column(B, 2), [0, 0, 1])
    prove_vec_eq(E, "back behind the front", column(B, 3)[:2], [0, 0])
    E.lt("back below the front", B[2][3], 0)
    E.ge("back close to the front", B[2][3], -1e-6)
    for s in ss:
        E.case(lambda: _plate(E, s, w, h))
    _never_again(E, obj, 2)
    # the front keeps account of what it absorbs, the back absorbs everything
    rb = E.mod("tracer.ray_bundle")
    n = E.count("no")
    d = E.unit("od", n)
    b = rb.RayBundle(vertices=E.vector("ov", n), directions=d, energy=E.array("oe", (n,)))
    geo = Up(E, d, n)
    sel = E.np.arange(E.length(n))
    out = ss[0].get_optics_manager()(geo, b, sel)
    en, hits = front.get_optics_manager().get_all_hits()
    back = ss[1].get_optics_manager()(geo, b, sel)

    def ray(i):
        E.eq("absorbs the given share", E.at(en, i), E.s(a) * E.at(b.get_energy(), i))
        E.eq("reflects the rest", E.at(out.get_energy(), i), (1 - E.s(a)) * E.at(b.get_energy(), i))
        E.eq("opaque back", E.at(back.get_energy(), i), 0)
    E.forall(n, ray)


def check_homogenizer(E, asm, X, Y, H, eff, base, label=""):
    """Walls of a homogenizer in the frame `base` (spec matrix): inward normals, positions, extents."""
    objs = asm.get_objects()
    E.true(label + "four walls", len(objs) == 4)
    seen = []
    for o in objs:
        E.true(label + "one surface per wall", len(o.get_surfaces()) == 1)
        M = frame_of(E, o.get_surfaces()[0])
        is_rigid(E, label + "wall", M)
        seen.append((o, M))
    sides = [([1, 0, 0], X), ([-1, 0, 0], X), ([0, 1, 0], Y), ([0, -1, 0], Y)]

    def to(v):
        return [base[i][0] * v[0] + base[i][1] * v[1] + base[i][2] * v[2] for i in range(3)]
    for (o, M), (out, width) in zip(seen, sides):
        prove_vec_eq(E, label + "reflective side faces inward", column(M, 2), to([-x for x in out]))
        mid = [x * E.s(width) / 2 if x else 0 for x in out]
        mid[2] = E.s(H) / 2
        prove_vec_eq(E, label + "stands on the edge of the aperture", column(M, 3), apply4(E, base, mid))
        # extents: along the aperture edge and along the height
        edge = [abs(out[1]), abs(out[0]), 0]
        ext = Y if out[0] else X
        gm = o.get_surfaces()[0].get_geometry_manager()
        # local x or y axis along the height
        lx, ly = column(M, 0), column(M, 1)
        z = to([0, 0, 1])
        along = dot3(lx, z)
        first = (along * along == 1)
        w, h = (H, ext) if first else (ext, H)
        if not first:
            a2 = dot3(ly, z)
            E.eq(label + "upright", a2 * a2, 1)
        E.case(lambda: _plate(E, o.get_surfaces()[0], w, h))
        E.case(lambda: _one_sided_optics(E, o.get_surfaces()[0], 1 - E.s(eff)))


@contract("C22", "homogenizer")
def homogenizer(E):
    hm = E.mod("tracer.models.homogenizer")
    X, Y, H = E.real("X", pos=True), E.real("Y", pos=True), E.real("H", pos=True)
    eff = E.real("eff", lo=0, hi=1)
    asm = hm.rect_homogenizer(X, Y, H, eff)
    check_homogenizer(E, asm, X, Y, H, eff, mat(E, E.np.eye(4), 4))


def facing(E, pos):
    """Frame at the given height on the axis, looking down."""
    return [[E.s(1), E.s(0), E.s(0), E.s(0)], [E.s(0), E.s(-1), E.s(0), E.s(0)], [E.s(0), E.s(0), E.s(-1), E.s(pos)],
            [E.s(0), E.s(0), E.s(0), E.s(1)]]


def _dish(kind):
    @contract("C22", kind, cost=2)
    def dish(E):
        if kind == "minidish":
            cls = E.mod("tracer.models.tau_minidish").MiniDish
        elif kind == "petal":
            cls = E.mod("tracer.models.PETAL_dish").PETAL
        else:
            cls = None
        pos, side, H = E.real("pos", pos=True), E.real("side", pos=True), E.real("H", pos=True)
        eff, deff = E.real("eff", lo=0, hi=1), E.real("deff", lo=0, hi=1)
        if cls:
            D, f = E.real("D", pos=True), E.real("f", pos=True)
            if E.choice("aspect", [False, True]):
                asp = E.real("asp", pos=True)
                m = cls(D, f, deff, pos, side, H, eff, asp)
                X, Y = side, E.scalar(E.s(side) * E.s(asp))
            else:
                m = cls(D, f, deff, pos, side, H, eff)
                X = Y = side
            E.eq("external diameter", E.s(m.get_external_dimensions()[0]), E.s(D))
            E.eq("external height", E.s(m.get_external_dimensions()[1]), E.s(pos))
        else:
            hl = E.mod("tracer.models.homogenized_local_receiver")
            refl = E.mod("tracer.surface").Surface(E.mod("tracer.flat_surface").FlatGeometryManager(),
                                                   E.mod("tracer.optics_callables").Reflective(1 - deff))
            if E.choice("square", [True, False]):
                m = hl.HomogenizedLocalReceiver(refl, pos, side, H, eff)
                X = Y = side
            else:
                Y = E.real("side2", pos=True)
                X = side
                m = hl.HomogenizedLocalReceiver(refl, pos, (X, Y), H, eff)
            E.true("the given reflector", m.get_main_reflector() is refl)
        base = facing(E, pos)
        rec = m.get_receiver_surf()
        prove_mat_eq(E, "receiver on the axis facing the reflector", frame_of(E, rec), base)
        E.case(lambda: _plate(E, rec, X, Y))
        prove_mat_eq(E, "reflector at the origin", frame_of(E, m.get_main_reflector()), mat(E, E.np.eye(4), 4))
        ss = m.get_surfaces()
        E.true("all parts belong to the assembly", len(ss) == 7 and any(s is rec for s in ss) and
               any(s is m.get_main_reflector() for s in ss))
        E.case(lambda: check_homogenizer(E, m.get_homogenizer(), X, Y, H, eff, base, "in place: "))
        if cls:
            E.case(lambda: _dish_geometry(E, m.get_main_reflector(), D, f, kind))
            E.case(lambda: _efficiency(E, m.get_main_reflector(), deff))
        # moving the assembly moves all of it
        F = E.rigid("moved")[0]
        m.set_transform(F)
        prove_mat_eq(E, "receiver moves along", frame_of(E, rec), matmul(mat(E, F, 4), base))
        prove_mat_eq(E, "reflector moves along", frame_of(E, m.get_main_reflector()), mat(E, F, 4))


def _dish_geometry(E, surface, D, f, kind):
    """A ray down the axis hits the dish where it should."""
    rb = E.mod("tracer.ray_bundle")
    x = E.real("dx")
    y = E.real("dy")
    rr = E.s(x) * E.s(x) + E.s(y) * E.s(y)
    v = E.arr(lambda k, i: E.s(x) if k == 0 else (E.s(y) if k == 1 else rr / (4 * E.s(f)) + 1), (3, 1))
    d = E.np.array([[0.], [0.], [-1.]])
    prm = surface.get_geometry_manager().find_intersections(E.np.eye(4), rb.RayBundle(vertices=v, directions=d))
    t = E.at(prm, 0)
    if kind == "minidish":
        E.true("dish has the given diameter", E.finite(t) == (4 * rr <= E.s(D) * E.s(D)))
    elif 4 * rr > E.s(D) * E.s(D):
        E.true("nothing outside the circle", not E.finite(t))
    if E.finite(t):
        E.eq("dish has the given focal length", t, 1)


def _efficiency(E, surface, eff):
    rb = E.mod("tracer.ray_bundle")
    n = E.count("ne")
    d = E.unit("ed", n)
    b = rb.RayBundle(vertices=E.vector("ev", n), directions=d, energy=E.array("ee", (n,)))
    out = surface.get_optics_manager()(Up(E, d, n), b, E.np.arange(E.length(n)))
    E.forall(n, lambda i: E.eq("given optical efficiency", E.at(out.get_energy(), i), E.s(eff) * E.at(b.get_energy(), i)))


for _k in ("minidish", "petal", "receiver"):
    _dish(_k)


@contract("C22", "standard_measures")
def standard_measures(E):
    """Sizing rules: 45 degree rim angle, concentration as ratio of areas, homogenizer length for the virtual sources."""
    tm = E.mod("tracer.models.tau_minidish")
    D, C = E.real("D", pos=True), E.real("C", pos=True)
    vs = E.real("vs", nonneg=True)
    W0 = E.s(D) / 2 * E.sqrt(E.pi / E.s(C))
    E.assume(E.s(D) != (E.s(vs) + 1) * W0)
    f, W, H = [E.s(x) for x in tm.standard_minidish_measures(D, C, vs)]
    D, C, vs = E.s(D), E.s(C), E.s(vs)
    # rim at 45 degrees from the focus: r = D/2 equals f - z_rim
    E.eq("rim angle of 45 degrees", f - D * D / (16 * f), D / 2)
    E.gt("focal length is positive", f, 0)
    E.eq("receiver area times concentration is the dish aperture", W * W * C, E.pi * D * D / 4)
    E.ge("width is positive", W, 0)
    n = vs + 1
    E.eq("images fit the rim angle", H * (D - n * W), n * W * f)


@contract("C22", "standard_minidish")
def standard_minidish(E):
    tm = E.mod("tracer.models.tau_minidish")
    D, C = E.real("D", pos=True), E.real("C", pos=True)
    vs = E.real("vs", nonneg=True)
    E.assume(E.s(D) > (E.s(vs) + 1) * E.s(D) / 2 * E.sqrt(E.pi / E.s(C)))
    f0, W0, H0 = tm.standard_minidish_measures(D, C, vs)
    E.assume(E.s(H0) > 0)
    deff, heff = E.real("deff", lo=0, hi=1), E.real("heff", lo=0, hi=1)
    m, f, W, H = tm.standard_minidish(D, C, vs, deff, heff)
    for a, b, nm in ((f, f0, "focal length"), (W, W0, "width"), (H, H0, "depth")):
        E.eq("reported " + nm, E.s(a), E.s(b))
    base = facing(E, E.s(f0) + E.s(H0))
    prove_mat_eq(E, "receiver beyond the focus by the homogenizer depth", frame_of(E, m.get_receiver_surf()), base)
    E.case(lambda: _plate(E, m.get_receiver_surf(), W0, W0))
    E.case(lambda: _dish_geometry(E, m.get_main_reflector(), D, f0, "minidish"))
    E.case(lambda: _efficiency(E, m.get_main_reflector(), deff))
    objs = m.get_homogenizer().get_objects()
    E.case(lambda: _one_sided_optics(E, objs[0].get_surfaces()[0], 1 - E.s(heff)))


def _histogram(k, bins):
    @contract("C22", "histogram_%d_%d" % (k, bins), bound="%d hits, %d bins" % (k, bins), cases=40)
    def histogram(E):
        """Every bin holds the energy of the hits inside it, wherever the receiver is; all of it is there."""
        hl = E.mod("tracer.models.homogenized_local_receiver")
        fl, oc, rb = E.mod("tracer.flat_surface"), E.mod("tracer.optics_callables"), E.mod("tracer.ray_bundle")
        refl = E.mod("tracer.surface").Surface(fl.FlatGeometryManager(), oc.Reflective(0.))
        X, Y = E.real("X", pos=True), E.real("Y", pos=True)
        pos = E.real("pos", pos=True)
        m = hl.HomogenizedLocalReceiver(refl, pos, (X, Y), 1., 1.)
        F = E.rigid("frame")[0]
        m.set_transform(F)
        M = matmul(mat(E, F, 4), facing(E, pos))
        # hits at given places of the receiver, given as fractions of its sides
        u, v = E.array("u", (k,), lo=-0.5, hi=0.5), E.array("v", (k,), lo=-0.5, hi=0.5)
        en = E.array("energy", (k,), nonneg=True)
        pts = [apply4(E, M, [E.at(u, i) * E.s(X), E.at(v, i) * E.s(Y), E.s(0)]) for i in range(k)]
        P = E.arr(lambda c, i: pts[i][c], (3, k))
        down = [-x for x in column(M, 2)]
        b = rb.RayBundle(vertices=P.copy(), directions=E.arr(lambda c, i: down[c], (3, k)), energy=en)

        class Hits(object):
            def get_intersection_points_global(self):
                return P

            def get_normals(self):
                return E.arr(lambda c, i: -down[c], (3, k))

            def up(self):
                return E.arr(lambda c: -down[c], (3,))
        m.get_receiver_surf().get_optics_manager()(Hits(), b, E.np.arange(k))
        H, xe, ye = m.histogram_hits(bins)
        E.shape_is("a bin for each pair of intervals", H, (bins, bins))
        for e, w in ((xe, X), (ye, Y)):
            E.shape_is("edges of all bins", e, (bins + 1,))
            for i in range(bins + 1):
                E.eq("equal bins from edge to edge", E.at(e, i), E.s(w) * (E.s(i) / bins - E.s(1) / 2))
        want = [[E.s(0)] * bins for _ in range(bins)]
        total = E.s(0)
        for i in range(k):
            bx, by = [_bin(E, E.at(q, i) + E.s(1) / 2, bins) for q in (u, v)]
            want[bx][by] = want[bx][by] + E.at(en, i)
            total = total + E.at(en, i)
        for x in range(bins):
            for y in range(bins):
                E.eq("energy absorbed in a bin", E.at(H, x, y), want[x][y])
        got = E.s(0)
        for x in range(bins):
            for y in range(bins):
                got = got + E.at(H, x, y)
        E.eq("all the energy absorbed", got, total)


def _bin(E, x, bins):
    E.off(x, 0)         # rounding may put hits on the very edge outside
    E.off(x, 1)
    for i in range(bins - 1):
        if x * bins < i + 1:
            return i
    return bins - 1


_histogram(0, 2)
_histogram(1, 3)
_histogram(2, 2)


# ------------------------------------------------------------------------------------ C21

def _triangles(m, states=None):
    """m faces.  Every triple of points is p, p + a q0, p + b q0 + c q1 with a rotation q and a, c >= 0."""
    @contract("C21", "faces_%d" % m, bound="%d faces%s" % (m, "" if m < 2 else ", facing along x"), cases=120, cost=3)
    def faces(E):
        ts = E.mod("tracer.models.triangulated_surface")
        oc = E.mod("tracer.optics_callables")
        perms = [(0, 1, 2), (2, 0, 1), (1, 0, 2)]
        tri, verts, index = [], [], []
        for k in range(m):
            p, q = vec(E, E.vector("p%d" % k)), E.rotation("q%d" % k)
            a, b, c = E.real("a%d" % k, nonneg=True), E.real("b%d" % k), E.real("c%d" % k, nonneg=True)
            kind = E.choice("kind%d" % k, ["proper", "collinear", "first pair coincides", "second pair coincides"])
            a, b, c = E.s(a), E.s(b), E.s(c)
            zero = E.s(0)
            if kind == "collinear":
                c = zero
                E.assume(a > 1e-8 and E.abs(b) > 1e-8)
            elif kind == "first pair coincides":
                a = zero
            elif kind == "second pair coincides":
                b = c = zero
                E.assume(a > 1e-8)
            else:
                E.assume(a > 1e-6 and c > 1e-6 and b * b <= 1e6 * c * c)
                # the greatest component of the normal is above 1/2
                j, sgn = E.choice("largest%d" % k, [(0, 1), (0, -1), (1, 1), (1, -1), (2, 1), (2, -1)]) if m == 1 else (0, 1)
                E.assume(2 * sgn * E.at(q, j, 2) >= 1)
            x, y = [E.at(q, i, 0) for i in range(3)], [E.at(q, i, 1) for i in range(3)]
            t = [p, add3(p, scale3(a, x)), add3(p, add3(scale3(b, x), scale3(c, y)))]
            tri.append((kind == "proper", t))
            perm = E.choice("order%d" % k, perms) if m == 1 else perms[(k + 1) % 3]
            base = len(verts)
            rows = [None] * 3
            for i, j in enumerate(perm):
                rows[j] = t[i]
            verts += rows
            index.append([base + j for j in perm])
        V = E.arr(lambda i, j: verts[i][j], (3 * m, 3))
        F = E.np.array(index)
        if not m:
            F = E.np.zeros((0, 3), dtype=int)
        fr = [E.freeze(V), E.freeze(F)]
        mirror = oc.Reflective(E.real("absorptivity", lo=0, hi=1))
        T = E.matrix4("transform")
        obj = ts.TriangulatedSurface(V, F, mirror, T)
        for f in fr:
            E.unchanged("arguments not modified", f)
        prove_mat_eq(E, "placed as given", mat(E, obj.get_transform(), 4), mat(E, T, 4))
        s = obj.get_surfaces()
        want = [t for ok, t in tri if ok]
        E.true("one face per non-degenerate triangle", len(s) == len(want))
        for f, t in zip(s, want):
            E.true("the given optics", f.get_optics_manager() is mirror)
            L = mat(E, f.get_transform(), 4)
            is_rigid(E, "face", L)
            prove_vec_eq(E, "origin is the first vertex", column(L, 3), t[0])
            e = [sub3(t[1], t[0]), sub3(t[2], t[0])]
            for w in e:
                E.eq("plane contains the others", dot3(column(L, 2), w), 0)
            # the corners, in local coordinates
            M = f.get_geometry_manager().mesh(2)
            corner = lambda i, j: apply4(E, L, [E.at(M[k], i, j) for k in range(3)])
            for i in range(2):
                prove_vec_eq(E, "first corner", corner(i, 0), t[0])
            prove_vec_eq(E, "second corner", corner(1, 1), t[1])
            prove_vec_eq(E, "third corner", corner(0, 1), t[2])
            # the frame used in tracing
            W, G = frame_of(E, f), matmul(mat(E, T, 4), L)
            prove_mat_eq(E, "moves with the object", W, G)


for _k in range(3):
    _triangles(_k)


@contract("C21", "shared_vertices", conc_only=True, cases=150, bound="up to 6 sampled vertices, 6 faces, 8 rays")
def shared_vertices(E):
    """Faces sharing vertices, in any order: each answers rays as the triangle of its vertices."""
    ts, oc, rb = E.mod("tracer.models.triangulated_surface"), E.mod("tracer.optics_callables"), E.mod("tracer.ray_bundle")
    r, np = E.rng, E.np
    nv = r.randint(3, 6)
    V = np.array([[r.choice([0., 1., -1., 0.5, r.gauss(0, 1)]) for _ in range(3)] for _ in range(nv)])
    F = np.array([[r.randrange(nv) for _ in range(3)] for _ in range(r.randint(1, 6))])
    E.note(V=V.tolist(), F=F.tolist())
    obj = ts.TriangulatedSurface(V, F, oc.perfect_mirror)
    tri = []
    for f in F:
        a, b, c = V[f]
        if max(abs(np.cross(b - a, c - a))) > 1e-4:
            tri.append((a, b, c))
        elif max(abs(np.cross(b - a, c - a))) > 1e-12:
            E.skip()
    s = obj.get_surfaces()
    E.true("one face per non-degenerate triangle", len(s) == len(tri))
    n = 8
    o = np.array([[r.gauss(0, 2) for _ in range(n)] for _ in range(3)])
    for f, (a, b, c) in zip(s, tri):
        nrm = np.cross(b - a, c - a)
        want, clear = [], []
        d = np.empty((3, n))
        for i in range(n):
            u, w = r.uniform(-0.3, 1.2), r.uniform(-0.3, 1.2)
            p = a + u * (b - a) + w * (c - a)
            d[:, i] = (p - o[:, i]) * r.choice([1, 1, 1, -1])
            t = 1. if np.allclose(o[:, i] + d[:, i], p) else -1.
            L = np.sqrt(np.dot(d[:, i], d[:, i]))
            d[:, i] /= L
            inside = u >= 0 and w >= 0 and u + w <= 1
            want.append(t * L if inside and t > 0 else np.inf)
            clear.append(min(abs(u), abs(w), abs(1 - u - w)) > 1e-6 and abs(np.dot(nrm, d[:, i])) > 1e-4 * np.sqrt(np.dot(nrm, nrm)))
        got = f.register_incoming(rb.RayBundle(vertices=o, directions=d))
        for i in range(n):
            if clear[i]:
                E.true("hit exactly inside the triangle", np.isinf(got[i]) == np.isinf(want[i]))
                if not np.isinf(want[i]):
                    E.eq("at the right distance", E.at(got, i), float(want[i]))


# ------------------------------------------------------------------------------------ C23

class Lens(object):
    """A lens with symbolic measures.  kinds: +1, -1 (sign of the radius) or 0 (planar, given as planar says)."""
    def __init__(self, E, kinds, transform=None, planar=(None,)):
        self.E = E
        D, depth, n = E.real("diameter", pos=True), E.real("depth", pos=True), E.real("index", pos=True)
        self.D, self.depth, self.n = E.s(D), E.s(depth), E.s(n)
        E.assume(self.n != 1)
        given = []
        self.curv, self.R, self.cut = [], [], []      # 1/R, R, distance of the cut plane from the centre
        for k, s in enumerate(kinds):
            if s == 0:
                given.append(E.choice("planar%d" % k, planar))
                self.curv.append(E.s(0))
                self.R.append(None)
                self.cut.append(None)
                continue
            m = E.real("R%d" % k, pos=True)
            # any radius of at least half the diameter is hypot(half the diameter, distance of the cut plane)
            E.assume(2 * E.s(m) >= self.D)
            given.append(s * m)
            self.R.append(s * E.s(m))
            self.curv.append(1 / self.R[k])
            self.cut.append(E.sqrt(E.s(m) * E.s(m) - self.D * self.D / 4))
        c1, c2 = self.curv
        power = (self.n - 1) * (c1 - c2 + self.depth * (self.n - 1) / self.n * c1 * c2)
        E.assume(power != 0)
        self.power = power
        self.obj = E.mod("tracer.models.spherical_lens").SphericalLens(D, depth, given[0], given[1], n, transform)
        # back vertex: where the second principal plane is at z = 0
        zb = self.depth * (self.n - 1) / self.n * c1 / power
        self.z = [zb + self.depth, zb]
        self.sgn = kinds

    def centre(self, k):
        """Height of the centre of curvature (or of the plate)."""
        return self.z[k] if self.R[k] is None else self.z[k] - self.R[k]

    def edge(self, k):
        """Height of the rim of front (0) or back (1)."""
        return self.z[k] if self.R[k] is None else self.centre(k) + self.sgn[k] * self.cut[k]


def names(kinds):
    return "_".join({1: "convex", -1: "concave", 0: "planar"}[k * (1 if i == 0 else -1)] for i, k in enumerate(kinds))


def shifted_rays(E, n, z):
    """Rays given relative to a point on the axis."""
    vl, d = E.vector("vl", n), E.unit("d", n)
    v = E.arr(lambda c, i: E.at(vl, c, i) + z if c == 2 else E.at(vl, c, i), (3, n))
    return vl, d, E.mod("tracer.ray_bundle").RayBundle(vertices=v, directions=d)


def positive_roots(E, a, b, c):
    """Positive t with a t^2 + 2 b t + c = 0, ascending."""
    disc = b * b - a * c
    if disc < 0:
        return []
    s = E.sqrt(disc)
    return [t for t in ((-b - s) / a, (-b + s) / a) if t > 0]


def _lens(kinds):
    nm = names(kinds)

    @contract("C23", nm, cases=80, cost=2)
    def measures(E):
        L = Lens(E, kinds, planar=[None, 0, E.np.inf, -E.np.inf])
        E.eq("lensmaker equation", E.s(L.obj.focal_length()) * L.power, 1)
        s = L.obj.get_surfaces()
        room = L.edge(0) - (L.edge(1) if L.R[1] is not None else E.s(0))
        E.true("rim present exactly when there is room", len(s) == (3 if room > 0 else 2))
        frames = [frame_of(E, x) for x in s]
        F, B = frames[:2]
        if len(s) == 3:
            E.eq("rim between the edges", 2 * frames[2][2][3], L.edge(0) + (L.edge(1) if L.R[1] is not None else E.s(0)))
        for M in frames:
            is_rigid(E, "placed", M)
            prove_vec_eq(E, "on the axis", [M[0][3], M[1][3]], [0, 0])
            E.eq("axis along Z", E.abs(M[2][2]), 1)
        E.eq("front vertex at the depth above the back principal plane's place" if L.R[0] is None else
             "centre of curvature of the front", F[2][3], L.centre(0))
        E.eq("planar back a depth behind the front" if L.R[1] is None else
             "centre of curvature of the back", B[2][3], L.centre(1))
        if L.R[1] is None:
            E.true("planar back nowhere else than at Z = 0", B[2][3] == 0 or B[2][3] == L.centre(1))
        for k in (0, 1):
            if L.R[k] is not None:
                E.eq("radius", E.s(s[k].get_geometry_manager().get_radius()), L.sgn[k] * L.R[k])
        for x in s:
            one = x.get_optics_manager().toggle_ref_idx(E.one(E.s(1)))
            other = x.get_optics_manager().toggle_ref_idx(E.one(L.n))
            E.eq("glass beyond air", E.at(one, 0), L.n)
            E.eq("air beyond glass", E.at(other, 0), 1)

    for k in (0, 1):
        def cap(E, k=k):
            L = Lens(E, kinds)
            n = E.count("rays")
            face = L.obj.get_surfaces()[k]
            vl, d, rays = shifted_rays(E, n, frame_of(E, face)[2][3])
            t = face.register_incoming(rays)
            E.shape_is("one answer per ray", t, (n,))

            def ray(i):
                v, u = col(E, vl, i), col(E, d, i)
                want = None
                if L.R[k] is None:
                    if E.abs(u[2]) > 1e-10:
                        q = -v[2] / u[2]
                        if q >= 0:
                            x, y = v[0] + q * u[0], v[1] + q * u[1]
                            if 4 * (x * x + y * y) <= L.D * L.D:
                                want = q
                else:
                    for q in positive_roots(E, 1, dot3(u, v), dot3(v, v) - L.R[k] * L.R[k]):
                        if L.sgn[k] * (v[2] + q * u[2]) >= L.cut[k]:
                            want = q
                            break
                got = E.at(t, i)
                if want is None:
                    E.true("missed outside the face", E.isinf(got))
                else:
                    E.eq("hit on the face", got, want)
            E.forall(n, ray)
        contract("C23", "%s_%s" % (nm, ("front", "back")[k]), cases=80, cost=3)(cap)

    def rim(E):
        L = Lens(E, kinds)
        low = L.edge(1) if L.R[1] is not None else E.s(0)
        top = L.edge(0)
        E.assume(top > low)
        s = L.obj.get_surfaces()
        n = E.count("rays")
        if len(s) < 3:
            return E.true("rim present", False)
        vl, d, rays = shifted_rays(E, n, frame_of(E, s[2])[2][3])
        t = s[2].register_incoming(rays)
        E.shape_is("one answer per ray", t, (n,))

        def ray(i):
            v, u = col(E, vl, i), col(E, d, i)
            a = u[0] * u[0] + u[1] * u[1]
            E.assume(a > 1e-10)
            want = None
            for q in positive_roots(E, a, u[0] * v[0] + u[1] * v[1], v[0] * v[0] + v[1] * v[1] - L.D * L.D / 4):
                if 2 * E.abs(v[2] + q * u[2]) <= top - low:
                    want = q
                    break
            got = E.at(t, i)
            if want is None:
                E.true("missed outside the rim", E.isinf(got))
            else:
                E.eq("hit on the rim", got, want)
        E.forall(n, ray)
    contract("C23", nm + "_rim", cases=80, cost=3)(rim)


for _k in ((1, -1), (1, 1), (-1, 1), (-1, -1), (0, 1), (0, -1), (1, 0), (-1, 0)):
    _lens(_k)


@contract("C23", "placed", cases=40)
def lens_placed(E):
    T = E.matrix4("transform")
    L = Lens(E, (1, -1), T)
    prove_mat_eq(E, "placed as given", mat(E, L.obj.get_transform(), 4), mat(E, T, 4))
