from contracts.base import contract, dot3, col, vec, cross3, prove_vec_eq


def _rays(E, n):
    """Unit directions with one normal for all rays (3,1), or one per ray (3,n)."""
    one = E.choice("normals", ["each", "one"]) == "one"
    d, N, dl = E.incidence(n, one)
    return d, N, (lambda i: col(E, N, 0 if one else i))


# ------------------------------------------------------------------------------------ C09

@contract("C09", "reflections")
def reflections(E):
    """optics.reflections(d, N): for every ray r' = r - 2(r.N)N and its consequences."""
    opt = E.mod("tracer.optics")
    n = E.count("n")
    one = E.choice("normals", ["each", "one"]) == "one"
    d = E.vector("d", n)
    N = E.unit("N", 1 if one else n)
    nrm = lambda i: col(E, N, 0 if one else i)
    fd, fN = E.freeze(d), E.freeze(N)
    r = opt.reflections(d, N)
    E.shape_is("one direction per ray", r, (3, n))
    E.unchanged("directions not modified", fd)
    E.unchanged("normals not modified", fN)

    def ray(i):
        x, y, u = col(E, d, i), col(E, r, i), nrm(i)
        E.eq("length kept", dot3(y, y), dot3(x, x))
        E.eq("opposite normal component", dot3(y, u), -dot3(x, u))
        prove_vec_eq(E, "tangential component kept",
                     [a - dot3(y, u) * b for a, b in zip(y, u)], [a - dot3(x, u) * b for a, b in zip(x, u)])
    E.forall(n, ray)
    rr = opt.reflections(r, N)
    E.forall(n, lambda i: prove_vec_eq(E, "reflecting twice restores", col(E, rr, i), col(E, d, i)))


@contract("C09", "reflections_flipped_normal")
def reflections_flipped(E):
    """The orientation of the normal does not matter."""
    opt = E.mod("tracer.optics")
    n = E.count("n")
    d = E.vector("d", n)
    N = E.unit("N", n)
    r1 = opt.reflections(d, N)
    r2 = opt.reflections(d, -N)
    E.forall(n, lambda i: prove_vec_eq(E, "same for the opposite normal", col(E, r1, i), col(E, r2, i)))


# ------------------------------------------------------------------------------------ C10

def _indices(E, n):
    kind = E.choice("indices", ["scalar", "each"])
    if kind == "scalar":
        n1, n2 = E.real("n1", pos=True), E.real("n2", pos=True)
        return n1, n2, (lambda i: (E.s(n1), E.s(n2)))
    n1, n2 = E.array("n1", (n,), pos=True), E.array("n2", (n,), pos=True)
    return n1, n2, (lambda i: (E.at(n1, i), E.at(n2, i)))


@contract("C10", "refractions")
def refractions(E):
    opt = E.mod("tracer.optics")
    n = E.count("n")
    d, N, nrm = _rays(E, n)
    n1, n2, idx = _indices(E, n)
    fr = [E.freeze(x) for x in (d, N, n1, n2)]
    refr, out = opt.refractions(n1, n2, d, N)
    for f, nm in zip(fr, ("directions", "normals", "n1", "n2")):
        E.unchanged(nm + " not modified", f)
    E.shape_is("one flag per ray", refr, (n,))
    E.shape_is("one direction per refracted ray, in order", out, (3, E.sub(refr)))

    def ray(i):
        x, u = col(E, d, i), nrm(i)
        a, b = idx(i)
        c = dot3(x, u)
        sin2 = 1 - c * c
        should = (a * a * sin2 <= b * b)
        if should:
            E.true("marked refracted when n1 sin <= n2", E.bool_at(refr, i))
        else:
            E.true("not marked when totally reflected", not E.bool_at(refr, i))
            return
        y = col(E, out, E.rank(refr, i))
        E.eq("unit direction", dot3(y, y), 1)
        E.eq("in the plane of incidence", dot3(cross3(x, u), y), 0)
        # tangential components: n2 * t_out = n1 * t_in  (Snell's law with direction)
        prove_vec_eq(E, "Snell", [b * (p - dot3(y, u) * q) for p, q in zip(y, u)],
                     [a * (p - c * q) for p, q in zip(x, u)])
        if c < 0:
            E.le("crosses to the far side", dot3(y, u), 0)
        elif c > 0:
            E.ge("crosses to the far side", dot3(y, u), 0)
    E.forall(n, ray)


@contract("C10", "refracting_back")
def refracting_back(E):
    """Refracting the refracted ray, reversed, through the same interface restores the path."""
    opt = E.mod("tracer.optics")
    n = E.count("n")
    d, N, dl = E.incidence(n)
    n1, n2 = E.real("n1", pos=True), E.real("n2", pos=True)
    refr, out = opt.refractions(n1, n2, d, N)
    back, again = opt.refractions(n2, n1, -out, N[:, refr])

    def ray(i):
        x, u = col(E, d, i), col(E, N, i)
        c = dot3(x, u)
        a, b = E.s(n1), E.s(n2)
        if not E.bool_at(refr, i) or c == 0 or a * a * (1 - c * c) == b * b:
            return                      # grazing on either side
        j = E.rank(refr, i)
        E.true("not totally reflected on the way back", E.bool_at(back, j))
        prove_vec_eq(E, "reversed direction restored", [-p for p in col(E, again, E.rank(back, j))], x)
    E.forall(n, ray)


@contract("C10", "refractions_flipped_normal")
def refractions_flipped(E):
    opt = E.mod("tracer.optics")
    n = E.count("n")
    d, N, dl = E.incidence(n)
    n1, n2 = E.real("n1", pos=True), E.real("n2", pos=True)
    r1, o1 = opt.refractions(n1, n2, d, N)
    r2, o2 = opt.refractions(n1, n2, d, -N)

    def ray(i):
        E.true("same marking", E.bool_at(r1, i) == E.bool_at(r2, i))
        if E.bool_at(r1, i) and dot3(col(E, d, i), col(E, N, i)) != 0:
            prove_vec_eq(E, "same direction", col(E, o1, E.rank(r1, i)), col(E, o2, E.rank(r2, i)))
    E.forall(n, ray)


@contract("C10", "hartmann")
def hartmann(E):
    opt = E.mod("tracer.optics")
    n = E.count("n")
    L = E.array("L", (n,), pos=True)
    a, b, c, d, e = [E.real(k) for k in "abcde"]
    r = opt.refr_idx_hartmann(L, a, b, c, d, e)
    E.shape_is("one index per wavelength", r, (n,))

    def ray(i):
        l = E.at(L, i)
        E.assume(l != c)
        E.assume(l != e)
        E.eq("Hartmann formula", E.at(r, i), E.s(a) + E.s(b) / (E.s(c) - l) + E.s(d) / (E.s(e) - l))
    E.forall(n, ray)


# ------------------------------------------------------------------------------------ C11

def _fresnel_spec(E, c1, a, b):
    """Fresnel reflectances from |cos| and indices; c2 from Snell's law."""
    c2 = E.sqrt(1 - (a / b) * (a / b) * (1 - c1 * c1))
    s = (a * c1 - b * c2) / (a * c1 + b * c2)
    p = (a * c2 - b * c1) / (a * c2 + b * c1)
    return s, p


@contract("C11", "fresnel")
def fresnel(E):
    opt = E.mod("tracer.optics")
    n = E.count("n")
    d, N, dl = E.incidence(n)
    n1, n2, idx = _indices(E, n)
    fr = [E.freeze(x) for x in (d, N, n1, n2)]
    R = opt.fresnel(d, N, n1, n2)
    for f in fr:
        E.unchanged("arguments not modified", f)
    E.shape_is("one reflectance per ray", R, (n,))

    def ray(i):
        x, u = col(E, d, i), col(E, N, i)
        a, b = idx(i)
        c1 = E.abs(dot3(x, u))
        E.assume(a * a * (1 - c1 * c1) <= b * b)
        E.assume(not (a == b and c1 == 0))
        s, p = _fresnel_spec(E, c1, a, b)
        r = E.at(R, i)
        E.eq("mean of the s and p reflectances", r, (s * s + p * p) / 2)
        # so the mean lies between 0 and 1:
        for nm, q in (("s", s), ("p", p)):
            E.ge("0 <= R" + nm, q * q, 0)
            E.le("R" + nm + " <= 1", q * q, 1)
        if c1 == 1:
            E.eq("normal incidence", r, (a - b) * (a - b) / ((a + b) * (a + b)))
        if a == b:
            E.eq("no reflection for equal indices", r, 0)
        elif c1 == 0:
            E.eq("total at grazing incidence", r, 1)
    E.forall(n, ray)


@contract("C11", "reversed_path")
def fresnel_reversed(E):
    opt = E.mod("tracer.optics")
    n = E.count("n")
    d, N, dl = E.incidence(n)
    n1, n2 = E.real("n1", pos=True), E.real("n2", pos=True)
    refr, out = opt.refractions(n1, n2, d, N)
    R = opt.fresnel(d, N, n1, n2)
    Rb = opt.fresnel(-out, N[:, refr], n2, n1)

    def ray(i):
        c = dot3(col(E, d, i), col(E, N, i))
        if not E.bool_at(refr, i) or c == 0:
            return
        E.eq("same reflectance backwards", E.at(R, i), E.at(Rb, E.rank(refr, i)))
    E.forall(n, ray)
