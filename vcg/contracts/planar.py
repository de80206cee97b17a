from contracts.kit import *

TR = "<dyn solstrale::geo::transformation::Transformer as solstrale::geo::transformation::Transformer>::transform"
def T(ctx, v, skip):
    """the transformation under which the shape is built: any function of points and directions"""
    key = (v.x.key(), v.y.key(), v.z.key(), skip)
    memo = ctx.ghost.setdefault("T", {})
    if key not in memo:
        memo[key] = sv(ctx, "T%d%s" % (len(memo), "dir" if skip else "pt"))[0]
    return memo[key]
def preset(ctx, v, skip, w):
    """name the image of v under the transformation by the expression w (no loss of generality)"""
    ctx.ghost.setdefault("T", {})[(v.x.key(), v.y.key(), v.z.key(), skip)] = w
    return w
def transform_virtual(m, x, args):
    ctx = m.ctx
    s = args[2]
    skip = ctx.branch(s)
    rc = args[0]
    while isinstance(rc, Ptr): rc = ctx.read(rc)
    if isinstance(rc, Obj) and "idx" in rc.d:
        from contracts.basics import step
        return mkvec3(ctx, step(ctx, rc.d["idx"], vec(ctx, args[1]), skip))
    return mkvec3(ctx, T(ctx, vec(ctx, args[1]), skip))

def quad(m):
    ctx = m.ctx
    (q, qv), (u, uv_), (v, vv) = sv(ctx, "q"), sv(ctx, "u"), sv(ctx, "v")
    Q, U, W = T(ctx, q, False), T(ctx, u, True), T(ctx, v, True)
    n = U.cross(W)
    ctx.assume(gt(n.len2()))
    ctx.assume(gt(U.len2())); ctx.assume(gt(W.len2()))
    mat = material(ctx)
    return Q, U, W, n, mat, call(m, "solstrale::hittable::quad::Quad::new", qv, uv_, vv, mat, nop(ctx))

def face(ctx, rec, n, d):
    """unit normal towards the ray's side"""
    nn = vec(ctx, field(ctx, rec, "normal")); ff = field(ctx, rec, "front_face")
    ctx.oblige("front face iff the ray goes against the geometric normal", Iff(ff, lt(d.dot(n))))
    s = n.length()
    f = R(1) if ctx.branch(ff) else R(-1)
    ctx.oblige("the normal is the unit geometric normal, flipped on back faces", And(*[eq(x * s, y * f) for x, y in zip(nn, n)]))

def quad_sound(m):
    ctx = m.ctx
    Q, U, W, n, mat, s = quad(m)
    o, d, ry = ray(m)
    lo, hi = sym_interval(ctx)
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi))))
    if rec is None: return
    t = fin(field(ctx, rec, "ray_length"))
    ctx.oblige("the hit parameter lies in the interval", inside(lo, hi, t))
    p = vec(ctx, field(ctx, rec, "hit_point"))
    ctx.oblige("the hit point is on the ray", p.eq(o + d * t))
    uv = field(ctx, rec, "uv"); a, b = fin(field(ctx, uv, "u")), fin(field(ctx, uv, "v"))
    ctx.oblige("the texture coordinates lie in the unit square", And(le(R(0), a), le(a, R(1)), le(R(0), b), le(b, R(1))))
    x = Q + U * a + W * b
    ctx.oblige("the hit point is the point of the quad with these coordinates", (o + d * t).eq(x))
    ctx.oblige("the material is the quad's", toB(ctx.read(field(ctx, rec, "material")) is mat))
    face(ctx, rec, n, d)

EPS = Fraction(float("1e-8"))
def not_parallel(ctx, n, d):
    """|unit(n).d| >= 1e-8"""
    x = n.dot(d)
    ctx.assume(ne(x))
    ctx.assume(ge(rabs(div(x, n.length())), R(EPS)))

def quad_complete(m):
    ctx = m.ctx
    Q, U, W, n, mat, s = quad(m)
    a, b, t = ctx.fresh("a"), ctx.fresh("b"), ctx.fresh("t")
    for x in (a, b): ctx.assume(le(R(0), x)); ctx.assume(le(x, R(1)))
    d, dv = sv(ctx, "r.d")
    o = Q + U * a + W * b - d * t
    not_parallel(ctx, n, d)
    ry = call(m, "solstrale::geo::Ray::new", mkvec3(ctx, o), dv)
    lo, hi = sym_interval(ctx)
    ctx.assume(inside(lo, hi, t))
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi))))
    if rec is None: ctx.oblige("a ray that meets the quad inside the interval is a hit", FALSE); return
    ctx.oblige("the hit is the intersection", eq(fin(field(ctx, rec, "ray_length")), t))

TRI = "solstrale::hittable::triangle::Triangle::new_with_tex_coords"
def suv(ctx, name):
    u, v = ctx.fresh(name + ".u"), ctx.fresh(name + ".v")
    return (u, v), mkagg(ctx, "solstrale::geo::Uv", u=Fin(u), v=Fin(v))
def triangle(m):
    ctx = m.ctx
    (p0, a0), (p1, a1), (p2, a2) = sv(ctx, "v0"), sv(ctx, "v1"), sv(ctx, "v2")
    V0 = T(ctx, p0, False)
    V1, V2 = preset(ctx, p1, False, V0 + sv(ctx, "e1")[0]), preset(ctx, p2, False, V0 + sv(ctx, "e2")[0])
    (t0, u0), (t1, u1), (t2, u2) = suv(ctx, "uv0"), suv(ctx, "uv1"), suv(ctx, "uv2")
    n = (V1 - V0).cross(V2 - V0)
    ctx.assume(gt(n.len2()))
    mat = material(ctx)
    return (V0, V1, V2), (t0, t1, t2), n, mat, call(m, TRI, a0, a1, a2, u0, u1, u2, mat, nop(ctx))

def tri_sound(m):
    ctx = m.ctx
    (V0, V1, V2), _, n, mat, s = triangle(m)
    o, d, ry = ray(m, o=V0 + sv(ctx, "oc")[0])
    lo, hi = sym_interval(ctx)
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi))))
    if rec is None: return
    t = fin(field(ctx, rec, "ray_length"))
    ctx.oblige("the hit parameter lies in the interval", inside(lo, hi, t))
    ctx.oblige("the hit point is on the ray", vec(ctx, field(ctx, rec, "hit_point")).eq(o + d * t))
    e1, e2 = V1 - V0, V2 - V0
    det = e1.dot(d.cross(e2))
    ctx.lemma("the determinant does not vanish", ne(det))
    tv = o - V0
    iv = div(R(1), det)
    u, v = tv.dot(d.cross(e2)) * iv, d.dot(tv.cross(e1)) * iv
    ctx.oblige("the barycentric coordinates lie in the triangle", And(ge(u), ge(v), le(u + v, R(1))))
    ctx.oblige("the hit point is the point with these barycentric coordinates", (o + d * t).eq(V0 + e1 * u + e2 * v))
    ctx.oblige("the material is the triangle's", toB(ctx.read(field(ctx, rec, "material")) is mat))
    face(ctx, rec, n, d)

def tri_complete(m):
    ctx = m.ctx
    (V0, V1, V2), uvs, n, mat, s = triangle(m)
    u, v, t = ctx.fresh("bary.u"), ctx.fresh("bary.v"), ctx.fresh("t")
    for x in (u, v): ctx.assume(le(R(0), x))
    ctx.assume(le(u + v, R(1)))
    d, dv = sv(ctx, "r.d")
    e1, e2 = V1 - V0, V2 - V0
    o = V0 + e1 * u + e2 * v - d * t
    det = e1.dot(d.cross(e2))
    ctx.assume(ge(rabs(det), R(EPS)))
    ctx.lemma("the determinant does not vanish", ne(det))
    ry = call(m, "solstrale::geo::Ray::new", mkvec3(ctx, o), dv)
    lo, hi = sym_interval(ctx)
    ctx.assume(inside(lo, hi, t))
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi))))
    if rec is None: ctx.oblige("a ray that meets the triangle inside the interval is a hit", FALSE); return
    ctx.oblige("the hit is the intersection", eq(fin(field(ctx, rec, "ray_length")), t))
    uv = field(ctx, rec, "uv")
    w = 1 - u - v
    ctx.oblige("the texture coordinates interpolate the vertices'", And(*[
        eq(fin(field(ctx, uv, f)), uvs[0][i] * w + uvs[1][i] * u + uvs[2][i] * v) for i, f in enumerate("uv")]))

def quad_basis(m):
    """the local basis of normal maps: unit vectors along growing u and growing v"""
    ctx = m.ctx
    Q, U, W, n, mat, s = quad(m)
    o, d, ry = ray(m)
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, NINF, PINF))))
    if rec is None: return
    b = ctx.ghost["surface basis"]
    for nm, f, e in (("tangent", "tangent", U), ("bi-tangent", "bi_tangent", W)):
        ctx.oblige("the %s is the unit vector along growing %s" % (nm, "u" if e is U else "v"), And(*[eq(x * e.length(), y) for x, y in zip(vec(ctx, field(ctx, b, f)), e)]))
def unit_along(a, b, c, x, y, z, l):
    """a unit vector parallel to a vector of length l, on its side, is the vector over l"""
    v, g = V(a, b, c), V(x, y, z)
    return [eq(v.len2(), 1), v.cross(g).eq(V(0, 0, 0)), gt(v.dot(g)), gt(l), eq(l * l, g.len2())], And(*[eq(p * l, q) for p, q in zip(v, g)])
def product_vanishes_not(a, b, c, x, y, z, p, q, r, k):
    g, e, n = V(a, b, c), V(x, y, z), V(p, q, r)
    return [g.cross(e).eq(n * k), ne(k), gt(n.len2())], gt(g.len2())
def scaled_length(l, k, s):
    return [gt(l), ne(k), ge(s), eq(s * s, k * k * l)], gt(s)
def same_side(a, b, c, x, y, z, k, s):
    v, g = V(a, b, c), V(x, y, z)
    return [gt(s), gt(k), gt(g.len2()), (v * s).eq(g * k)], gt(v.dot(g))
def tri_basis(m):
    """the local basis of normal maps: unit vectors along growing u and growing v; any of the plane where these do not span"""
    ctx = m.ctx
    (V0, V1, V2), (t0, t1, t2), n, mat, s = triangle(m)
    o, d, ry = ray(m, o=V0 + sv(ctx, "oc")[0])
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, NINF, PINF))))
    if rec is None: return
    b = ctx.ghost["surface basis"]
    e1, e2 = V1 - V0, V2 - V0
    du1, dv1, du2, dv2 = t1[0] - t0[0], t1[1] - t0[1], t2[0] - t0[0], t2[1] - t0[1]
    det = du1 * dv2 - dv1 * du2
    spans = ctx.choose(2)
    if spans:
        ctx.assume(ne(det))
        sg = R(1) if ctx.branch(gt(det)) else R(-1)
        iv = div(R(1), det)
        ctx.lemma("the inverse of the determinant does not vanish", ne(iv))
        for nm, f, g, k1, k2 in (("tangent", "tangent", e1 * dv2 - e2 * dv1, dv1, dv2), ("bi-tangent", "bi_tangent", e2 * du1 - e1 * du2, -du1, -du2)):
            ctx.lemma("the texture coordinates differ along some edge", Or(ne(k1), ne(k2)))
            if ctx.branch(ne(k1)): ctx.apply_lemma(product_vanishes_not, *g, *e1, *n, k1)
            else: ctx.apply_lemma(product_vanishes_not, *g, *e2, *n, k2)
            ctx.apply_lemma(scaled_length, g.len2(), iv, terms.sqrt((g * iv).len2()))
            s_ = terms.sqrt((g * iv).len2())
            g = g * sg
            v = vec(ctx, field(ctx, b, f)); l = g.length()
            ctx.lemma("the %s has length one" % nm, eq(v.len2(), 1))
            ctx.lemma("the %s is parallel to growing %s" % (nm, f), v.cross(g).eq(V(0, 0, 0)))
            ctx.apply_lemma(same_side, *v, *g, iv * sg, s_)
            ctx.apply_lemma(unit_along, *v, *g, l)
            ctx.oblige("the %s is the unit vector along growing %s" % (nm, "u" if f == "tangent" else "v"), And(*[eq(x * l, y) for x, y in zip(v, g)]))
    else:
        ctx.assume(eq(det))
        for nm, f in (("tangent", "tangent"), ("bi-tangent", "bi_tangent")):
            v = vec(ctx, field(ctx, b, f))
            ctx.lemma("the %s has length one" % nm, eq(v.len2(), 1))
            ctx.oblige("the %s lies in the plane of the triangle" % nm, eq(v.dot(n)))

QNEW = "solstrale::hittable::quad::Quad::new"
def quad_new(m, inst, args):
    """the quads that a box is made of, by the arguments they are built from"""
    g = m.ctx.ghost.get("box")
    if g is None: return NotImplemented
    q, u, v = (vec(m.ctx, a) for a in args[:3])
    tr = args[4]
    while isinstance(tr, Ptr): tr = m.ctx.read(tr)
    m.ctx.oblige("every face is built under the given transformation", toB(tr is g["transform"]))
    m.ctx.oblige("every face has the given material", toB(force(args[3]) is g["mat"]))
    return Obj("quad", q=q, u=u, v=v)
def box(m):
    """six quads: one for each side of the cuboid spanned by any two opposite corners"""
    ctx = m.ctx
    (a, av), (b, bv) = sv(ctx, "a"), sv(ctx, "b")
    tr = Obj("dyn", name="transform", ty="Transformer"); mat = material(ctx)
    ctx.ghost["box"] = dict(transform=tr, mat=mat)
    r = force(call(m, "solstrale::hittable::quad::Quad::new_box", av, bv, mat, ref(ctx, tr)))
    seq = r.d["seq"]
    if not isinstance(seq, ConcSeq) or any(not isinstance(force(x), Obj) or force(x).k != "quad" for x in seq.xs): raise Unsupported("the faces of a box are no list of quads")
    qs = [force(x) for x in seq.xs]
    ctx.oblige("a box has six faces", toB(len(qs) == 6))
    lo = [rmin(x, y) for x, y in zip(a, b)]; hi = [rmax(x, y) for x, y in zip(a, b)]
    def spans(o, e, k):
        """from o along e (one of the axes): exactly from one end of the box to the other"""
        return Or(And(eq(o, lo[k]), eq(e, hi[k] - lo[k])), And(eq(o, hi[k]), eq(e, lo[k] - hi[k])))
    def is_face(x, k, side):
        q, u, v = list(x.d["q"]), list(x.d["u"]), list(x.d["v"])
        i, j = [n for n in range(3) if n != k]
        along = lambda s, t: And(eq(s[j]), eq(t[i]), spans(q[i], s[i], i), spans(q[j], t[j], j))
        return And(eq(q[k], side[k]), eq(u[k]), eq(v[k]), Or(along(u, v), along(v, u)))
    for k, ax in enumerate("xyz"):
        for side, nm in ((lo, "lower"), (hi, "upper")):
            ctx.oblige("some face is the %s %s side of the cuboid" % (nm, ax), Or(*[is_face(x, k, side) for x in qs]))

def register(reg):
    reg.add(reg.Abstract(QNEW, quad_new))
    reg.add(Lemma("the local basis of a quad", quad_basis), "P13"); reg.add(Lemma("the local basis of a triangle", tri_basis), "P13", 8)
    reg.add(Lemma("a box consists of its six faces", box), "P05")
    reg.virtuals[TR] = transform_virtual
    reg.add(Lemma("Quad::hit soundness", quad_sound), "P05 P08", 20)
    reg.add(Lemma("Quad::hit completeness", quad_complete), "P05 P08")
    reg.add(Lemma("Triangle::hit soundness", tri_sound), "P06 P08 P21")
    reg.add(Lemma("Triangle::hit completeness", tri_complete), "P06 P08 P21")
