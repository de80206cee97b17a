from contracts.kit import *

def quad_roots(a, h, disc, s, t):
    """every root t of a t^2 + 2 h t + c with disc = h^2 - a c is one of the two closed forms"""
    return [gt(a), ge(s), eq(s * s, disc), eq((a * t + h) * (a * t + h), disc)], Or(eq(t * a, -h - s), eq(t * a, -h + s))
def no_roots(a, h, disc, t):
    return [lt(disc), eq((a * t + h) * (a * t + h), disc)], FALSE

def sphere(m, light=None):
    ctx = m.ctx
    c, cv = sv(ctx, "center"); r = ctx.fresh("radius"); ctx.assume(gt(r))
    mat = material(ctx, light=light)
    return c, r, mat, call(m, "solstrale::hittable::sphere::Sphere::new", cv, Fin(r), mat)

def hit(m):
    ctx = m.ctx
    c, r, mat, s = sphere(m)
    o, d, ry = ray(m)
    ctx.assume(gt(d.len2()))
    lo, hi = sym_interval(ctx)
    ts = ctx.fresh("t_any")           # any parameter at which the line meets the sphere
    res = call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi)))
    oc = o - c
    on = lambda t: eq((o + d * t - c).len2(), r * r)
    a, h = d.len2(), oc.dot(d)
    disc = h * h - a * (oc.len2() - r * r)
    rec = some(ctx, res)
    if rec is not None:
        t = fin(field(ctx, rec, "ray_length"))
        ctx.oblige("the hit parameter lies in the interval", inside(lo, hi, t))
        ctx.oblige("the hit point is on the ray", vec(ctx, field(ctx, rec, "hit_point")).eq(o + d * t))
        ctx.oblige("the hit point is on the sphere", on(t))
        ctx.oblige("the material is the sphere's", toB(ctx.read(field(ctx, rec, "material")) is mat))
        n = vec(ctx, field(ctx, rec, "normal"))
        out = (o + d * t - c)
        ff = field(ctx, rec, "front_face")
        ctx.oblige("front face iff the ray goes against the outward normal", Iff(ff, lt(d.dot(out))))
        f = ite(ff, R(1), R(-1))
        ctx.oblige("the normal is the unit outward normal, flipped on back faces", And(*[eq(x * r, y * f) for x, y in zip(n, out)]))
    # completeness
    q = ctx.choose(2)
    if q == 0: return
    ctx.assume(inside(lo, hi, ts)); ctx.assume(on(ts))
    if rec is not None: ctx.assume(lt(ts, t))
    ctx.lemma("a line parameter on the sphere is a root", eq((a * ts + h) * (a * ts + h), disc))
    if ctx.branch(lt(disc)): ctx.apply_lemma(no_roots, a, h, disc, ts)
    else: ctx.apply_lemma(quad_roots, a, h, disc, terms.sqrt(disc), ts)
    ctx.oblige("no nearer intersection in the interval is missed", FALSE)

def longitude_latitude(m):
    """u and v are the longitude and latitude, normalised to 0..1, of the outward normal at the hit point"""
    ctx = m.ctx
    c, r, mat, s = sphere(m)
    o, d, ry = ray(m)
    ctx.assume(gt(d.len2()))
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, NINF, PINF))))
    if rec is None: return
    t = fin(field(ctx, rec, "ray_length"))
    out = o + d * t - c
    ctx.lemma("the hit point is on the sphere", eq(out.len2(), r * r))
    n = vec(ctx, field(ctx, rec, "normal"))
    ctx.lemma("the normal has length one", eq(n.len2(), 1))
    ctx.lemma("the normal is radial", Or(And(*[eq(x * r, y) for x, y in zip(n, out)]), And(*[eq(x * r, -y) for x, y in zip(n, out)])))
    uv = field(ctx, rec, "uv"); u, v = fin(field(ctx, uv, "u")), fin(field(ctx, uv, "v"))
    ctx.oblige("the texture coordinates lie in the unit square", And(ge(u), le(u, R(1)), ge(v), le(v, R(1))))
    lon, lat = R(models.PI) - u.scale(2 * models.PI), v.scale(models.PI)
    sc = lambda w, x: fin(models.m_sin_cos(ctx, w, Fin(x)))
    ctx.oblige("the latitude is that of the outward normal", eq(-sc("cos", lat) * r, out.y))
    ctx.oblige("the longitude is that of the outward normal (x)", eq(sc("cos", lon) * sc("sin", lat) * r, out.x))
    ctx.oblige("the longitude is that of the outward normal (z)", eq(sc("sin", lon) * sc("sin", lat) * r, out.z))

def basis(m):
    """the local basis of normal maps: unit vectors along growing u and growing v (away from the poles)"""
    ctx = m.ctx
    c, r, mat, s = sphere(m)
    o, d, ry = ray(m)
    ctx.assume(gt(d.len2()))
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, NINF, PINF))))
    if rec is None: return
    t = fin(field(ctx, rec, "ray_length"))
    out = o + d * t - c
    ctx.lemma("the hit point is on the sphere", eq(out.len2(), r * r))
    h = out.x * out.x + out.z * out.z
    ctx.assume(gt(h))
    b = ctx.ghost["surface basis"]
    T, Bt = vec(ctx, field(ctx, b, "tangent")), vec(ctx, field(ctx, b, "bi_tangent"))
    l = terms.sqrt(h)
    ctx.lemma("the tangent is the unit vector along growing u", And(*[eq(x * l, y) for x, y in zip(T, V(out.z, R(0), -out.x))]))
    ctx.oblige("the bi-tangent is the unit vector along growing v", And(*[eq(x * l * r, y) for x, y in zip(Bt, V(-out.x * out.y, h, -out.y * out.z))]))

def register(reg):
    reg.add(Lemma("the local basis of a sphere", basis), "P13", 8)
    reg.add(Lemma("texture coordinates of a sphere", longitude_latitude), "P04", 8)
    reg.add(Lemma("Sphere::hit is the nearest intersection in the interval", hit), "P04", 10)
