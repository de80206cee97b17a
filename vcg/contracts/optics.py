"""P09 optics, P12 light sampling, P13 materials."""
from contracts.kit import *
from contracts.base import mk3, val
from contracts.basics import PDF, RV, almost_surely
from contracts.planar import T, suv, TRI, preset
from contracts.planar import quad as a_quad
from contracts.bloom import Ghost, Prefix, real_val

MAT = "<solstrale::material::Materials as solstrale::material::Material>::"
TEX = "<solstrale::material::texture::Textures as solstrale::material::texture::Texture>::color"
M = "solstrale::material::"
CLOSE = R(Fraction(1, 10 ** 12))
def option(ctx, ety, x):
    """Some(x) or None of the option type whose content satisfies ety(type)"""
    T_ = ctx.prog.types
    for i, t in enumerate(T_):
        if t["k"] == "enum" and t["n"] == "std::option::Option" and t["vars"][1]["f"] and ety(T_[t["vars"][1]["f"][0][1]]):
            return Agg(i, 0, []) if x is None else Agg(i, 1, [x])
    raise Unsupported("no such option type")
is_f64 = lambda t: t["k"] == "float" and t["w"] == 64
is_tex = lambda t: t.get("n") == "solstrale::material::texture::Textures"
def opt_f64(ctx, x): return option(ctx, is_f64, x)
def no_map(ctx): return option(ctx, is_tex, None)

def texture(ctx, name="texture"): return Obj("texture", name=name)
def tex_color(ctx, t, uv):
    """the colour an abstract texture has at uv"""
    u, v = fin(field(ctx, uv, "u")), fin(field(ctx, uv, "v"))
    memo = ctx.ghost.setdefault("tex", {})
    k = (t.d["name"], u.key(), v.key())
    if k not in memo: memo[k] = sv(ctx, "%s.color%d" % (t.d["name"], len(memo)))[0]
    return memo[k]
def use_texture(m, inst, args):
    v = val(m.ctx, args[0])
    if isinstance(v, Obj) and v.k == "texture": return mkvec3(m.ctx, tex_color(m.ctx, v, val(m.ctx, args[1])))
    return NotImplemented

def rayhit(m, n=None, front=None, name="rec"):
    """an arbitrary hit record with unit normal n"""
    ctx = m.ctx
    p, pv = sv(ctx, name + ".p")
    if n is None:
        n, _ = sv(ctx, name + ".n"); ctx.assume(eq(n.len2(), 1))
    (u, v), uv = suv(ctx, name + ".uv")
    ff = ctx.freshb(name + ".front") if front is None else front
    t = ctx.fresh(name + ".t")
    onb = mkagg(ctx, "solstrale::geo::Onb", tangent=mk3(ctx, sv(ctx, "tan")[0]), bi_tangent=mk3(ctx, sv(ctx, "bitan")[0]), normal=mk3(ctx, n))
    rec = call(m, M + "RayHit::new", pv, onb, ref(ctx, material(ctx, "some")), Fin(t), uv, ff)
    return dict(p=p, n=n, uv=uv, ff=ff, t=t, rec=ref(ctx, rec))
def scatter(m, mat, ry, rec, lights=None):
    """-> (kind, payload)"""
    ctx = m.ctx
    if lights is None: lights = Ptr(Cell(ConcSeq([])), (), (I(0), I(0)))
    r = force(call(m, MAT + "scatter", ref(ctx, mat), ref(ctx, ry), rec, lights))
    return variant(ctx, r), force(r.fs[0])
def basic(m, kind, s, h, tex):
    """-> direction of a specularly scattered ray"""
    ctx = m.ctx
    ctx.oblige("specular materials scatter without density", toB(kind == "ScatterBasic"))
    if kind != "ScatterBasic": raise PathEnd()
    r = field(ctx, s, "ray")
    ctx.oblige("the scattered ray starts at the hit point", vec(ctx, field(ctx, r, "origin")).eq(h["p"]))
    ctx.oblige("the attenuation is the texture colour", vec(ctx, field(ctx, s, "color")).eq(tex_color(ctx, tex, h["uv"])))
    return vec(ctx, field(ctx, r, "direction"))

# ------------------------------------------------------------------ P09
def reflection(m):
    ctx = m.ctx
    v, vv = sv(ctx, "v"); n, nv = sv(ctx, "n"); ctx.assume(eq(n.len2(), 1))
    r = vec(ctx, call(m, V3 + "::reflect", ref(ctx, vv), nv))
    a, b = r.dot(n), v.dot(n)
    ctx.lemma("reflection reverses the normal part", eq(a, -b))
    for ax in "xyz": ctx.oblige("reflection keeps the tangential part (%s)" % ax, eq(getattr(r, ax) - getattr(n, ax) * a, getattr(v, ax) - getattr(n, ax) * b))
    ctx.oblige("reflection keeps the length", eq(r.len2(), v.len2()))
def square(x): return [], ge(x * x)
def orthogonal_sum(tt, tn, nn, k, s2): return [eq(tt, s2), eq(tn), eq(nn, 1), eq(k * k, 1 - s2)], eq(tt - tn * k * 2 + nn * k * k, 1)
def square_le1(x): return [ge(x), le(x, 1)], And(le(x * x, 1), ge(x * x))
def incidence(m):
    """unit direction against a unit normal, with the cosine as a named quantity"""
    ctx = m.ctx
    n, nv = sv(ctx, "n"); ctx.assume(eq(n.len2(), 1))
    v, vv = sv(ctx, "v"); ctx.assume(eq(v.len2(), 1))
    c = -v.dot(n)
    ctx.assume(ge(c))
    for a in "xyz":
        p = getattr(n, a) + getattr(v, a)
        ctx.apply_lemma(square, p)
    ctx.lemma("the cosine is at most one", le(c, 1))
    return n, nv, v, vv, c
def refraction(m):
    ctx = m.ctx
    n, nv, v, vv, c = incidence(m)
    eta = ctx.fresh("eta"); ctx.assume(gt(eta))
    s2 = eta * eta * (1 - c * c)
    ctx.assume(le(s2, 1))
    t = (v + n * c) * eta            # the tangential part scaled by the index ratio
    ctx.lemma("the tangential part has the length of the sine", eq(t.len2(), s2))
    r = vec(ctx, call(m, V3 + "::refract", ref(ctx, vv), nv, Fin(eta)))
    k = terms.sqrt(1 - s2)
    for ax in "xyz": ctx.lemma("refraction: Snell's law in the plane of incidence (%s)" % ax, eq(getattr(r, ax), getattr(t, ax) - getattr(n, ax) * k))
    w = t - n * k
    ctx.lemma("the refracted tangential part is orthogonal to the normal", eq(t.dot(n)))
    ctx.oblige("the refracted direction lies on the far side", le(w.dot(n)))
    ctx.apply_lemma(orthogonal_sum, t.len2(), t.dot(n), n.len2(), k, s2)
    ctx.oblige("the refracted direction has length one", eq(w.len2(), 1))
def ball_make(c):
    v, r = sv(c, "ball"); c.ghost["ball"] = v
    return r
def ball_ens(c, args, r): return [("a sample of the unit sphere lies inside it", lt(almost_surely(c, r).len2(), 1))]
def metal(m):
    ctx = m.ctx
    h = rayhit(m)
    o, d, ry = ray(m); ctx.assume(gt(d.len2()))
    f = ctx.fresh("fuzz"); ctx.assume(ge(f))
    t = texture(ctx)
    kind, s = scatter(m, call(m, M + "Metal::new", t, no_map(ctx), Fin(f)), ry, h["rec"])
    x = basic(m, kind, s, h, t)
    u = d.unit(); n = h["n"]
    mirror = u - n * (u.dot(n) * 2)
    e = x - mirror
    b = ctx.ghost.get("ball")
    if b is not None:
        for ax in "xyz": ctx.lemma("the scattered direction is the mirror direction and fuzz times a sample (%s)" % ax, eq(getattr(e, ax), getattr(b, ax) * f))
        ctx.oblige("the scattered direction is at most the fuzz away from the mirror direction", le((b * f).len2(), f * f))
    else:
        ctx.oblige("the scattered direction is at most the fuzz away from the mirror direction", le(e.len2(), f * f))
def dielectric(m):
    ctx = m.ctx
    n, nv, u, uv_, c = incidence(m)
    front = ctx.choose(2) == 0
    h = rayhit(m, n, toB(front))
    # the ray's direction is any positive multiple of the unit direction
    l = ctx.fresh("length"); ctx.assume(gt(l))
    ctx.ghost["units"] = [(u * l, u)]
    o, d, ry = ray(m, d=u * l)
    idx = ctx.fresh("index"); ctx.assume(gt(idx))
    eta = div(R(1), idx) if front else idx
    t = texture(ctx)
    s2 = eta * eta * (1 - c * c)
    ctx.apply_lemma(square_le1, c)
    si = terms.sqrt(1 - c * c)
    total = ctx.branch(gt(eta * si, 1))
    if not total:
        ctx.lemma("the sine is not negative", ge(eta * si))
        ctx.apply_lemma(square_le1, eta * si)
        ctx.lemma("the sine of the refracted ray is at most one", le(s2, 1))
    kind, s = scatter(m, call(m, M + "Dielectric::new", t, no_map(ctx), Fin(idx)), ry, h["rec"])
    x = basic(m, kind, s, h, t)
    mirror = u - n * (u.dot(n) * 2)
    def mirrored():
        for ax in "xyz": ctx.oblige("the reflected ray has the mirror direction (%s)" % ax, eq(getattr(x, ax), getattr(mirror, ax)))
    if total: mirrored(); return
    q = div(1 - eta, 1 + eta); r0 = q * q
    k = 1 - c
    F = r0 + (1 - r0) * (k * k * k * k * k)
    rs = ctx.ghost.get("rnd", [])
    ctx.oblige("one random number decides between reflection and refraction", toB(len(rs) == 1))
    if len(rs) != 1: return
    if ctx.branch(lt(rs[0], F)): mirrored()
    elif not ctx.branch(eq(rs[0], F)):
        w = (u + n * c) * eta - n * terms.sqrt(1 - s2)
        for ax in "xyz": ctx.oblige("the refracted ray obeys Snell's law with the index of the side it comes from (%s)" % ax, eq(getattr(x, ax), getattr(w, ax)))
class Unit(Contract):
    """the unit vector of a vector whose direction is known by a name (ghost: (vector, unit vector))"""
    def __init__(self): Contract.__init__(self, V3 + "::unit", "unit vector of a named direction")
    def apply(self, m, inst, args):
        if not m.ctx.ghost.get("units") or not leaves_fin(m.ctx, args[0]): return NotImplemented
        v = vec(m.ctx, args[0])
        for a, u in m.ctx.ghost.get("units", ()):
            if all(x.key() == y.key() for x, y in zip(a, v)): return mkvec3(m.ctx, u)
        return NotImplemented
    def check(self, m, inst):
        # v = u*l with |u| = 1 and l > 0 covers every non-zero vector; its unit vector is u
        ctx = m.ctx
        ctx.no_contract = {self.key}
        u, _ = sv(ctx, "u"); l = ctx.fresh("l"); ctx.assume(eq(u.len2(), 1)); ctx.assume(gt(l))
        v = u * l
        ctx.lemma("the squared length", eq(v.len2(), l * l))
        ctx.apply_lemma(root_of_square, v.length(), l)
        r = vec(ctx, m.run(inst, [ref(ctx, mkvec3(ctx, v))]))
        ctx.oblige("the unit vector of a named direction is that direction", r.eq(u))
def root_of_square(s, l): return [ge(s), gt(l), eq(s * s, l * l)], eq(s, l)
def named_direction(ctx, name):
    """an arbitrary non-zero vector with its unit vector"""
    u, _ = sv(ctx, name + ".unit"); l = ctx.fresh(name + ".length"); ctx.assume(eq(u.len2(), 1)); ctx.assume(gt(l))
    v = u * l
    ctx.ghost.setdefault("units", []).append((v, u))
    return v, u, l
class Refract(Contract):
    """refract for unit directions: proved by refraction(), used in its closed form"""
    root = True
    def __init__(self): Contract.__init__(self, V3 + "::refract", "refraction"); self.optional = False
    def apply(self, m, inst, args):
        ctx = m.ctx
        v, n, e = vec(ctx, args[0]), vec(ctx, args[1]), force(args[2])
        if not isinstance(e, Flt) or e.k != "fin": return NotImplemented
        c = -v.dot(n); s2 = e.p * e.p * (1 - c * c)
        if ctx.is_true(And(eq(n.len2(), 1), eq(v.len2(), 1), ge(c), gt(e.p), le(s2, 1))) is not True: return NotImplemented
        return mkvec3(ctx, (v + n * c) * e.p - n * terms.sqrt(1 - s2))
    def check(self, m, inst):
        m.ctx.no_contract = {self.key}
        try: refraction(m)
        except NotFinite: m.ctx.oblige("the refracted direction is finite", FALSE)

# ------------------------------------------------------------------ P12
def light_obj(i): return Obj("light", idx=i)
def dens(ctx, i, o, d):
    """the density of the abstract light i: any non-negative function"""
    g = ctx.ghost.setdefault("dens", {})
    k = tuple(c.key() for c in list(o) + list(d))
    f = g.get(k)
    if f is None: f = g[k] = Ghost(ctx, "dens%d" % len(g))
    v = f(i)[0]; ctx.assume(ge(v))
    return v
def ldir(ctx, i, o):
    g = ctx.ghost.setdefault("ldir", {})
    k = tuple(c.key() for c in o)
    f = g.get(k)
    if f is None: f = g[k] = Ghost(ctx, "ldir%d" % len(g), 3)
    return V(*f(i))
def on_light(f):
    def use(m, inst, args):
        v = val(m.ctx, args[0])
        if isinstance(v, Obj) and v.k == "light": return f(m.ctx, v.d["idx"], *args[1:])
        return NotImplemented
    return use
def lights(ctx, name="lights"):
    n = ctx.fresh(name, "I"); ctx.assume(ge(n, 1)); ctx.assume(le(n, 1 << 40))
    return n, Ptr(Cell(SymSeq(n, lambda c, i: light_obj(i)), name), (), (I(0), n))
def total(ctx, o, d):
    k = ("total",) + tuple(c.key() for c in list(o) + list(d))
    if k not in ctx.ghost: ctx.ghost[k] = Prefix(ctx, "total", lambda i: [dens(ctx, i, o, d)])
    return ctx.ghost[k]
def dens_sum(ctx, v, k, it, v0):
    S = ctx.ghost.get("densum")
    if S is None or not isinstance(force(v), Flt) or k is None: return None
    x = real_val(v)
    if x is None: return FALSE
    if not k.is_const(): S.step(k - 1)
    return eq(x, S.at(k)[0])
def dens_pos(ctx, v, k, it, v0):
    if ctx.ghost.get("densum") is None or not isinstance(force(v), Flt) or k is None: return None
    x = real_val(v)
    return FALSE if x is None else ge(x)
DC = [Cand("the sum so far is the sum of the densities", dens_sum), Cand("the sum is not negative", dens_pos)]
def container_value(m):
    ctx = m.ctx
    n, ls = lights(ctx)
    o, ov = sv(ctx, "o"); d, dv = sv(ctx, "d")
    S = ctx.ghost["densum"] = total(ctx, o, d)
    p = call(m, "solstrale::pdf::ContainerPdf::new", ls, ov)
    x = fin(call(m, PDF + "value", ref(ctx, p), dv))
    ctx.oblige("the density of several lights is the average of their densities", eq(x * n.as_real(), S.at(n)[0]))
    ctx.oblige("densities are never negative", ge(x))
def container_generate(m):
    ctx = m.ctx
    n, ls = lights(ctx)
    o, ov = sv(ctx, "o")
    p = call(m, "solstrale::pdf::ContainerPdf::new", ls, ov)
    x = vec(ctx, call(m, PDF + "generate", ref(ctx, p)))
    r = ctx.ghost.get("rndi", [])
    ctx.oblige("one random index below the number of lights selects the light", toB(len(r) == 1 and ctx.ghost["rndr"][0] == (I(0), n - 1)))
    if len(r) == 1: ctx.oblige("the direction is sampled from the selected light", x.eq(ldir(ctx, r[0], o)))
class Pdfc(Contract):
    """densities of a container of abstract lights, and of abstract densities"""
    root = False
    def __init__(self, fn, f): Contract.__init__(self, PDF + fn, "abstract density " + fn); self.f = f; self.assumed = True
    def apply(self, m, inst, args):
        ctx = m.ctx
        v = val(ctx, args[0])
        if isinstance(v, Obj) and v.k == "pdf": return self.f(ctx, v, *args[1:])
        if isinstance(v, Agg) and "Container" in variant(ctx, v) and ctx.ghost.get("abstract lights"):
            p = force(v.fs[0])
            o = vec(ctx, field(ctx, p, "origin"))
            return self.f(ctx, Obj("pdf", name="lights", origin=o), *args[1:])
        return NotImplemented
def pdf_value(ctx, p, d):
    d = vec(ctx, d); k = ("pdfv", p.d["name"]) + tuple(c.key() for c in d)
    if k not in ctx.ghost:
        x = ctx.ghost[k] = ctx.fresh("density.%s" % p.d["name"]); ctx.assume(ge(x))
    return Fin(ctx.ghost[k])
def pdf_gen(ctx, p):
    x, u, l = named_direction(ctx, "sample.%s" % p.d["name"]); r = mkvec3(ctx, x)
    ctx.ghost.setdefault("samples", []).append((p, x))
    return r
def mixture(m):
    ctx = m.ctx
    p, q = Obj("pdf", name="first"), Obj("pdf", name="second")
    d, dv = sv(ctx, "d")
    x = fin(call(m, "solstrale::pdf::mix_value", ref(ctx, p), ref(ctx, q), dv))
    ctx.oblige("the density of the mixture is the mean", eq(x * 2, fin(pdf_value(ctx, p, dv)) + fin(pdf_value(ctx, q, dv))))
    y = vec(ctx, call(m, "solstrale::pdf::mix_generate", ref(ctx, p), ref(ctx, q)))
    s = ctx.ghost.get("samples", []); r = ctx.ghost.get("rnd", [])
    ctx.oblige("exactly one of the two densities is sampled, by one random number", toB(len(s) == 1 and len(r) == 1))
    if len(s) == 1 and len(r) == 1:
        ctx.oblige("each density is sampled with probability one half", lt(r[0], Fraction(1, 2)) if s[0][0] is p else ge(r[0], Fraction(1, 2)))
        ctx.oblige("the sample is that of the chosen density", y.eq(s[0][1]))
def material_densities(m):
    ctx = m.ctx
    n, nv = sv(ctx, "n"); ctx.assume(gt(n.len2()))
    d, dv = sv(ctx, "d"); ctx.assume(gt(d.len2()))
    p = call(m, "solstrale::pdf::CosinePdf::new", nv)
    x = fin(call(m, PDF + "value", ref(ctx, p), dv))
    ln, ld = n.length(), d.length()
    ctx.oblige("densities are never negative", ge(x))
    ctx.oblige("the cosine density is the cosine over pi on the outer side", Or(lt(n.dot(d)), eq(x * R(models.PI) * ln * ld, n.dot(d))))
    ctx.oblige("the cosine density is zero on the inner side", Or(gt(n.dot(d)), eq(x)))
    p = call(m, "solstrale::pdf::SpherePdf::new")
    x = fin(call(m, PDF + "value", ref(ctx, p), dv))
    e = x - R(1 / (4 * models.PI))
    ctx.oblige("the density of uniform directions is 1 over 4 pi", And(le(e, CLOSE), le(-e, CLOSE)))
RAYI = "solstrale::util::interval::RAY_INTERVAL"
def flat_density(m, s, n, area2k):
    """density of a flat light: area = |n| / area2k"""
    ctx = m.ctx
    o, d, ry = ray(m)
    ctx.assume(gt(d.len2()))
    c = n.dot(d)
    k = 1 if ctx.branch(gt(c)) else -1 if ctx.branch(lt(c)) else 0
    if k:
        cu = n.unit().dot(d) * k
        ctx.lemma("the cosine at the light has the sign of the side", gt(cu))
        ctx.lemma("the cosine at the light has the sign of the side, normalised", gt(div(cu, d.length())))
    lo, hi = Fin(R(Fraction(float("0.001")))), PINF
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi))))
    x = fin(call(m, PDFV, ref(ctx, s), mk3(ctx, o), mk3(ctx, d)))
    if rec is None: ctx.oblige("directions that miss have density zero", eq(x)); return
    t = fin(field(ctx, rec, "ray_length"))
    ctx.oblige("a ray parallel to the light misses it", toB(k != 0))
    a = c * k
    # distance^2 / (cosine area) = t^2 |d|^2 * |d| |n| / (|n.d| |n|/k)
    ctx.oblige("the density is the squared distance over the cosine times the area", eq(x * a, t * t * d.len2() * d.length() * area2k))
    ctx.oblige("densities are never negative", ge(x))
def quad_density(m):
    Q, U, W, n, mat, s = a_quad(m)
    flat_density(m, s, n, 1)
def a_tri(m):
    ctx = m.ctx
    (p0, a0), (p1, a1), (p2, a2) = sv(ctx, "v0"), sv(ctx, "v1"), sv(ctx, "v2")
    V0 = T(ctx, p0, False); e1, e2 = sv(ctx, "e1")[0], sv(ctx, "e2")[0]
    preset(ctx, p1, False, V0 + e1); preset(ctx, p2, False, V0 + e2)
    n = e1.cross(e2); ctx.assume(gt(n.len2()))
    return V0, e1, e2, n, call(m, "solstrale::hittable::triangle::Triangle::new", a0, a1, a2, material(ctx), nop(ctx))
def tri_density(m):
    V0, e1, e2, n, s = a_tri(m)
    flat_density(m, s, n, 2)
def flat_sample(m, s, A, U, W, fold):
    ctx = m.ctx
    o, ov = sv(ctx, "o")
    x = vec(ctx, call(m, RDIR, ref(ctx, s), ov)) + o
    rs = ctx.ghost.get("rnd", [])
    ctx.oblige("two random numbers select the point of the light", toB(len(rs) == 2))
    if len(rs) != 2: return
    if fold:
        a, b = rs
        opts = [(a, b), (b, a)]
        if ctx.branch(gt(a + b, 1)):
            # known finding: the other half of the parallelogram is sampled as well, outside of the triangle
            opts += [(1 - a, 1 - b), (1 - b, 1 - a)]
        else: ctx.oblige("the sampled coordinates lie in the triangle", And(ge(a), ge(b), le(a + b, 1)))
    else: opts = [(p, q) for a, b in (rs, rs[::-1]) for p in (a, 1 - a) for q in (b, 1 - b)]
    ctx.oblige("the direction leads to a uniformly distributed point of the light", Or(*[x.eq(A + U * a + W * b) for a, b in opts]))
def quad_sample(m):
    Q, U, W, n, mat, s = a_quad(m)
    flat_sample(m, s, Q, U, W, False)
def tri_sample(m):
    V0, e1, e2, n, s = a_tri(m)
    flat_sample(m, s, V0, e1, e2, True)
def outside_sphere(m):
    ctx = m.ctx
    c, cv = sv(ctx, "c"); r = ctx.fresh("radius"); ctx.assume(gt(r))
    w, _ = sv(ctx, "w")                 # centre - origin
    o = c - w
    ctx.assume(gt(w.len2(), r * r))
    s = call(m, "solstrale::hittable::sphere::Sphere::new", cv, Fin(r), material(ctx))
    return c, r, w, o, s
def sphere_density(m):
    ctx = m.ctx
    c, r, w, o, s = outside_sphere(m)
    d, dv = sv(ctx, "d"); ctx.assume(gt(d.len2()))
    D2 = w.len2()
    ctx.lemma("the sine of the cone is below one", And(gt(D2), gt(1 - div(r * r, D2)), lt(1 - div(r * r, D2), 1)))
    cm = terms.sqrt(1 - div(r * r, D2))
    ctx.lemma("the cosine of the cone is between zero and one", And(gt(cm), lt(cm, 1)))
    ry = call(m, "solstrale::geo::Ray::new", mk3(ctx, o), dv)
    lo, hi = Fin(R(Fraction(float("0.001")))), PINF
    rec = some(ctx, call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi))))
    x = fin(call(m, PDFV, ref(ctx, s), mk3(ctx, o), dv))
    if rec is None: ctx.oblige("directions that miss have density zero", eq(x)); return
    ctx.oblige("the density is the inverse of the solid angle", eq(x * (1 - cm) * R(2 * models.PI), 1))
    ctx.oblige("densities are never negative", ge(x))
def onb_make(ctx, w):
    (t, tv), (b, bv) = sv(ctx, "tangent"), sv(ctx, "bitangent")
    n = vec(ctx, w).unit()
    ctx.ghost["onb"] = (t, b, n)
    return mkagg(ctx, "solstrale::geo::Onb", tangent=tv, bi_tangent=bv, normal=mk3(ctx, n))
def sphere_sample(m):
    ctx = m.ctx
    c, r, w, o, s = outside_sphere(m)
    D = w.length(); D2 = w.len2()
    ctx.lemma("the origin is away from the centre", And(gt(D2), gt(D), lt(div(r * r, D2), 1), gt(div(r * r, D2))))
    cm = terms.sqrt(1 - div(r * r, D2))
    x = vec(ctx, call(m, RDIR, ref(ctx, s), mk3(ctx, o)))
    rs = ctx.ghost.get("rnd", [])
    ctx.oblige("two random numbers select the direction", toB(len(rs) == 2))
    if len(rs) != 2: return
    hgt = x.dot(w)
    zs = [1 + a * (cm - 1) for a in rs]
    z = zs[1]
    for q in zs:
        if any(a in x.x.atoms() for a in ()): z = q
    ctx.lemma("the cosine of the sampled direction is uniform between that of the cone and one", Or(*[eq(hgt, q * D) for q in zs]))
    if not ctx.branch(eq(hgt, z * D)): z = zs[0]
    ctx.lemma("the sampled cosine is between that of the cone and one", And(le(cm, z), le(z, 1), gt(cm)))
    ctx.lemma("the sampled direction has length one", eq(x.len2(), 1))
    ctx.lemma("the squared cosine is at least that of the cone", ge(z * z, cm * cm))
    ctx.oblige("the sampled direction meets the sphere in front of the origin", And(gt(z), ge(z * z * D2, D2 - r * r)))

# ------------------------------------------------------------------ P13
def pdf_scatter(m, kind, s, h, t):
    ctx = m.ctx
    ctx.oblige("the material scatters with a density", toB(kind == "ScatterPdf"))
    if kind != "ScatterPdf": raise PathEnd()
    r = field(ctx, s, "ray")
    ctx.oblige("the scattered ray starts at the hit point", vec(ctx, field(ctx, r, "origin")).eq(h["p"]))
    ctx.oblige("the attenuation is the texture colour", vec(ctx, field(ctx, s, "color")).eq(tex_color(ctx, t, h["uv"])))
    return vec(ctx, field(ctx, r, "direction")), field(ctx, s, "probability")
def mixture_of(ctx, x, own):
    """the direction comes with equal probability from the lights or from the material's own density"""
    s = ctx.ghost.get("samples", []); rs = ctx.ghost.get("rnd", [])
    if s:
        ctx.oblige("light directions are used as sampled, with probability one half", And(toB(len(s) == 1), x.eq(s[0][1]), lt(rs[0], Fraction(1, 2)) if rs else FALSE))
    else:
        ctx.oblige("the material's own directions are used with probability one half", ge(rs[0], Fraction(1, 2)) if rs else FALSE)
        own(x)
def weight(ctx, p, mix2, scat, x):
    """probability = scattering density / mixture density"""
    p = force(p)
    if p.k != "fin":
        ctx.oblige("the weight is undefined only where the mixture density is zero", eq(mix2)); raise PathEnd()
    ctx.oblige("the weight is the scattering density over the density of the sampling", eq(p.p * mix2, scat * 2))
class OnbNew(Contract):
    """any orthonormal basis about the direction (Onb::new is orthonormal)"""
    def __init__(self): Contract.__init__(self, "solstrale::geo::Onb::new", "abstract basis"); self.assumed = True
    def apply(self, m, inst, args):
        ctx = m.ctx
        if not ctx.ghost.get("abstract basis"): return NotImplemented
        w = vec(ctx, args[0])
        n = None
        for a, u in ctx.ghost.get("units", ()):
            if all(x.key() == y.key() for x, y in zip(a, w)): n = u
        if n is None: return NotImplemented
        (t, tv), (b, bv) = sv(ctx, "tangent"), sv(ctx, "bitangent")
        ctx.ghost["bases"] = ctx.ghost.get("bases", []) + [(t, b, n)]
        return mkagg(ctx, "solstrale::geo::Onb", tangent=tv, bi_tangent=bv, normal=mk3(ctx, n))
class OnbLocal(Contract):
    """local coordinates keep length and the last coordinate (Onb::local)"""
    def __init__(self): Contract.__init__(self, "solstrale::geo::Onb::local", "abstract local coordinates"); self.assumed = True
    def apply(self, m, inst, args):
        ctx = m.ctx
        o = val(ctx, args[0]); a = vec(ctx, args[1])
        t, b, n = [vec(ctx, field(ctx, o, k)) for k in ("tangent", "bi_tangent", "normal")]
        for bt, bb, bn in ctx.ghost.get("bases", ()):
            if all(x.key() == y.key() for p, q in ((t, bt), (b, bb), (n, bn)) for x, y in zip(p, q)): break
        else: return NotImplemented
        x, xv = sv(ctx, "local")
        ctx.assume(eq(x.len2(), a.len2())); ctx.assume(eq(x.dot(n), a.z))
        if ctx.is_true(eq(a.len2(), 1)): ctx.ghost.setdefault("units", []).append((x, x))
        return xv
def diffuse(m):
    ctx = m.ctx
    ctx.ghost["abstract lights"] = 1; ctx.ghost["abstract basis"] = 1
    h = rayhit(m); n = h["n"]
    ctx.ghost["units"] = [(n, n)]
    o, d, ry = ray(m)
    t = texture(ctx)
    k, ls = lights(ctx)
    kind, s = scatter(m, call(m, M + "Lambertian::new", t, no_map(ctx)), ry, h["rec"], ls)
    x, p = pdf_scatter(m, kind, s, h, t)
    def own(x):
        c = ctx.ghost.get("cosdir")
        ctx.oblige("the direction is a cosine weighted one about the normal", FALSE if c is None else And(eq(x.dot(n), c.z), eq(x.len2(), 1)))
    mixture_of(ctx, x, own)
    lv = fin(pdf_value(ctx, Obj("pdf", name="lights"), mk3(ctx, x)))
    us = [u for a, u in ctx.ghost["units"] if all(p.key() == q.key() for p, q in zip(a, x))]
    u = us[0] if us else x.unit()
    c = n.dot(u)
    cosd = div(c, R(models.PI)) if ctx.branch(gt(c)) else R(0)
    weight(ctx, p, lv + cosd, cosd, x)
def isotropic(m):
    ctx = m.ctx
    ctx.ghost["abstract lights"] = 1
    h = rayhit(m)
    o, d, ry = ray(m)
    t = texture(ctx)
    k, ls = lights(ctx)
    kind, s = scatter(m, call(m, M + "Isotropic::new", t), ry, h["rec"], ls)
    x, p = pdf_scatter(m, kind, s, h, t)
    def own(x):
        u = ctx.ghost.get("unitvec")
        ctx.oblige("the direction is a uniformly distributed one", FALSE if u is None else x.eq(u))
    mixture_of(ctx, x, own)
    lv = fin(pdf_value(ctx, Obj("pdf", name="lights"), mk3(ctx, x)))
    S = R(Fraction(1 / (4 * float(models.PI))))
    pr = fin(p)
    e = pr * (lv + S) - S * 2
    tol = R(Fraction(1, 10 ** 9))
    ctx.lemma("the weight is positive", gt(pr))
    ctx.oblige("the weight is the scattering density over the density of the sampling", And(le(e, tol * (1 + pr)), le(-e, tol * (1 + pr))))
def unitvec_make(c):
    v, r = sv(c, "unitvec"); c.ghost["unitvec"] = v
    return r
def unitvec_ens(c, args, r): return [("a random unit vector has length one", eq(almost_surely(c, r).len2(), 1))]
def emission(m):
    ctx = m.ctx
    h = rayhit(m)
    o, d, ry = ray(m)
    (c, cv) = sv(ctx, "c")
    k = ctx.choose(3)
    a = ctx.fresh("half"); ctx.assume(gt(a))
    if k == 2: mat = call(m, M + "DiffuseLight::new_from_vec3", cv)
    else: mat = call(m, M + "DiffuseLight::new", Fin(c.x), Fin(c.y), Fin(c.z), opt_f64(ctx, Fin(a) if k == 1 else None))
    ctx.oblige("a diffuse light is a light", call(m, MAT + "is_light", ref(ctx, mat)))
    kind, s = scatter(m, mat, ry, h["rec"])
    ctx.oblige("lights emit and do not scatter", toB(kind == "ScatterEmission"))
    if kind != "ScatterEmission": return
    e = vec(ctx, field(ctx, s, "color"))
    ctx.oblige("lights emit their colour on the front side only", e.eq(c if ctx.branch(h["ff"]) else V(0, 0, 0)))
    L = ctx.fresh("distance"); ctx.assume(ge(L))
    at = mkagg(ctx, M + "AttenuatedColor", color=mk3(ctx, e), attenuation_factor=field(ctx, s, "attenuation_factor"), accumulated_ray_length=Fin(L))
    r = vec(ctx, call(m, M + "AttenuatedColor::get_attenuated_color", ref(ctx, at)))
    if k == 1: ctx.oblige("light is attenuated by distance to one half at the configured length", And(*[eq(x * (a + L), y * a) for x, y in zip(r, e)]))
    else: ctx.oblige("light without attenuation is the same at any distance", r.eq(e))
def not_lights(m):
    ctx = m.ctx
    t = texture(ctx)
    k = ctx.choose(4)
    x = ctx.fresh("x")
    mat = [lambda: call(m, M + "Lambertian::new", t, no_map(ctx)), lambda: call(m, M + "Metal::new", t, no_map(ctx), Fin(x)),
           lambda: call(m, M + "Dielectric::new", t, no_map(ctx), Fin(x)), lambda: call(m, M + "Isotropic::new", t)][k]()
    ctx.oblige("diffuse, metallic, dielectric and isotropic materials are not lights", Not(call(m, MAT + "is_light", ref(ctx, mat))))
def normal_map(m):
    ctx = m.ctx
    t, nm = texture(ctx), texture(ctx, "normal map")
    mp = option(ctx, is_tex, nm)
    k = ctx.choose(3)
    mat = [lambda: call(m, M + "Lambertian::new", t, mp), lambda: call(m, M + "Metal::new", t, mp, Fin(ctx.fresh("x"))), lambda: call(m, M + "Dielectric::new", t, mp, Fin(ctx.fresh("x")))][k]()
    (a, av), (b, bv), (n, nv) = sv(ctx, "t"), sv(ctx, "b"), sv(ctx, "n")
    _, uv = suv(ctx, "uv")
    o = mkagg(ctx, "solstrale::geo::Onb", tangent=av, bi_tangent=bv, normal=nv)
    r = vec(ctx, call(m, MAT + "get_transformed_normal", ref(ctx, mat), o, uv))
    c = tex_color(ctx, nm, uv)
    ctx.oblige("a normal map gives the normal in the local basis", r.eq(a * (c.x * 2 - 1) + b * (c.y * 2 - 1) + n * (c.z * 2 - 1)))
def blend(m):
    ctx = m.ctx
    h = rayhit(m)
    o, d, ry = ray(m)
    a, b = material(ctx, "first", FALSE), material(ctx, "second", FALSE)
    f = ctx.fresh("factor"); ctx.assume(ge(f)); ctx.assume(le(f, 1))
    mat = call(m, M + "Blend::new", a, b, Fin(f))
    which = ctx.choose(2)
    if which == 0: r = call(m, MAT + "scatter", ref(ctx, mat), ref(ctx, ry), h["rec"], Ptr(Cell(ConcSeq([])), (), (I(0), I(0))))
    else:
        ctx.ghost["tagged normals"] = 1
        onb = mkagg(ctx, "solstrale::geo::Onb", tangent=mk3(ctx, sv(ctx, "t")[0]), bi_tangent=mk3(ctx, sv(ctx, "b")[0]), normal=mk3(ctx, sv(ctx, "n")[0]))
        r = call(m, MAT + "get_transformed_normal", ref(ctx, mat), onb, h["uv"])
    r = force(r)
    rs = ctx.ghost.get("rnd", [])
    ctx.oblige("one random number chooses the material", toB(len(rs) == 1))
    who = r.d["of"] if isinstance(r, Obj) else ctx.ghost.get("normal of")
    ctx.oblige("a blend behaves as one of its materials", toB(who is a or who is b))
    if len(rs) != 1: return
    ctx.oblige("the first material is chosen with probability one minus the blend factor, otherwise the second", ge(rs[0], f) if who is a else le(rs[0], f))

def register(reg):
    reg.add(reg.Abstract(TEX, use_texture))
    reg.add(reg.Abstract(PDFV, on_light(lambda c, i, o, d: Fin(dens(c, i, vec(c, o), vec(c, d))))))
    reg.add(reg.Abstract(RDIR, on_light(lambda c, i, o: mkvec3(c, ldir(c, i, vec(c, o))))))
    reg.add(reg.Abstract(MAT + "scatter", reg.on_material(lambda m, v, *a: Obj("scatter", of=v) if "scatter" not in m.ctx.ghost else NotImplemented)))
    reg.add(Pdfc("value", pdf_value)); reg.add(Pdfc("generate", pdf_gen))
    reg.add(OnbNew()); reg.add(OnbLocal())
    A = lambda key, f, props, cost=0, **kw: reg.add(Lemma(key, f, **kw), props, cost)
    A("reflection", reflection, "P09")
    reg.add(Refract(), "P09", 3); reg.add(Unit(), "P09 P13")
    reg.add(Ens(RV + "random_in_unit_sphere", ball_make, ball_ens))
    reg.add(Ens(RV + "random_unit_vector", unitvec_make, unitvec_ens))
    A("metal", metal, "P09"); A("dielectric", dielectric, "P09", 3)
    A("density of several lights", container_value, "P12", cands=DC); A("sampling of several lights", container_generate, "P12")
    A("mixture of densities", mixture, "P12"); A("material densities", material_densities, "P12")
    A("density of a quad light", quad_density, "P12", 5); A("density of a triangle light", tri_density, "P12", 5); A("density of a sphere light", sphere_density, "P12", 5)
    A("sampling of a quad light", quad_sample, "P12"); A("sampling of a triangle light", tri_sample, "P12"); A("sampling of a sphere light", sphere_sample, "P12", 3)
    A("diffuse scattering", diffuse, "P13", 3); A("isotropic scattering", isotropic, "P13"); A("emission", emission, "P13")
    A("normal maps", normal_map, "P13"); A("materials that are not lights", not_lights, "P13"); A("blend", blend, "P13")
