"""P22: which objects are lights, and setting up a renderer."""
from contracts.kit import *
from contracts.boxes import val
from contracts.trace import RD
from contracts import optics
from contracts.render import pps
from contracts.tree import Bag, elem

M = "solstrale::material::"
MAT = "<solstrale::material::Materials as solstrale::material::Material>::"
def emission(m):
    """which materials emit"""
    ctx = m.ctx
    k = ctx.choose(7)
    c = [Fin(ctx.fresh("c%d" % i)) for i in range(3)]
    if k < 4:
        t, tv = optics.texture(ctx), None
        t = t[0] if isinstance(t, tuple) else t
        mat = [lambda: call(m, M + "Lambertian::new", t, optics.no_map(ctx)), lambda: call(m, M + "Metal::new", t, optics.no_map(ctx), c[0]),
               lambda: call(m, M + "Dielectric::new", t, optics.no_map(ctx), c[0]), lambda: call(m, M + "Isotropic::new", t)][k]()
        ctx.oblige("other materials do not emit", Not(toB(call(m, MAT + "is_light", ref(ctx, mat)))))
    elif k == 4:
        mat = call(m, M + "DiffuseLight::new", *c, optics.opt_f64(ctx, None))
        ctx.oblige("a light emits", toB(call(m, MAT + "is_light", ref(ctx, mat))))
    elif k == 5:
        mat = call(m, M + "DiffuseLight::new_from_vec3", sv(ctx, "c")[1])
        ctx.oblige("a light emits", toB(call(m, MAT + "is_light", ref(ctx, mat))))
    else:
        a, b = material(ctx, "first"), material(ctx, "second")
        mat = call(m, M + "Blend::new", a, b, c[0])
        ctx.oblige("a blend emits when one of its materials does", Iff(toB(call(m, MAT + "is_light", ref(ctx, mat))), Or(a.d["light"], b.d["light"])))
def shape_lights(which):
    def f(m):
        from contracts.sphere import sphere
        from contracts.planar import quad, triangle
        ctx = m.ctx
        *_, mat, s = {"sphere": sphere, "quad": quad, "triangle": triangle}[which](m)
        l = force(call(m, LIGHTS, ref(ctx, s))).d["seq"]
        if ctx.branch(mat.d["light"]):
            ctx.oblige("a %s that emits is a light" % which, eq(l.length(), 1))
            ctx.oblige("the light is the %s itself" % which, toB(ctx.same(l.get(ctx, I(0)), s)) if ctx.lin_true(eq(l.length(), 1)) else FALSE)
        else: ctx.oblige("a %s that does not emit is no light" % which, eq(l.length()))
    return f
def shape_copies(which):
    def f(m):
        from contracts.sphere import sphere
        from contracts.planar import quad, triangle
        ctx = m.ctx
        if which == "medium": s = call(m, "solstrale::hittable::constant_medium::ConstantMedium::new", elem(ctx, "boundary"), Fin(ctx.fresh("density")), sv(ctx, "color")[1])
        else: s = {"sphere": sphere, "quad": quad, "triangle": triangle}[which](m)[-1]
        ctx.oblige("a copy of a %s is the same" % which, toB(ctx.same(call(m, HCLONE, ref(ctx, s)), s)))
    return f
def material_copies(m):
    ctx = m.ctx
    k = ctx.choose(8)
    c = [Fin(ctx.fresh("c%d" % i)) for i in range(3)]
    T = lambda: call(m, M + "texture::SolidColor::new", *[Fin(ctx.fresh("t%d" % i)) for i in range(3)])
    if k < 4:
        t = T(); bump = optics.no_map(ctx)
        if k < 3 and ctx.choose(2): bump = mkopt(ctx, m, T())
        mat = [lambda: call(m, M + "Lambertian::new", t, bump), lambda: call(m, M + "Metal::new", t, bump, c[0]),
               lambda: call(m, M + "Dielectric::new", t, bump, c[0]), lambda: call(m, M + "Isotropic::new", t)][k]()
    elif k < 6: mat = call(m, M + "DiffuseLight::new", *c, optics.opt_f64(ctx, None if k == 4 else Fin(ctx.fresh("half"))))
    elif k == 6: mat = call(m, M + "Blend::new", material(ctx, "first"), material(ctx, "second"), c[0])
    else:
        t = T()
        ctx.oblige("a copy of a texture is the same", toB(ctx.same(call(m, "<" + M + "texture::Textures as std::clone::Clone>::clone", ref(ctx, t)), t)))
        return
    ctx.oblige("a copy of a material is the same", toB(ctx.same(call(m, "<" + M + "Materials as std::clone::Clone>::clone", ref(ctx, mat)), mat)))
def mkopt(ctx, m, t):
    o = optics.no_map(ctx)
    return Agg(o.ty, [i for i, v in enumerate(ctx.prog.types[o.ty]["vars"]) if v["n"] == "Some"][0], [t])
def medium_lights(m):
    ctx = m.ctx
    s = call(m, "solstrale::hittable::constant_medium::ConstantMedium::new", elem(ctx, "boundary"), Fin(ctx.fresh("density")), sv(ctx, "color")[1])
    ctx.oblige("a medium is no light", eq(force(call(m, LIGHTS, ref(ctx, s))).d["seq"].length()))
def setup(m):
    ctx = m.ctx
    n, k = ctx.fresh("lights", "I"), ctx.fresh("steps", "I")
    for x in (n, k): ctx.assume(ge(x)); ctx.assume(le(x, 1 << 48))
    w = ctx.fresh("weight", "I"); ctx.assume(ge(w))
    world = Obj("hit", name="world", w=w, box=None, lights=n)
    post = models.mkvec(pps(ctx, k))
    def hook(ty, t, name):
        nn = t.get("n")
        if nn == "solstrale::hittable::Hittables": return world
        if nn == "std::vec::Vec" and name.endswith("post_processors"): return post
        return None
    scene = ctx.sym(ctx.prog.ty(RD + "Scene"), "scene", hook)
    res = force(call(m, RD + "Renderer::new", scene))
    ok = variant(ctx, res) == "Ok"
    ctx.oblige("a renderer is made exactly when there is a light", Iff(toB(ok), gt(n)))
    if not ok: return
    r = force(res.fs[0])
    l = force(field(ctx, r, "lights")).d["seq"]
    ctx.oblige("all lights of the world are sampled", And(toB(isinstance(l, Bag) and l.name.startswith("lights of world")), eq(l.length(), n)) if isinstance(l, Bag) else FALSE)
    if isinstance(l, Bag): ctx.oblige("no light is sampled in another's place", eq(l.total(), w))
    s2 = force(field(ctx, r, "scene"))
    ctx.oblige("the world is the scene's", toB(force(field(ctx, s2, "world")) is world))
    for f in ("camera", "background_color"):
        ctx.oblige("the %s is the scene's" % f.replace("_", " "), toB(ctx.same(field(ctx, s2, f), field(ctx, scene, f))))
    c1, c2 = field(ctx, scene, "render_config"), field(ctx, s2, "render_config")
    for f in ("width", "height", "samples_per_pixel", "shader", "render_image_strategy"):
        ctx.oblige("the %s is the scene's" % f.replace("_", " "), toB(ctx.same(field(ctx, c2, f), field(ctx, c1, f))))
    p = force(field(ctx, c2, "post_processors")).d["seq"]
    if ctx.branch(gt(k)):
        ctx.oblige("no step is added or lost", eq(p.length(), k))
        j = ctx.fresh("j", "I"); ctx.assume(ge(j)); ctx.assume(lt(j, k))
        e = force(p.get(ctx, j))
        ctx.oblige("the steps keep their order", eq(e.d["idx"], j) if isinstance(e, Obj) and e.k == "pp" else FALSE)
    else:
        ctx.oblige("without steps the image is made unprocessed", eq(p.length(), 1))
        e = force(p.get(ctx, I(0)))
        ctx.oblige("by the step that does nothing", toB(isinstance(e, Agg) and variant(ctx, e).startswith("Nop")))
def run(m):
    """ray_trace: a renderer for the scene renders once, with the caller's channels"""
    ctx = m.ctx
    n = ctx.fresh("lights", "I"); ctx.assume(ge(n))
    world = Obj("hit", name="world", w=n, box=None, lights=n)
    scene = ctx.sym(ctx.prog.ty(RD + "Scene"), "scene", lambda ty, t, name: world if t.get("n") == "solstrale::hittable::Hittables" else None)
    tx, rx = ref(ctx, Obj("sender")), ref(ctx, Obj("receiver"))
    runs = []
    def render(m, inst, args):
        good = len(runs) == 0 and ctx.read(args[1]) is ctx.read(tx) and ctx.read(args[2]) is ctx.read(rx)
        ctx.oblige("the scene is rendered once, with the caller's channels", toB(good))
        r = val(ctx, args[0])
        ctx.oblige("the scene is the caller's", toB(force(field(ctx, field(ctx, r, "scene"), "world")) is world))
        k = ctx.choose(2); runs.append(k)
        t = ctx.prog.types[m.prog.bodies[inst]["locals"][0]]
        return Agg(m.prog.bodies[inst]["locals"][0], k, [Agg(-1, 0, [])] if k == 0 else [Obj("error")])
    ctx.ghost["render run"] = render
    res = force(call(m, "solstrale::ray_trace", scene, tx, rx))
    ok = variant(ctx, res) == "Ok"
    ctx.oblige("scenes without light are refused, others are rendered", Iff(gt(n), toB(len(runs) == 1)))
    ctx.oblige("the outcome is that of the render", toB(ok == (runs == [0])))
def register(reg):
    reg.add(reg.Abstract(RD + "Renderer::render", lambda m, i, a: m.ctx.ghost["render run"](m, i, a) if "render run" in m.ctx.ghost else NotImplemented))
    A = lambda key, f, props, cost=0, **kw: reg.add(Lemma(key, f, **kw), props, cost)
    A("which materials emit", emission, "P22")
    for s in ("sphere", "quad", "triangle"): A("lights: " + s, shape_lights(s), "P22")
    for s in ("sphere", "quad", "triangle", "medium"): A("copies: " + s, shape_copies(s), "P03 P22")
    A("copies: material", material_copies, "P13 P22")
    A("lights: medium", medium_lights, "P22")
    A("ray_trace", run, "P16 P22")
    A("setting up a renderer", setup, "P22", 2)
