"""P14: the colour of a path."""
from contracts.kit import *
from contracts.boxes import val
from contracts.tree import rayhit

RD = "solstrale::renderer::"
SH = RD + "shader::"
SHADE = "<solstrale::renderer::shader::Shaders as solstrale::renderer::shader::Shader>::shade"
ATT = "solstrale::material::AttenuatedColor"
MAXU = (1 << 32) - 1

def any_float(ctx, name):
    k = ctx.choose(4)
    return [lambda: Fin(ctx.fresh(name)), lambda: NAN, lambda: PINF, lambda: NINF][k]()
def wild(ctx, ax, floats):
    """colours of which only one channel is looked at: it may be any float; of the others nothing is known"""
    def hook(ty, t, name):
        if t["k"] != "float": return None
        if not any(s in name for s in floats): return None
        if name.endswith(tuple("." + c for c in "xyz")) and not name.endswith("." + ax): return ANY
        return engine.lazyf(lambda: any_float(ctx, name))
    return hook
def same_ray(ctx, a, b): return And(vec(ctx, field(ctx, a, "origin")).eq(vec(ctx, field(ctx, b, "origin"))), vec(ctx, field(ctx, a, "direction")).eq(vec(ctx, field(ctx, b, "direction"))))
def flt_same(a, b):
    a, b = force(a), force(b)
    if "any" in (a.k, b.k): return toB(a.k == b.k)
    if a.k != b.k: return FALSE
    return eq(a.p, b.p) if a.k == "fin" else toB(a.k == "nan" or a.p == b.p)
def att_rest(ctx, a, b):
    """attenuation factor and distance are the same"""
    return And(ctx.same(field(ctx, a, "attenuation_factor"), field(ctx, b, "attenuation_factor")), flt_same(field(ctx, a, "accumulated_ray_length"), field(ctx, b, "accumulated_ray_length")))
def black(ctx, a): return And(*[flt_same(f, Fin(0)) for f in force(field(ctx, a, "color")).fs])

class RayColor(BySig):
    """following a ray: assumed by the shaders, proved by follow(); the depth grows with every step and never passes the limit"""
    def __init__(self): BySig.__init__(self, "following a ray")
    def matches(self, prog, i, name):
        b = prog.bodies[i]; T = prog.types
        ty = [T[b["locals"][j + 1]] for j in range(b["argc"])]
        n = lambda t: T[t["p"]].get("n") if t["k"] == "ref" else None
        ret = T[b["locals"][0]]
        return len(ty) == 4 and n(ty[0]) == RD + "Renderer" and n(ty[1]) == "solstrale::geo::Ray" and ty[2]["k"] == "int" and ty[3]["k"] == "float" \
            and ret["k"] == "struct" and any(T[f[1]].get("n") == ATT for f in ret["vars"][0]["f"])
    def apply(self, m, inst, args):
        g = m.ctx.ghost.get("path")
        if g is None: return NotImplemented
        return g(m, inst, args)
    check = None
def radiance(m, ax):
    """one step of a path at a surface"""
    ctx = m.ctx
    R_ = ctx.sym(ctx.prog.ty(RD + "Renderer"), "renderer")
    ren = ref(ctx, R_)
    o, d, ry = ray(m); ryp = ref(ctx, ry)
    rec = rayhit(ctx, "rec"); recp = ref(ctx, rec)
    mat = val(ctx, field(ctx, rec, "material"))
    mx, depth = ctx.fresh("max", "I"), ctx.fresh("depth", "I")
    for x in (mx, depth): ctx.assume(ge(x)); ctx.assume(le(x, MAXU))
    far = ctx.fresh("distance")
    asked, followed = [], []
    def scatter(m, v, r, h, ls):
        ctx.oblige("the surface's own material scatters", toB(v is mat))
        ctx.oblige("it is asked about the ray and the hit", And(same_ray(ctx, r, ry), toB(val(ctx, h) is rec or same(ctx, val(ctx, h), rec) is TRUE)))
        ctx.oblige("it is given the renderer's lights", toB(isinstance(ls, Ptr) and ctx.slice_of(ls)[0] is ctx.slice_of(ref(ctx, field(ctx, R_, "lights")))[0]))
        i = ctx.prog.ty("solstrale::material::RayScatter")
        s = force(ctx.sym(i, "scatter", wild(ctx, ax, (".color.", ".probability"))))
        asked.append(s); return s
    def path(m, inst, args):
        ctx.oblige("a path is followed with a greater depth", gt(args[2], depth))
        ctx.oblige("no path is followed beyond the configured depth", le(args[2], mx))
        ret = ctx.sym(m.prog.bodies[inst]["locals"][0], "traced", wild(ctx, ax, (".color.",)))
        followed.append((args, ret)); return ret
    ctx.ghost["scatter"] = scatter; ctx.ghost["path"] = path; ctx.ghost["anyfloat"] = 1
    sh = call(m, SH + "PathTracingShader::new", mx)
    res = force(call(m, SHADE, ref(ctx, sh), ren, recp, ryp, depth, Fin(far)))
    if ctx.branch(ge(depth, mx)):
        ctx.oblige("at the configured depth nothing is followed", toB(not followed))
        ctx.oblige("at the configured depth no light is added", black(ctx, res)); return
    ctx.oblige("the material is asked once", toB(len(asked) == 1))
    if len(asked) != 1: return
    kind = variant(ctx, asked[0]); s = asked[0].fs[0]
    c = force(field(ctx, field(ctx, res, "color"), ax)); sc = force(field(ctx, field(ctx, s, "color"), ax))
    # the code measures distance in ray parameters (known finding); scene units would be right as well
    rl = fin(field(ctx, rec, "ray_length"))
    def way(x): x = force(x); return Or(eq(x.p, rl + far), eq(x.p, rl * d.length() + far)) if x.k == "fin" else FALSE
    if kind == "ScatterEmission":
        ctx.oblige("where nothing is scattered the path ends", toB(not followed))
        ctx.oblige("the emission is returned", flt_same(c, sc))
        ctx.oblige("the emission is attenuated by its own factor over the whole distance", And(ctx.same(field(ctx, res, "attenuation_factor"), field(ctx, s, "attenuation_factor")), way(field(ctx, res, "accumulated_ray_length"))))
        return
    ctx.oblige("exactly one scattered ray is followed", toB(len(followed) == 1))
    if len(followed) != 1: return
    a, t = followed[0]
    ctx.oblige("the scattered ray is the one followed", same_ray(ctx, a[1], field(ctx, s, "ray")))
    ctx.oblige("depths count the steps", eq(a[2], depth + 1))
    ctx.oblige("the distance so far is passed on", way(a[3]))
    ctx.oblige("with the same renderer", toB(isinstance(a[0], Ptr) and a[0].same(ren)))
    t = att_of(ctx, t)
    tc = force(field(ctx, field(ctx, t, "color"), ax))
    ctx.oblige("the light's attenuation is passed back unchanged", att_rest(ctx, res, t))
    if kind == "ScatterBasic":
        ctx.oblige("the returned light is multiplied by the attenuation", flt_same(c, f_mul(ctx, sc, tc))); return
    p = force(field(ctx, s, "probability"))
    ctx.oblige("a diffusely scattered contribution is never NaN", toB(c.k != "nan" and c.k != "any"))
    ctx.oblige("a diffusely scattered contribution is at most three per channel", le(c.p, 3) if c.k == "fin" else toB(c.k == "inf" and c.p == -1))
    w = f_mul(ctx, f_mul(ctx, sc, p), tc)
    w = force(w)
    if w.k == "fin": ctx.oblige("it is the returned light times attenuation and weight", flt_same(c, f_min(ctx, w, Fin(3))))
    elif w.k == "nan": ctx.oblige("an undefined contribution is dropped", flt_same(c, Fin(0)))
    else: ctx.oblige("an infinite contribution is limited", flt_same(c, f_min(ctx, w, Fin(3))))
def att_of(ctx, r):
    t = ctx.prog.types[r.ty]
    for f, v in zip(t["vars"][0]["f"], r.fs):
        if ctx.prog.types[f[1]].get("n") == ATT: return force(v)
class Follow(RayColor):
    def __init__(self): BySig.__init__(self, "a ray's colour"); self.optional = False
    def apply(self, m, inst, args): return NotImplemented
    def check(self, m, inst):
        ctx = m.ctx
        world = Obj("hit", name="world", w=I(1), box=None)
        bg, bgv = sv(ctx, "background")
        sh = Obj("shader", name="shader")
        R_ = renderer(ctx, world, sh, bgv)
        o, d, ry = ray(m)
        depth = ctx.fresh("depth", "I"); ctx.assume(ge(depth)); ctx.assume(le(depth, MAXU))
        far = ctx.fresh("distance")
        ren = ref(ctx, R_); ryp = ref(ctx, ry)
        found, shaded = [], []
        def hit(m, v, r, iv, dty):
            ctx.oblige("the world is asked about the ray", And(toB(v is world), same_ray(ctx, r, ry)))
            lo, hi = force(field(ctx, iv, "min")), force(field(ctx, iv, "max"))
            ctx.oblige("everything in front of the ray can be hit, nothing behind", toB(lo.k == "fin" and hi.k == "inf" and hi.p == 1))
            if lo.k == "fin": ctx.oblige("hits at the very start of a ray do not count", And(gt(lo.p), le(lo.p, Fraction(1, 100))))
            found.append(1)
            if ctx.choose(2) == 1: found.append(None); return Agg(dty, 0, [])
            h = rayhit(ctx, "rec"); found.append(h)
            return Agg(dty, 1, [h])
        def shade(m, inst, args):
            v = val(ctx, args[0])
            if not (isinstance(v, Obj) and v.k == "shader"): return NotImplemented
            r = ctx.sym(m.prog.bodies[inst]["locals"][0], "shaded")
            shaded.append((args, r)); return r
        ctx.ghost["world"] = hit; ctx.ghost["shade"] = shade
        ctx.ghost["scatter"] = lambda m, v, *a: ctx.sym(ctx.prog.ty("solstrale::material::RayScatter"), "scatter")
        res = force(m.run(inst, [ren, ryp, depth, Fin(far)]))
        a = att_of(ctx, res)
        ctx.oblige("the world is asked once", toB(len(found) == 2))
        if len(found) != 2: return
        if found[1] is None:
            ctx.oblige("nothing hit: no surface is shaded", toB(not shaded))
            ctx.oblige("nothing hit: the background colour", vec(ctx, field(ctx, a, "color")).eq(bg))
            ctx.oblige("the background is not attenuated", toB(some(ctx, field(ctx, a, "attenuation_factor")) is None))
            return
        ctx.oblige("the surface is shaded once", toB(len(shaded) == 1))
        if len(shaded) != 1: return
        g, r = shaded[0]
        ctx.oblige("the shader gets this renderer, hit, ray, depth and distance", And(toB(isinstance(g[1], Ptr) and g[1].same(ren)), same(ctx, val(ctx, g[2]), found[1]), same_ray(ctx, g[3], ry), eq(g[4], depth), flt_same(g[5], Fin(far))))
        ctx.oblige("the colour is the shader's", And(vec(ctx, field(ctx, a, "color")).eq(vec(ctx, field(ctx, r, "color"))), att_rest(ctx, a, r)))
def renderer(ctx, world, shader, bg=None, lights=None, post=None):
    """a renderer of an abstract world with an abstract shader"""
    def hook(ty, t, name):
        n = t.get("n")
        if n == "solstrale::hittable::Hittables": return world
        if n == SH + "Shaders": return shader
        if n == "solstrale::geo::vec3::Vec3" and "background" in name and bg is not None: return bg
        if n == "std::vec::Vec" and name.endswith("post_processors") and post is not None: return post
        return None
    return ctx.sym(ctx.prog.ty(RD + "Renderer"), "renderer", hook)
def surface(m):
    """the albedo, normal and simple shaders"""
    ctx = m.ctx
    ren = ref(ctx, ctx.sym(ctx.prog.ty(RD + "Renderer"), "renderer"))
    o, d, ry = ray(m)
    rec = rayhit(ctx, "rec"); mat = val(ctx, field(ctx, rec, "material"))
    asked = []
    def scatter(m, v, r, h, ls):
        ctx.oblige("the surface's own material is asked about this hit", And(toB(v is mat), same_ray(ctx, r, ry), toB(same(ctx, val(ctx, h), rec) is TRUE)))
        asked.append(force(ctx.sym(ctx.prog.ty("solstrale::material::RayScatter"), "scatter"))); return asked[-1]
    ctx.ghost["scatter"] = scatter
    depth = ctx.fresh("depth", "I"); ctx.assume(ge(depth)); ctx.assume(le(depth, MAXU))
    which = ["Albedo", "Normal"][ctx.choose(2)]
    sh = call(m, SH + which + "Shader::new")
    res = force(call(m, SHADE, ref(ctx, sh), ren, ref(ctx, rec), ref(ctx, ry), depth, Fin(ctx.fresh("far"))))
    c = vec(ctx, field(ctx, res, "color"))
    ctx.oblige("these shaders' colours are not attenuated", toB(some(ctx, field(ctx, res, "attenuation_factor")) is None))
    if which == "Normal": ctx.oblige("the normal shader reports the normal", c.eq(vec(ctx, field(ctx, rec, "normal")))); return
    ctx.oblige("the material is asked once", toB(len(asked) == 1))
    if len(asked) == 1: ctx.oblige("the albedo shader reports the surface colour", c.eq(vec(ctx, field(ctx, asked[0].fs[0], "color"))))

def register(reg):
    A = lambda key, f, props, cost=0, **kw: reg.add(Lemma(key, f, **kw), props, cost)
    def on(kind, key):
        def use(m, inst, args):
            v = val(m.ctx, args[0]); g = m.ctx.ghost.get(key)
            if g is None or not (isinstance(v, Obj) and v.k == kind): return NotImplemented
            return g(m, v, *args[1:]) if key != "world" else g(m, v, args[1], args[2], m.prog.bodies[inst]["locals"][0])
        return use
    a = reg.Abstract("<solstrale::material::Materials as solstrale::material::Material>::scatter", on("material", "scatter")); a.key += " (ghost)"; reg.add(a)
    a = reg.Abstract(HIT, on("hit", "world")); a.key += " (world)"; reg.add(a)
    a = reg.Abstract(SHADE, lambda m, inst, args: m.ctx.ghost["shade"](m, inst, args) if "shade" in m.ctx.ghost else NotImplemented); reg.add(a)
    r = RayColor(); r.assumed = True; reg.add(r)
    reg.add(Follow(), "P14")
    for ax in "xyz": A("one step of a path (%s)" % ax, lambda m, ax=ax: radiance(m, ax), "P14", 5)
    A("albedo and normal shaders", surface, "P14")
