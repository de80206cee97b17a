"""Builders for symbolic inputs and common specification terms."""
from spec import *
from contracts.base import V3, IV, AABB

HIT = "<solstrale::hittable::Hittables as solstrale::hittable::Hittable>::hit"
BBOX = "<solstrale::hittable::Hittables as solstrale::hittable::Hittable>::bounding_box"
LIGHTS = "<solstrale::hittable::Hittables as solstrale::hittable::Hittable>::get_lights"
PDFV = "<solstrale::hittable::Hittables as solstrale::hittable::Hittable>::pdf_value"
RDIR = "<solstrale::hittable::Hittables as solstrale::hittable::Hittable>::random_direction"
HCLONE = "<solstrale::hittable::Hittables as std::clone::Clone>::clone"

def sv(ctx, name):
    v = V(ctx.fresh(name + ".x"), ctx.fresh(name + ".y"), ctx.fresh(name + ".z"))
    return v, mkvec3(ctx, v)
def mkagg(ctx, ty, **kw):
    i = ctx.prog.ty(ty); t = ctx.prog.types[i]
    return Agg(i, 0, [kw[f[0]] for f in t["vars"][0]["f"]])
def interval(ctx, lo, hi):
    return mkagg(ctx, IV, min=lo, max=hi)
def sym_interval(ctx, name="iv"):
    """any interval: finite or infinite ends"""
    a = ctx.choose(2); b = ctx.choose(2)
    lo = Fin(ctx.fresh(name + ".min")) if a == 0 else NINF
    hi = Fin(ctx.fresh(name + ".max")) if b == 0 else PINF
    return lo, hi
def inside(lo, hi, t):
    c = []
    if lo.k == "fin": c.append(le(lo.p, t))
    if hi.k == "fin": c.append(le(t, hi.p))
    return And(*c)
def ray(m, name="r", o=None, d=None):
    ctx = m.ctx
    o, ov = sv(ctx, name + ".o") if o is None else (o, mkvec3(ctx, o))
    d, dv = sv(ctx, name + ".d") if d is None else (d, mkvec3(ctx, d))
    return o, d, call(m, "solstrale::geo::Ray::new", ov, dv)
def ref(ctx, v): return v if isinstance(v, Ptr) else Ptr(Cell(v))
def material(ctx, name="mat", light=None):
    return Obj("material", name=name, light=ctx.freshb(name + ".is_light") if light is None else light)
def nop(ctx): return ref(ctx, Obj("dyn", name="transform", ty="Transformer"))
def some(ctx, r):
    r = force(r)
    return r.fs[0] if variant(ctx, r) == "Some" else None

def register(reg):
    MAT = "<solstrale::material::Materials as solstrale::material::Material>::"
    def on_material(f):
        def use(m, inst, args):
            v = m.ctx.read(args[0]) if isinstance(args[0], Ptr) else args[0]
            if isinstance(v, Obj) and v.k == "material": return f(m, v, *args[1:])
            return NotImplemented
        return use
    class Abstract(Contract):
        """contract of an operation on abstract objects; the implementations are verified by other contracts"""
        def __init__(self, name, use): Contract.__init__(self, name, "abstract " + name); self.use = use; self.assumed = True
        def apply(self, m, inst, args): return self.use(m, inst, args)
    def transformed_normal(m, v, onb, uv):
        m.ctx.ghost["normal of"] = v; m.ctx.ghost["surface basis"] = onb
        return field(m.ctx, onb, "normal")
    reg.Abstract = Abstract; reg.on_material = on_material
    reg.add(Abstract(MAT + "get_transformed_normal", on_material(transformed_normal)))
    reg.add(Abstract(MAT + "is_light", on_material(lambda m, v: v.d["light"])))
    reg.add(Abstract("<solstrale::material::Materials as std::clone::Clone>::clone", on_material(lambda m, v: v)))
