"""Definitional contracts on the small value types every property depends on."""
from spec import *

V3 = "solstrale::geo::vec3::Vec3"
IV = "solstrale::util::interval::Interval"
AABB = "solstrale::geo::Aabb"

def val(ctx, v):
    v = force(v)
    while isinstance(v, Ptr): v = ctx.read(v)
    return v
def mk3(ctx, v): return mkvec3(ctx, v)
def flt(ctx, v): return fin(val(ctx, v))

def register(reg):
    def D(name, spec, pre=None): reg.add(Def(name, spec, pre))
    v2 = lambda f: (lambda c, a, b: mk3(c, f(vec(c, a), vec(c, b))))
    D("<%s as std::ops::Add>::add" % V3, v2(lambda a, b: a + b))
    D("<%s as std::ops::Sub>::sub" % V3, v2(lambda a, b: a - b))
    D("<%s as std::ops::Mul>::mul" % V3, v2(lambda a, b: V(a.x * b.x, a.y * b.y, a.z * b.z)))
    D("<%s as std::ops::Mul<f64>>::mul" % V3, lambda c, a, t: mk3(c, vec(c, a) * fin(t)))
    D("<%s as std::ops::Mul<f32>>::mul" % V3, lambda c, a, t: mk3(c, vec(c, a) * fin(t)))
    D("<%s as std::ops::Add<f64>>::add" % V3, lambda c, a, t: mk3(c, vec(c, a) + V(fin(t), fin(t), fin(t))))
    D("<%s as std::ops::Sub<f64>>::sub" % V3, lambda c, a, t: mk3(c, vec(c, a) - V(fin(t), fin(t), fin(t))))
    D("<%s as std::ops::Div<f64>>::div" % V3, lambda c, a, t: mk3(c, V(*[div(x, fin(t)) for x in vec(c, a)])), pre=lambda c, a, t: ne(fin(t)))
    D(V3 + "::neg", lambda c, a: mk3(c, -vec(c, a)))
    D(V3 + "::dot", lambda c, a, b: Fin(vec(c, a).dot(vec(c, b))))
    D(V3 + "::cross", lambda c, a, b: mk3(c, vec(c, a).cross(vec(c, b))))
    D(V3 + "::length_squared", lambda c, a: Fin(vec(c, a).len2()))
    D(V3 + "::length", lambda c, a: Fin(vec(c, a).length()))
    D(V3 + "::reflect", lambda c, a, n: mk3(c, vec(c, a) - vec(c, n) * (vec(c, a).dot(vec(c, n)) * 2)))
    D("solstrale::geo::Ray::at", lambda c, r, t: mk3(c, vec(c, field(c, r, "origin")) + vec(c, field(c, r, "direction")) * fin(t)))
    D(IV + "::size", lambda c, a: Fin(flt(c, field(c, a, "max")) - flt(c, field(c, a, "min"))))
    D("solstrale::util::degrees_to_radians", lambda c, d: Fin(fin(d) * (models.PI / 180)))
