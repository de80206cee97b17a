"""P07: constant media."""
from contracts.kit import *
from contracts.boxes import val
from contracts.tree import rayhit, find_hit

M = "solstrale::material::"
NEWM = "solstrale::hittable::constant_medium::ConstantMedium::new"
def crossing_hit(m, v, args, dty):
    """the surface of a convex object is crossed by the line at A and at B only (or not at all); a query gives the first crossing inside its interval"""
    ctx = m.ctx; c = v.d["cross"]
    r = val(ctx, args[1])
    ctx.lemma("the boundary is asked about the same ray", And(vec(ctx, field(ctx, r, "origin")).eq(c["o"]), vec(ctx, field(ctx, r, "direction")).eq(c["d"])))
    lo, hi = [force(field(ctx, args[2], k)) for k in ("min", "max")]
    if lo.k == "nan" or hi.k == "nan": return Agg(dty, 0, [])
    def ins(t):
        # an interval may also start at plus or end at minus infinity
        return And(inside(lo, hi, t), toB(not (lo.k == "inf" and lo.p == 1) and not (hi.k == "inf" and hi.p == -1)))
    for t in c["at"]:
        if ctx.branch(ins(t)):
            rec = rayhit(ctx, "crossing")
            i = [j for j, f in enumerate(ctx.prog.types[rec.ty]["vars"][0]["f"]) if f[0] == "ray_length"][0]
            return Agg(dty, 1, [Agg(rec.ty, rec.var, [Fin(t) if j == i else f for j, f in enumerate(rec.fs)])])
    return Agg(dty, 0, [])

def quotient_le(s, w, l): return [gt(l), le(s, w * l), ge(s)], And(le(div(s, l), w), ge(div(s, l)))
def quotient_gt(s, w, l): return [gt(l), gt(s, w * l)], gt(div(s, l), w)
def medium(m, at):
    ctx = m.ctx
    o, d, ry = ray(m); ctx.assume(gt(d.len2()))
    b = Obj("hit", name="boundary", w=I(1), box=None, cross={"o": o, "d": d, "at": at})
    rho = ctx.fresh("density"); ctx.assume(gt(rho))
    c, cv = sv(ctx, "color")
    s = call(m, NEWM, b, Fin(rho), cv)
    lo, hi = sym_interval(ctx)
    n0 = len(ctx.ghost.get("rnd", ()))
    res = force(call(m, HIT, ref(ctx, s), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi))))
    return o, d, rho, c, lo, hi, res, ctx.ghost.get("rnd", [])[n0:]
def misses(m):
    ctx = m.ctx
    *_, res, rnd = medium(m, [])
    ctx.oblige("rays that miss the boundary are not scattered", toB(some(ctx, res) is None))
def scatters(m):
    ctx = m.ctx
    A, B_ = ctx.fresh("A"), ctx.fresh("B")
    ctx.assume(gt(B_ - A, R(Fraction(float("0.0001")))))
    o, d, rho, c, lo, hi, res, rnd = medium(m, [A, B_])
    l = d.length()
    ctx.lemma("the direction has a positive length", gt(l))
    t0, t1 = rmax(A, R(0)), B_
    if lo.k == "fin": t0 = rmax(t0, lo.p)
    if hi.k == "fin": t1 = rmin(t1, hi.p)
    # an end of the interval may also be the wrong infinity: nothing is inside then
    L = (t1 - t0) * l
    rec = some(ctx, res)
    if rec is None:
        if ctx.branch(le(t1, t0)): return
        ctx.oblige("a way through the medium has a random free path", toB(len(rnd) == 1))
        if len(rnd) != 1: return
        free = []
        for x in (rnd[0], 1 - rnd[0]):
            y = force(models.lookup("std::intrinsics::log", {"crate": "std"})(m, None, [Fin(x)], None))
            if y.k == "fin": free.append(gt(-y.p, L * rho))
            elif y.k == "inf": free.append(TRUE)
        ctx.oblige("only a ray whose free path is longer than its way inside is not scattered", Or(*free))
        return
    t = fin(field(ctx, rec, "ray_length"))
    ctx.oblige("the free path is random", toB(len(rnd) == 1))
    if len(rnd) != 1: return
    alt = []
    for x in (rnd[0], 1 - rnd[0]):
        y = force(models.lookup("std::intrinsics::log", {"crate": "std"})(m, None, [Fin(x)], None))
        if y.k == "fin": alt.append(And(eq((t - t0) * l * rho, -y.p), le(-y.p, L * rho), ge(-y.p)))
    ctx.lemma("the ray scatters where its free path of the given density ends, not beyond its way inside", Or(*alt))
    s = (t - t0) * l
    ctx.apply_lemma(product_between, s, rho, L)
    ctx.apply_lemma(product_between, t - t0, l, t1 - t0)
    ctx.oblige("it scatters inside the interval", inside(lo, hi, t))
    ctx.oblige("it scatters inside the boundary, not before the ray's origin", And(le(A, t), le(t, B_), ge(t)))
    ctx.oblige("the scattering point is on the ray", vec(ctx, field(ctx, rec, "hit_point")).eq(o + d * t))
    mat = val(ctx, field(ctx, rec, "material"))
    ctx.oblige("the material is the isotropic phase function", toB(variant(ctx, mat).startswith("Isotropic")))
def product_between(x, k, y): return [gt(k), ge(x * k), le(x * k, y * k)], And(ge(x), le(x, y))

def register(reg):
    def hit(m, inst, args):
        v = val(m.ctx, args[0])
        if not (isinstance(v, Obj) and v.k == "hit" and "cross" in v.d): return NotImplemented
        return crossing_hit(m, v, args, m.prog.bodies[inst]["locals"][0])
    a = reg.Abstract(HIT, hit); a.key = "convex boundary"
    reg.add(a)
    reg.add(Lemma("a medium scatters along the way through its boundary", scatters), "P07")
    reg.add(Lemma("a medium is missed with its boundary", misses), "P07")
