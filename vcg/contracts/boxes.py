from contracts.kit import *

PAD = Fraction(float("0.0001"))
def ivs(ctx, b):
    b = val(ctx, b)
    out = []
    for ax in ("x", "y", "z"):
        i = field(ctx, b, ax)
        out.append((fin(field(ctx, i, "min")), fin(field(ctx, i, "max"))))
    return out
def val(ctx, v):
    v = force(v)
    while isinstance(v, Ptr): v = ctx.read(v)
    return v
def mkbox(ctx, name="box"):
    iv = lambda a: mkagg(ctx, IV, min=Fin(ctx.fresh("%s.%s.min" % (name, a))), max=Fin(ctx.fresh("%s.%s.max" % (name, a))))
    return mkagg(ctx, AABB, x=iv("x"), y=iv("y"), z=iv("z"))
def box_of(ctx, bounds):
    iv = lambda b: mkagg(ctx, IV, min=Fin(b[0]), max=Fin(b[1]))
    return mkagg(ctx, AABB, x=iv(bounds[0]), y=iv(bounds[1]), z=iv(bounds[2]))
def contains(bs, p): return And(*[And(le(lo, c), le(c, hi)) for (lo, hi), c in zip(bs, p)])

def pad_ens(ctx, args, r):
    a, b = ivs(ctx, args[0]), ivs(ctx, r)
    out = []
    for (l, h), (l2, h2), ax in zip(a, b, "xyz"):
        out.append(("padding keeps the %s extent" % ax, And(le(l2, l), le(h, h2))))
        out.append(("the padded %s extent is not degenerate" % ax, Or(gt(l, h), ge(h2 - l2, R(PAD)))))
    return out
def combine_ens(ctx, args, r):
    a, b, c = ivs(ctx, args[0]), ivs(ctx, args[1]), ivs(ctx, r)
    return [("combination is the hull of the %s extents" % ax, And(eq(l3, rmin(l1, l2)), eq(h3, rmax(h1, h2))))
            for (l1, h1), (l2, h2), (l3, h3), ax in zip(a, b, c, "xyz")]

def register(reg):
    reg.add(Ens(AABB + "::pad_if_needed", lambda c, b: mkbox(c, "padded"), pad_ens))
