"""P23 vector and interval algebra, P08 transformations, P10 camera, P11 samplers."""
from contracts.kit import *
from contracts.base import val, mk3

# ------------------------------------------------------------------ P23
def ext(ctx, name):
    """any interval end: finite or infinite"""
    k = ctx.choose(3)
    return [Fin(ctx.fresh(name)), PINF, NINF][k] if k else Fin(ctx.fresh(name))
def ext_le(a, b):
    if a.k == "fin" and b.k == "fin": return le(a.p, b.p)
    x = a.p * 1 if a.k == "inf" else 0; y = b.p * 1 if b.k == "inf" else 0
    return toB(x <= y)
def ext_eq(a, b): return And(ext_le(a, b), ext_le(b, a))
def bounds(ctx, i): return force(field(ctx, i, "min")), force(field(ctx, i, "max"))

def iv_contains(m):
    ctx = m.ctx
    lo, hi = ext(ctx, "lo"), ext(ctx, "hi"); x = ctx.fresh("x")
    r = call(m, IV + "::contains", ref(ctx, interval(ctx, lo, hi)), Fin(x))
    ctx.oblige("an interval contains exactly the numbers between its ends", Iff(r, And(ext_le(lo, Fin(x)), ext_le(Fin(x), hi))))
def iv_clamp(m):
    ctx = m.ctx
    lo, hi = ext(ctx, "lo"), ext(ctx, "hi"); x = ctx.fresh("x"); X = Fin(x)
    ctx.assume(ext_le(lo, hi)); ctx.assume(toB(not (lo.k == "inf" and lo.p == 1) and not (hi.k == "inf" and hi.p == -1)))
    r = force(call(m, IV + "::clamp", ref(ctx, interval(ctx, lo, hi)), X))
    ctx.oblige("clamping a contained number keeps it", Implies(And(ext_le(lo, X), ext_le(X, hi)), ext_eq(r, X)))
    ctx.oblige("clamping from below gives the lower end", Or(ext_le(lo, X), ext_eq(r, lo)))
    ctx.oblige("clamping from above gives the upper end", Or(ext_le(X, hi), ext_eq(r, hi)))
def iv_combine(m):
    ctx = m.ctx
    a, b, c, d = [ext(ctx, n) for n in ("a.min", "a.max", "b.min", "b.max")]
    r = call(m, "solstrale::util::interval::combine_intervals", interval(ctx, a, b), interval(ctx, c, d))
    lo, hi = bounds(ctx, r)
    ctx.oblige("the combination starts at the smaller lower end", And(ext_le(lo, a), ext_le(lo, c), Or(ext_eq(lo, a), ext_eq(lo, c))))
    ctx.oblige("the combination ends at the larger upper end", And(ext_le(b, hi), ext_le(d, hi), Or(ext_eq(hi, b), ext_eq(hi, d))))
def iv_shift(m):
    ctx = m.ctx
    lo, hi = ctx.fresh("lo"), ctx.fresh("hi"); x = ctx.fresh("x")
    i = lambda: interval(ctx, Fin(lo), Fin(hi))
    for op, s in (("Add", 1), ("Sub", -1)):
        a, b = bounds(ctx, call(m, "<%s as std::ops::%s<f64>>::%s" % (IV, op, op.lower()), i(), Fin(x)))
        ctx.oblige("shifting an interval moves both ends", And(eq(fin(a), lo + x * s), eq(fin(b), hi + x * s)))
    a, b = bounds(ctx, call(m, IV + "::expand", ref(ctx, i()), Fin(x)))
    ctx.oblige("expanding an interval moves each end by half the amount", And(eq(fin(a), lo - x.scale(Fraction(1, 2))), eq(fin(b), hi + x.scale(Fraction(1, 2)))))
    ctx.oblige("the size is the distance of the ends", eq(fin(call(m, IV + "::size", ref(ctx, i()))), hi - lo))
    e = call(m, IV + "::new", Fin(lo), Fin(hi))
    a, b = bounds(ctx, e)
    ctx.oblige("a new interval has the given ends", And(eq(fin(a), lo), eq(fin(b), hi)))
def vec_rest(m):
    ctx = m.ctx
    a, av = sv(ctx, "a"); b, bv = sv(ctx, "b")
    k = ctx.choose(4)
    if k == 0:
        p = ref(ctx, av)
        call(m, "<%s as std::ops::AddAssign>::add_assign" % V3, p, bv)
        ctx.oblige("adding in place is addition", vec(ctx, p).eq(a + b))
        r = vec(ctx, call(m, V3 + "::new", Fin(a.x), Fin(a.y), Fin(a.z)))
        ctx.oblige("a new vector has the given components", r.eq(a))
    elif k == 1:
        ax = ctx.fresh("axis", "I"); ctx.assume(ge(ax)); ctx.assume(le(ax, 2))
        r = fin(call(m, V3 + "::axis", ref(ctx, av), ax))
        ctx.oblige("axis 0, 1, 2 are the x, y, z components", And(*[Implies(eq(ax, i), eq(r, c)) for i, c in enumerate(a)]))
    elif k == 2:
        ctx.assume(gt(a.len2()))
        u = vec(ctx, call(m, V3 + "::unit", ref(ctx, av)))
        l = a.length()
        ctx.oblige("the unit vector has length one", eq(u.len2(), 1))
        ctx.oblige("the unit vector has the direction of the vector", And(*[eq(x * l, y) for x, y in zip(u, a)]))
    else:
        for c in b: ctx.assume(ne(c))
        r = vec(ctx, call(m, "<%s as std::ops::Div>::div" % V3, av, bv))
        ctx.oblige("division by a vector is component-wise", And(*[eq(x * y, z) for x, y, z in zip(r, b, a)]))
        z = call(m, V3 + "::near_zero", ref(ctx, av))
        e = Fraction(float("1e-8"))
        ctx.oblige("near zero means that all components are below 1e-8", Iff(z, And(*[lt(rabs(c), R(e)) for c in a])))

# ------------------------------------------------------------------ P08
XF = "solstrale::geo::transformation::"
def tr(m, t, v, skip):
    """transform v by the transformation value t of the real code"""
    ctx = m.ctx
    n = ctx.prog.types[force(t).ty]["n"]
    return vec(ctx, call(m, "<%s as %sTransformer>::transform" % (n, XF), ref(ctx, t), mk3(ctx, v), toB(skip)))
def trans_translation(m):
    ctx = m.ctx
    o, ov = sv(ctx, "offset"); v, _ = sv(ctx, "v")
    t = call(m, XF + "Translation::new", ov)
    ctx.oblige("translation moves points by its offset", tr(m, t, v, False).eq(v + o))
    ctx.oblige("translation leaves directions unchanged", tr(m, t, v, True).eq(v))
def trans_scale(m):
    ctx = m.ctx
    s = ctx.fresh("s"); v, _ = sv(ctx, "v")
    t = call(m, XF + "Scale::new", Fin(s))
    for sk in (False, True): ctx.oblige("scaling multiplies coordinates", tr(m, t, v, sk).eq(v * s))
    nt = Agg(ctx.prog.ty(XF + "NopTransformer"), 0, [])
    for sk in (False, True): ctx.oblige("the neutral transformation changes nothing", tr(m, nt, v, sk).eq(v))
def trans_rot(axis):
    def f(m):
        ctx = m.ctx
        a = ctx.fresh("angle"); v, _ = sv(ctx, "v"); w, _ = sv(ctx, "w")
        t = call(m, XF + "Rotation%s::new" % axis, Fin(a))
        rad = Fin(a * (models.PI / 180))
        s, c = fin(models.m_sin_cos(ctx, "sin", rad)), fin(models.m_sin_cos(ctx, "cos", rad))
        want = {"X": V(v.x, v.y * c + v.z * s, v.z * c - v.y * s), "Y": V(v.x * c + v.z * s, v.y, v.z * c - v.x * s),
                "Z": V(v.x * c + v.y * s, v.y * c - v.x * s, v.z)}[axis]
        for sk in (False, True):
            r = tr(m, t, v, sk)
            ctx.oblige("rotation turns by the angle about its axis", r.eq(want))
            ctx.oblige("rotation keeps lengths", eq(r.len2(), v.len2()))
            ctx.oblige("rotation keeps angles", eq(r.dot(tr(m, t, w, sk)), v.dot(w)))
    return f
def chain(ctx, k):
    """the image after the first k transformations"""
    memo = ctx.ghost.setdefault("W", {})
    if k.key() not in memo:
        w = sv(ctx, "W%d" % len(memo))[0]
        for j, u in memo.values(): ctx.assume(Or(ne(j, k), u.eq(w)))
        memo[k.key()] = (k, w)
    return memo[k.key()][1]
def step(ctx, idx, v, skip):
    """the abstract transformation number idx: maps the image after idx steps to the image after idx+1"""
    memo = ctx.ghost.setdefault("step", {})
    key = (idx.key(), v.x.key(), v.y.key(), v.z.key())
    if key not in memo:
        r = memo[key] = sv(ctx, "st%d" % len(memo))[0]
        w, w1 = chain(ctx, idx), chain(ctx, idx + 1)
        ctx.assume(Or(Not(And(v.eq(w), toB(skip == ctx.ghost["skip"]))), r.eq(w1)))
    return memo[key]
def inv_chain(ctx, v, k, it, v0):
    v, v0 = force(v), force(v0)
    if "W" not in ctx.ghost or k is None or not isinstance(v, Agg) or ctx.prog.types[v.ty].get("n") != V3: return None
    return vec(ctx, v).eq(chain(ctx, k))
def trans_seq(m):
    ctx = m.ctx
    n = ctx.fresh("n", "I"); ctx.assume(ge(n)); ctx.assume(le(n, I(1 << 40)))
    sk = ctx.ghost["skip"] = ctx.choose(2) == 1
    seq = SymSeq(n, lambda c, i: Ptr(Cell(Obj("dyn", name="T", ty="Transformer", idx=i))))
    v = chain(ctx, I(0))
    r = tr(m, call(m, XF + "Transformations::new", models.mkvec(seq)), v, sk)
    ctx.oblige("a sequence of transformations applies its parts in list order", r.eq(chain(ctx, n)))

# ------------------------------------------------------------------ P11
def rnd_only(p):
    """a non-trivial polynomial over random draws: zero with probability zero"""
    if p.is_const(): return False
    for a in p.atoms():
        at = Atom.table[a]
        if at.name.startswith("rnd#") or at.name == "rnd": continue
        if at.sem and at.sem[0] == "sqrt" and rnd_only(at.sem[1]): continue
        return False
    return True
def null_event(ctx):
    """the path condition confines the random draws to a set of probability zero"""
    if any(f.k == "eq" and rnd_only(f.a[0]) for f in ctx.pc): return True
    # a sample of the ball (its density is bounded) hits a single point with probability zero
    b = ctx.ghost.get("ball")
    return b is not None and ctx.is_true(eq(b.len2())) is True
def finite_vec(ctx, v):
    v = val(ctx, v)
    return all(force(f).k == "fin" for f in v.fs)
def almost_surely(ctx, v):
    """the vector, unless the path has probability zero"""
    if not finite_vec(ctx, v) and null_event(ctx): raise PathEnd()
    return vec(ctx, v)
RV = "solstrale::geo::vec3::"
def samplers(m):
    ctx = m.ctx
    k = ctx.choose(6)
    if k == 0:
        v = almost_surely(ctx, call(m, RV + "random_in_unit_sphere"))
        ctx.oblige("a sample of the unit sphere lies inside it", lt(v.len2(), 1))
    elif k == 1:
        v = almost_surely(ctx, call(m, RV + "random_unit_vector"))
        ctx.oblige("a random unit vector has length one", eq(v.len2(), 1))
    elif k == 2:
        v = almost_surely(ctx, call(m, RV + "random_in_unit_disc"))
        ctx.oblige("a disc sample lies in the unit disc", And(lt(v.len2(), 1), eq(v.z)))
    elif k == 3:
        v = almost_surely(ctx, call(m, RV + "random_cosine_direction"))
        ctx.oblige("a cosine weighted direction has length one", eq(v.len2(), 1))
        ctx.oblige("a cosine weighted direction lies in the upper half space", ge(v.z))
        r = ctx.ghost.get("rnd", [])
        ctx.oblige("the squared height of a cosine weighted direction is uniform", Or(*[Or(eq(v.z * v.z, x), eq(v.z * v.z, 1 - x)) for x in r]))
    elif k == 4:
        lo, hi = ctx.fresh("lo"), ctx.fresh("hi"); ctx.assume(lt(lo, hi))
        v = vec(ctx, call(m, RV + "random_vec3", Fin(lo), Fin(hi)))
        for c in v: ctx.oblige("random components respect their interval", And(le(lo, c), lt(c, hi)))
    else:
        lo, hi = ctx.fresh("lo"), ctx.fresh("hi"); ctx.assume(lt(lo, hi))
        x = fin(call(m, "solstrale::random::random_float", Fin(lo), Fin(hi)))
        ctx.oblige("random numbers respect their interval", And(le(lo, x), lt(x, hi)))
        x = fin(call(m, "solstrale::random::random_normal_float"))
        ctx.oblige("random numbers respect their interval", And(le(R(0), x), lt(x, 1)))
        n = ctx.fresh("n", "I"); ctx.assume(ge(n, 1)); ctx.assume(le(n, (1 << 32) - 1))
        i = call(m, "solstrale::random::random_uint32", n)
        ctx.oblige("random integers respect their bound", And(ge(i), lt(i, n)))
def element_index(m):
    ctx = m.ctx
    n = ctx.fresh("n", "I"); ctx.assume(ge(n, 1)); ctx.assume(le(n, (1 << 40)))
    s = SymSeq(n, lambda c, i: Obj("any"))
    i = call(m, "solstrale::random::random_element_index", Ptr(Cell(s), (), (I(0), n)))
    ctx.oblige("a random element index is an index", And(ge(i), lt(i, n)))
def onb(m):
    ctx = m.ctx
    w, wv = sv(ctx, "w"); ctx.assume(gt(w.len2()))
    o = call(m, "solstrale::geo::Onb::new", wv)
    t, b, n = [vec(ctx, field(ctx, o, f)) for f in ("tangent", "bi_tangent", "normal")]
    l = w.length()
    for nm, v in (("normal", n), ("bi-tangent", b), ("tangent", t)):
        ctx.lemma("the %s of a basis has length one" % nm, eq(v.len2(), 1))
    ctx.oblige("the normal of a basis is the given direction", And(*[eq(x * l, y) for x, y in zip(n, w)]))
    for nm, x, y in (("tangent and bi-tangent", t, b), ("tangent and normal", t, n), ("bi-tangent and normal", b, n)):
        ctx.oblige("%s are orthogonal" % nm, eq(x.dot(y)))
def onb_local(m):
    ctx = m.ctx
    (t, tv), (b, bv), (n, nv), (a, av) = sv(ctx, "t"), sv(ctx, "b"), sv(ctx, "n"), sv(ctx, "a")
    o = mkagg(ctx, "solstrale::geo::Onb", tangent=tv, bi_tangent=bv, normal=nv)
    r = vec(ctx, call(m, "solstrale::geo::Onb::local", ref(ctx, o), av))
    ctx.oblige("local coordinates are the combination of the axes", r.eq(t * a.x + b * a.y + n * a.z))

PDF = "<solstrale::pdf::Pdfs as solstrale::pdf::Pdf>::"
def cosine_about(m):
    ctx = m.ctx
    w, wv = sv(ctx, "w"); ctx.assume(gt(w.len2()))
    p = call(m, "solstrale::pdf::CosinePdf::new", wv)
    d = almost_surely(ctx, call(m, PDF + "generate", ref(ctx, p)))
    n = w.unit()
    c = ctx.ghost.get("cosdir")
    ctx.lemma("a cosine weighted direction about a normal has length one", eq(d.len2(), 1))
    if c is not None:
        ctx.lemma("the height over the surface is the height of the sample", eq(d.dot(n), c.z))
        ctx.oblige("a cosine weighted direction lies on the outer side of its normal", ge(c.z))
    else: ctx.oblige("a cosine weighted direction lies on the outer side of its normal", ge(d.dot(n)))
def cosdir_make(c):
    v, r = sv(c, "cosdir"); c.ghost["cosdir"] = v
    return r
def cosdir_ens(c, args, r):
    v = almost_surely(c, r)
    return [("a cosine weighted direction has length one", eq(v.len2(), 1)), ("a cosine weighted direction lies in the upper half space", ge(v.z))]
def sphere_about(m):
    ctx = m.ctx
    p = call(m, "solstrale::pdf::SpherePdf::new")
    d = almost_surely(ctx, call(m, PDF + "generate", ref(ctx, p)))
    ctx.oblige("a uniformly distributed direction has length one", eq(d.len2(), 1))

# ------------------------------------------------------------------ P10
def product_positive(a, b): return [gt(a * b), gt(b)], gt(a)
def camera(m):
    ctx = m.ctx
    W, H = ctx.fresh("width", "I"), ctx.fresh("height", "I")
    for x in (W, H): ctx.assume(ge(x, 1)); ctx.assume(le(x, (1 << 40)))
    fov, ap = ctx.fresh("fov"), ctx.fresh("aperture")
    (fr, frv), (up, upv) = sv(ctx, "look_from"), sv(ctx, "up")
    g, _ = sv(ctx, "view")              # look_from - look_at
    at = fr - g
    ctx.assume(gt(g.len2())); ctx.assume(gt(up.len2())); ctx.assume(gt(up.cross(g).len2()))
    cfg = mkagg(ctx, "solstrale::camera::CameraConfig", vertical_fov_degrees=Fin(fov), aperture_size=Fin(ap), look_from=frv, look_at=mk3(ctx, at), up=upv)
    f = g.length(); l = up.length()
    w = g.unit()
    uu = up.unit().cross(w)
    ctx.lemma("the cross product of the unit vectors scales with the lengths", eq(uu.len2() * (up.len2() * g.len2()), up.cross(g).len2()))
    ctx.apply_lemma(product_positive, uu.len2(), up.len2() * g.len2())
    cam = call(m, "solstrale::camera::Camera::new", W, H, ref(ctx, cfg))
    a, b = ctx.fresh("u"), ctx.fresh("v")
    ry = call(m, "solstrale::camera::Camera::get_ray", ref(ctx, cam), mkagg(ctx, "solstrale::geo::Uv", u=Fin(a), v=Fin(b)))
    o, d = vec(ctx, field(ctx, ry, "origin")), vec(ctx, field(ctx, ry, "direction"))
    u = uu.unit()
    v = w.cross(u)
    tan = models.uf("tan", fov * (models.PI / 360))[0]
    hgt = tan * f * 2
    wid = hgt * div(W.as_real(), H.as_real())
    half = R(Fraction(1, 2))
    P = fr - w * f + u * (wid * (a - half)) + v * (hgt * (b - half))
    return dict(o=o, d=d, fr=fr, at=at, w=w, u=u, v=v, ap=ap, P=P, uu=uu, g=g)
def camera_focus(m):
    ctx = m.ctx
    c = camera(m)
    for ax in "xyz":
        ctx.oblige("the ray passes through the selected point of the focus plane (%s)" % ax, eq(getattr(c["o"], ax) + getattr(c["d"], ax), getattr(c["P"], ax)))
def camera_lens(m):
    ctx = m.ctx
    c = camera(m)
    off = c["o"] - c["fr"]
    if ctx.branch(le(c["ap"])):
        ctx.oblige("without aperture the ray starts in the eye point", off.eq(V(0, 0, 0)))
        return
    ctx.lemma("right is a unit vector", eq(c["u"].len2(), 1))
    ctx.lemma("backward is a unit vector", eq(c["w"].len2(), 1))
    ctx.lemma("right is orthogonal to backward", eq(c["u"].dot(c["w"])))
    ctx.lemma("the frame's up is a unit vector", eq(c["v"].len2(), 1))
    ctx.oblige("the lens is perpendicular to the view direction", eq(off.dot(c["w"])))
    # the lens offset is half the aperture times a sample of the unit disc
    rs = ctx.ghost.get("disc")
    if rs is None: rs = [r * 2 - 1 for r in ctx.ghost.get("rnd", [])[-2:]]
    if len(rs) != 2: ctx.oblige("two random numbers select the lens point", FALSE); return
    q = rs[0] * rs[0] + rs[1] * rs[1]
    ctx.oblige("the lens point is half the aperture times a disc sample away from the eye point", eq(off.len2() * 4, c["ap"] * c["ap"] * q))
    ctx.oblige("the lens sample lies inside the unit disc", le(q, 1))
def disc_make(c):
    v, r = sv(c, "disc")
    c.ghost["disc"] = [v.x, v.y]
    return r
def disc_ens(c, args, r):
    v = vec(c, r)
    return [("a disc sample lies in the unit disc", And(lt(v.len2(), 1), eq(v.z)))]

def register(reg):
    reg.add(Ens(RV + "random_in_unit_disc", disc_make, disc_ens))
    for k, c in list(reg.contracts.items()):
        if isinstance(c, Def) and ("vec3" in k and "reflect" not in k or "Interval" in k): c.props = ["P23"]
    A = lambda key, f, props, cost=0, **kw: reg.add(Lemma(key, f, **kw), props, cost)
    A("Interval::contains", iv_contains, "P23"); A("Interval::clamp", iv_clamp, "P23"); A("interval hull", iv_combine, "P23"); A("interval shift and expand", iv_shift, "P23")
    A("vector remaining operations", vec_rest, "P23")
    A("Translation", trans_translation, "P08"); A("Scale and neutral", trans_scale, "P08")
    for a in "XYZ": A("Rotation" + a, trans_rot(a), "P08")
    A("Transformations apply in order", trans_seq, "P08", cands=[Cand("image after k steps", inv_chain)])
    A("sampler domains", samplers, "P11", no_contract=[RV + "random_cosine_direction", RV + "random_in_unit_disc"]); A("random element index", element_index, "P11")
    A("Onb::new is orthonormal", onb, "P11", 10); A("Onb::local", onb_local, "P11")
    reg.add(Ens(RV + "random_cosine_direction", cosdir_make, cosdir_ens))
    A("cosine weighted directions about a normal", cosine_about, "P11"); A("uniform directions", sphere_about, "P11")
    A("camera rays meet the focus plane", camera_focus, "P10", 5); A("camera lens", camera_lens, "P10", 5)
