"""P17 tone mapping, P18 texture lookup, P19 normal maps, P20 bloom."""
from contracts.kit import *
from contracts.base import mk3
from contracts.basics import ext, ext_le

RGB = "solstrale::util::rgb_color::"
def any_float(ctx, name):
    k = ctx.choose(4)
    return [lambda: Fin(ctx.fresh(name)), lambda: PINF, lambda: NINF, lambda: NAN][k]()
def bytes_of(ctx, px):
    px = force(px)
    if isinstance(px, Ptr): px = ctx.read(px)
    return force(px.fs[0]).xs
def tone(m, cols, n):
    c = Agg(m.ctx.prog.ty(V3), 0, cols)
    return bytes_of(m.ctx, call(m, RGB + "to_rgb_color", c, n))
def tone_value(which):
    def f(m):
        ctx = m.ctx
        n = ctx.fresh("samples", "I"); ctx.assume(ge(n, 1)); ctx.assume(le(n, (1 << 32) - 1))
        x = any_float(ctx, "x")
        o = [Fin(ctx.fresh("other%d" % i)) for i in range(2)]
        for p in o: ctx.assume(ge(p.p))
        b = tone(m, o[:which] + [x] + o[which:], n)
        b = b[which]
        ctx.oblige("every channel is a byte", And(ge(b), le(b, 255)))
        if x.k == "nan" or (x.k == "inf" and x.p == -1): ctx.oblige("undefined and negative values give zero", eq(b)); return
        if x.k == "inf": ctx.oblige("an average of one or more gives 255", eq(b, 255)); return
        if ctx.branch(le(x.p)): ctx.oblige("zero and negative values give zero", eq(b)); return
        avg = div(x.p, n.as_real())
        s = terms.sqrt(avg)
        B = b.as_real()
        ctx.oblige("an average of one or more gives 255", Or(lt(x.p, n.as_real()), eq(b, 255)))
        ctx.oblige("the byte is at most 256 times the square root of the average", le(B, s * 256))
        ctx.oblige("the byte is the whole part of 256 times the square root of the average", Or(lt(s * 256, B + 1), eq(b, 255)))
    return f
def tone_monotone(m):
    ctx = m.ctx
    n = ctx.fresh("samples", "I"); ctx.assume(ge(n, 1)); ctx.assume(le(n, (1 << 32) - 1))
    x, y = ctx.fresh("x"), ctx.fresh("y"); ctx.assume(ge(x)); ctx.assume(le(x, y))
    z = Fin(R(0))
    for i in range(3):
        f = lambda v: tone(m, [z] * i + [Fin(v)] + [z] * (2 - i), n)[i]
        ctx.oblige("brighter input never gives a darker byte", le(f(x), f(y)))
def tone_channels(m):
    ctx = m.ctx
    n = ctx.fresh("samples", "I"); ctx.assume(ge(n, 1)); ctx.assume(le(n, (1 << 32) - 1))
    a = [Fin(ctx.fresh("a%d" % i)) for i in range(3)]
    for p in a: ctx.assume(ge(p.p))
    i = ctx.choose(3)
    c = [a[j] if j == i else Fin(0) for j in range(3)]
    ctx.oblige("a channel does not depend on the others", eq(tone(m, a, n)[i], tone(m, c, n)[i]))

# ------------------------------------------------------------------ P18
TX = "solstrale::material::texture::"
TEX = "<solstrale::material::texture::Textures as solstrale::material::texture::Texture>::color"
def image(ctx, name="img", maxdim=(1 << 24)):
    w, h = ctx.fresh(name + ".w", "I"), ctx.fresh(name + ".h", "I")
    for v in (w, h): ctx.assume(ge(v, 1)); ctx.assume(le(v, maxdim))
    pty = models.pixel_ty(ctx.prog); known = []
    def gen(c, x, y):
        for (u, v), q in known:
            if c.lin_true(And(eq(x, u), eq(y, v))): return q
        p = models.sym_pixel(c, pty, "%s(%r,%r)" % (name, x, y))
        for (u, v), q in known:
            c.assume(Or(ne(x, u), ne(y, v), And(*[eq(s, t) for s, t in zip(bytes_of(c, p), bytes_of(c, q))])))
        known.append(((x, y), p))
        return p
    return models.mkimage(ctx, name, w, h, gen)
def uv(ctx):
    u, v = ctx.fresh("u"), ctx.fresh("v")
    return u, v, mkagg(ctx, "solstrale::geo::Uv", u=Fin(u), v=Fin(v))
TOL = R(Fraction(1, 10 ** 9))
def texel(m):
    ctx = m.ctx
    im = image(ctx)
    w, h = im.d["w"], im.d["h"]
    t = call(m, "solstrale::material::texture::ImageMap::new", Ptr(Cell(im)))
    u, v, uvv = uv(ctx)
    au = u if ctx.branch(ge(u)) else -u
    av = v if ctx.branch(ge(v)) else -v
    c = vec(ctx, call(m, TEX, ref(ctx, t), uvv))
    frac = lambda a: a - terms.floor_real(a).as_real()
    X = terms.floor_real(frac(au) * (w.as_real() - 1))
    Y = terms.floor_real((1 - frac(av)) * (h.as_real() - 1))
    ctx.lemma("the selected texel exists", And(ge(X), lt(X, w), ge(Y), lt(Y, h)))
    px = bytes_of(ctx, im.d["img"].get(ctx, X, Y))
    for n, a, b in zip("red green blue".split(), c, px):
        d = a - b.as_real().scale(Fraction(1, 255))
        ctx.oblige("the colour is that of the selected texel (%s)" % n, And(le(d, TOL), le(-d, TOL)))
def solid(m):
    ctx = m.ctx
    T = "solstrale::material::texture::SolidColor::"
    c, cv = sv(ctx, "c"); u, v, uvv = uv(ctx)
    for t in (call(m, T + "new", Fin(c.x), Fin(c.y), Fin(c.z)), call(m, T + "new_from_vec3", cv), call(m, T + "new_from_f32_array", ConcSeq([Fin(c.x), Fin(c.y), Fin(c.z)]))):
        ctx.oblige("a solid colour is the same everywhere", vec(ctx, call(m, TEX, ref(ctx, t), uvv)).eq(c))

# ------------------------------------------------------------------ P19
def probe(ctx, im):
    """an arbitrary but fixed pixel"""
    X, Y = ctx.fresh("X", "I"), ctx.fresh("Y", "I")
    w, h = im.d["w"], im.d["h"]
    for b in (ge(X), lt(X, w), ge(Y), lt(Y, h)): ctx.assume(b)
    ctx.ghost["probe"] = (X, Y, w)
    ctx.ghost["probe_index"] = Y * w + X
    ctx.lemma("the index of a pixel is below the number of pixels", lt(Y * w + X, w * h))
    return X, Y
def height(ctx, im, x, y): return bytes_of(ctx, im.d["img"].get(ctx, x, y))[0].as_real().scale(Fraction(1, 255))
def slopes(ctx, im, X, Y):
    w, h = im.d["w"], im.d["h"]
    W = X if ctx.branch(le(X)) else X - 1
    E = X if ctx.branch(ge(X, w - 1)) else X + 1
    N = Y if ctx.branch(le(Y)) else Y - 1
    S = Y if ctx.branch(ge(Y, h - 1)) else Y + 1
    H = lambda x, y: height(ctx, im, x, y)
    gx = H(E, S) - H(W, S) + (H(E, Y) - H(W, Y)) * 2 + H(E, N) - H(W, N)
    gy = H(W, N) - H(W, S) + (H(X, N) - H(X, S)) * 2 + H(E, N) - H(E, S)
    return gx, gy
def unit_component(x, y, z):
    l = V(x, y, z).length()
    return [gt(V(x, y, z).len2())], And(le(div(x, l), 1), le(-div(x, l), 1))
def unit_comp(ctx, v, c):
    o = [w for w in v if w is not c]
    ctx.apply_lemma(unit_component, c, *o)
def normal_bytes(ctx, im, X, Y, px):
    """the pixel encodes the unit normal (-gx, -gy, 1/6)"""
    gx, gy = slopes(ctx, im, X, Y)
    v = V(-gx, -gy, R(Fraction(1, 6)))
    l = v.length(); out = []
    for n, c, b in zip("xyz", v, px):
        # b <= 255 (c / (2 l) + 1/2) < b + 1
        unit_comp(ctx, v, c)
        t = div(c, l).scale(Fraction(255, 2)) + R(Fraction(255, 2))
        B = b.as_real()
        out.append((n, And(le(B, t), lt(t, B + 1))))
    return out
def by_channel(name, before):
    """loop invariants: once the loop is past the probed pixel it has the wanted bytes"""
    def mk(i):
        def f(ctx, v, k, it, v0):
            g = ctx.ghost
            if "want" not in g or k is None or not (isinstance(v, Obj) and v.k == "image"): return None
            X, Y = g["probe"][:2]
            b = before(ctx, k, X, Y)
            if b is None: return None
            return Or(b, eq(bytes_of(ctx, v.d["img"].get(ctx, X, Y))[i], g["want"][i]))
        return f
    return [Cand("%s (%s)" % (name, c), mk(i)) for i, c in enumerate(("red", "green", "blue"))]
def row_of(ctx):
    return ctx.guards[0][4] if ctx.guards else None
PIXELS = by_channel("pixels before the current one are done", lambda ctx, k, X, Y: le(k, ctx.ghost["probe_index"]))
ROWS = by_channel("rows before the current one are done", lambda ctx, k, X, Y: le(k, Y))
def _cells(ctx, k, X, Y):
    r = row_of(ctx)
    return None if r is None else Or(lt(r, Y), And(eq(r, Y), le(k, X)))
CELLS = by_channel("columns before the current one are done", _cells)
PIXELS = PIXELS + ROWS + CELLS
def normal_map(m):
    ctx = m.ctx
    im = image(ctx, "height")
    X, Y = probe(ctx, im)
    # the bytes of the encoded normal at the probe
    want = [models.sym_byte(ctx, "want." + c) for c in "xyz"]
    def on_probe():
        for n, f in normal_bytes(ctx, im, X, Y, want): ctx.assume(f)
    ctx.ghost["on_probe"] = on_probe
    ctx.ghost["height_map"] = im; ctx.ghost["want"] = want
    out = call(m, "solstrale::util::height_map::to_normal_map", im)
    out = force(out)
    ctx.oblige("the normal map has the size of the height map", And(eq(out.d["w"], im.d["w"]), eq(out.d["h"], im.d["h"])))
    px = bytes_of(ctx, out.d["img"].get(ctx, X, Y))
    for n, a, b in zip("xyz", px, want): ctx.oblige("every texel encodes the unit normal of the slopes (%s)" % n, eq(a, b))
def normal_exists(m):
    """the encoding used above exists: the normal's components scaled to bytes are in range"""
    ctx = m.ctx
    x, y = ctx.fresh("x"), ctx.fresh("y")
    v = V(x, y, R(Fraction(1, 6)))
    for c in v:
        t = div(c, v.length())
        ctx.oblige("components of a unit normal lie between -1 and 1", And(le(t, 1), le(-t, 1)))

# ------------------------------------------------------------------ image files
IR = r"^image::ImageReader::"
def reader_models():
    def step(m, d, v):
        g = m.ctx.ghost["file"]
        if m.ctx.choose(2) == 0: g["failed"] = True; return Agg(d, 1, [Obj("error")])
        return Agg(d, 0, [v])
    def on(f): return lambda m, x, a, d: f(m, a, d) if "file" in m.ctx.ghost else NotImplemented
    @models.pat(IR + r"open$")
    @on
    def _(m, a, d):
        g = m.ctx.ghost["file"]
        p = a[0]
        while isinstance(p, Ptr) and p is not g["path"]: p = m.ctx.read(p)
        m.ctx.oblige("the named file is opened", toB(p is g["path"] or p is g["path"].cell.v)); g["opened"] += 1
        return step(m, d, Obj("image reader"))
    @models.pat(IR + r"no_limits$")
    @on
    def _(m, a, d): return Agg(d, 0, []) if m.prog.types[d]["k"] == "tuple" else a[0]
    @models.pat(IR + r"with_guessed_format$")
    @on
    def _(m, a, d): return step(m, d, a[0])
    @models.pat(IR + r"decode$")
    @on
    def _(m, a, d): return step(m, d, m.ctx.ghost["file"]["image"])
def file_lemma(load, kind):
    """kind: any, normals (every pixel encodes a vector of about unit length), heights (gray, never of about unit length)"""
    def f(m):
        ctx = m.ctx
        w, h = ctx.fresh("w", "I"), ctx.fresh("h", "I")
        for q in (w, h): ctx.assume(ge(q, 1)); ctx.assume(le(q, (1 << 32) - 1))
        # larger images overflow the loader's pixel counters
        ctx.assume(le(w * h, (1 << 31) - 1))
        pty = models.pixel_ty(ctx.prog); memo = {}
        def pixel(c, x, y):
            k = (x.key(), y.key())
            if k not in memo:
                px = memo[k] = models.sym_pixel(c, pty, "file(%r,%r)" % (x, y))
                b = force(px.fs[0]).xs
                if kind == "heights": c.assume(And(eq(b[0], b[1]), eq(b[1], b[2])))
                if kind != "any":
                    l = V(*[x.as_real().scale(Fraction(1, 255)) for x in b]).length()
                    near = lt(rabs(l - R(1)), R(Fraction(49 if kind == "normals" else 51, 1000)))
                    c.assume(near if kind == "normals" else Not(near))
            return memo[k]
        im = models.mkimage(ctx, "file", w, h, pixel)
        g = ctx.ghost["file"] = dict(path=ref(ctx, Obj("text")), image=im, opened=0, failed=False)
        conv = models.mkimage(ctx, "converted", w, h)
        ctx.ghost["to_normal"] = lambda m, inst, a: conv if force(a[0]) is im else NotImplemented
        r = force(call(m, load, g["path"]))
        ctx.oblige("the file is opened once", toB(g["opened"] == 1))
        ctx.oblige("an image is loaded exactly when it can be read", toB((variant(ctx, r) == "Ok") == (not g["failed"])))
        if variant(ctx, r) != "Ok": return
        t = force(r.fs[0])
        want = force(call(m, TX + "ImageMap::new", Ptr(Cell(conv if kind == "heights" else im))))
        ctx.oblige({"any": "the texture is the image", "normals": "an image that is already a normal map is kept", "heights": "a height map is converted"}[kind], same(ctx, t, want))
    return f
def count_cands():
    poly = lambda v: isinstance(v, Poly) and v.sort == "I"
    return [Cand("grows by at most one a time", lambda ctx, v, k, it, v0: And(ge(v, v0), le(v, v0 + k)) if poly(v) and k is not None and "file" in ctx.ghost else None),
            Cand("stays as it is", lambda ctx, v, k, it, v0: eq(v, v0) if poly(v) and "file" in ctx.ghost else None)]

def register(reg):
    reader_models()
    reg.add(reg.Abstract("solstrale::util::height_map::to_normal_map", lambda m, i, a: m.ctx.ghost["to_normal"](m, i, a) if "to_normal" in m.ctx.ghost else NotImplemented))
    reg.add(Lemma("an image file becomes a texture", file_lemma(TX + "ImageMap::load", "any")), "P18 P21")
    reg.add(Lemma("a normal map file", file_lemma(TX + "load_normal_texture", "normals"), cands=count_cands()), "P19 P21")
    reg.add(Lemma("a height map file", file_lemma(TX + "load_normal_texture", "heights"), cands=count_cands()), "P19 P21")
    def norm3(c, a):
        v = V(*[fin(x) for x in force(a).xs]); l = v.length()
        for x in v: unit_comp(c, v, x)
        return ConcSeq([Fin(div(x, l)) for x in v])
    reg.add(Def("solstrale::util::height_map::normalize", norm3, pre=lambda c, a: gt(V(*[fin(x) for x in force(a).xs]).len2())))
    A = lambda key, f, props, cost=0, **kw: reg.add(Lemma(key, f, **kw), props, cost)
    for i, c in enumerate(("red", "green", "blue")): A("tone mapping of " + c, tone_value(i), "P17")
    A("tone mapping is monotone", tone_monotone, "P17"); A("tone mapping of channels", tone_channels, "P17")
    A("image texture lookup", texel, "P18"); A("solid colour", solid, "P18")
    A("normal map of a height map", normal_map, "P19", 5, cands=PIXELS); A("normals can be encoded", normal_exists, "P19")
