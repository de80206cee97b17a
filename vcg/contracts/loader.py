"""P21: what an OBJ model becomes.

tobj's parsed model is arbitrary (within the assumed contract of load_obj); one face F of one mesh M is probed.  Every number of
the parsed model is an atom of its own, so that the face a new triangle is made of can be read off its corners; a list of
triangles weighs as much as it has triangles made of the probed face.  The list that the hierarchy is built of has to weigh one:
exactly one triangle per face."""
from contracts.kit import *
from contracts.optics import option
from interp import quotient
from models import pat

L = "solstrale::loader::obj::Obj"
TEX = "solstrale::material::texture::"
MAX = 1 << 30

class Tris(Seq):
    """a list of triangles"""
    def __init__(self, n, w): self.n = n; self.w = w
    def length(self): return self.n
    def get(self, ctx, i): raise Unsupported("a triangle is read back from the list")
    def set(self, ctx, i, v): raise Unsupported("a triangle of the list is replaced")
    def push(self, v): return Tris(self.n + 1, self.w + weight(v))
    def cat(self, ctx, t): return Tris(self.n + t.length(), self.w + weight(t))
    def rcat(self, ctx, s): return self.cat(ctx, s)
    def part(self, ctx, off, n):
        if off == I(0) and n == self.n: return self
        raise Unsupported("part of the list of triangles")
    def arbitrary(self, ctx, name):
        n = ctx.fresh(name + ".len", "I"); w = ctx.fresh(name + ".weight", "I"); ctx.assume(ge(n)); ctx.assume(ge(w))
        return Tris(n, w)
def weight(v):
    v = force(v)
    if isinstance(v, Obj):
        if v.k == "triangle": return v.d["w"]
        if v.k == "vec": return weight(v.d["seq"])
    if isinstance(v, Tris): return v.w
    if isinstance(v, ConcSeq):
        r = I(0)
        for x in v.xs: r = r + weight(x)
        return r
    raise Unsupported("a list of something else than triangles")
def G(m): return m.ctx.ghost.get("loader")

# ------------------------------------------------------------------ texts
def parts(ctx, v):
    v = force(v)
    while isinstance(v, Ptr): v = force(ctx.read(v))
    if isinstance(v, Str): return (("lit", v.s),)
    if isinstance(v, Obj) and v.k == "text": return v.d.get("parts")
    return None
def text(*p): return Obj("text", parts=tuple(p))
def on(f):
    return lambda m, x, a, d: f(m, x, a, d) if "loader" in m.ctx.ghost else NotImplemented
def texts():
    @pat(r"^core::fmt::rt::Argument::new_display$", first=True)
    @on
    def _(m, x, a, d): return Obj("fmt argument", parts=parts(m.ctx, a[0]))
    @pat(r"^std::fmt::Arguments::new$", first=True)
    @on
    def _(m, x, a, d):
        def conc(v):
            v = force(v)
            while isinstance(v, Ptr): v = force(m.ctx.read(v))
            return list(v.xs) if isinstance(v, ConcSeq) else None
        t, args = conc(a[0]), conc(a[1])
        if t is None or args is None: return Obj("text")
        t = [c.ival() for c in t]; args = [force(v) for v in args]
        # only templates of literal pieces (length, bytes) and plain placeholders
        out, i, n = [], 0, 0
        while i < len(t) and t[i] != 0:
            if t[i] == 0xC0:
                p = args[n].d.get("parts") if n < len(args) and isinstance(args[n], Obj) and args[n].k == "fmt argument" else None
                if p is None: return Obj("text")
                out += p; n += 1; i += 1
            elif t[i] < 0x80:
                out.append(("lit", bytes(t[i + 1:i + 1 + t[i]]).decode("utf8", "replace"))); i += 1 + t[i]
            else: return Obj("text")
        return Obj("text", parts=tuple(out))
    @pat(r"^std::fmt::format$|^<str as std::string::ToString>::to_string$|^<std::string::String as std::convert::From>::from$|^<str as std::borrow::ToOwned>::to_owned$|^<std::string::String as std::clone::Clone>::clone$|^<std::string::String as std::string::ToString>::to_string$|^std::string::String::from$|^std::string::convert::from$|^std::str::(to_string|to_owned)$", first=True)
    @on
    def _(m, x, a, d):
        p = parts(m.ctx, a[0])
        return Obj("text") if p is None else Obj("text", parts=p)
    @pat(r"^<std::string::String as std::ops::Deref>::deref$|^std::string::String::as_str$|^<std::string::String as std::convert::AsRef>::as_ref$", first=True)
    @on
    def _(m, x, a, d): return a[0]
    @pat(r"^<std::string::String as std::ops::Add>::add$", first=True)
    @on
    def _(m, x, a, d):
        p, q = parts(m.ctx, a[0]), parts(m.ctx, a[1])
        return Obj("text") if p is None or q is None else Obj("text", parts=p + q)
    @pat(r"^std::string::String::push_str$", first=True)
    @on
    def _(m, x, a, d):
        p, q = parts(m.ctx, a[0]), parts(m.ctx, a[1])
        m.ctx.write(a[0], Obj("text") if p is None or q is None else Obj("text", parts=p + q)); return Agg(d, 0, [])
    @pat(r"^<tobj::LoadOptions as std::default::Default>::default$")
    def _(m, x, a, d):
        return Agg(d, 0, [FALSE for f in m.ctx.prog.types[d]["vars"][0]["f"]])
    @pat(r"^<tobj::LoadOptions as std::clone::Clone>::clone$")
    def _(m, x, a, d): return m.ctx.read(a[0])
    @pat(r"^tobj::load_obj$")
    @on
    def _(m, x, a, d): return load_obj(m, a, d)

# ------------------------------------------------------------------ the parsed model
class Mesh:
    """one model of the file: its atoms"""
    def __init__(self, ctx, g, name):
        self.g = g; self.name = name; self.m = {}
        self.nf = ctx.fresh(name + ".faces", "I"); ctx.assume(ge(self.nf)); ctx.assume(le(self.nf, MAX))
        self.nv = ctx.fresh(name + ".vertices", "I"); ctx.assume(ge(self.nv)); ctx.assume(le(self.nv, MAX))
        self.nt = ctx.fresh(name + ".texcoords", "I"); ctx.assume(ge(self.nt)); ctx.assume(le(self.nt, MAX))
        self.mat = None
    def atom(self, ctx, kind, i):
        k = (kind, i.key())
        if k not in self.m:
            if kind in ("index", "texcoord index"):
                a = ctx.fresh("%s.%s[%r]" % (self.name, kind, i), "I")
                ctx.assume(ge(a)); ctx.assume(lt(a, self.nv if kind == "index" else self.nt)); v = a
            else:
                a = ctx.fresh("%s.%s[%r]" % (self.name, kind, i)); v = Fin(a)
            self.m[k] = (a, v); self.g["atoms"][a.key()] = (self, kind, i)
        return self.m[k][1]
    def seq(self, ctx, kind, n): return models.mkvec(SymSeq(n, lambda c, i: self.atom(c, kind, i)))
    def texcoords(self, ctx):
        if "has" not in self.m: self.m["has"] = ctx.branch(gt(self.nt))
        return self.m["has"]
    def material(self, ctx):
        """None or the id of the material"""
        if self.mat is None:
            if ctx.choose(2) == 0: self.mat = (None,)
            else:
                q = ctx.fresh(self.name + ".material", "I"); ctx.assume(ge(q)); ctx.assume(lt(q, self.g["nmat"])); self.mat = (q,)
        return self.mat[0]
    def value(self, ctx):
        if "value" in self.m: return self.m["value"]
        def f(name, ty):
            if name == "positions": return self.seq(ctx, name, 3 * self.nv)
            if name == "indices": return self.seq(ctx, "index", 3 * self.nf)
            if name == "texcoords": return lazyf(lambda: self.seq(ctx, name, 2 * self.nt))
            if name == "texcoord_indices": return lazyf(lambda: self.seq(ctx, "texcoord index", 3 * self.nf if self.texcoords(ctx) else I(0)))
            if name == "material_id":
                q = self.material(ctx)
                return Agg(ty, 0, []) if q is None else Agg(ty, 1, [q])
            return OPAQUE
        t = ctx.prog.ty("tobj::Mesh")
        mesh = Agg(t, 0, [f(n, ty) for n, ty in [x[:2] for x in ctx.prog.types[t]["vars"][0]["f"]]])
        t = ctx.prog.ty("tobj::Model")
        self.m["value"] = Agg(t, 0, [mesh if n == "mesh" else Obj("text") for n in [x[0] for x in ctx.prog.types[t]["vars"][0]["f"]]])
        return self.m["value"]
def mesh_at(ctx, g, k):
    if k.key() not in g["meshes"]:
        g["meshes"][k.key()] = g["probe"] if ctx.branch(eq(k, g["M"])) else Mesh(ctx, g, "model[%r]" % k)
    return g["meshes"][k.key()]
def mtl_at(ctx, g, k):
    """material k of the file"""
    memo = g["mtls"]
    if k.key() not in memo:
        Q = g["probe"].material(ctx)
        if Q is not None and k.key() != Q.key() and ctx.branch(eq(k, Q)): memo[k.key()] = mtl_at(ctx, g, Q); return memo[k.key()]
        t = ctx.prog.ty("tobj::Material")
        n = "material[%r]" % k
        def opt(ty, some): return lazyf(lambda: Agg(ty, 0, []) if ctx.choose(2) == 0 else Agg(ty, 1, [some()]))
        def f(name, ty):
            if name == "diffuse": return opt(ty, lambda: ConcSeq([ctx.ffin(n + ".diffuse") for i in range(3)]))
            if name in ("diffuse_texture", "normal_texture"): return opt(ty, lambda: text((name, n)))
            return OPAQUE
        memo[k.key()] = Agg(t, 0, [f(x[0], x[1]) for x in ctx.prog.types[t]["vars"][0]["f"]])
    return memo[k.key()]
def load_obj(m, a, d):
    """ASSUMED: what the parser delivers for a triangulated, multi-index file"""
    ctx = m.ctx; g = G(m); T = ctx.prog.types
    ctx.oblige("the file named by path and file name is read", toB(parts(ctx, a[0]) == (("path",), ("file",))))
    o = ctx.read(a[1])
    ctx.oblige("faces are triangulated", field(ctx, o, "triangulate"))
    ctx.oblige("every corner keeps its own indices", Not(field(ctx, o, "single_index")))
    g["loads"] += 1
    if ctx.choose(2) == 0: g["failed"] = True; return Agg(d, 1, [OPAQUE])
    tup = T[d]["vars"][0]["f"][0][1]; res = T[tup]["f"][1]
    if ctx.choose(2) == 0: g["failed"] = True; mats = Agg(res, 1, [OPAQUE])
    else: mats = Agg(res, 0, [models.mkvec(SymSeq(g["nmat"], lambda c, i: mtl_at(c, g, i)))])
    ms = models.mkvec(SymSeq(g["nmodel"], lambda c, i: mesh_at(c, g, i).value(c)))
    return Agg(d, 0, [Agg(tup, 0, [ms, mats])])

# ------------------------------------------------------------------ materials by id
def wanted(ctx, m, k):
    """colour texture and normal map that material k of the file asks for"""
    r = mtl_at(ctx, G(m), k)
    dt = force(field(ctx, r, "diffuse_texture"))
    if variant(ctx, dt) == "Some": al = image("colour", (("path",),) + parts(ctx, dt.fs[0]))
    else:
        c = force(field(ctx, r, "diffuse"))
        cs = [Fin(I(1).as_real())] * 3 if variant(ctx, c) == "None" else [force(x) for x in force(c.fs[0]).xs]
        al = call(m, TEX + "SolidColor::new", *cs)
    nt = force(field(ctx, r, "normal_texture"))
    return al, None if variant(ctx, nt) == "None" else image("normal", (("path",),) + parts(ctx, nt.fs[0]))
def image(kind, p): return Obj("texture", name="%s %r" % (kind, p), file=(kind, p))
def matches(ctx, m, args, k):
    al, no = wanted(ctx, m, k)
    got = force(args[1])
    gn = variant(ctx, got)
    return And(same(ctx, args[0], al), toB((gn == "None") == (no is None)), same(ctx, got.fs[0], no) if no is not None and gn == "Some" else TRUE)
def new_lambertian(m, inst, args):
    g = G(m); ctx = m.ctx
    if g is None: return NotImplemented
    if not ctx.guards:
        white = call(m, TEX + "SolidColor::new", *[Fin(I(1).as_real())] * 3)
        ctx.oblige("the default material is white", And(same(ctx, args[0], white), toB(variant(ctx, args[1]) == "None")))
        return mat(I(-2))
    k = ctx.guards[0][4]
    ctx.oblige("a material has the colour and the normal map that the file gives it", matches(ctx, m, args, k))
    return mat(k)
def mat(i): return Obj("material", name="material %r" % i, light=FALSE, id=i)
def mat_id(ctx, v):
    v = force(v)
    while isinstance(v, Ptr): v = force(ctx.read(v))
    return v.d["id"] if isinstance(v, Obj) and v.k == "material" and "id" in v.d else None
def file_texture(kind):
    def f(m, inst, args):
        g = G(m); ctx = m.ctx
        if g is None: return NotImplemented
        d = ctx.prog.bodies[inst]["locals"][0]
        p = parts(ctx, args[0])
        if p is None: raise Unsupported("unknown texture file")
        # one file either loads or not, as often as it is tried
        ok = g["files"].setdefault((kind, p), None)
        if ok is None: ok = g["files"][(kind, p)] = ctx.choose(2) == 1
        if not ok:
            ctx.store(g["failcell"], (), TRUE)
            return Agg(d, 1, [Obj("error")])
        return Agg(d, 0, [image(kind, p)])
    return f

class Key:
    """how the probed mesh's material reads as a key of the map's key type"""
    @staticmethod
    def is_probe(ctx, g, k, kty):
        Q = g["probe"].material(ctx)
        k = force(k)
        while isinstance(k, Ptr): k = force(ctx.read(k))
        if isinstance(k, Agg) and ctx.prog.types[k.ty].get("n") == "std::option::Option":
            if variant(ctx, k) == "None": return toB(Q is None)
            return FALSE if Q is None else eq(force(k.fs[0]), Q)
        if isinstance(k, Poly):
            if Q is not None: return eq(k, Q)
            return eq(k, -1)
        raise Unsupported("materials looked up by an unknown kind of key")
def maps():
    H = r"^std::collections::HashMap::|^<std::collections::HashMap<.*> as "
    def put(m, mp, k, v):
        ctx = m.ctx
        i = mat_id(ctx, v)
        if i is None: raise Unsupported("a map of something else than materials")
        return mp.with_(has=TRUE, mid=i) if ctx.branch(Key.is_probe(ctx, G(m), k, None)) else mp
    @pat(r"^<std::collections::HashMap<.*> as std::convert::From.*>::from$")
    @on
    def _(m, x, a, d):
        s = force(a[0])
        if not isinstance(s, ConcSeq): raise Unsupported("map of unknown entries")
        mp = Obj("map", has=FALSE, mid=I(-3))
        for e in s.xs: mp = put(m, mp, force(e).fs[0], force(e).fs[1])
        return mp
    @pat(r"^std::collections::HashMap::(new|with_capacity)$|^<std::collections::HashMap<.*> as std::default::Default>::default$")
    @on
    def _(m, x, a, d): return Obj("map", has=FALSE, mid=I(-3))
    @pat(r"^std::collections::HashMap::insert$")
    @on
    def _(m, x, a, d):
        m.ctx.write(a[0], put(m, m.ctx.read(a[0]), a[1], a[2]))
        return lazyf(lambda: Agg(d, 0, []) if m.ctx.choose(2) == 0 else Agg(d, 1, [OPAQUE]))
    @pat(r"^std::collections::HashMap::(get|contains_key)$|^<std::collections::HashMap<.*> as std::ops::Index>::index$")
    @on
    def _(m, x, a, d):
        ctx = m.ctx; mp = ctx.read(a[0])
        if ctx.branch(Key.is_probe(ctx, G(m), a[1], None)): has, i = mp.d["has"], mp.d["mid"]
        else: has, i = ctx.freshb("entry"), ctx.fresh("other material", "I")
        n = x["n"]
        if "contains_key" in n: return has
        if "ops::Index" in n: ctx.panic_check(has, "material not in the map"); return Ptr(Cell(mat(i)))
        return Agg(d, 1, [Ptr(Cell(mat(i)))]) if ctx.branch(has) else Agg(d, 0, [])
def havoc_map(v, ctx, name):
    if v.k == "map": return v.with_(has=ctx.freshb(name + ".has"), mid=ctx.fresh(name + ".id", "I"))
    return None

# ------------------------------------------------------------------ triangles
def number(ctx, g, f):
    """(mesh, kind, index) of an atom"""
    f = force(f)
    return g["atoms"].get(f.p.key()) if isinstance(f, Flt) and f.k == "fin" else None
def new_triangle(m, inst, args):
    g = G(m); ctx = m.ctx
    if g is None: return NotImplemented
    SAME = "a triangle's corners are the positions of one face's vertices"
    def bad(): ctx.oblige(SAME, FALSE); return Obj("triangle", w=I(0))
    cs = [[number(ctx, g, x) for x in force(ctx.read(v) if isinstance(v, Ptr) else v).fs[:3]] for v in args[:3]]
    if any(c is None or c[1] != "positions" for v in cs for c in v): return bad()
    M = cs[0][0][0]
    if any(c[0] is not M for v in cs for c in v): return bad()
    # the position in the list of indices that the first corner is read from
    at = [a for a in g["atoms"].values() if a[0] is M and a[1] == "index" and cs[0][0][2] == 3 * M.atom(ctx, "index", a[2])]
    if len(at) != 1: return bad()
    if M is not g["probe"]: return Obj("triangle", w=I(0))
    i = at[0][2]
    q = i * Fraction(1, 3) if all((c / 3).denominator == 1 for c in i.t.values()) else quotient(ctx, i, I(3))
    q = Poly(q.t, "I") if q.sort != "I" else q
    ctx.oblige("a triangle starts at a face's first corner", eq(3 * q, i))
    for c in range(3):
        for x in range(3): ctx.oblige(SAME, eq(cs[c][x][2], 3 * M.atom(ctx, "index", i + c) + x))
        uv = force(args[3 + c])
        for x, n in enumerate("uv"):
            t = force(field(ctx, uv, n))
            U = "a corner's texture coordinates are those of its vertex"
            if not M.texcoords(ctx): ctx.oblige(U, eq(t.p) if t.k == "fin" else FALSE); continue
            a = number(ctx, g, t)
            ctx.oblige(U, eq(a[2], 2 * M.atom(ctx, "texcoord index", i + c) + x) if a is not None and a[0] is M and a[1] == "texcoords" else FALSE)
    got = mat_id(ctx, args[6]); Q = M.material(ctx)
    ctx.oblige("a triangle has the material its group names", eq(got, Q if Q is not None else g["default"]) if got is not None else FALSE)
    t = args[7]
    ctx.oblige("a triangle is transformed by the given transformation", toB(isinstance(t, Ptr) and t.same(g["transform"])))
    return Obj("triangle", w=I(1) if ctx.branch(eq(q, g["F"])) else I(0))
def new_tree(m, inst, args):
    g = G(m); ctx = m.ctx
    if g is None: return NotImplemented
    ctx.oblige("the hierarchy holds exactly one triangle for every face", eq(weight(args[0]), 1 if g["there"] else 0))
    g["tree"] = Obj("hit", name="the hierarchy")
    return g["tree"]
def havoc_list(ctx, s, name, ety):
    if ety is not None and ctx.prog.types[ety].get("n") == "solstrale::hittable::Hittables": return Tris(I(0), I(0)).arbitrary(ctx, name)
    return None
def lw(v):
    v = force(v)
    if isinstance(v, Obj) and v.k == "vec": v = v.d["seq"]
    if isinstance(v, Tris): return v.w
    if isinstance(v, ConcSeq) and all(isinstance(force(x), Obj) and force(x).k == "triangle" for x in v.xs): return weight(v)
    return None
def outer(ctx, v, k, it, v0):
    g = ctx.ghost.get("loader")
    if g is None or k is None or lw(v) is None or lw(v0) is None: return None
    on = And(toB(g["there"]), gt(k, g["M"]))
    return Or(And(on, eq(lw(v), lw(v0) + 1)), And(Not(on), eq(lw(v), lw(v0))))
def inner(ctx, v, k, it, v0):
    g = ctx.ghost.get("loader")
    if g is None or k is None or not ctx.guards or lw(v) is None or lw(v0) is None: return None
    on = And(toB(g["there"]), eq(ctx.guards[0][4], g["M"]), gt(k, g["F"]))
    return Or(And(on, eq(lw(v), lw(v0) + 1)), And(Not(on), eq(lw(v), lw(v0))))
def entry(ctx, v, k, it, v0):
    g = ctx.ghost.get("loader")
    v, v0 = force(v), force(v0)
    if g is None or k is None or not (isinstance(v, Obj) and v.k == "map"): return None
    Q = g["probe"].material(ctx)
    old = And(Iff(v.d["has"], v0.d["has"]), eq(v.d["mid"], v0.d["mid"]))
    if Q is None: return old
    return Or(And(gt(k, Q), v.d["has"], eq(v.d["mid"], Q)), And(le(k, Q), old))
def same_map(ctx, v, k, it, v0):
    v, v0 = force(v), force(v0)
    if not (isinstance(v, Obj) and v.k == "map"): return None
    return And(Iff(v.d["has"], v0.d["has"]), eq(v.d["mid"], v0.d["mid"]))
CANDS = [Cand("the probed face's triangle is in the list once its mesh is done", outer), Cand("the probed face's triangle is in the list once the face is done", inner),
         Cand("the probed material is in the map once it is read", entry), Cand("the map stays", same_map),
         Cand("counts up by three", lambda ctx, v, k, it, v0: eq(v, v0 + 3 * k) if isinstance(v, Poly) and v.sort == "I" and k is not None and "loader" in ctx.ghost else None)]

def loading(m):
    ctx = m.ctx
    nm = ctx.fresh("models", "I"); ctx.assume(ge(nm)); ctx.assume(le(nm, MAX))
    nmat = ctx.fresh("materials", "I"); ctx.assume(ge(nmat)); ctx.assume(le(nmat, 1 << 40))
    fc = Cell(FALSE, "a texture file cannot be loaded")
    g = dict(nmodel=nm, nmat=nmat, atoms={}, meshes={}, mtls={}, files={}, failcell=fc, failed=False, loads=0, tree=None)
    ctx.ghost["loader"] = g
    ctx.ghost["cells"] = ctx.ghost.get("cells", []) + [fc]
    ctx.ghost["havoc"] = (havoc_map, havoc_list)
    M = ctx.fresh("M", "I"); ctx.assume(ge(M))
    g["M"] = M
    g["probe"] = P = Mesh(ctx, g, "model[M]")
    g["meshes"][M.key()] = P
    F = ctx.fresh("F", "I"); ctx.assume(ge(F))
    # a face that the file has, or none
    g["F"] = F; g["there"] = ctx.branch(And(lt(M, nm), lt(F, P.nf)))
    obj = call(m, L + "::new", Ptr(Cell(text(("path",)))), Ptr(Cell(text(("file",)))))
    tr = nop(ctx); g["transform"] = tr
    isM = lambda t: t.get("n") == "solstrale::material::Materials"
    given = ctx.choose(2) == 1
    g["default"] = I(-1) if given else I(-2)
    r = force(call(m, "<%s as solstrale::loader::Loader>::load" % L, ref(ctx, obj), tr, option(ctx, isM, mat(I(-1)) if given else None)))
    ctx.oblige("the file is read once", toB(g["loads"] == 1))
    if variant(ctx, r) == "Ok":
        ctx.oblige("what cannot be read gives an error", And(toB(not g["failed"]), Not(fc.v)))
        ctx.oblige("the model is the hierarchy of its triangles", toB(force(r.fs[0]) is g["tree"] and g["tree"] is not None))
    else: ctx.oblige("only what cannot be read gives an error", Or(toB(g["failed"]), fc.v))

def register(reg):
    texts(); maps()
    A = reg.Abstract
    reg.add(A("solstrale::hittable::triangle::Triangle::new_with_tex_coords", new_triangle))
    for n, f in (("solstrale::material::Lambertian::new", new_lambertian), (TEX + "ImageMap::load", file_texture("colour")), (TEX + "load_normal_texture", file_texture("normal")), ("solstrale::hittable::bvh::Bvh::new", new_tree)):
        a = A(n, f); a.key = "loader: " + n
        reg.add(a)
    reg.add(Lemma("a loaded model is exactly its triangles", loading, cands=CANDS), "P21", 5)
