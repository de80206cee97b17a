"""P01, P02, P03: bounding boxes and the bounding volume hierarchy.

An arbitrary non-negative integer weight is attached to every object of the list; a tree weighs what the objects in its leaves
weigh together.  That construction keeps the weight for every choice of weights says that every object is in exactly one leaf."""
from contracts.kit import *
from contracts.boxes import *
from contracts.bloom import Ghost

BVH = "solstrale::hittable::bvh::Bvh"
HITTABLES = "solstrale::hittable::Hittables"
BHIT = "<%s as solstrale::hittable::Hittable>::" % BVH

# ------------------------------------------------------------------ abstract objects and lists of them
def elem(ctx, name, w=None):
    w = ctx.fresh(name + ".weight", "I") if w is None else w
    ctx.assume(ge(w))
    o = Obj("hit", name=name, w=w, box=None)
    return o
def box_value(ctx, o):
    """the bounding box of an abstract object or subtree; when it weighs anything it contains the two ghost points"""
    if o.d["box"] is None:
        o.d["box"] = mkbox(ctx, o.d["name"] + ".box")
        for p in ctx.ghost.get("pts", ()):
            ctx.assume(Or(eq(o.d["w"]), contains(ivs(ctx, o.d["box"]), p)))
    return o.d["box"]
class Bag(SymSeq):
    """a list of abstract objects with the prefix sums of their weights"""
    __slots__ = ("ctx", "P", "off", "cells", "pts", "name", "root")
    def __init__(self, ctx, n, name, total=None, base=None, off=None):
        SymSeq.__init__(self, n, None)
        self.ctx = ctx; self.name = name; self.root = self      # lists with the same root are permutations of each other
        if base is None:
            self.off = I(0); self.cells = {}; self.pts = []
            self.P = {}
            self.at(I(0)); self.P[I(0).key()] = I(0)
            if total is not None: self.P[n.key()] = total
            self.at(n)
        else:
            self.off = off; self.cells = base.cells; self.pts = base.pts; self.P = base.P
            self.at(off); self.at(off + n)
    def at(self, i):
        """weight of the first i objects"""
        k = i.key()
        if k not in self.P: self.P[k] = I(0) if i.is_const() and i.ival() == 0 else self.ctx.fresh(self.name + ".prefix", "I")
        v = self.P[k]
        if not any(j == i for j, _ in self.pts):
            for j, u in self.pts:
                self.ctx.assume(Or(gt(j, i), le(u, v))); self.ctx.assume(Or(gt(i, j), le(v, u)))
            self.pts.append((i, v))
            self.ctx.assume(Or(lt(i), ge(v)))
        return v
    def total(self): return self.at(self.off + self.len) - self.at(self.off)
    def get(self, ctx, i):
        j = self.off + i; k = j.key()
        if k not in self.cells:
            e = elem(ctx, "%s[%r]" % (self.name, j))
            self.cells[k] = e
            a, b = self.at(j), self.at(j + 1)
            ctx.assume(eq(b - a, e.d["w"]))
        return self.cells[k]
    def part(self, ctx, off, n):
        if off == I(0) and n == self.len: return self
        return Bag(ctx, n, self.name, base=self, off=self.off + off)
    def permuted(self, ctx):
        b = Bag(ctx, self.len, self.name + "'", total=self.total()); b.root = self.root
        return b
    def cat(self, ctx, t):
        return Bag(ctx, self.len + t.length(), self.name + "+", total=self.total() + weight(ctx, t))
    def rcat(self, ctx, s): return self.cat(ctx, s)
    def push(self, v): return self.cat(self.ctx, ConcSeq([v]))
    def set(self, ctx, i, v): raise Unsupported("replacing an object of a list")
def weight(ctx, v):
    """weight of all objects in a value"""
    v = force(v)
    if isinstance(v, Obj):
        if v.k in ("hit", "tree"): return v.d["w"]
        if v.k == "vec": return weight(ctx, v.d["seq"])
        return I(0)
    if isinstance(v, Bag): return v.total()
    if isinstance(v, ConcSeq): return isum(weight(ctx, x) for x in v.xs)
    if isinstance(v, Seq): raise Unsupported("weight of an unknown list")
    if isinstance(v, Agg): return isum(weight(ctx, f) for f in v.fs)
    if isinstance(v, Ptr): return weight(ctx, ctx.read(v))
    return I(0)
def isum(xs):
    r = I(0)
    for x in xs: r = r + x
    return r
def small_lists(ctx, b):
    """the definition of the sum for lists of up to three objects"""
    for k in (1, 2, 3):
        if ctx.lin_true(eq(b.len, k)) is True:
            ctx.assume(eq(b.total(), isum(b.get(ctx, I(i)).d["w"] for i in range(k))))
            return
def bag(ctx, name="list", least=0):
    n = ctx.fresh(name + ".len", "I"); ctx.assume(ge(n, least)); ctx.assume(le(n, 1 << 48))
    return Bag(ctx, n, name)
def tree(ctx, name, w):
    t = Obj("tree", name=name, w=w, box=None)
    box_value(ctx, t)
    ty = ctx.prog.types[ctx.prog.ty(BVH)]
    for i, f in enumerate(ty["vars"][0]["f"]):
        if ctx.prog.types[f[1]].get("n") == AABB: t.d["f%d" % i] = t.d["box"]
    return t
def sym_tree(ctx, name="tree"):
    """any node of a hierarchy that satisfies the invariant; its subtrees are abstract"""
    bt = ctx.prog.ty(BVH)
    def hook(ty, t, nm):
        n = t.get("n")
        if n == HITTABLES: return elem(ctx, nm)
        if n == AABB: return mkbox(ctx, nm)
        if n == BVH and nm != name:
            w = ctx.fresh(nm + ".weight", "I"); ctx.assume(ge(w))
            return tree(ctx, nm, w)
        return None
    v = ctx.sym(bt, name, hook)
    w = weight(ctx, v)
    b = [f for f in v.fs if isinstance(force(f), Agg) and ctx.prog.types[force(f).ty].get("n") == AABB]
    for p in ctx.ghost.get("pts", ()):
        for x in b: ctx.assume(Or(eq(w), contains(ivs(ctx, x), p)))
    return v, w
def node_box(ctx, v):
    v = val(ctx, v)
    if isinstance(v, Obj): return v.d["box"]
    return [force(f) for f in v.fs if isinstance(force(f), Agg) and ctx.prog.types[force(f).ty].get("n") == AABB][0]
def points(ctx): ctx.ghost["pts"] = [sv(ctx, "P1")[0], sv(ctx, "P2")[0]]

def on_objects(f, kinds=("hit",)):
    def use(m, inst, args):
        v = val(m.ctx, args[0])
        if isinstance(v, Obj) and v.k in kinds: return f(m, v, *args[1:])
        return NotImplemented
    return use

# ------------------------------------------------------------------ construction
class Build(BySig):
    """every function of the module that turns a non-empty list of objects into a hierarchy"""
    def __init__(self): BySig.__init__(self, "construction of a hierarchy from a list")
    def matches(self, prog, i, name):
        b = prog.bodies[i]; T = prog.types
        if not name.startswith("solstrale::hittable::bvh::") or T[b["locals"][0]].get("n") != BVH: return False
        return any(self.is_list(T, b["locals"][j + 1]) for j in range(b["argc"]))
    def is_list(self, T, ty):
        t = T[ty]
        while t["k"] in ("ref", "ptr"): t = T[t["p"]]
        if t["k"] == "slice": return T[t["e"]].get("n") == HITTABLES
        return t.get("n") == "std::vec::Vec" and T[t["args"][0]].get("n") == HITTABLES
    def list_of(self, ctx, a):
        a = force(a)
        if isinstance(a, Ptr):
            try: s, off, n = ctx.slice_of(a)
            except Unsupported: return None
            return s.part(ctx, off, n) if isinstance(s, Bag) else None
        if isinstance(a, Obj) and a.k == "vec" and isinstance(a.d["seq"], Bag): return a.d["seq"]
        return None
    def apply(self, m, inst, args):
        ctx = m.ctx
        b = [x for x in (self.list_of(ctx, a) for a in args) if x is not None]
        if len(b) != 1: return NotImplemented
        b = b[0]
        ctx.lemma("a hierarchy is built from at least one object", ge(b.len, 1))
        if "measure" in ctx.ghost: ctx.lemma("the recursion gets a strictly shorter list", lt(b.len, ctx.ghost["measure"]))
        k = ctx.names.get("tree", 0); ctx.names["tree"] = k + 1
        return tree(ctx, "tree%d" % k, b.total())
    def check(self, m, inst):
        ctx = m.ctx
        ctx.ghost["anyfloat"] = 1
        points(ctx)
        body = ctx.prog.bodies[inst]; b = bag(ctx, least=1); ctx.ghost["measure"] = b.len
        args = []
        for j in range(body["argc"]):
            ty = body["locals"][j + 1]
            if self.is_list(ctx.prog.types, ty):
                if ctx.prog.types[ty]["k"] == "ref":
                    e = ctx.prog.types[ctx.prog.types[ty]["p"]]["k"]
                    args.append(Ptr(Cell(b, "list"), (), (I(0), b.len)) if e == "slice" else ref(ctx, models.mkvec(b)))
                else: args.append(models.mkvec(b))
            else: args.append(ctx.sym(ty, "a%d" % j))
        r = m.run(inst, args)
        small_lists(ctx, b)
        ctx.oblige("every object of the list is in exactly one leaf", eq(weight(ctx, r), b.total()))
        bx = ivs(ctx, node_box(ctx, r))
        for p in ctx.ghost["pts"]: ctx.oblige("the box of a group contains the boxes of its members", Or(eq(b.total()), contains(bx, p)))

def sort_model(m, x, a, d):
    ctx = m.ctx; p = a[0]; s, off, n = ctx.slice_of(p)
    if not isinstance(s, Bag) or not (off == I(0) and n == s.len): return NotImplemented
    if ctx.choose(2) == 1:
        # the comparison is a total order: three arbitrary elements
        memo = ctx.ghost.setdefault("finite boxes", True)
        e = [elem(ctx, "e%d" % i) for i in range(3)]
        def cmp(i, j):
            r = force(m.call_value(a[1], [ref(ctx, e[i]), ref(ctx, e[j])]))
            return int(ctx.prog.types[r.ty]["vars"][r.var]["d"])
        sg = lambda v: v - 256 if v > 127 else v
        ab, ba = sg(cmp(0, 1)), sg(cmp(1, 0))
        ctx.oblige("the sort order is antisymmetric", toB(ab == -ba))
        bc, ac = sg(cmp(1, 2)), sg(cmp(0, 2))
        ctx.oblige("the sort order is transitive", toB(not (ab <= 0 and bc <= 0) or ac <= 0))
        raise PathEnd()
    ns = s.permuted(ctx)
    q = p.path[:-1] if p.path and p.path[-1] == ("v",) else p.path
    ctx.store(p.cell, p.path, ns)
    return Agg(d, 0, [])

def build_all(m, name="list"):
    ctx = m.ctx
    b = bag(ctx, name)
    return b, call(m, BVH + "::new", models.mkvec(b))
def keeps(m):
    ctx = m.ctx
    b, t = build_all(m)
    ctx.oblige("every object of the list is in exactly one leaf", eq(weight(ctx, t), b.total()))
    l = force(call(m, LIGHTS, ref(ctx, t)))
    ctx.oblige("the lights of the tree are the lights of the list, with their multiplicity", eq(weight(ctx, l), b.total()))
def empty(m):
    ctx = m.ctx
    t = call(m, BVH + "::new", models.mkvec(ConcSeq([])))
    l = force(call(m, LIGHTS, ref(ctx, t)))
    ctx.oblige("an empty hierarchy has no light", eq(l.d["seq"].length()))
    o, d, ry = ray(m); ctx.assume(gt(d.len2()))
    lo, hi = sym_interval(ctx)
    r = call(m, HIT, ref(ctx, t), ref(ctx, ry), ref(ctx, interval(ctx, lo, hi)))
    ctx.oblige("an empty hierarchy is never hit", toB(some(ctx, r) is None))
def copies(m):
    ctx = m.ctx
    v, w = sym_tree(ctx)
    c = call(m, "<%s as std::clone::Clone>::clone" % BVH, ref(ctx, v))
    ctx.oblige("a copy holds the same objects", eq(weight(ctx, c), w))
    ctx.oblige("a copy has the same box", same(ctx, node_box(ctx, c), node_box(ctx, v)))
def group_box(m):
    ctx = m.ctx; points(ctx)
    b, t = build_all(m)
    bx = ivs(ctx, val(ctx, call(m, BBOX, ref(ctx, t)))) if ctx.branch(gt(b.total())) else None
    if bx: 
        for p in ctx.ghost["pts"]: ctx.oblige("the box of a group contains the boxes of its members", contains(bx, p))

class TreeLights(Contract):
    def __init__(self): Contract.__init__(self, BHIT + "get_lights", "lights of a hierarchy")
    def apply(self, m, inst, args):
        t = val(m.ctx, args[0])
        if not (isinstance(t, Obj) and t.k == "tree"): return NotImplemented
        n = m.ctx.fresh("lights.len", "I"); m.ctx.assume(ge(n))
        return models.mkvec(Bag(m.ctx, n, "lights", total=t.d["w"]))
    def check(self, m, inst):
        ctx = m.ctx
        v, w = sym_tree(ctx)
        l = force(m.run(inst, [ref(ctx, v)]))
        ctx.oblige("the lights are those of all leaves", eq(weight(ctx, l), w))

# ------------------------------------------------------------------ queries
def rayhit(ctx, name):
    t = [i for i in ctx.prog.tyname["solstrale::material::RayHit"]][0]
    def hook(ty, tt, nm):
        if tt.get("n") == "solstrale::material::Materials": return material(ctx, nm)
        return None
    return ctx.sym(t, name, hook)
def find_hit(m, w, name, ry, iv, dty):
    """a query against an abstract object or subtree of weight w"""
    ctx = m.ctx; g = ctx.ghost["query"]
    r = val(ctx, ry)
    ctx.lemma("the members are asked about the same ray", And(vec(ctx, field(ctx, r, "origin")).eq(g["o"]), vec(ctx, field(ctx, r, "direction")).eq(g["d"])))
    lo, hi = [force(field(ctx, iv, k)) for k in ("min", "max")]
    t = g["t"]
    must = And(gt(w), inside(lo, hi, t)) if lo.k != "nan" and hi.k != "nan" else FALSE
    oty = dty
    if ctx.choose(2) == 1:
        if g["mode"] == "nearest": ctx.assume(Not(must))
        return Agg(oty, 0, [])
    rec = rayhit(ctx, "hit of " + name)
    rt = fin(field(ctx, rec, "ray_length"))
    ctx.assume(inside(lo, hi, rt))
    if g["mode"] == "nearest": ctx.assume(Or(Not(must), le(rt, t)))
    else: ctx.assume(gt(w))
    g["records"].append((rec, lo, hi))
    return Agg(oty, 1, [rec])
def query(ctx, mode):
    o, ov = sv(ctx, "r.o"); d, dv = sv(ctx, "r.d")
    lo, hi = sym_interval(ctx)
    t, t1, t2 = ctx.fresh("t"), ctx.fresh("t1"), ctx.fresh("t2")
    ctx.assume(lt(t1, t2))
    if lo.k == "fin": ctx.assume(Or(ge(t1, lo.p), ge(t1)))
    points(ctx)
    g = ctx.ghost["query"] = {"o": o, "d": d, "t": t, "t1": t1, "mode": mode, "records": [], "lo": lo, "hi": hi}
    return o, d, g
def answer(ctx, g, res, w):
    """the obligations on the result of a query against a collection of weight w"""
    lo, hi, t = g["lo"], g["hi"], g["t"]
    rec = some(ctx, res)
    if rec is not None:
        ctx.oblige("the reported hit lies in the interval", inside(lo, hi, fin(field(ctx, rec, "ray_length"))))
        ctx.oblige("the reported hit is the complete hit record of a member", Or(*[same(ctx, rec, r) for r, _, _ in g["records"]]))
        if g["mode"] == "any": ctx.oblige("a hit is reported only when a member is hit", gt(w))
    if g["mode"] == "nearest":
        ctx.assume(inside(lo, hi, t)); ctx.assume(gt(w))
        if rec is None: ctx.oblige("no member's hit is missed", FALSE)
        else: ctx.oblige("no member is hit before the reported hit", le(fin(field(ctx, rec, "ray_length")), t))
def sym_ray(ctx, g):
    r = ctx.prog.ty("solstrale::geo::Ray"); t = ctx.prog.types[r]
    fs = {"origin": mkvec3(ctx, g["o"]), "direction": mkvec3(ctx, g["d"])}
    return Agg(r, 0, [fs[f[0]] if f[0] in fs else ctx.sym(f[1], "r." + f[0]) for f in t["vars"][0]["f"]])
class TreeHit(Contract):
    def __init__(self): Contract.__init__(self, BHIT + "hit", "query of a hierarchy")
    def apply(self, m, inst, args):
        t = val(m.ctx, args[0])
        if not (isinstance(t, Obj) and t.k == "tree"): return NotImplemented
        return find_hit(m, t.d["w"], t.d["name"], args[1], args[2], m.prog.bodies[inst]["locals"][0])
    def check(self, m, inst):
        ctx = m.ctx
        o, d, g = query(ctx, ["nearest", "any"][ctx.choose(2)])
        v, w = sym_tree(ctx)
        res = force(m.run(inst, [ref(ctx, v), ref(ctx, sym_ray(ctx, g)), ref(ctx, interval(ctx, g["lo"], g["hi"]))]))
        answer(ctx, g, res, w)
def nearest(m):
    ctx = m.ctx
    o, d, g = query(ctx, ["nearest", "any"][ctx.choose(2)])
    b, t = build_all(m)
    res = force(call(m, HIT, ref(ctx, t), ref(ctx, sym_ray(ctx, g)), ref(ctx, interval(ctx, g["lo"], g["hi"]))))
    answer(ctx, g, res, b.total())

# ------------------------------------------------------------------ the ray-box test
class BoxTest(BySig):
    """every method of the box that tests a ray, for parameters at or above the given minimum (zero without one)"""
    def __init__(self): BySig.__init__(self, "ray-box test")
    def matches(self, prog, i, name):
        b = prog.bodies[i]; T = prog.types
        if T[b["locals"][0]]["k"] != "bool" or b["argc"] not in (2, 3): return False
        ty = [T[b["locals"][j + 1]] for j in range(b["argc"])]
        if ty[0]["k"] != "ref" or T[ty[0]["p"]].get("n") != AABB or ty[1]["k"] != "ref" or T[ty[1]["p"]].get("n") != "solstrale::geo::Ray": return False
        return len(ty) == 2 or ty[2]["k"] == "float"
    def apply(self, m, inst, args):
        ctx = m.ctx; g = ctx.ghost.get("query")
        if g is None: return NotImplemented
        r = val(ctx, args[1])
        if ctx.known(And(vec(ctx, field(ctx, r, "origin")).eq(g["o"]), vec(ctx, field(ctx, r, "direction")).eq(g["d"]))) is not True: return NotImplemented
        bx = val(ctx, args[0])
        if not leaves_fin(ctx, bx): return NotImplemented
        mn = force(args[2]) if len(args) > 2 else Fin(0)
        res = ctx.freshb("crossed")
        low = le(mn.p, g["t1"]) if mn.k == "fin" else toB(mn.k == "inf" and mn.p == -1)
        ctx.assume(Or(Not(And(low, *[contains(ivs(ctx, bx), p) for p in ctx.ghost["pts"]])), res))
        return res
    def check(self, m, inst):
        body = m.prog.bodies[inst]
        box_test(m, lambda b, r, mn: m.run(inst, [b, r] + ([mn] if body["argc"] == 3 else [])), body["argc"] == 3)
def same_sign(v, x): return [gt(v), ge(v * x)], ge(x)
def box_test(m, test, has_min):
    ctx = m.ctx
    o, ov = sv(ctx, "r.o")
    side = ctx.choose(2)
    ds, slabs, bs, dirs = [], [], [], []
    for ax, oc in zip("xyz", o):
        k = ctx.choose(3)
        dirs.append(k)
        if k == 0:
            # parallel to the slab: the direction component is zero
            a, b = ctx.fresh("box.%s.min" % ax), ctx.fresh("box.%s.max" % ax)
            ds.append(R(0)); slabs.append(None); bs.append((oc + a, oc + b)); ctx.assume(le(a, b)); bs[-1] += (a, b)
            continue
        s, e = ctx.fresh("enter." + ax), ctx.fresh("leave." + ax)
        ctx.assume(le(s, e))
        v = ctx.fresh("speed." + ax); ctx.assume(gt(v))
        dd = v if k == 1 else -v
        ds.append(dd); slabs.append((s, e))
        bs.append((oc + dd * s, oc + dd * e) if k == 1 else (oc + dd * e, oc + dd * s))
    if all(s is None for s in slabs): raise PathEnd()
    ry = call(m, "solstrale::geo::Ray::new", ov, mkvec3(ctx, V(*ds)))
    bx = box_of(ctx, [b[:2] for b in bs])
    mn = Fin(0)
    if has_min: mn = Fin(ctx.fresh("min")) if ctx.choose(2) == 0 else NINF
    low = lambda t: le(mn.p, t) if mn.k == "fin" else TRUE
    def literal(i, t): return And(le(bs[i][0], o.comps()[i] + ds[i] * t), le(o.comps()[i] + ds[i] * t, bs[i][1]))
    if side == 0:
        t1, t2 = ctx.fresh("t1"), ctx.fresh("t2")
        ctx.assume(lt(t1, t2)); ctx.assume(low(t1))
        for t in (t1, t2):
            for i in range(3):
                ctx.assume(literal(i, t))
                if slabs[i] is None: ctx.lemma("inside a slab parallel to the ray", And(le(bs[i][2]), ge(bs[i][3])))
                else:
                    # inside a slab between entering and leaving it
                    v = ds[i] if dirs[i] == 1 else -ds[i]
                    ctx.apply_lemma(same_sign, v, t - slabs[i][0]); ctx.apply_lemma(same_sign, v, slabs[i][1] - t)
        r = test(ref(ctx, bx), ref(ctx, ry), mn)
        ctx.oblige("a ray that crosses the box is accepted", r)
    else:
        r = test(ref(ctx, bx), ref(ctx, ry), mn)
        if not ctx.branch(r): return
        t = None
        for s in slabs:
            if s is not None: t = s[0] if t is None else rmax(t, s[0])
        if mn.k == "fin": t = rmax(t, mn.p)
        ctx.oblige("an accepted ray reaches the box at the parameter where it has entered all slabs", And(low(t), *[And(le(bs[i][2]), ge(bs[i][3])) if slabs[i] is None else And(le(slabs[i][0], t), le(t, slabs[i][1])) for i in range(3)]))

# ------------------------------------------------------------------ the boxes of the shapes
def under(r, x):
    """a coordinate of a point of the surface of a sphere"""
    return [ge(r), le(x * x, r * r)], And(le(x, r), le(-r, x))
def shape_box(m, s): return ivs(m.ctx, val(m.ctx, call(m, BBOX, ref(m.ctx, s))))
def sphere_box(m):
    from contracts.sphere import sphere
    ctx = m.ctx
    c, r, mat, s = sphere(m)
    p, _ = sv(ctx, "p")
    ctx.assume(eq((p - c).len2(), r * r))
    b = shape_box(m, s)
    for (lo, hi), x, cc in zip(b, p, c):
        ctx.apply_lemma(under, r, x - cc)
        ctx.oblige("every point of the sphere is in its box", And(le(lo, x), le(x, hi)))
def above_corners(lo, x, u, v, a, b):
    return [ge(a), le(a, 1), ge(b), le(b, 1), le(lo, x), le(lo, x + u), le(lo, x + v), le(lo, x + u + v)], le(lo, x + u * a + v * b)
def above_vertices(lo, x, u, v, a, b):
    return [ge(a), ge(b), le(a + b, 1), le(lo, x), le(lo, x + u), le(lo, x + v)], le(lo, x + u * a + v * b)
def hull(ctx, box, lemma, Q, U, W, a, b):
    for (lo, hi), x, u, v in zip(box, Q, U, W):
        ctx.apply_lemma(lemma, lo, x, u, v, a, b)
        ctx.apply_lemma(lemma, -hi, -x, -u, -v, a, b)
        ctx.oblige("every point of the shape is in its box", And(le(lo, x + u * a + v * b), le(x + u * a + v * b, hi)))
        ctx.oblige("the box has a positive thickness", gt(hi - lo))
def quad_box(m):
    from contracts.planar import quad
    ctx = m.ctx
    Q, U, W, n, mat, s = quad(m)
    a, b = ctx.fresh("a"), ctx.fresh("b")
    for x in (a, b): ctx.assume(le(R(0), x)); ctx.assume(le(x, R(1)))
    hull(ctx, shape_box(m, s), above_corners, Q, U, W, a, b)
def triangle_box(m):
    from contracts.planar import triangle
    ctx = m.ctx
    (A, B, C), _, n, mat, s = triangle(m)
    a, b = ctx.fresh("a"), ctx.fresh("b")
    for x in (a, b): ctx.assume(ge(x))
    ctx.assume(le(a + b, R(1)))
    hull(ctx, shape_box(m, s), above_vertices, A, B - A, C - A, a, b)
def medium_box(m):
    ctx = m.ctx
    b = elem(ctx, "boundary")
    s = call(m, "solstrale::hittable::constant_medium::ConstantMedium::new", b, Fin(ctx.fresh("density")), sv(ctx, "color")[1])
    ctx.oblige("the box of a medium is that of its boundary", same(ctx, val(ctx, call(m, BBOX, ref(ctx, s))), box_value(ctx, b)))
def box_ops(m):
    ctx = m.ctx
    k = ctx.choose(4)
    p, pv = sv(ctx, "p"); q, qv = sv(ctx, "q"); r, rv = sv(ctx, "r")
    if k in (0, 1):
        b = ivs(ctx, call(m, AABB + "::new_from_2_points", pv, qv) if k == 0 else call(m, AABB + "::new_from_3_points", pv, qv, rv))
        ps = (p, q) if k == 0 else (p, q, r)
        for i, (lo, hi) in enumerate(b):
            xs = [x.comps()[i] for x in ps]
            ctx.oblige("a box made from points is exactly their hull", And(Or(*[eq(lo, x) for x in xs]), Or(*[eq(hi, x) for x in xs]), *[And(le(lo, x), le(x, hi)) for x in xs]))
    elif k == 2:
        a, b = mkbox(ctx, "a"), mkbox(ctx, "b")
        for n, f in combine_ens(ctx, [a, b], call(m, AABB + "::combine", ref(ctx, a), ref(ctx, b))): ctx.oblige(n, f)
    else:
        a = mkbox(ctx, "a")
        c = [i for i in ctx.prog.bodies if ctx.prog.insts[i]["n"].startswith("<&") and ctx.prog.insts[i]["n"].endswith("Add<solstrale::geo::vec3::Vec3>>::add") and "Aabb" in ctx.prog.insts[i]["n"]]
        if len(c) != 1: raise Unsupported("shift of a box")
        b = m.call(c[0], [ref(ctx, a), pv], None)
        for (l, h), (l2, h2), x in zip(ivs(ctx, a), ivs(ctx, b), p): ctx.oblige("shifting a box moves it", And(eq(l2, l + x), eq(h2, h + x)))
def padding(m):
    ctx = m.ctx
    a = mkbox(ctx, "a")
    for n, f in pad_ens(ctx, [a], call(m, AABB + "::pad_if_needed", ref(ctx, a))): ctx.oblige(n, f)

def register(reg):
    A = lambda key, f, props, cost=0, **kw: reg.add(Lemma(key, f, **kw), props, cost)
    reg.add(Build(), "")
    reg.add(TreeLights(), "")
    reg.add(TreeHit(), "")
    reg.add(BoxTest(), "P02", 30)
    def bbox(m, v):
        return ref(m.ctx, box_value(m.ctx, v))
    def lights(m, v):
        ctx = m.ctx
        n = v.d["lights"] if "lights" in v.d else ctx.fresh("lights.len", "I"); ctx.assume(ge(n))
        return models.mkvec(Bag(ctx, n, "lights of " + v.d["name"], total=v.d["w"]))
    reg.add(reg.Abstract(BBOX, on_objects(bbox)))
    reg.add(reg.Abstract(LIGHTS, on_objects(lights)))
    reg.add(reg.Abstract(HCLONE, on_objects(lambda m, v: v)))
    reg.add(reg.Abstract("<%s as std::clone::Clone>::clone" % BVH, on_objects(lambda m, v: v, ("tree",))))
    def hit(m, inst, args):
        v = val(m.ctx, args[0])
        if not (isinstance(v, Obj) and v.k == "hit" and "query" in m.ctx.ghost): return NotImplemented
        return find_hit(m, v.d["w"], v.d["name"], args[1], args[2], m.prog.bodies[inst]["locals"][0])
    reg.add(reg.Abstract(HIT, hit))
    A("the hierarchy finds the nearest hit", nearest, "P01")
    A("the hierarchy keeps every object and light", keeps, "P03 P22")
    A("the empty hierarchy", empty, "P03")
    A("copies of a hierarchy", copies, "P03")
    A("the box of a hierarchy", group_box, "P02")
    reg.add(Lemma("Sphere box", sphere_box), "P02"); reg.add(Lemma("Quad box", quad_box), "P02"); reg.add(Lemma("Triangle box", triangle_box), "P02")
    reg.add(Lemma("constant medium box", medium_box), "P02"); reg.add(Lemma("box operations", box_ops), "P02"); reg.add(Lemma("padding", padding), "P02")
