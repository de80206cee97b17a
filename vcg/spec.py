"""Contracts and helpers to write specifications."""
from engine import *
from interp import Machine, Cand, idiv
import engine, models, terms

class V:
    """specification-level vector of reals"""
    __slots__ = ("x", "y", "z")
    def __init__(self, x, y, z): self.x, self.y, self.z = R(x), R(y), R(z)
    def __add__(s, o): return V(s.x + o.x, s.y + o.y, s.z + o.z)
    def __sub__(s, o): return V(s.x - o.x, s.y - o.y, s.z - o.z)
    def __neg__(s): return V(-s.x, -s.y, -s.z)
    def __mul__(s, k): return V(s.x * k, s.y * k, s.z * k)
    def dot(s, o): return s.x * o.x + s.y * o.y + s.z * o.z
    def cross(s, o): return V(s.y * o.z - s.z * o.y, s.z * o.x - s.x * o.z, s.x * o.y - s.y * o.x)
    def len2(s): return s.dot(s)
    def length(s): return terms.sqrt(s.len2())
    def eq(s, o): return And(eq(s.x, o.x), eq(s.y, o.y), eq(s.z, o.z))
    def comps(s): return (s.x, s.y, s.z)
    def __iter__(s): return iter((s.x, s.y, s.z))
    def unit(s):
        l = s.length(); return V(div(s.x, l), div(s.y, l), div(s.z, l))

class NotFinite(Exception): pass
def fin(v):
    v = force(v)
    if not isinstance(v, Flt): raise Unsupported("float expected, got %r" % (v,))
    if v.k != "fin": raise NotFinite()
    return v.p
def vec(ctx, v):
    v = force(v)
    if isinstance(v, Ptr): v = ctx.read(v)
    return V(*[fin(f) for f in v.fs[:3]])
def is_fin(v):
    v = force(v)
    return v.k == "fin"
def mkvec3(ctx, v): return Agg(ctx.prog.ty("solstrale::geo::vec3::Vec3"), 0, [Fin(v.x), Fin(v.y), Fin(v.z)])
def field(ctx, v, name):
    v = force(v)
    while isinstance(v, Ptr): v = ctx.read(v)
    if isinstance(v, Obj): return v.d[name]
    t = ctx.prog.types[v.ty]
    for i, f in enumerate(t["vars"][v.var]["f"]):
        if f[0] == name: return force(v.fs[i])
    raise Unsupported("no field %s in %s" % (name, t["n"]))
def has_field(ctx, ty, name):
    return any(f[0] == name for f in ctx.prog.types[ty]["vars"][0]["f"])
def variant(ctx, v):
    v = force(v)
    if isinstance(v, Ptr): v = ctx.read(v)
    return ctx.prog.types[v.ty]["vars"][v.var]["n"]

def same(ctx, a, b):
    """structural equality of values (as a formula)"""
    if a is b: return TRUE
    a, b = force(a), force(b)
    if a is b: return TRUE
    if isinstance(a, Flt) and isinstance(b, Flt):
        if a.k != b.k: return FALSE
        if a.k == "fin": return eq(a.p, b.p)
        return toB(a.k == "nan" or a.p == b.p)
    if isinstance(a, Poly) and isinstance(b, Poly): return eq(a, b)
    if isinstance(a, B) and isinstance(b, B): return Iff(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var != b.var or len(a.fs) != len(b.fs): return FALSE
        return And(*[same(ctx, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.same(b): return TRUE
        return same(ctx, ctx.read(a), ctx.read(b))
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b: return TRUE
        if a.k == b.k == "vec": return same(ctx, a.d["seq"], b.d["seq"])
        if a.k == b.k and a.d.get("name") and a.d.get("name") == b.d.get("name"): return TRUE
        return FALSE
    if isinstance(a, ConcSeq) and isinstance(b, ConcSeq):
        if len(a.xs) != len(b.xs): return FALSE
        return And(*[same(ctx, x, y) for x, y in zip(a.xs, b.xs)])
    if a is b: return TRUE
    if isinstance(a, FnVal) and isinstance(b, FnVal): return TRUE
    return FALSE

Ctx.same = same
def leaves_fin(ctx, v, depth=0):
    if isinstance(v, Lazy):
        if v.val is None: return False
        v = force(v)
    if isinstance(v, Flt): return v.k == "fin"
    if isinstance(v, Agg): return all(leaves_fin(ctx, f, depth) for f in v.fs)
    if isinstance(v, Ptr) and depth < 2: return leaves_fin(ctx, v.cell.v if not v.path else ctx.read(v), depth + 1)
    if isinstance(v, ConcSeq): return all(leaves_fin(ctx, f, depth) for f in v.xs)
    return True

class Contract:
    """a contract on every instance of the function(s) called `name`"""
    root = False
    def __init__(self, name, key=None):
        self.name = name; self.key = key or name
        self.optional = True
    def insts(self, prog): return prog.find(self.name)
    def apply(self, m, inst, args): return NotImplemented
    def check(self, m, inst): raise NotImplementedError

class Def(Contract):
    """the function returns exactly spec(ctx, *args) for all finite arguments satisfying pre"""
    def __init__(self, name, spec, pre=None):
        Contract.__init__(self, name)
        self.spec = spec; self.pre = pre
    def apply(self, m, inst, args):
        if not all(leaves_fin(m.ctx, a) for a in args): return NotImplemented
        if self.pre:
            p = self.pre(m.ctx, *args)
            if m.ctx.known(p) is not True: return NotImplemented
        return self.spec(m.ctx, *args)
    def check(self, m, inst):
        ctx = m.ctx
        b = ctx.prog.bodies[inst]
        args = [ctx.sym(b["locals"][i + 1], "a%d" % i) for i in range(b["argc"])]
        if self.pre: ctx.assume(self.pre(ctx, *args))
        want = self.spec(ctx, *args)
        got = m.run(inst, args)
        ctx.oblige("result equals the specified value", same(ctx, got, want))

class Ens(Contract):
    """for finite arguments satisfying pre: a result of the given shape (make) with ensures(ctx, args, result)"""
    def __init__(self, name, make, ensures, pre=None):
        Contract.__init__(self, name)
        self.make = make; self.ensures = ensures; self.pre = pre
    def apply(self, m, inst, args):
        if not all(leaves_fin(m.ctx, a) for a in args): return NotImplemented
        if self.pre and m.ctx.known(self.pre(m.ctx, *args)) is not True: return NotImplemented
        r = self.make(m.ctx, *args)
        for n, f in self.ensures(m.ctx, args, r): m.ctx.assume(f)
        return r
    def check(self, m, inst):
        ctx = m.ctx
        b = ctx.prog.bodies[inst]
        args = [ctx.sym(b["locals"][i + 1], "a%d" % i) for i in range(b["argc"])]
        if self.pre: ctx.assume(self.pre(ctx, *args))
        got = m.run(inst, args)
        try:
            for n, f in self.ensures(ctx, args, got): ctx.oblige(n, f)
        except NotFinite: ctx.oblige("the result is finite", FALSE)

class Post(Contract):
    """a property-level contract: setup builds the symbolic pre-state, post states the obligations.
    `use`, when given, is what a caller may rely on: use(m, inst, args) -> value"""
    def __init__(self, name, setup, post, use=None, key=None, cands=(), root=True, which=None, unroll=None, no_contract=()):
        Contract.__init__(self, name, key)
        self.setup = setup; self.post = post; self.use = use; self.cands = list(cands); self.root = root
        self.which = which; self.no = set(no_contract)
        self.optional = False
    def insts(self, prog):
        r = prog.find(self.name)
        if self.which is not None: r = [i for i in r if self.which(prog, i)]
        return r
    def apply(self, m, inst, args):
        if self.use is None: return NotImplemented
        return self.use(m, inst, args)
    def check(self, m, inst):
        ctx = m.ctx
        ctx.cands = self.cands
        ctx.no_contract = self.no
        args = self.setup(ctx, inst)
        try:
            ret = m.run(inst, args)
            self.post(ctx, args, ret)
        except NotFinite:
            ctx.oblige("a value the contract requires to be finite is finite", FALSE)

class Lemma(Contract):
    """obligations about compositions of contracted functions: body(m) calls them and states goals"""
    def __init__(self, key, body, cands=(), root=True, no_contract=()):
        Contract.__init__(self, key, key)
        self.no = set(no_contract)
        self.body = body; self.root = root; self.cands = list(cands); self.optional = False
    def insts(self, prog): return [None]
    def check(self, m, inst):
        m.ctx.cands = self.cands
        m.ctx.no_contract = self.no
        try: self.body(m)
        except NotFinite: m.ctx.oblige("a value the contract requires to be finite is finite", FALSE)

class BySig(Contract):
    """a contract on every function of the crate that matches(prog, inst, name): found by its signature, not its name"""
    def insts(self, prog):
        if getattr(self, "_for", None) is not prog:
            self._for = prog
            self._i = [i for i in prog.bodies if prog.insts[i]["crate"] == "solstrale" and "{closure" not in prog.insts[i]["n"] and self.matches(prog, i, norm_name(prog.insts[i]["n"]))]
        return self._i

def call(m, name, *args, which=None):
    """call a function of the code under proof by name (through its contract when it has one)"""
    c = m.prog.find(name)
    if which is not None: c = [i for i in c if which(m.prog, i)]
    if not c: raise Unsupported("function %s not found" % name)
    b = m.prog.bodies[c[0]]
    return m.call(c[0], list(args), b["locals"][0])

class Reg:
    def __init__(self):
        self.contracts = {}
        self.disabled = set()
        self.virtuals = {}
        self.structs = {}
    def add(self, c, props="", cost=0):
        c.props = props.split(); c.cost = cost
        self.contracts[c.key] = c
        return c
    def contracts_for(self, ctx, inst, name, x):
        if x["crate"] != "solstrale": return
        for c in self.byname().get(name, ()):
            if c.key not in self.disabled and c.key not in ctx.no_contract: yield c
        for c in self.bysig:
            if c.key not in self.disabled and c.key not in ctx.no_contract and inst in c.insts(ctx.prog): yield c
    @property
    def bysig(self): return [c for c in self.contracts.values() if isinstance(c, BySig)]
    def byname(self):
        if getattr(self, "_bn", None) is None or self._n != len(self.contracts):
            self._bn = {}; self._n = len(self.contracts)
            for c in self.contracts.values():
                if isinstance(c, (Lemma, BySig)): continue
                self._bn.setdefault(c.name, []).append(c)
        return self._bn
    def sym_struct(self, ctx, ty, t, name, hook):
        n = t["n"]; s = n.split("::")[-1]
        if n in self.structs: return self.structs[n](ctx, ty, t, name, hook)
        if n == "std::vec::Vec":
            e = t["args"][0]
            ln = ctx.fresh(name + ".len", "I"); ctx.assume(le(I(0), ln)); ctx.assume(le(ln, I((1 << 63) - 1)))
            return models.mkvec(SymSeq(ln, lambda c, i: c.sym(e, "%s[%r]" % (name, i), hook)))
        if n in ("std::boxed::Box", "std::sync::Arc"):
            pt = ctx.prog.types[t["args"][0]]
            if pt["k"] == "dyn": return Ptr(Cell(Obj("dyn", name=name, ty=pt["n"]), name))
            return Ptr(Cell(Lazy(lambda: ctx.sym(t["args"][0], name, hook)), name))
        if n.startswith("image::") and s == "ImageBuffer":
            w = ctx.fresh(name + ".w", "I"); h = ctx.fresh(name + ".h", "I")
            for v in (w, h): ctx.assume(le(I(0), v)); ctx.assume(le(v, I((1 << 32) - 1)))
            return models.mkimage(ctx, name, w, h)
        return None
    def virtual(self, m, x, name, args):
        f = self.virtuals.get(name)
        if f is None: raise Unsupported("virtual call " + name)
        return f(m, x, args)
