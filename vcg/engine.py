"""Symbolic execution of the exported MIR under function contracts.

One call of a contract's check() explores one path of the function under proof; explore() repeats
it with different decision prefixes until all paths are covered.  A path yields proof obligations
(hypotheses = path condition at that point)."""
import json, re, sys, time
from fractions import Fraction
from terms import *
import terms
sys.setrecursionlimit(20000)

DEBUGC = None
class Unsupported(Exception): pass
class PathEnd(Exception): pass

# ---------------------------------------------------------------- values
class Flt:
    __slots__ = ("k", "p")
    def __init__(self, k, p): self.k = k; self.p = p
    def __repr__(self): return {"fin": repr(self.p), "inf": "inf" if self.p == 1 else "-inf", "nan": "nan", "any": "any"}[self.k]
ANY = Flt("any", None)       # a float about which nothing is known
NAN = Flt("nan", None); PINF = Flt("inf", 1); NINF = Flt("inf", -1)
def Fin(p): return Flt("fin", R(p))
class Lazy:
    """a value whose computation may fork; hint "f" marks floats, which stay lazy until inspected"""
    __slots__ = ("thunk", "val", "hint")
    def __init__(self, thunk, hint=None): self.thunk = thunk; self.val = None; self.hint = hint
def lazyf(thunk): return Lazy(thunk, "f")
def pending(v): return isinstance(v, Lazy) and v.hint == "f" and v.val is None
def force(v):
    while isinstance(v, Lazy):
        if v.val is None: v.val = v.thunk()
        v = v.val
    return v
class Agg:
    __slots__ = ("ty", "var", "fs")
    def __init__(self, ty, var, fs): self.ty = ty; self.var = var; self.fs = tuple(fs)
    def __repr__(self): return "Agg(%s#%s %s)" % (self.ty, self.var, ", ".join(repr(force(f)) for f in self.fs))
_serial = [0]
class Cell:
    __slots__ = ("v", "name", "n")
    def __init__(self, v=None, name=""):
        self.v = v; self.name = name
        _serial[0] += 1; self.n = _serial[0]
class Ptr:
    __slots__ = ("cell", "path", "meta")
    def __init__(self, cell, path=(), meta=None): self.cell = cell; self.path = path; self.meta = meta
    def same(self, o):
        return isinstance(o, Ptr) and self.cell is o.cell and pkey(self.path) == pkey(o.path)
    def __repr__(self): return "Ptr(%s%s)" % (self.cell.name, list(self.path) or "")
def pkey(path): return tuple(x for x in path if x[0] != "d")
class FnVal:
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty
class Obj:
    """value of a modelled library type, or an abstract object known only through its contracts"""
    __slots__ = ("k", "d")
    def __init__(self, k, **d): self.k = k; self.d = d
    def __repr__(self): return "Obj(%s)" % self.k
    def with_(self, **kw):
        d = dict(self.d); d.update(kw); o = Obj(self.k); o.d = d; return o
class Str:
    __slots__ = ("s",)
    def __init__(self, s): self.s = s
class Uninit: pass
UNINIT = Uninit()
OPAQUE = Obj("opaque")

class Seq:
    pass
class ConcSeq(Seq):
    __slots__ = ("xs",)
    def __init__(self, xs): self.xs = tuple(xs)
    def length(self): return I(len(self.xs))
    def get(self, ctx, i):
        if i.is_const():
            k = i.ival()
            if not 0 <= k < len(self.xs): raise Unsupported("index out of range in model")
            return self.xs[k]
        for k in range(len(self.xs)):
            if ctx.branch(eq(i, k)): return self.xs[k]
        raise PathEnd()
    def set(self, ctx, i, v):
        if not i.is_const():
            for k in range(len(self.xs)):
                if ctx.branch(eq(i, k)): i = I(k); break
            else: raise PathEnd()
        k = i.ival()
        return ConcSeq(self.xs[:k] + (v,) + self.xs[k + 1:])
class SymSeq(Seq):
    __slots__ = ("len", "gen", "over", "memo")
    def __init__(self, length, gen, over=(), memo=None):
        self.len = length; self.gen = gen; self.over = over
        self.memo = {} if memo is None else memo
    def length(self): return self.len
    def get(self, ctx, i):
        for j, v in reversed(self.over):
            if ctx.branch(eq(i, j)): return v
        k = i.key()
        if k not in self.memo: self.memo[k] = self.gen(ctx, i)
        return self.memo[k]
    def set(self, ctx, i, v):
        over = tuple((j, w) for j, w in self.over if j != i)
        return SymSeq(self.len, self.gen, over + ((i, v),), self.memo)
    def push(self, v):
        return SymSeq(self.len + 1, self.gen, self.over + ((self.len, v),), self.memo)
class Img:
    """pixels of an image: gen(ctx, x, y) for those not overwritten"""
    __slots__ = ("w", "h", "gen", "over", "memo")
    def __init__(self, w, h, gen, over=(), memo=None):
        self.w = w; self.h = h; self.gen = gen; self.over = over; self.memo = {} if memo is None else memo
    def get(self, ctx, x, y):
        for (a, b), v in reversed(self.over):
            if ctx.branch(And(eq(x, a), eq(y, b))): return v
        k = (x.key(), y.key())
        if k not in self.memo: self.memo[k] = self.gen(ctx, x, y)
        return self.memo[k]
    def set(self, ctx, x, y, v):
        over = tuple((k, w) for k, w in self.over if k != (x, y))
        return Img(self.w, self.h, self.gen, over + (((x, y), v),), self.memo)
class SubSeq(Seq):
    """window of another sequence"""
    __slots__ = ("s", "off", "len")
    def __init__(self, s, off, length): self.s = s; self.off = off; self.len = length
    def length(self): return self.len
    def get(self, ctx, i): return self.s.get(ctx, i + self.off)
class IterV:
    """an indexed iterator: elem(ctx,i) for pos <= i < len"""
    __slots__ = ("len", "pos", "elem", "src")
    def __init__(self, length, elem, pos=None, src=None):
        self.len = length; self.elem = elem; self.pos = I(0) if pos is None else pos; self.src = src
    def at(self, pos): return IterV(self.len, self.elem, pos, self.src)

# ---------------------------------------------------------------- program
def strip_gen(n):
    out = []; i = 0
    while i < len(n):
        if n.startswith("::<", i):
            d = 0; j = i + 2
            while j < len(n):
                if n[j] == "<": d += 1
                elif n[j] == ">" and n[j - 1] not in "-=":
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out.append(n[i]); i += 1
    return "".join(out)
def split_qual(n):
    """'<A as B>::m' -> (A, B, m) or None"""
    if not n.startswith("<"): return None
    d = 0
    for j, c in enumerate(n):
        if c == "<": d += 1
        elif c == ">" and n[j - 1] not in "-=":
            d -= 1
            if d == 0: break
    inner, rest = n[1:j], n[j + 1:]
    d = 0
    for k in range(len(inner) - 3):
        c = inner[k]
        if c in "<([{": d += 1
        elif c in ">)]}" and inner[k - 1] not in "-=": d -= 1
        elif d == 0 and inner.startswith(" as ", k):
            return inner[:k], inner[k + 4:], rest[2:]
    return None
def norm_name(n):
    q = split_qual(n)
    if q:
        a, b, m = q
        if a.startswith("{closure@"): a = "{closure}"
        bb = b.split("<")[0]
        return "<%s as %s>::%s" % (strip_ty(a), b if any(k in bb for k in ("Add", "Mul", "Div", "Sub", "From")) and "solstrale" in a else bb, strip_gen("::" + m)[2:])
    return strip_gen(n)
def strip_ty(a):
    return a.replace("<'_>", "").replace("'_, ", "").replace("'_ ", "")

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]; self.insts = d["insts"]; self.roots = d["roots"]
        self.bodies = {int(k): v for k, v in d["bodies"].items()}
        self.byname = {}
        for i, x in enumerate(self.insts):
            self.byname.setdefault(norm_name(x["n"]), []).append(i)
        self.loops_cache = {}
        self.tyname = {}
        for i, t in enumerate(self.types):
            if t["k"] in ("struct", "enum"):
                self.tyname.setdefault(t["n"], []).append(i)
    def body(self, i): return self.bodies.get(i)
    def find(self, name):
        """instances with a body whose normalised name is `name`"""
        return [i for i in self.byname.get(name, []) if i in self.bodies]
    def ty(self, n, full=None):
        c = self.tyname.get(n, [])
        if not c: raise Unsupported("no type " + n)
        return c[0]
    def loops(self, i):
        if i in self.loops_cache: return self.loops_cache[i]
        b = self.bodies[i]; n = len(b["blocks"])
        succ = [succs(bl["t"]) for bl in b["blocks"]]
        # dominators
        pred = [[] for _ in range(n)]
        reach = set(); st = [0]
        while st:
            x = st.pop()
            if x in reach: continue
            reach.add(x)
            for y in succ[x]: pred[y].append(x); st.append(y)
        dom = {x: set(reach) for x in reach}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in sorted(reach):
                if x == 0: continue
                ps = [dom[p] for p in pred[x] if p in reach]
                nd = set.intersection(*ps) | {x} if ps else {x}
                if nd != dom[x]: dom[x] = nd; ch = True
        loops = {}
        for x in reach:
            for y in succ[x]:
                if y in dom[x]:
                    body = {y, x}; st = [x]
                    while st:
                        z = st.pop()
                        if z == y: continue
                        for p in pred[z]:
                            if p not in body: body.add(p); st.append(p)
                    loops.setdefault(y, set()).update(body)
        self.loops_cache[i] = loops
        return loops

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [x[1] for x in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[4]]
    return []

INTMAX = {}
def int_range(t):
    w = t["w"]
    if t["s"]: return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1

# ---------------------------------------------------------------- feasibility (z3 in process)
import z3
_zc = {}
def z3poly(p):
    k = p.key()
    if k in _zc: return _zc[k]
    tot = None
    for m, c in p.t.items():
        f = z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if p.sort == "R" else z3.IntVal(c.numerator)
        for v, e in m:
            a = Atom.table[v]
            x = z3.Real("a%d" % v) if a.sort == "R" else z3.Int("a%d" % v)
            if p.sort == "R" and a.sort == "I": x = z3.ToReal(x)
            for _ in range(e): f = f * x
        tot = f if tot is None else tot + f
    if tot is None: tot = z3.RealVal(0) if p.sort == "R" else z3.IntVal(0)
    _zc[k] = tot
    return tot
_zb = {}
def z3bool(b, zp=None):
    zp = zp or z3poly
    key = (b.n, zp is z3poly)
    r = _zb.get(key)
    if r is None: r = _zb[key] = _z3bool(b, zp)
    return r
def _z3bool(b, zp):
    k = b.k
    if k == "T": return z3.BoolVal(True)
    if k == "F": return z3.BoolVal(False)
    if k == "v": return z3.Bool(b.a[0])
    if k == "le": return zp(b.a[0]) <= 0
    if k == "lt": return zp(b.a[0]) < 0
    if k == "eq": return zp(b.a[0]) == 0
    if k == "not": return z3.Not(z3bool(b.a[0], zp))
    if k == "and": return z3.And(*[z3bool(x, zp) for x in b.a])
    return z3.Or(*[z3bool(x, zp) for x in b.a])
_zl = {}
def z3lin(p):
    """the polynomial with nonlinear monomials as opaque unknowns"""
    k = p.key()
    if k in _zl: return _zl[k]
    tot = None
    for m, c in p.t.items():
        f = z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if p.sort == "R" else z3.IntVal(c.numerator)
        if m:
            if len(m) == 1 and m[0][1] == 1: nm = "a%d" % m[0][0]
            else: nm = "m%r" % (m,)
            isint = p.sort == "I" or all(Atom.table[v].sort == "I" for v, _ in m)
            x = z3.Int(nm) if isint else z3.Real(nm)
            if p.sort == "R" and isint: x = z3.ToReal(x)
            f = f * x
        tot = f if tot is None else tot + f
    if tot is None: tot = z3.RealVal(0) if p.sort == "R" else z3.IntVal(0)
    _zl[k] = tot
    return tot
_fc = {}
FEAS = {"n": 0, "t": 0.0, "lin": 0}
def nonlinear(b):
    if b.k in ("le", "lt", "eq"): return any(len(m) > 1 or (m and m[0][1] > 1) for m in b.a[0].t)
    return any(isinstance(x, B) and nonlinear(x) for x in b.a)
def feasible(forms, ms=150):
    from solver import closure_facts
    key = frozenset(f.n for f in forms)
    if key in _fc: return _fc[key]
    facts, atoms = closure_facts(forms)
    allf = list(forms) + facts
    pure = all(Atom.table[a].sort == "R" for a in atoms)
    t0 = time.time()
    FEAS["n"] += 1
    if any(nonlinear(f) for f in allf):
        s = z3.Solver(); s.set("timeout", ms)
        for f in allf: s.add(z3bool(f, z3lin))
        if s.check() == z3.unsat:
            _fc[key] = False; FEAS["lin"] += 1; FEAS["t"] += time.time() - t0
            return False
    s = z3.SolverFor("QF_NRA") if pure else z3.Solver()
    s.set("timeout", ms)
    for f in allf: s.add(z3bool(f))
    r = s.check()
    FEAS["t"] += time.time() - t0
    res = r != z3.unsat
    _fc[key] = res
    return res

_lt = {}
def lin_unsat(forms, ms=100):
    """quick: unsatisfiable with products opaque?"""
    from solver import closure_facts
    key = frozenset(f.n for f in forms)
    if key in _lt: return _lt[key]
    facts, _ = closure_facts(forms)
    s = z3.Solver(); s.set("timeout", ms)
    for f in list(forms) + facts: s.add(z3bool(f, z3lin))
    r = _lt[key] = s.check() == z3.unsat
    return r

def nonneg_syn(p):
    """sum of even monomials with non-negative coefficients"""
    for m, c in p.t.items():
        if c < 0: return False
        for v, e in m:
            if e % 2 and not nonneg_atom(v): return False
    return True
def nonneg_atom(v):
    a = Atom.table[v]
    if a.sem is not None and a.sem[0] in ("sqrt", "abs"): return True
    return False

class Obl:
    __slots__ = ("name", "hyps", "goal", "tag", "where", "inputs")
    def __init__(self, name, hyps, goal, tag, where, inputs):
        self.name = name; self.hyps = hyps; self.goal = goal; self.tag = tag; self.where = where; self.inputs = inputs

class Ctx:
    def __init__(self, prog, reg, decisions, houdini):
        self.prog = prog; self.reg = reg
        self.dec = list(decisions); self.pos = 0
        self.taken = []; self.alts = []
        self.pc = []; self.pcset = set()
        self.obls = []
        self.names = {}
        self.inputs = {}
        self.depth = 0
        self.houdini = houdini       # set of dropped invariant candidates
        self.cands = []              # loop invariant candidates of the contract under proof
        self.used = {}               # contracts applied
        self.inlined = {}            # functions executed through their body
        self.models = {}             # library models used
        self.stack = []
        self.ghost = {}
        self.unroll = 12
        self.bounded = []            # loops unrolled with a bound (labelled)
        self.top = None
        self.no_contract = set()
        self.steps = 0
        self.guards = []             # frames of the loops being verified: (serial at entry, cells havocked, frame, blocks)
        self.callstack = []
        self.frames = []
    # ---- naming
    def fresh(self, name, sort="R"):
        n = self.names.get(name, 0); self.names[name] = n + 1
        return var("%s#%d" % (name, n) if n else name, sort)
    def fresh_index(self, name, n):
        """an arbitrary index below n; below a product of a ghost grid's sides it is given as row and column"""
        for w, h in self.ghost.get("grids", ()):
            if n == w * h:
                x, y = self.fresh(name + ".x", "I"), self.fresh(name + ".y", "I")
                for b in (ge(x), lt(x, w), ge(y), lt(y, h)): self.assume(b)
                i = y * w + x
                self.assume(ge(i)); self.assume(lt(i, n))
                return i
        i = self.fresh(name, "I")
        self.assume(ge(i)); self.assume(lt(i, n))
        return i
    def freshb(self, name):
        n = self.names.get(name, 0); self.names[name] = n + 1
        return bvar("%s#%d" % (name, n) if n else name)
    def ffin(self, name): return Fin(self.fresh(name))
    # ---- path condition
    def assume(self, b):
        b = toB(b)
        if b is TRUE: return
        if b is FALSE: raise PathEnd()
        for x in (b.a if b.k == "and" else (b,)):
            if Not(x) in self.pcset: raise PathEnd()
            if x not in self.pcset:
                self.pc.append(x); self.pcset.add(x)
                if x.k in ("le", "lt") and len(x.a[0].t) <= 2: self.derive(x)
    def derive(self, x):
        """|p| >= c > 0 (or |p| > 0) gives p != 0"""
        p = x.a[0]; c = p.t.get((), 0)
        rest = [(m, k) for m, k in p.t.items() if m]
        if len(rest) != 1 or rest[0][1] >= 0 or len(rest[0][0]) != 1 or rest[0][0][0][1] != 1: return
        if not (c > 0 or (c == 0 and x.k == "lt")): return
        a = Atom.table[rest[0][0][0][0]]
        if a.sem is None or a.sem[0] != "abs": return
        f = ne(a.sem[1])
        self.assume(f)
        if self.simp: self.assume(self.simpB(f))
    def known(self, b):
        if b is TRUE or b in self.pcset: return True
        if b is FALSE or Not(b) in self.pcset: return False
        if b.k == "le" and nonneg_syn(-b.a[0]): return True
        if b.k == "lt" and nonneg_syn(b.a[0]): return False
        if b.k in ("le", "lt"):
            p = b.a[0]
            if b.k == "le":
                if lt(p) in self.pcset or eq(p) in self.pcset: return True
            else:
                if eq(p) in self.pcset: return False
            if lt(-p) in self.pcset: return False
        if b.k == "eq":
            p = b.a[0]
            if lt(p) in self.pcset or lt(-p) in self.pcset: return False
            if nonneg_syn(p) and p.cval() > 0: return False
        if b.k == "not":
            r = self.known(b.a[0])
            return None if r is None else not r
        if b.k == "and":
            rs = [self.known(x) for x in b.a]
            if all(r is True for r in rs): return True
            if any(r is False for r in rs): return False
        if b.k == "or":
            rs = [self.known(x) for x in b.a]
            if any(r is True for r in rs): return True
            if all(r is False for r in rs): return False
        return None
    def choose(self, n, conds=None):
        if DEBUGC is not None: DEBUGC[(self.where(), repr(conds)[:200])] = DEBUGC.get((self.where(), repr(conds)[:200]), 0) + 1
        """n-way decision; conds: list of formulas, or None for free nondeterminism"""
        if self.pos < len(self.dec):
            c = self.dec[self.pos]
        else:
            opts = []
            for i in range(n):
                if conds is None: opts.append(i); continue
                if conds[i] is FALSE: continue
                opts.append(i)
            if conds is not None and len(opts) > 1:
                f = [i for i in opts if feasible(self.pc + [conds[i]])]
                opts = f
            if not opts: raise PathEnd()
            c = opts[0]
            for o in opts[1:]: self.alts.append(self.taken + [o])
        self.pos += 1
        self.taken.append(c)
        if conds is not None: self.assume(conds[c])
        return c
    simp = True
    def known_ne(self, d):
        return self.known(eq(d)) is False or (d.is_const() and d.cval() != 0)
    def simpB(self, b):
        """the comparison with its term cancelled (equal under the path condition)"""
        if b.k in ("le", "lt", "eq") and b.a[0].sort == "R":
            import algebra
            p = algebra.simplify(b.a[0], self.known_ne)
            if p is None: p = algebra.clear_roots(b.a[0], self.known_ne)
            if p is not b.a[0]: return {"le": le, "lt": lt, "eq": eq}[b.k](p)
            return b
        if b.k == "not": return Not(self.simpB(b.a[0]))
        if b.k == "and": return And(*[self.simpB(x) for x in b.a])
        if b.k == "or": return Or(*[self.simpB(x) for x in b.a])
        return b
    def branch(self, b):
        b = toB(b)
        if self.simp and self.known(b) is None: b = self.simpB(b)
        r = self.known(b)
        if r is not None: return r
        return self.choose(2, [b, Not(b)]) == 0
    def is_true(self, b):
        """decide without forking when possible"""
        return self.known(b) is True or not feasible(self.pc + [Not(b)])
    def lin_true(self, b):
        """is b a linear consequence of what is known? (b must not share terms only with nonlinear facts)"""
        b = toB(b)
        if self.known(b) is not None: return self.known(b)
        rel, cur = [], set(b.atoms())
        for _ in range(2):
            add = set()
            for f in self.pc:
                if f not in rel and f.atoms() & cur: rel.append(f); add |= f.atoms()
            cur |= add
        return lin_unsat(rel + [Not(b)])
    # ---- obligations
    def oblige(self, name, goal, tag=None, where=None):
        goal = toB(goal)
        if self.simp: goal = self.simpB(goal)
        self.obls.append(Obl(name, tuple(self.pc), goal, tag, where or self.where(), dict(self.inputs)))
    def lemma(self, name, goal):
        self.oblige("lemma " + name, goal, "lemma")
        self.assume(goal)
    def apply_lemma(self, fn, *polys):
        """ghost lemma fn(*reals) -> (hypotheses, conclusion): proved once for all reals, instantiated here"""
        if fn.__name__ not in self.ghost:
            self.ghost[fn.__name__] = 1
            vs = [var("%s.%d" % (fn.__name__, i)) for i in range(len(polys))]
            h, c = fn(*vs)
            self.obls.append(Obl("ghost lemma %s" % fn.__name__, tuple(toB(x) for x in h), toB(c), "lemma", "", {}))
        h, c = fn(*polys)
        for x in h: self.lemma("precondition of %s" % fn.__name__, toB(x))
        self.assume(toB(c))
    def where(self):
        return " < ".join("%s:%s" % tuple(x) for x in reversed(self.stack[-3:]))
    # ---- memory
    def new(self, v, name=""): return Cell(v, name)
    def ptr(self, v, name=""): return Ptr(Cell(v, name))
    def read(self, p): return self.get_path(p.cell.v, p.path)
    def write(self, p, v): self.store(p.cell, p.path, v)
    def store(self, cell, path, v):
        for g in self.guards:
            if cell.n <= g[0] and cell not in g[1]: raise Unsupported("a loop writes to memory outside its frame (%s)" % cell.name)
        cell.v = self.set_path(cell.v, path, v)
    def get_path(self, v, path):
        return force(self.get_raw(v, path))
    def get_raw(self, v, path):
        for st in path:
            v = force(v)
            if st[0] == "f":
                if isinstance(v, Agg):
                    if st[1] >= len(v.fs): raise Unsupported("field %r of %r" % (st, v))
                    v = v.fs[st[1]]
                elif isinstance(v, Ptr): pass
                elif isinstance(v, Obj) and ("f%d" % st[1]) in v.d: v = v.d["f%d" % st[1]]
                else: raise Unsupported("field of %r" % (v,))
            elif st[0] == "i":
                if not isinstance(v, Seq): raise Unsupported("index of %r" % (v,))
                v = v.get(self, st[1])
            elif st[0] == "d": pass
            elif st[0] == "v":
                if not (isinstance(v, Obj) and v.k == "vec"): raise Unsupported("vec buffer of %r" % (v,))
                v = v.d["seq"]
            elif st[0] == "px":
                if not (isinstance(v, Obj) and v.k == "image"): raise Unsupported("pixel of %r" % (v,))
                v = v.d["img"].get(self, st[1], st[2])
            else: raise Unsupported("path %r" % (st,))
        return v if pending(v) else force(v)
    def set_path(self, v, path, new):
        if not path: return new
        st = path[0]
        if st[0] == "d": return self.set_path(v, path[1:], new)
        v = force(v)
        if st[0] == "f":
            if isinstance(v, Agg):
                fs = list(v.fs); fs[st[1]] = self.set_path(fs[st[1]], path[1:], new)
                return Agg(v.ty, v.var, fs)
            if isinstance(v, Uninit):
                raise Unsupported("partial init")
            raise Unsupported("set field of %r" % (v,))
        if st[0] == "i":
            if len(path) == 1: return v.set(self, st[1], new)
            return v.set(self, st[1], self.set_path(v.get(self, st[1]), path[1:], new))
        if st[0] == "v": return v.with_(seq=self.set_path(v.d["seq"], path[1:], new))
        if st[0] == "px":
            im = v.d["img"]
            if len(path) > 1: new = self.set_path(im.get(self, st[1], st[2]), path[1:], new)
            return v.with_(img=im.set(self, st[1], st[2], new))
        raise Unsupported("set path %r" % (st,))
    # slices
    def slice_of(self, p):
        """(seq, off, len) behind a slice/array/vec pointer"""
        s = self.read(p)
        if isinstance(s, Obj) and s.k == "vec": s = s.d["seq"]
        if not isinstance(s, Seq): raise Unsupported("slice of %r" % (s,))
        if p.meta is not None: return s, p.meta[0], p.meta[1]
        return s, I(0), s.length()
    # ---- symbolic values by type
    def sym(self, ty, name, hook=None):
        t = self.prog.types[ty]; k = t["k"]
        if hook:
            r = hook(ty, t, name)
            if r is not None: return r
        if k == "float":
            return Fin(self.fresh(name))
        if k == "int":
            p = self.fresh(name, "I"); lo, hi = int_range(t)
            self.assume(le(I(lo), p)); self.assume(le(p, I(hi)))
            return p
        if k == "bool": return self.freshb(name)
        if k == "struct":
            r = self.reg.sym_struct(self, ty, t, name, hook)
            if r is not None: return r
            return Agg(ty, 0, [self.sym(f[1], name + "." + str(f[0]), hook) for f in t["vars"][0]["f"]])
        if k == "tuple": return Agg(ty, 0, [self.sym(f, "%s.%d" % (name, i), hook) for i, f in enumerate(t["f"])])
        if k == "enum":
            r = self.reg.sym_struct(self, ty, t, name, hook)
            if r is not None: return r
            def th():
                i = self.choose(len(t["vars"]))
                return Agg(ty, i, [self.sym(f[1], "%s~%s.%s" % (name, t["vars"][i]["n"], f[0]), hook) for f in t["vars"][i]["f"]])
            return Lazy(th)
        if k in ("ref", "ptr"):
            pt = self.prog.types[t["p"]]
            if pt["k"] == "slice":
                n = self.fresh(name + ".len", "I"); self.assume(le(I(0), n)); self.assume(le(n, I((1 << 63) - 1)))
                seq = SymSeq(n, lambda c, i: c.sym(pt["e"], "%s[%r]" % (name, i), hook))
                return Ptr(Cell(seq, name), (), (I(0), n))
            if pt["k"] == "dyn": return Ptr(Cell(Obj("dyn", name=name, ty=pt["n"]), name))
            return Ptr(Cell(self.sym(t["p"], name, hook), name))
        if k == "array":
            if t["len"] is not None: return ConcSeq([self.sym(t["e"], "%s[%d]" % (name, i), hook) for i in range(int(t["len"]))])
        raise Unsupported("symbolic value of type %s %s" % (k, t.get("n")))
    # ---- constants
    def const(self, c, ty):
        k = c["k"]
        if k == "int":
            t = self.prog.types[ty]
            if t["k"] == "bool": return toB(bool(int(c["v"])))
            v = int(c["v"])
            if t["k"] == "int" and t["s"]:
                lo, hi = int_range(t)
                if v > hi: v -= 1 << t["w"]
            return I(v)
        if k == "bool": return toB(bool(c["v"]))
        if k == "float":
            return const_float(int(c["bits"]), c["w"])
        if k == "agg":
            t = self.prog.types[ty]
            if t["k"] == "tuple": tys = t["f"]
            elif t["k"] in ("struct", "enum"): tys = [f[1] for f in t["vars"][c.get("var", 0)]["f"]]
            elif t["k"] == "array": return ConcSeq([self.const(x, t["e"]) for x in c["f"]])
            else: raise Unsupported("const agg " + t["k"])
            return Agg(ty, c.get("var", 0), [self.const(x, y) for x, y in zip(c["f"], tys)])
        if k == "array":
            t = self.prog.types[ty]
            return ConcSeq([self.const(x, t["e"]) for x in c["e"]])
        if k == "ref":
            return Ptr(Cell(self.const(c["to"], c["t"]), "const"))
        if k == "str": return Str(c["v"])
        if k in ("zst", "fnref"): 
            t = self.prog.types[ty]
            if t["k"] == "tuple": return Agg(ty, 0, [])
            if t["k"] in ("struct",): return Agg(ty, 0, [self.const({"k": "zst"}, f[1]) for f in t["vars"][0]["f"]])
            if t["k"] == "enum": return Agg(ty, 0, [])
            if t["k"] == "array": return ConcSeq([])
            if t["k"] == "closure": return Agg(ty, 0, [])
            return FnVal(ty)
        if k == "raw": return OPAQUE
        raise Unsupported("const " + k)

def const_float(bits, w):
    f = f64_bits(bits) if w == 64 else f32_bits(bits)
    if f != f: return NAN
    if f in (float("inf"), float("-inf")): return PINF if f > 0 else NINF
    return Flt("fin", Poly.const(Fraction(f)))

# ---------------------------------------------------------------- float operations
def f_neg(ctx, a):
    a = force(a)
    if a.k == "any": return ANY
    if a.k == "fin": return Fin(-a.p)
    if a.k == "inf": return NINF if a.p == 1 else PINF
    return NAN
def f_add(ctx, a, b):
    a, b = force(a), force(b)
    if a.k == "any" or b.k == "any": return ANY
    if a.k == "fin" and b.k == "fin": return Fin(a.p + b.p)
    if a.k == "nan" or b.k == "nan": return NAN
    if a.k == "inf" and b.k == "inf": return a if a.p == b.p else NAN
    return a if a.k == "inf" else b
def f_sub(ctx, a, b): return f_add(ctx, a, f_neg(ctx, b))
def f_sign(ctx, a):
    """sign of a non-nan value: -1, 0, 1 (forks)"""
    if a.k == "inf": return a.p
    if ctx.branch(lt(a.p)): return -1
    return 0 if ctx.branch(eq(a.p)) else 1
def f_mul(ctx, a, b):
    a, b = force(a), force(b)
    if a.k == "any" or b.k == "any": return ANY
    if a.k == "fin" and b.k == "fin": return Fin(a.p * b.p)
    if a.k == "nan" or b.k == "nan": return NAN
    s = f_sign(ctx, a) * f_sign(ctx, b)
    return NAN if s == 0 else (PINF if s > 0 else NINF)
def f_div(ctx, a, b):
    def th():
        x, y = force(a), force(b)
        if x.k == "any" or y.k == "any": return ANY
        if x.k == "nan" or y.k == "nan": return NAN
        if y.k == "inf": return NAN if x.k == "inf" else Fin(0)
        if x.k == "inf":
            s = f_sign(ctx, y)
            if s == 0: s = 1 if ctx.choose(2) == 0 else -1
            return PINF if s * x.p > 0 else NINF
        if ctx.branch(eq(y.p)):
            s = f_sign(ctx, x)
            if s == 0: return NAN
            # the sign of a zero is not tracked: both infinities are possible
            return PINF if ctx.choose(2) == 0 else NINF
        return Fin(div(x.p, y.p))
    x, y = force(a) if not isinstance(a, Lazy) else a, b
    if not isinstance(a, Lazy) and not isinstance(b, Lazy):
        y = force(b)
        if y.k == "fin" and x.k == "fin" and ctx.known(eq(y.p)) is False: return Fin(div(x.p, y.p))
    return lazyf(th)
def f_cmp(ctx, op, a, b):
    a, b = force(a), force(b)
    if a.k == "any" or b.k == "any": return ctx.freshb("cmp")
    if a.k == "nan" or b.k == "nan": return toB(op == "Ne")
    if a.k == "fin" and b.k == "fin":
        return {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge, "Eq": eq, "Ne": ne}[op](a.p, b.p)
    va = a.p * 1 if a.k == "inf" else 0
    vb = b.p * 1 if b.k == "inf" else 0
    return toB({"Lt": va < vb, "Le": va <= vb, "Gt": va > vb, "Ge": va >= vb, "Eq": va == vb, "Ne": va != vb}[op])
def f_min(ctx, a, b, mx=False):
    a, b = force(a), force(b)
    if a.k == "any" or b.k == "any": return ANY
    if a.k == "nan": return b
    if b.k == "nan": return a
    if a.k == "inf": return b if (a.p == 1) != mx else a
    if b.k == "inf": return a if (b.p == 1) != mx else b
    r = ctx.known(le(a.p, b.p))
    if r is not None: return (b if mx else a) if r else (a if mx else b)
    return Fin(rmax(a.p, b.p) if mx else rmin(a.p, b.p))
def f_max(ctx, a, b): return f_min(ctx, a, b, True)
def f_sqrt(ctx, a):
    def th():
        x = force(a)
        if x.k == "any": return ANY
        if x.k == "nan": return NAN
        if x.k == "inf": return x if x.p == 1 else NAN
        if ctx.branch(lt(x.p)): return NAN
        return Fin(terms.sqrt(x.p))
    x = a
    if not isinstance(a, Lazy) and a.k == "fin" and ctx.known(lt(a.p)) is False: return Fin(terms.sqrt(a.p))
    return lazyf(th)
def f_abs(ctx, a):
    a = force(a)
    if a.k == "any": return ANY
    if a.k == "nan": return NAN
    if a.k == "inf": return PINF
    r = ctx.known(lt(a.p))
    if r is True: return Fin(-a.p)
    if r is False: return a
    return Fin(rabs(a.p))
def f_rem(ctx, a, b):
    a, b = force(a), force(b)
    if a.k != "fin" or b.k == "nan": return NAN
    if b.k == "inf": return a
    if not b.p.is_const() or b.p.cval() == 0: raise Unsupported("float remainder")
    c = abs(b.p.cval())
    if ctx.branch(lt(a.p)):
        return Fin(-((-a.p) - floor_real((-a.p).scale(1 / c)).as_real().scale(c)))
    return Fin(a.p - floor_real(a.p.scale(1 / c)).as_real().scale(c))
def f_trunc_to_int(ctx, a, t):
    a = force(a)
    lo, hi = int_range(t)
    if a.k == "nan": return I(0)
    if a.k == "inf": return I(hi if a.p == 1 else lo)
    if ctx.branch(lt(a.p, R(0))):
        if lo == 0: return I(0)
        if ctx.branch(le(a.p, R(lo))): return I(lo)
        return -floor_real(-a.p)
    if ctx.branch(ge(a.p, R(hi))): return I(hi)
    return floor_real(a.p)
