"""MIR interpreter over the symbolic state of engine.Ctx."""
from engine import *
from engine import succs
import models

def idiv(x, d):
    """integer quotient for 0 <= x, 0 < d (as a term)"""
    if d.is_const(): return fdiv(x, d.ival())
    a, new = atom("id%d" % len(Atom.table), "I", ("idiv", x.key(), d.key()))
    q = Poly.of(a)
    if new:
        a.sem = ("idiv", x, d)
        a.facts = [Or(le(d, 0), And(le(q * d, x), lt(x, q * d + d))), Or(lt(x), le(d, 0), ge(q, 0))]
    return q

def quotient(ctx, x, d):
    """idiv; x = d * q + r with 0 <= r < d known gives q"""
    if len(d.t) == 1 and not d.is_const():
        (m, c), = d.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            v = m[0][0]; q, r = {}, {}
            for mm, k in x.t.items():
                e = dict(mm)
                if e.get(v) == 1:
                    del e[v]; q[tuple(sorted(e.items()))] = k
                elif v in e: return idiv(x, d)
                else: r[mm] = k
            rp = Poly(r, "I")
            if q and (ctx.lin_true(And(ge(rp), lt(rp, d))) is True): return Poly(q, "I")
            if not q and ctx.lin_true(And(ge(rp), lt(rp, d))) is True: return I(0)
    return idiv(x, d)

class Frame:
    __slots__ = ("inst", "body", "loc", "prev", "lstate")
    def __init__(self, inst, body):
        self.inst = inst; self.body = body; self.prev = None; self.lstate = {}
        self.loc = [Cell(UNINIT, "_%d" % i) for i in range(len(body["locals"]))]

class Loc:
    __slots__ = ("cell", "path", "meta")
    def __init__(self, cell, path, meta=None): self.cell = cell; self.path = path; self.meta = meta

class Machine:
    def __init__(self, ctx):
        self.ctx = ctx; self.prog = ctx.prog; self.havoc_k = None
    # ---- places
    def place(self, fr, pl):
        ctx = self.ctx
        cell, path, meta = fr.loc[pl[0]], (), None
        for pr in pl[1]:
            if pr == "*":
                v = ctx.get_path(cell.v, path)
                if isinstance(v, Ptr):
                    cell, path, meta = v.cell, v.path, v.meta
                elif isinstance(v, Str): cell, path, meta = Cell(v), (), None
                elif isinstance(v, Obj) and "ptr" in v.d:
                    p = v.d["ptr"]; cell, path, meta = p.cell, p.path, p.meta
                else: raise Unsupported("deref of %r" % (v,))
                continue
            k = pr[0]
            if k == "f": path = path + (("f", pr[1]),)
            elif k == "i":
                i = ctx.read(Ptr(fr.loc[pr[1]]))
                path = path + (("i", i + meta[0] if meta else i),); meta = None
            elif k == "ci":
                off, frm = int(pr[1]), pr[3]
                if meta is None:
                    s = ctx.get_path(cell.v, path); n = s.length(); base = I(0)
                else: base, n = meta
                path = path + (("i", base + (n - off if frm else I(off))),); meta = None
            elif k == "sub":
                a, b, frm = int(pr[1]), int(pr[2]), pr[3]
                if meta is None:
                    s = ctx.get_path(cell.v, path); base, n = I(0), s.length()
                else: base, n = meta
                meta = (base + a, (n - b - a) if frm else I(b - a))
            elif k == "d": path = path + (("d", pr[1]),)
            elif k == "oc": pass
            else: raise Unsupported("projection %r" % (pr,))
        return Loc(cell, path, meta)
    def rplace(self, fr, pl):
        l = self.place(fr, pl)
        return self.ctx.get_path(l.cell.v, l.path)
    def op(self, fr, o):
        k = o[0]
        if k in ("c", "m"): 
            l = self.place(fr, o[1])
            v = self.ctx.get_raw(l.cell.v, l.path)
            if isinstance(v, Uninit): raise Unsupported("use of uninitialised local")
            return v
        if k == "k": return self.ctx.const(o[1], o[2])
        if k == "rt": return TRUE if False else toB(o[1] == "OverflowChecks")
        raise Unsupported("operand %r" % (o,))
    def opty(self, fr, o):
        if o[0] in ("c", "m"): return self.plty(fr, o[1])
        if o[0] == "k": return o[2]
        return None
    def plty(self, fr, pl):
        ty = fr.body["locals"][pl[0]]
        T = self.prog.types
        var = 0
        for pr in pl[1]:
            t = T[ty]
            if pr == "*":
                if t["k"] in ("ref", "ptr"): ty = t["p"]
                elif t["k"] == "struct" and t["n"].endswith("Box"): ty = t["args"][0]
                else: raise Unsupported("deref type")
            elif pr[0] == "f": ty = pr[2]
            elif pr[0] in ("i", "ci"): ty = t["e"]
            elif pr[0] == "d": pass
            elif pr[0] == "oc": ty = pr[1]
        return ty
    # ---- rvalues
    def rv(self, fr, rv, dty):
        ctx = self.ctx; k = rv[0]
        if k == "use": return self.op(fr, rv[1])
        if k == "ref":
            pl = rv[2]
            l = self.place(fr, pl)
            return Ptr(l.cell, l.path, l.meta)
        if k == "agg":
            kind = rv[1]
            vs = [self.op(fr, o) for o in rv[2]]
            if kind[0] == "adt":
                if len(kind) > 3 and kind[3] is not None: raise Unsupported("union")
                return Agg(kind[1], kind[2], vs)
            if kind[0] in ("tuple",): return Agg(dty, 0, vs)
            if kind[0] == "closure": return Agg(kind[1], 0, vs)
            if kind[0] == "array": return ConcSeq(vs)
            if kind[0] == "rawptr":
                p = vs[0]
                if isinstance(p, Ptr) and isinstance(vs[1], Poly): return Ptr(p.cell, p.path, (I(0), vs[1]))
                return p
            raise Unsupported("agg %r" % kind)
        if k in ("bin", "cbin"):
            a, b = self.op(fr, rv[2]), self.op(fr, rv[3])
            ta = self.opty(fr, rv[2])
            return self.binop(rv[1], a, b, ta, k == "cbin", dty)
        if k == "un":
            a = self.op(fr, rv[2]); u = rv[1]
            if u == "Neg":
                if pending(a): return lazyf(lambda: f_neg(ctx, a))
                if isinstance(a, (Flt, Lazy)): return f_neg(ctx, a)
                return -a
            if u == "Not":
                if isinstance(a, B): return Not(a)
                t = self.prog.types[self.opty(fr, rv[2])]
                if isinstance(a, Poly):
                    return (-a - 1) if t["s"] else (I((1 << t["w"]) - 1) - a)
                return OPAQUE
            if u == "PtrMetadata":
                if isinstance(a, Ptr):
                    if a.meta: return a.meta[1]
                    s = ctx.read(a)
                    if isinstance(s, Seq): return s.length()
                    if isinstance(s, Obj) and s.k == "vec": return s.d["seq"].length()
                return OPAQUE
            raise Unsupported("unop " + u)
        if k == "cast": return self.cast(fr, rv[1], rv[2], rv[3])
        if k == "disc":
            v = self.rplace(fr, rv[1])
            if isinstance(v, Agg):
                t = self.prog.types[v.ty]
                if t["k"] != "enum": raise Unsupported("discriminant of " + t["k"])
                return I(int(t["vars"][v.var]["d"]))
            if isinstance(v, Obj) and "disc" in v.d: return v.d["disc"]
            raise Unsupported("discriminant of %r" % (v,))
        if k == "len":
            l = self.place(fr, rv[1])
            if l.meta: return l.meta[1]
            return ctx.get_path(l.cell.v, l.path).length()
        if k == "rep":
            v = self.op(fr, rv[1])
            if rv[2] is None or int(rv[2]) > 256: raise Unsupported("repeat")
            return ConcSeq([v] * int(rv[2]))
        raise Unsupported("rvalue " + k)
    def binop(self, o, a, b, ta, checked, dty):
        ctx = self.ctx
        if isinstance(a, Obj) or isinstance(b, Obj) or isinstance(a, Ptr) or isinstance(b, Ptr):
            return Agg(dty, 0, [OPAQUE, FALSE]) if checked else OPAQUE
        if isinstance(a, (Flt, Lazy)) or isinstance(b, (Flt, Lazy)):
            if o in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"): return f_cmp(ctx, o, a, b)
            f = {"Add": f_add, "Sub": f_sub, "Mul": f_mul, "Div": f_div, "Rem": f_rem}[o]
            if pending(a) or pending(b): return lazyf(lambda: force(f(ctx, a, b)))
            return f(ctx, a, b)
        if isinstance(a, B):
            b = toB(b)
            if o == "Eq": return Iff(a, b)
            if o in ("Ne", "BitXor"): return Not(Iff(a, b))
            if o == "BitAnd": return And(a, b)
            if o == "BitOr": return Or(a, b)
            raise Unsupported("bool op " + o)
        t = self.prog.types[ta]
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge, "Eq": eq, "Ne": ne}[o](a, b)
        if o == "Cmp":
            oty = dty
            if ctx.branch(lt(a, b)): return Agg(oty, 0, [])
            return Agg(oty, 1, []) if ctx.branch(eq(a, b)) else Agg(oty, 2, [])
        if t["k"] == "char": t = {"k": "int", "s": False, "w": 32}
        lo, hi = int_range(t)
        base = o.replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            r = a + b if base == "Add" else (a - b if base == "Sub" else a * b)
            inr = And(le(I(lo), r), le(r, I(hi)))
            if checked:
                return Agg(dty, 0, [r, Not(inr)])
            if base != o: return r
            if r.is_const():
                return I((r.ival() - lo) % (hi - lo + 1) + lo)
            if ctx.is_true(inr): return r
            if ctx.branch(inr): return r
            return (r - I(lo)) - fdiv(r - I(lo), hi - lo + 1) * (hi - lo + 1) + lo
        if o in ("Div", "Rem"):
            if a.is_const() and b.is_const():
                x, y = a.ival(), b.ival()
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return I(q) if o == "Div" else I(x - q * y)
            if t["s"]:
                if not b.is_const() or b.ival() <= 0: raise Unsupported("signed division")
                if ctx.branch(lt(a)):
                    q = -fdiv(-a, b.ival())
                else: q = fdiv(a, b.ival())
            else: q = quotient(ctx, a, b)
            return q if o == "Div" else a - q * b
        if a.is_const() and b.is_const():
            x, y = a.ival(), b.ival()
            if o == "BitAnd": return I(x & y)
            if o == "BitOr": return I(x | y)
            if o == "BitXor": return I(x ^ y)
            if base == "Shl": return I((x << y) & ((1 << t["w"]) - 1))
            if base == "Shr": return I(x >> y)
        if base == "Shr" and b.is_const(): return fdiv(a, 1 << b.ival())
        if base == "Shl" and b.is_const() and not t["s"]:
            r = a * (1 << b.ival())
            if ctx.is_true(le(r, I(hi))): return r
            return r - fdiv(r, hi + 1) * (hi + 1)
        if o == "BitAnd" and b.is_const() and not t["s"] and (b.ival() & (b.ival() + 1)) == 0:
            m = b.ival() + 1
            return a - fdiv(a, m) * m
        raise Unsupported("int op " + o)
    def cast(self, fr, ck, o, ty):
        ctx = self.ctx
        v = self.op(fr, o)
        t = self.prog.types[ty]
        if not ck.startswith("FloatToFloat"): v = force(v)
        if ck.startswith("FloatToFloat"): return v     # rounding is not modelled
        if ck.startswith("IntToFloat"): return Fin(v.as_real())
        if ck.startswith("FloatToInt"): return f_trunc_to_int(ctx, v, t)
        if ck.startswith("IntToInt"):
            if isinstance(v, B): return ite(v, I(1), I(0))
            if isinstance(v, Agg):
                v = I(int(self.prog.types[v.ty]["vars"][v.var]["d"]))
            if not isinstance(v, Poly): return OPAQUE
            if t["k"] == "char": return v
            lo, hi = int_range(t)
            if v.is_const(): return I((v.ival() - lo) % (hi - lo + 1) + lo)
            st = self.prog.types[self.opty(fr, o)]
            if st["k"] == "int":
                slo, shi = int_range(st)
                if slo >= lo and shi <= hi: return v
            inr = And(le(I(lo), v), le(v, I(hi)))
            if ctx.is_true(inr): return v
            if ctx.branch(inr): return v
            return (v - I(lo)) - fdiv(v - I(lo), hi - lo + 1) * (hi - lo + 1) + lo
        if ck.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Ptr):
                pt = t
                if t["k"] in ("ref", "ptr") and self.prog.types[t["p"]]["k"] == "slice" and v.meta is None:
                    s = ctx.read(v)
                    if isinstance(s, Seq): return Ptr(v.cell, v.path, (I(0), s.length()))
                return v
            return v
        if ck.startswith("PointerCoercion"): return v
        if ck in ("PtrToPtr", "BoxDerefTransmute", "Transmute", "Subtype") or "Pointer" in ck:
            if isinstance(v, Ptr):
                if t["k"] == "int": return OPAQUE
                return v
            if isinstance(v, Flt) and t["k"] == "int":
                return models.float_bits(ctx, v, t)
            if ck == "Transmute" and isinstance(v, (Poly, Agg, B, Obj, ConcSeq)): return v
            if isinstance(v, (Obj, Str)): return v
        raise Unsupported("cast %s of %r" % (ck, v))
    # ---- statements
    def run(self, inst, args):
        ctx = self.ctx
        body = self.prog.bodies[inst]
        fr = Frame(inst, body)
        name = norm_name(self.prog.insts[inst]["n"])
        for i, a in enumerate(args): fr.loc[i + 1].v = a
        ctx.depth += 1
        if ctx.depth > 60: raise Unsupported("call depth")
        ctx.stack.append([name.split("::")[-1] if not name.startswith("<") else name[-60:], 0])
        loops = self.prog.loops(inst)
        ctx.frames.append(fr)
        bb = 0
        while True:
            while ctx.guards and ctx.guards[-1][2] is fr and bb not in ctx.guards[-1][3]: ctx.guards.pop()
            if bb in loops: self.loop(fr, inst, bb, loops)
            fr.prev = bb
            bl = body["blocks"][bb]
            for s in bl["s"]:
                if s[0] == "=":
                    ctx.stack[-1][1] = s[3]
                    l = self.place(fr, s[1])
                    v = self.rv(fr, s[2], self.plty(fr, s[1]) if s[2][0] in ("agg", "bin", "cbin") else None)
                    ctx.store(l.cell, l.path, v)
                elif s[0] == "sd":
                    raise Unsupported("set discriminant")
            ctx.steps += 1
            if ctx.steps > 200000: raise Unsupported("step limit")
            ctx.stack[-1][1] = bl["l"] if isinstance(bl.get("l"), int) else ctx.stack[-1][1]
            t = bl["t"]; k = t[0]
            if k == "goto": bb = t[1]
            elif k == "ret":
                while ctx.guards and ctx.guards[-1][2] is fr: ctx.guards.pop()
                ctx.depth -= 1; ctx.stack.pop(); ctx.frames.pop()
                v = fr.loc[0].v
                if not pending(v): v = force(v)
                if isinstance(v, Uninit): v = Agg(body["locals"][0], 0, [])
                return v
            elif k == "switch":
                v = self.op(fr, t[1])
                bb = self.switch(v, t[2], t[3])
            elif k == "drop":
                if "locks" in ctx.ghost: self.dropped(fr, t[1])
                bb = t[2]
            elif k == "assert":
                c = self.op(fr, t[1])
                if isinstance(c, B):
                    g = c if t[2] else Not(c)
                    msg = t[3]
                    if "pointer" in msg or "null ref" in msg: pass
                    else: ctx.panic_check(g, msg)
                bb = t[4]
            elif k == "call":
                av = [self.op(fr, a) for a in t[2]]
                f = t[1]
                fty = self.opty(fr, f)
                ft = self.prog.types[fty]
                l = self.place(fr, t[3])
                if ft["k"] == "fn":
                    r = self.call(ft["inst"], av, self.plty(fr, t[3]))
                else:
                    fv = self.op(fr, f)
                    r = self.call_value(fv, av)
                if t[4] is None: raise PathEnd()
                l = self.place(fr, t[3])
                ctx.store(l.cell, l.path, r)
                bb = t[4]
            elif k == "unreach": raise PathEnd()
            else: raise Unsupported("terminator " + k)
    def switch(self, v, targets, other):
        ctx = self.ctx
        if isinstance(v, B): v2 = None
        if isinstance(v, Obj): raise Unsupported("switch on opaque")
        if isinstance(v, B):
            for val, bb in targets:
                c = v if int(val) == 1 else Not(v)
                if ctx.branch(c): return bb
            return other
        if v.is_const():
            for val, bb in targets:
                if v.ival() == int(val) or (v.ival() < 0 and (int(val) - v.ival()) % (1 << 8) == 0 and int(val) > 127): return bb
            return other
        for val, bb in targets:
            if ctx.branch(eq(v, int(val))): return bb
        return other
    # ---- calls
    def call(self, inst, args, dty=None):
        ctx = self.ctx
        x = self.prog.insts[inst]
        name = norm_name(x["n"])
        if x["k"] == "virtual": return ctx.reg.virtual(self, x, name, args)
        for c in ctx.reg.contracts_for(ctx, inst, name, x):
            r = c.apply(self, inst, args)
            if r is not NotImplemented:
                ctx.used[c.key] = c
                return r
        m = models.lookup(name, x)
        if m is not None:
            r = m(self, x, args, dty)
            if r is not NotImplemented:
                ctx.models[models.label(name)] = 1
                return r
        q = split_qual(x["n"])
        if q and (q[1].startswith("std::ops::Fn")):
            return self.call_value(args[0], list(args[1].fs))
        body = self.prog.bodies.get(inst)
        if body is None:
            raise Unsupported("no body or model for " + x["n"][:140])
        if "{closure" in x["n"].split("::")[-1] and len(args) == 2 and isinstance(args[1], Agg) and self.prog.types[args[1].ty]["k"] == "tuple":
            return self.run_closure(inst, args[0], list(args[1].fs))
        ctx.inlined[name] = 1
        if ctx.stack_has(name): raise Unsupported("recursion without contract: " + name)
        ctx.callstack.append(name)
        r = self.run(inst, args)
        ctx.callstack.pop()
        return r
    def run_closure(self, inst, clo, args):
        ctx = self.ctx
        body = self.prog.bodies[inst]
        t1 = self.prog.types[body["locals"][1]]
        if t1["k"] in ("ref", "ptr"):
            if not isinstance(clo, Ptr): clo = Ptr(Cell(clo, "closure"))
        else:
            clo = force(clo)
            if isinstance(clo, Ptr): clo = ctx.read(clo)
        ctx.inlined["{closure} in " + norm_name(self.prog.insts[inst]["n"])] = 1
        return self.run(inst, [clo] + args)
    def call_value(self, f, args):
        """call a function value: closure, reference to one, or function item"""
        ctx = self.ctx
        f = force(f)
        v = f
        while isinstance(v, Ptr): v = ctx.read(v)
        if isinstance(v, FnVal):
            t = self.prog.types[v.ty]
            if t["k"] == "fn": return self.call(t["inst"], args)
            if t["k"] == "closure": v = Agg(v.ty, 0, [])
            else: raise Unsupported("call of " + t["k"])
        if isinstance(v, Obj) and v.k == "pyfn": return v.d["f"](self, *args)
        if isinstance(v, Agg):
            t = self.prog.types[v.ty]
            if t["k"] == "closure":
                for i in t["insts"]:
                    if i is not None and i in self.prog.bodies and "{closure" in self.prog.insts[i]["n"].split("::")[-1]:
                        return self.run_closure(i, f, args)
        raise Unsupported("call of %r" % (v,))
    def dropped(self, fr, pl):
        """the end of a critical section"""
        if "MutexGuard" not in self.prog.types[fr.body["locals"][pl[0]]].get("n", ""): return
        v = fr.loc[pl[0]].v
        if isinstance(v, Uninit): return
        v = force(v)
        if isinstance(v, Ptr): self.ctx.ghost["locks"].release(self, v)
    # ---- loops
    def loop(self, fr, inst, hdr, loops):
        ctx = self.ctx
        body = loops[hdr]
        inside = fr.prev is not None and fr.prev in body and hdr in fr.lstate
        if not inside:
            st = fr.lstate[hdr] = {"n": 0, "mode": None}
            mod = self.modified(fr, body)
            conc = False
            for li in mod:
                if isinstance(li, tuple): continue
                v = fr.loc[li].v
                v = v.val if isinstance(v, Lazy) else v
                if isinstance(v, IterV) and (v.len - v.pos).is_const() and (v.len - v.pos).ival() <= 64: conc = True
            st["mode"] = "unroll" if conc else "inv"
            if conc: return
            st["mod"] = mod
            chain = ">".join(norm_name(self.prog.insts[f.inst]["n"]) for f in ctx.frames[-4:-1])
            key = (norm_name(self.prog.insts[inst]["n"]), sorted(loops).index(hdr), chain, tuple(f.prev for f in ctx.frames[-4:-1]))
            st["key"] = key; st["body"] = body
            self.inv_enter(fr, st)
        else:
            st = fr.lstate[hdr]
            if st["mode"] == "unroll":
                st["n"] += 1
                if st["n"] > 80: raise Unsupported("loop unrolling limit")
                return
            self.inv_back(fr, st)
    def modified(self, fr, body):
        mod = []
        def add(pl):
            if pl[1] and "*" in pl[1]:
                if ("*", pl[0]) not in mod: mod.append(("*", pl[0]))
            elif pl[0] not in mod: mod.append(pl[0])
        for b in sorted(body):
            bl = fr.body["blocks"][b]
            for s in bl["s"]:
                if s[0] == "=":
                    add(s[1])
                    if s[2][0] == "ref" and s[2][1]: add(s[2][2])
                elif s[0] == "sd": add(s[1])
            t = bl["t"]
            if t[0] == "call": add(t[3])
        res = []
        for m in mod:
            if isinstance(m, tuple):
                # written through a pointer: the pointee of the pointer as it is at loop entry
                if m[1] in mod: continue
                v = fr.loc[m[1]].v
                if isinstance(force(v) if not isinstance(v, Uninit) else v, Ptr): res.append(("*", m[1]))
            else: res.append(m)
        return res
    def inv_cells(self, fr, st):
        out = []
        for m in st["mod"]:
            if isinstance(m, tuple):
                p = force(fr.loc[m[1]].v)
                out.append((m, p))
            else:
                if isinstance(fr.loc[m].v, Uninit): continue
                out.append((m, Ptr(fr.loc[m])))
        have = {p.cell for m, p in out}
        for m, p in list(out):
            for q in models.mut_bases(self, self.ctx.read(p)):
                if q.cell not in have: have.add(q.cell); out.append((("base", m, len(have)), Ptr(q.cell)))
        # ghost state
        for c in self.ctx.ghost.get("cells", ()):
            if c not in have: have.add(c); out.append((("ghost", c.name), Ptr(c)))
        return out
    def inv_enter(self, fr, st):
        ctx = self.ctx
        cells = self.inv_cells(fr, st)
        # locals that are dead at entry (assigned before use in every iteration) are uninitialised or stale: havoc to uninit
        st["vars"] = cells
        entry = [(m, p, ctx.read(p)) for m, p in cells]
        its = [v for m, p, v in entry if isinstance(v, IterV)]
        st["entry"] = entry
        st["it"] = None
        for m, p, v in entry:
            if isinstance(v, IterV): st["it"] = p; st["it0"] = v
        st["live"] = []
        k0 = I(0)
        for n, (m, p, v) in enumerate(entry):
            if isinstance(v, IterV): continue
            for c in list(ctx.cands) + self.auto_cands(fr, st, m, v):
                lab = (st["key"], str(m), c.name)
                if lab in ctx.houdini: continue
                g = c.goal(ctx, v, I(0), st["it0"] if st["it"] is not None else None, v)
                if g is None: continue
                st["live"].append((lab, c, m, p, v))
                ctx.oblige("loop invariant '%s' of _%s holds on entry to loop %s" % (c.name, m, st["key"],), g, ("inv", lab))
        # havoc
        n = ctx.names.get("loop", 0); ctx.names["loop"] = n + 1
        if st["it"] is not None:
            it = st["it0"]
            k = ctx.fresh("k%d" % n, "I")
            ctx.assume(le(I(0), k)); ctx.assume(le(it.pos + k, it.len))
            st["k"] = k
            ctx.write(st["it"], it.at(it.pos + k))
        else:
            st["k"] = ctx.fresh("k%d" % n, "I"); ctx.assume(ge(st["k"]))
        for m, p, v in entry:
            if isinstance(v, IterV): continue
            # what cannot be given an arbitrary value of its type is poisoned: any later use is refused
            self.havoc_k = ((st["key"], str(m)), st["k"])
            try: nv = self.havoc(v, "h%d_%s" % (n, str(m).replace("'", "")), (st["key"], str(m)), self.lty(fr, m))
            except Unsupported: nv = UNINIT
            self.havoc_k = None
            ctx.write(p, nv)
        for lab, c, m, p, v0 in st["live"]:
            c.use(ctx, ctx.read(p), st["k"], st.get("it0"), v0)
        import engine
        ctx.guards.append((engine._serial[0], {p.cell for m, p, v in entry} | {fr.loc[m] for m in st["mod"] if not isinstance(m, tuple)}, fr, st["body"], st["k"]))
    def auto_cands(self, fr, st, m, v):
        """invariants every loop is tried with: counters, lengths, unchanged values"""
        ctx = self.ctx; out = []
        v = force(v)
        if isinstance(v, Poly) and v.sort == "I":
            out.append(Cand("counts up", lambda c, x, k, it, x0: eq(x, x0 + k) if isinstance(x, Poly) and k is not None else None))
            out.append(Cand("counts down", lambda c, x, k, it, x0: eq(x, x0 - k) if isinstance(x, Poly) and k is not None else None))
            if st["it"] is None:
                for nm, e in self.int_terms(fr, st):
                    out.append(Cand("at most " + nm, lambda c, x, k, it, x0, e=e: le(x, e) if isinstance(x, Poly) else None))
        if isinstance(m, tuple) and m[0] == "ghost":
            out = out[:1]
            out.append(Cand("unchanged", lambda c, x, k, it, x0: eq(x, x0) if isinstance(x, Poly) else (Iff(x, x0) if isinstance(x, B) else None)))
        if isinstance(v, Obj) and v.k == "vec" or isinstance(v, Seq):
            ln = lambda x: x.d["seq"].length() if isinstance(x, Obj) else x.length()
            ok = lambda x: isinstance(x, Seq) or (isinstance(x, Obj) and x.k == "vec")
            out.append(Cand("length kept", lambda c, x, k, it, x0: eq(ln(x), ln(x0)) if ok(x) else None))
            # (tried once it is known that the length is not kept)
            if "key" not in st or (st["key"], str(m), "length kept") in ctx.houdini: out.append(Cand("length grows by one", lambda c, x, k, it, x0: eq(ln(x), ln(x0) + k) if ok(x) and k is not None else None))
        return out
    def int_terms(self, fr, st):
        """integers that the loop does not change: unmodified integer locals, constants compared with, lengths"""
        ctx = self.ctx; out = {}
        for i, c in enumerate(fr.loc):
            if i in st["mod"]: continue
            v = c.v
            if isinstance(v, Lazy) or isinstance(v, Uninit): continue
            if isinstance(v, Poly) and v.sort == "I": out[v.key()] = ("_%d" % i, v)
            elif isinstance(v, Ptr):
                try:
                    if v.meta: n = v.meta[1]
                    else:
                        w = v.cell.v if not v.path else None
                        n = w.d["seq"].length() if isinstance(w, Obj) and w.k == "vec" else (w if isinstance(w, Poly) and w.sort == "I" else None)
                    if n is not None: out[n.key()] = ("of _%d" % i, n)
                except Unsupported: pass
            elif isinstance(v, Obj) and v.k == "vec": n = v.d["seq"].length(); out[n.key()] = ("len _%d" % i, n)
        return list(out.values())[:12]
    def lty(self, fr, m):
        if not isinstance(m, tuple): return fr.body["locals"][m]
        if m[0] == "*": return self.prog.types[fr.body["locals"][m[1]]].get("p")
        return None
    def havoc(self, v, name, key, ty=None):
        ctx = self.ctx
        v = force(v)
        if isinstance(v, Flt):
            if ("fin", key) in ctx.houdini:
                if ctx.ghost.get("anyfloat"): return ANY
                def th():
                    c = ctx.choose(4)
                    return [lambda: ctx.ffin(name), lambda: PINF, lambda: NINF, lambda: NAN][c]()
                return Lazy(th)
            ctx.oblige("loop variable is finite", toB(v.k == "fin"), ("inv", ("fin", key)))
            return ctx.ffin(name)
        if isinstance(v, B): return ctx.freshb(name)
        if isinstance(v, Poly):
            p = ctx.fresh(name, "I")
            t = self.prog.types[ty] if ty is not None else None
            if t and t["k"] == "int":
                lo, hi = int_range(t)
                ctx.assume(le(I(lo), p)); ctx.assume(le(p, I(hi)))
            return p
        if isinstance(v, Agg):
            t = self.prog.types[v.ty]
            if t.get("n") in models.TIMES: return models.any_time(ctx, models.TIMES[t["n"]])
            if t["k"] == "enum":
                if len(t["vars"]) == 2 and t["n"].endswith("Option"):
                    def th():
                        i = ctx.choose(2)
                        return Agg(v.ty, i, [ctx.sym(f[1], name + "." + f[0]) for f in t["vars"][i]["f"]])
                    try: return Lazy(th)
                    except Unsupported: raise
                raise Unsupported("havoc of enum")
            tys = [f[1] for f in t["vars"][0]["f"]] if t["k"] == "struct" else t.get("f", [None] * len(v.fs))
            return Agg(v.ty, v.var, [self.havoc(f, name + "." + str(i), (key, i), tys[i]) if not isinstance(f, Ptr) else f for i, f in enumerate(v.fs)])
        if isinstance(v, Seq):
            e = self.prog.types[ty].get("e") if ty is not None else None
            return self.havoc_seq(v, name, key, e)
        if isinstance(v, Obj) and v.k == "vec":
            e = v.d.get("ety")
            if e is None and ty is not None: e = (self.prog.types[ty].get("args") or [None])[0]
            return v.with_(seq=self.havoc_seq(v.d["seq"], name, key, e))
        if isinstance(v, Obj) and v.k == "image": return self.havoc_image(v, name, key)
        if isinstance(v, Obj) and v.k == "text": return v
        if isinstance(v, Obj) and v.k in ("time", "duration"): return models.any_time(ctx, v.k)
        if isinstance(v, FnVal): return v
        if "havoc" in ctx.ghost and isinstance(v, Obj):
            r = ctx.ghost["havoc"][0](v, ctx, name)
            if r is not None: return r
        raise Unsupported("havoc of %r" % (v,))
    def havoc_seq(self, s, name, key, ety=None):
        """an arbitrary sequence; the length is kept when every iteration keeps it, or grows by one per iteration"""
        ctx = self.ctx
        if isinstance(s, models.Abs): raise Unsupported("havoc of a ghost sequence")
        if hasattr(s, "permuted"):
            # a ghost list: every iteration has to leave it as it is (checked at the end of the iteration)
            if ("keep", key) in ctx.houdini: return s.permuted(ctx)
            return s
        if hasattr(s, "arbitrary"): return s.arbitrary(ctx, name)
        if "havoc" in ctx.ghost:
            r = ctx.ghost["havoc"][1](ctx, s, name, ety)
            if r is not None: return r
        n0 = s.length()
        n = None
        if self.havoc_k is not None and self.havoc_k[0] == key:
            # the invariant about the length fixes it; substituted so that indices coincide as terms
            if (key[0], key[1], "length kept") not in ctx.houdini: n = n0
            elif (key[0], key[1], "length grows by one") not in ctx.houdini: n = n0 + self.havoc_k[1]
        if n is None:
            n = ctx.fresh(name + ".len", "I"); ctx.assume(ge(n)); ctx.assume(le(n, I((1 << 62))))
        hooks = []
        def gen(c, i):
            if ety is None: raise Unsupported("element of a havocked sequence of unknown type")
            e = self.havoc_elem(ety, "%s[%r]" % (name, i))
            for h in hooks:
                r = h(c, e, i)
                if r is not None: e = r
            return e
        gen.hooks = hooks
        return SymSeq(n, gen)
    def havoc_elem(self, ety, name):
        ctx = self.ctx
        t = self.prog.types[ety]
        if t["k"] == "float":
            if ctx.ghost.get("anyfloat"): return ANY
            def th():
                c = ctx.choose(4)
                return [lambda: ctx.ffin(name), lambda: PINF, lambda: NINF, lambda: NAN][c]()
            return lazyf(th)
        if t["k"] in ("struct", "tuple") and not t.get("n", "").startswith(("std::", "image::")):
            fs = [f[1] for f in t["vars"][0]["f"]] if t["k"] == "struct" else t["f"]
            return Agg(ety, 0, [self.havoc_elem(f, "%s.%d" % (name, i)) for i, f in enumerate(fs)])
        return ctx.sym(ety, name)
    def havoc_image(self, v, name, key):
        ctx = self.ctx
        pty = v.d["pty"]
        return v.with_(img=Img(v.d["w"], v.d["h"], lambda c, x, y: models.sym_pixel(c, pty, "%s(%r,%r)" % (name, x, y))))
    def inv_back(self, fr, st):
        ctx = self.ctx
        if st["it"] is not None:
            it = ctx.read(st["it"])
            k1 = it.pos - st["it0"].pos
        else: k1 = st["k"] + 1
        for lab, c, m, p, v0 in st["live"]:
            g = c.goal(ctx, ctx.read(p), k1, st.get("it0"), v0)
            ctx.oblige("loop invariant '%s' of _%s is preserved by loop %s" % (c.name, m, st["key"]), g if g is not None else FALSE, ("inv", lab))
        for m, p, v in st["entry"]:
            self.fin_back(ctx.read(p), v, (st["key"], str(m)))
        raise PathEnd()
    def fin_back(self, v, v0, key):
        v0 = force(v0)
        if isinstance(v0, Obj) and v0.k == "vec" and isinstance(force(v), Obj): v0 = v0.d["seq"]; v = force(v).d["seq"]
        if hasattr(v0, "permuted"):
            if ("keep", key) not in self.ctx.houdini: self.ctx.oblige("the loop leaves the list as it is", toB(v is v0), ("inv", ("keep", key)))
            else: self.ctx.oblige("the loop only permutes the list", toB(v is v0 or getattr(v, "root", None) is not None and v.root is v0.root))
            return
        if isinstance(v0, Flt):
            if ("fin", key) not in self.ctx.houdini:
                self.ctx.oblige("loop variable is finite", toB(force(v).k == "fin"), ("inv", ("fin", key)))
        elif isinstance(v0, Agg) and self.prog.types[v0.ty]["k"] in ("struct", "tuple"):
            v = force(v)
            if not isinstance(v, Agg): return
            for i, f in enumerate(v0.fs):
                if not isinstance(f, Ptr): self.fin_back(v.fs[i], f, (key, i))

class Cand:
    """loop invariant candidate: formula(ctx, value, k, iterator at entry, value at entry) -> B or None (not applicable)"""
    def __init__(self, name, formula): self.name = name; self.formula = formula
    def goal(self, ctx, v, k, it, v0): return self.formula(ctx, v, k, it, v0)
    def use(self, ctx, v, k, it, v0):
        g = self.formula(ctx, v, k, it, v0)
        ctx.assume(g if g is not None else FALSE)
class Each(Cand):
    """candidate about every element of a sequence: each(ctx, element, index, k) -> B or None"""
    def __init__(self, name, each): self.name = name; self.each = each
    def seq(self, v):
        v = force(v)
        if isinstance(v, Obj) and v.k == "vec": v = v.d["seq"]
        return v if isinstance(v, (ConcSeq, SymSeq)) else None
    def goal(self, ctx, v, k, it, v0):
        s = self.seq(v)
        if s is None or k is None: return None
        n = s.length()
        if n.is_const() and n.ival() == 0: return TRUE
        if isinstance(s, ConcSeq): return And(*[self.one(ctx, x, I(i), k) for i, x in enumerate(s.xs)])
        # the elements written are checked at their own index, the others at an arbitrary one
        gs = [self.one(ctx, x, i, k) for i, x in s.over]
        j = ctx.fresh("each", "I")
        if ctx.branch(And(ge(j), lt(j, n), *[ne(j, i) for i, x in s.over])):
            base = SymSeq(s.len, s.gen, (), s.memo)
            gs.append(self.one(ctx, base.get(ctx, j), j, k))
        return And(*gs)
    def one(self, ctx, e, j, k):
        g = self.each(ctx, e, j, k)
        return FALSE if g is None else g
    def use(self, ctx, v, k, it, v0):
        s = self.seq(v)
        h = getattr(s.gen, "hooks", None) if isinstance(s, SymSeq) else None
        if h is None: ctx.assume(FALSE) if s is None else None; return
        def hook(c, e, i):
            g = self.each(c, e, i, k)
            c.assume(g if g is not None else FALSE)
        h.append(hook)

def _panic_check(self, g, msg):
    if self.known(g) is True: return
    self.oblige("no panic: " + msg, g, "panic")
    self.assume(g)
Ctx.panic_check = _panic_check
def _stack_has(self, name): return self.callstack.count(name) >= 3
Ctx.stack_has = _stack_has
