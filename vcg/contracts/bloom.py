"""P20 bloom: blur weights and the separable blur."""
from contracts.kit import *
from contracts.images import probe, bytes_of
from interp import Each

class Ghost:
    """ghost function of integers into reals, with congruence"""
    def __init__(self, ctx, name, n=1): self.ctx = ctx; self.name = name; self.n = n; self.inst = []
    def __call__(self, *args):
        for a, v in self.inst:
            if all(x == y for x, y in zip(a, args)): return v
        v = [models.uf("%s.%d" % (self.name, i), *args)[0] for i in range(self.n)]
        for a, w in self.inst:
            d = [x - y for x, y in zip(a, args)]
            if any(z.is_const() and z.cval() != 0 for z in d): continue
            self.ctx.assume(Or(*[ne(z) for z in d], And(*[eq(p, q) for p, q in zip(v, w)])))
        self.inst.append((args, v))
        return v
class Prefix(Ghost):
    """prefix sums: f(idx.., 0) = 0, f(idx.., k+1) = f(idx.., k) + term(idx.., k)"""
    def __init__(self, ctx, name, term, n=1): Ghost.__init__(self, ctx, name, n); self.term = term
    def at(self, *args):
        k = args[-1]
        if k.is_const() and k.cval() == 0: return [R(0)] * self.n
        return self(*args)
    def step(self, *args):
        """the definition of f at k+1, for k = the last argument"""
        a, b = self.at(*args), self.at(*args[:-1], args[-1] + 1)
        t = self.term(*args)
        for p, q, u in zip(a, b, t): self.ctx.assume(eq(q, p + u))

# ------------------------------------------------------------------ weights
GW = "solstrale::util::gaussian::create_gaussian_blur_weights"
def real_val(e):
    e = force(e)
    return e.p if isinstance(e, Flt) and e.k == "fin" else None
def each_pushed(ctx, e, j, k):
    g = ctx.ghost["gauss"]
    if real_val(e) is None: return FALSE
    return eq(real_val(e), g(j))
def each_scaled(ctx, e, j, k):
    g = ctx.ghost["gauss"]
    x = real_val(e)
    if x is None: return FALSE
    return And(Or(ge(j, k), eq(x * ctx.ghost["total"], g(j))), Or(lt(j, k), eq(x, g(j))))
def prefix_sum(ctx, v, k, it, v0):
    S = ctx.ghost.get("sigma")
    if S is None or not isinstance(force(v), Flt) or k is None: return None
    x = real_val(v)
    if x is None: return FALSE
    if not k.is_const(): S.step(k - 1) if ctx.ghost.get("stepped") is None else None
    return eq(x, S.at(k)[0])
def prefix_pos(ctx, v, k, it, v0):
    S = ctx.ghost.get("sigma")
    if S is None or not isinstance(force(v), Flt) or k is None: return None
    x = real_val(v)
    if x is None: return FALSE
    return And(ge(x), Or(le(k), gt(x)))
def scaled_sum(ctx, v, k, it, v0):
    g = ctx.ghost
    if "result" not in g or not isinstance(force(v), Flt) or k is None: return None
    x = real_val(v)
    if x is None: return FALSE
    S = g["sigma"]
    if not k.is_const(): S.step(k - 1)
    return eq(x * g["total"], S.at(k)[0])
WC = [Each("every weight so far is the bell curve at its index", each_pushed), Each("weights so far are divided by the sum", each_scaled),
      Cand("the sum so far is the prefix sum", prefix_sum), Cand("the sum is positive", prefix_pos), Cand("the scaled sum is the prefix sum", scaled_sum)]
def weights(m):
    ctx = m.ctx
    n = ctx.fresh("n", "I"); ctx.assume(ge(n, 1)); ctx.assume(le(n, 1 << 40))
    sd = ctx.fresh("sd"); ctx.assume(gt(sd))
    def g(j):
        a = div(j.as_real() - (n.as_real() - 1).scale(Fraction(1, 2)), sd)
        return models.m_exp(ctx, a * a * R(Fraction(-1, 2)))
    ctx.ghost["gauss"] = g
    S = ctx.ghost["sigma"] = Prefix(ctx, "sigma", lambda k: [g(k)])
    tot = S.at(n)[0]; ctx.ghost["total"] = tot
    w = force(call(m, GW, n, Fin(sd)))
    s = w.d["seq"]
    ctx.oblige("there is one weight per position", eq(s.length(), n))
    ctx.lemma("the sum of the bell curve is positive", gt(tot))
    j = ctx.fresh("j", "I"); ctx.assume(ge(j)); ctx.assume(lt(j, n))
    W = lambda i: fin(s.get(ctx, i))
    wj, wm = W(j), W(n - 1 - j)
    ctx.oblige("weights are not negative", ge(wj))
    ctx.oblige("the weights are symmetric", eq(wj, wm))
    k = ctx.fresh("k", "I")
    if ctx.branch(And(ge(k), le(k * 2 + 2, n))):
        a, b = W(k), W(k + 1)
        ga, gb = g(k), g(k + 1)
        ea, eb = [div((k + i).as_real() - (n.as_real() - 1).scale(Fraction(1, 2)), sd) for i in (0, 1)]
        ea, eb = [x * x * R(Fraction(-1, 2)) for x in (ea, eb)]
        ctx.assume(Or(gt(ea, eb), le(ga, gb)))      # the exponential is monotone
        ctx.lemma("the curve rises towards the centre", le(ga, gb))
        ctx.oblige("the weights decrease from the centre", le(a, b))
    ctx.ghost["result"] = 1
    acc, _ = models.native_loop(m, IterV(n, lambda c, i: s.get(c, i)), Fin(0), lambda acc, v, i: f_add(ctx, acc, v), "sum of the weights")
    ctx.oblige("the weights sum to one", eq(fin(acc), 1))


class Weights(Contract):
    """the blur weights: proved by weights() above, used as n arbitrary non-negative numbers"""
    root = True
    def __init__(self):
        Contract.__init__(self, GW, "blur weights"); self.optional = False; self.cands = WC
    def apply(self, m, inst, args):
        ctx = m.ctx; n = args[0]; sd = force(args[1])
        if not (sd.k == "fin" and ctx.lin_true(And(gt(sd.p), ge(n, 1))) is True): return NotImplemented
        wt = ctx.ghost.setdefault("wt", Ghost(ctx, "wt"))
        ctx.ghost["kernel"] = n
        def gen(c, i):
            w = wt(i)[0]; c.assume(ge(w)); return Fin(w)
        return models.mkvec(SymSeq(n, gen))
    def check(self, m, inst):
        m.ctx.cands = WC; m.ctx.no_contract = {self.key}
        try: weights(m)
        except NotFinite: m.ctx.oblige("the weights are finite", FALSE)

# ------------------------------------------------------------------ bloom
PP = "<solstrale::post::PostProcessors as solstrale::post::PostProcessor>::"
NEW = "solstrale::post::bloom::BloomPostProcessor::new"
def split(ctx, v):
    """column and row of a pixel index"""
    w, h = ctx.ghost["w"], ctx.ghost["h"]
    q, r = {}, {}
    m = next(iter(w.t))[0][0]
    if v == w or v == h: return None
    for mm, k in v.t.items():
        e = dict(mm)
        if e.get(m) == 1: del e[m]; q[tuple(sorted(e.items()))] = k
        else: r[mm] = k
    x, y = Poly(r, "I"), Poly(q, "I")
    for dx, dy in ((0, 0), (1, 1)):
        # (y + 1) * w - 1 is the end of row y
        if dx: x, y = x + w, y - 1
        if ctx.lin_true(And(ge(x), lt(x, w), ge(y), lt(y, h))) is True: return x, y
    return None
def position(ctx):
    """column and row that the innermost closure over pixel indices is working on"""
    for fr in reversed(ctx.frames):
        for c in fr.loc[1:1 + fr.body["argc"]]:
            v = c.v
            if isinstance(v, Poly) and v.sort == "I":
                p = split(ctx, v)
                if p is not None: return p
    return None
def at_position(name):
    def mk(i):
        def f(ctx, v, k, it, v0):
            S = ctx.ghost.get(name)
            v = force(v)
            if S is None or k is None or not (isinstance(v, Agg) and len(v.fs) == 3) or ctx.prog.types[v.ty].get("n") != V3: return None
            pos = position(ctx)
            if pos is None: return None
            x = real_val(v.fs[i])
            if x is None: return FALSE
            if not k.is_const(): S.step(pos[0], pos[1], k - 1)
            return eq(x, S.at(pos[0], pos[1], k)[i])
        return f
    return [Cand("the sum so far is the %s blur (%s)" % (name, c), mk(i)) for i, c in enumerate("xyz")]
def dark_acc():
    def mk(i):
        def f(ctx, v, k, it, v0):
            v = force(v)
            if "dark" not in ctx.ghost or not (isinstance(v, Agg) and len(v.fs) == 3): return None
            x = real_val(v.fs[i])
            return FALSE if x is None else eq(x)
        return f
    return [Cand("nothing is added so far (%s)" % c, mk(i)) for i, c in enumerate("xyz")]
BC = at_position("horizontal") + at_position("vertical") + dark_acc()
def clampi(ctx, v, n):
    if ctx.branch(lt(v)): return I(0)
    return n - 1 if ctx.branch(gt(v, n - 1)) else v
def bloom_setup(m, dark=False):
    ctx = m.ctx
    w, h = ctx.fresh("w", "I"), ctx.fresh("h", "I")
    for v in (w, h): ctx.assume(ge(v, 1)); ctx.assume(le(v, 1 << 29))
    ctx.assume(lt(w * h, 1 << 31))
    ctx.ghost["w"], ctx.ghost["h"] = w, h
    ctx.ghost["grids"] = [(w, h)]
    n = ctx.fresh("samples", "I"); ctx.assume(ge(n, 1)); ctx.assume(le(n, (1 << 32) - 1))
    frac = ctx.fresh("fraction"); ctx.assume(ge(frac)); ctx.assume(le(frac, R(Fraction(1, 2))))
    thr, mx = ctx.fresh("threshold"), ctx.fresh("max"); ctx.assume(gt(mx))
    T, M = thr * n.as_real(), mx * n.as_real()
    o = ctx.prog.types
    f64opt = [i for i, t in enumerate(o) if t["k"] == "enum" and t["n"] == "std::option::Option" and t["vars"][1]["f"] and o[t["vars"][1]["f"][0][1]]["k"] == "float" and o[t["vars"][1]["f"][0][1]]["w"] == 64][0]
    r = force(call(m, NEW, Fin(frac), Agg(f64opt, 1, [Fin(thr)]), Agg(f64opt, 1, [Fin(mx)])))
    ctx.oblige("a fraction between zero and a half is accepted", toB(variant(ctx, r) == "Ok"))
    if variant(ctx, r) != "Ok": raise PathEnd()
    pp = r.fs[0]
    px = Ghost(ctx, "px", 3)
    def gen(c, i):
        v = V(*px(i))
        if dark: c.assume(lt(v.length(), T))
        return mkvec3(c, v)
    N = w * h
    pix = Ptr(Cell(SymSeq(N, gen), "pixels"), (), (I(0), N))
    empty = Ptr(Cell(ConcSeq([]), "none"), (), (I(0), I(0)))
    Bg = Ghost(ctx, "bright", 3)
    def bright(i):
        """the definition of the bright part at i"""
        p = V(*px(i)); L = p.length(); v = V(*Bg(i))
        if not ctx.branch(ge(L, T)): d = V(0, 0, 0)
        elif not ctx.branch(gt(L, M)): d = p
        else: d = V(*[div(c, L) * M for c in p])
        ctx.assume(v.eq(d))
    half = terms.floor_real(frac * w.as_real())
    seen = ctx.ghost.setdefault("collected", set())
    def hterm(x, y, k):
        i = y * w + clampi(ctx, x + k - half, w)
        if "bright part" not in seen: bright(i)
        t = ctx.ghost["wt"](k)[0]
        return [c * t for c in Bg(i)]
    H = Prefix(ctx, "H", hterm, 3)
    K = half * 2 + 1
    def vterm(x, y, k):
        t = ctx.ghost["wt"](k)[0]
        return [c * t for c in H.at(x, clampi(ctx, y + k - half, h), K)]
    Vb = Prefix(ctx, "V", vterm, 3)
    def c_bright(c, i):
        if "bright part" not in seen: bright(i)
        return mkvec3(c, V(*Bg(i)))
    def c_at(S):
        def f(c, i):
            p = split(c, i)
            return None if p is None else mkvec3(c, V(*S.at(p[0], p[1], K)))
        return f
    zero = lambda c, i: mkvec3(c, V(0, 0, 0))
    ctx.ghost["collect"] = [("zero", zero)] if dark else [("bright part", c_bright), ("horizontal blur", c_at(H)), ("blur", c_at(Vb))]
    X, Y = ctx.fresh("X", "I"), ctx.fresh("Y", "I")
    for b in (ge(X), lt(X, w), ge(Y), lt(Y, h)): ctx.assume(b)
    ctx.lemma("the index of a pixel is below the number of pixels", lt(Y * w + X, N))
    if dark: ctx.ghost["dark"] = 1
    else: ctx.ghost["horizontal"] = H; ctx.ghost["vertical"] = Vb
    res = force(call(m, PP + "intermediate_post_process", ref(ctx, pp), pix, empty, empty, w, h, n))
    ctx.oblige("bloom gives no error", toB(variant(ctx, res) == "Ok"))
    if variant(ctx, res) != "Ok": raise PathEnd()
    out = force(res.fs[0]).d["seq"]
    ctx.oblige("the image size is kept", eq(out.length(), N))
    got = vec(ctx, out.get(ctx, Y * w + X))
    return X, Y, K, V(*px(Y * w + X)), Vb, got
def bloom(m):
    ctx = m.ctx
    X, Y, K, p, Vb, got = bloom_setup(m)
    ctx.oblige("the kernel spans the configured part of the width on both sides", eq(ctx.ghost["kernel"], K))
    b = Vb.at(X, Y, K)
    for n, g, o, a in zip("xyz", got, p, b): ctx.oblige("the pixel gets exactly the separable blur of the bright part (%s)" % n, eq(g, o + a))
def bloom_dark(m):
    X, Y, K, p, Vb, got = bloom_setup(m, True)
    m.ctx.oblige("an image without bright pixels is unchanged", got.eq(p))

def register(reg):
    A = lambda key, f, props, cost=0, **kw: reg.add(Lemma(key, f, **kw), props, cost)
    reg.add(Weights(), "P20", 1)
    A("bloom adds the blur", bloom, "P20", 3, cands=BC)
    A("bloom leaves dark images", bloom_dark, "P20", 2, cands=BC)
