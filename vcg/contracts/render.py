"""P15, P16, P22: the rendering loop.

One pixel is probed.  Ghost counters count the samples drawn through its area and the samples added to its accumulated colour;
every critical section may only leave the probed element as it is or add one sample of the probed pixel to it.  What other tasks do
between critical sections is left open: at every lock the content is arbitrary."""
from contracts.kit import *
from contracts.boxes import val
from contracts.trace import RD, ATT, MAXU, att_of
from contracts.bloom import real_val
from contracts import images
from fractions import Fraction

POST = "<solstrale::post::PostProcessors as solstrale::post::PostProcessor>::"
NEWR = RD + "Renderer::new"
PARTS = ("colour", "albedo", "normal")

class Acc(SymSeq):
    """the content of a mutex at the time of a lock"""
    __slots__ = ("mx", "counts")
    def cloned(self): return Steps(self.length(), I(0), self)
    def part(self, ctx, off, n):
        return Steps(self.length(), I(0), self) if off == I(0) and n == self.length() else SymSeq(n, lambda c, i: self.get(c, i + off))
class Steps(Seq):
    """the accumulated colours after the first `step` post-processing steps"""
    def __init__(self, n, step, of): self.n = n; self.step = step; self.of = of
    def length(self): return self.n
    def get(self, ctx, i): raise Unsupported("an element of the processed colours")
    def set(self, ctx, i, v): raise Unsupported("an element of the processed colours is changed")
    def part(self, ctx, off, n):
        if off == I(0) and n == self.n: return self
        raise Unsupported("part of the processed colours")
    def arbitrary(self, ctx, name):
        s = ctx.fresh(name + ".step", "I"); ctx.assume(ge(s))
        return Steps(self.n, s, self.of)

def seq_of(v):
    v = force(v)
    if isinstance(v, Obj) and v.k == "vec": v = v.d["seq"]
    return v if isinstance(v, Seq) else None
def vec3_at(ctx, s, i):
    """element i as three reals; None when it is not known to be that"""
    e = force(s.get(ctx, i))
    if not isinstance(e, Agg) or len(e.fs) != 3: return None
    fs = [force(f) for f in e.fs]
    return V(*[f.p for f in fs]) if all(isinstance(f, Flt) and f.k == "fin" for f in fs) else None

class Locks:
    """rely-guarantee bookkeeping of the accumulators"""
    def __init__(self, g): self.g = g; self.all = []
    def new(self, m, v):
        ctx = m.ctx
        n = len(self.all)
        c = [Cell(I(0), "%s added to accumulator %d" % (PARTS[i], n)) for i in range(3)]
        mx = Obj("mutex", cell=None, init=v, counts=c, n=n, open=Cell(None))
        mx.d["cell"] = Ptr(Cell(v, "mutex"))
        ctx.ghost["cells"] += c
        self.all.append(mx)
        s = seq_of(v)
        if s is not None:
            z = vec3_at(ctx, s, self.g["P"]) if ctx.branch(lt(self.g["P"], s.length())) else V(0, 0, 0)
            ctx.oblige("accumulated colours start at zero", z.eq(V(0, 0, 0)) if z is not None else FALSE)
        return mx
    def find(self, p):
        for mx in self.all:
            if mx.d["cell"].cell is p.cell: return mx
        return None
    def acquire(self, m, mx):
        ctx = m.ctx
        if mx.d["n"] in self.g["held"]: raise Unsupported("a lock is taken twice")
        n = seq_of(mx.d["init"]).length()
        memo = {}
        s = Acc(n, lambda c, i: mkvec3(c, V(*[c.fresh("acc.%s" % x) for x in "xyz"])))
        s.mx = mx.d["n"]; s.counts = [c.v for c in mx.d["counts"]]
        mx.d["cell"] = Ptr(Cell(models.mkvec(s).with_(ety=ctx.prog.ty("solstrale::geo::vec3::Vec3")), "mutex"))
        a = vec3_at(ctx, s, self.g["P"])
        self.g["held"][mx.d["n"]] = (s, a)
    def release(self, m, p):
        ctx = m.ctx
        mx = self.find(p)
        if mx is None or mx.d["n"] not in self.g["held"]: return
        s0, a = self.g["held"].pop(mx.d["n"])
        s = seq_of(mx.d["cell"].cell.v)
        mx.d["cell"].cell.v = UNINIT
        if s is s0: return
        ctx.oblige("the number of pixels stays", eq(s.length(), s0.length()))
        b = vec3_at(ctx, s, self.g["P"])
        if b is None: ctx.oblige("what is added to a pixel is a sample of it", FALSE); return
        if ctx.branch(b.eq(a)): return
        for i in range(3):
            if ctx.branch(b.eq(a + self.g["S"][i])):
                c = mx.d["counts"][i]; ctx.store(c, (), c.v + 1)
                return
        ctx.oblige("nothing but a sample of the same pixel is ever added to a pixel", FALSE)

# ------------------------------------------------------------------ loop invariants about the probed pixel
def rowk(ctx):
    """index of the row loop's current iteration"""
    return ctx.guards[1][4] if len(ctx.guards) > 1 else None
def mine(ctx, down):
    k = rowk(ctx); g = ctx.ghost["render"]
    if k is None: return None
    # rows other than the probed one are at least a row's width away from it
    for row in (k, g["H"] - 1 - k):
        if row.key() in g["apart"]: continue
        g["apart"].add(row.key())
        d = row - g["py"]
        if ctx.branch(ge(d, 1)): ctx.apply_lemma(row_apart, d, g["W"])
        elif ctx.branch(le(d, -1)): ctx.apply_lemma(row_apart, -d, g["W"])
    return eq(k, g["py"] if down else g["H"] - 1 - g["py"])
def ghost_val(ctx, v): return isinstance(v, Poly) and "render" in ctx.ghost
def row_done(down):
    def f(ctx, v, k, it, v0):
        if not ghost_val(ctx, v) or len(ctx.guards) > 2 or k is None: return None
        g = ctx.ghost["render"]; i = g["py"] if down else g["H"] - 1 - g["py"]
        return Or(And(gt(k, i), eq(v, v0 + 1)), And(le(k, i), eq(v, v0)))
    return f
def px_done(down):
    def f(ctx, v, k, it, v0):
        if not ghost_val(ctx, v) or k is None: return None
        M = mine(ctx, down)
        if M is None: return None
        g = ctx.ghost["render"]
        return Or(And(M, gt(k, g["px"]), eq(v, v0 + 1)), And(Or(Not(M), le(k, g["px"])), eq(v, v0)))
    return f
class Pixel(Cand):
    """the probed pixel's element of a sequence: the sample once the pixel's own iteration is over, what it was before that"""
    def __init__(self, name, down, q, part, add): self.name = name; self.down = down; self.q = q; self.part = part; self.add = add
    def parts(self, ctx, v, k, v0):
        g = ctx.ghost.get("render")
        if g is None or k is None or isinstance(v, (Poly, B, Flt)): return None
        s, s0 = seq_of(v), seq_of(v0)
        if s is None or s0 is None or isinstance(s, (Steps, ConcSeq)) or isinstance(s0, (Steps, ConcSeq)): return None
        if isinstance(s0, Acc) != (self.q == "P"): return None
        M = mine(ctx, self.down)
        if M is None: return None
        a = vec3_at(ctx, s0, g[self.q])
        if a is None: return None
        S = g["S"][self.part]
        return s, a, a + S if self.add else S, And(M, gt(k, g["px"])), g[self.q], M
    def goal(self, ctx, v, k, it, v0):
        p = self.parts(ctx, v, k, v0)
        if p is None: return None
        s, a, after, done, at, M = p
        b = vec3_at(ctx, s, at)
        if b is None: return Not(self.own(M))
        own = self.own(M)
        return Or(Not(own), And(done, b.eq(after)), And(Not(done), b.eq(a)))
    def own(self, M):
        """a row's buffer only matters for the probed row; the accumulator is left alone by all others"""
        return M if self.q == "px" else TRUE
    def use(self, ctx, v, k, it, v0):
        p = self.parts(ctx, v, k, v0)
        h = getattr(p[0].gen, "hooks", None) if p and isinstance(p[0], SymSeq) else None
        if h is None: return Cand.use(self, ctx, v, k, it, v0)
        s, a, after, done, at, M = p
        def hook(c, e, i):
            if not c.branch(And(eq(i, at), self.own(M))): return None
            fs = [force(f) for f in e.fs]
            now = after if c.branch(done) else a
            if any(f.k == "any" for f in fs): return mkvec3(c, now)
            c.assume(And(toB(all(f.k == "fin" for f in fs)), V(*[f.p for f in fs]).eq(now)) if all(f.k == "fin" for f in fs) else FALSE)
            return None
        h.append(hook)
    formula = goal
def step_cand(ctx, v, k, it, v0):
    if "render" not in ctx.ghost or k is None or isinstance(v, (Poly, B, Flt)): return None
    s = seq_of(v)
    if isinstance(s, Steps): return eq(s.step, k)
    return None
RC = [Cand("steps done", step_cand)]
for down in (False, True):
    nm = "top down" if down else "bottom up"
    RC.append(Cand("row sampled, %s" % nm, row_done(down)))
    RC.append(Cand("pixel sampled, %s" % nm, px_done(down)))
    for part in range(3):
        RC.append(Pixel("row holds the pixel's %s, %s" % (PARTS[part], nm), down, "px", part, False))
        RC.append(Pixel("the pixel's %s is added, %s" % (PARTS[part], nm), down, "P", part, True))

# ------------------------------------------------------------------ the loop
def row_apart(d, w): return [ge(d, 1), ge(w, 1)], ge(d * w, w)
def times_nonneg(a, b): return [ge(a), ge(b)], ge(a * b)
def pps(ctx, n): return SymSeq(n, lambda c, i: Obj("pp", idx=i))
def rendering(m, aux):
    ctx = m.ctx
    W, H, N, n = [ctx.fresh(x, "I") for x in ("width", "height", "samples", "steps")]
    for x in (W, H): ctx.assume(ge(x, 1)); ctx.assume(le(x, 1 << 20))
    ctx.assume(ge(N)); ctx.assume(le(N, MAXU)); ctx.assume(ge(n, 1)); ctx.assume(le(n, 1 << 40))
    ctx.apply_lemma(times_nonneg, W.as_real() if False else W, H)
    px, py = ctx.fresh("px", "I"), ctx.fresh("py", "I")
    for x, hi in ((px, W), (py, H)): ctx.assume(ge(x)); ctx.assume(lt(x, hi))
    S = [sv(ctx, "sample " + p)[0] for p in PARTS]
    for i in range(3): ctx.assume(Not(S[i].eq(V(0, 0, 0))))
    for i in range(3):
        for j in range(i): ctx.assume(Not(S[i].eq(S[j])))
    g = ctx.ghost["render"] = {"px": px, "py": py, "W": W, "H": H, "P": py * W + px, "S": S, "held": {}, "apart": set()}
    sent, polled, draws, rounds = [Cell(v, nm) for v, nm in ((I(0), "reports sent"), (FALSE, "abort polled"), (I(0), "samples drawn"), (I(0), "rounds"))]
    ctx.ghost["cells"] = [sent, polled, draws, rounds]
    L = ctx.ghost["locks"] = Locks(g)
    aborted = []
    ctx.ghost["anyfloat"] = True
    D, E = rmax(W - 1, I(1)), rmax(H - 1, I(1))
    camera = []
    def live(what):
        if aborted: ctx.oblige("after an abort request nothing more is %s" % what, FALSE)
    # --- the scene
    i_strat = ctx.prog.ty(RD + "RenderImageStrategy")
    strat = force(ctx.sym(i_strat, "strategy"))
    kind = variant(ctx, strat)
    post = models.mkvec(pps(ctx, n))
    def hook(ty, t, name):
        nn = t.get("n")
        if nn == "solstrale::hittable::Hittables": return Obj("hit", name="world", w=I(1), box=None)
        if name.endswith("render_config.width"): return W
        if name.endswith("render_config.height"): return H
        if name.endswith("render_config.samples_per_pixel"): return N
        if nn == RD + "RenderImageStrategy": return strat
        if nn == "std::vec::Vec" and name.endswith("post_processors"): return post
        return None
    R_ = ctx.sym(ctx.prog.ty(RD + "Renderer"), "renderer", hook); ren = ref(ctx, R_)
    config = field(ctx, field(ctx, R_, "scene"), "camera")
    # --- the parts that other contracts describe
    def new_camera(m, inst, args):
        ctx.oblige("the camera is the scene's, for the image's size", And(eq(args[0], W), eq(args[1], H), same(ctx, val(ctx, args[2]), config)))
        camera.append(Obj("camera")); return camera[-1]
    def get_ray(m, inst, args):
        c = val(ctx, args[0])
        if not (isinstance(c, Obj) and c.k == "camera"): return NotImplemented
        live("traced")
        uv = force(args[1])
        u, v = fin(field(ctx, uv, "u")), fin(field(ctx, uv, "v"))
        U, Q = u * D.as_real(), v * E.as_real()
        pyv = (H - 1 - py).as_real()
        inx = And(le(px.as_real(), U), lt(U, px.as_real() + 1))
        iny = And(le(pyv, Q), lt(Q, pyv + 1))
        hit = ctx.branch(And(inx, iny))
        if hit: ctx.store(draws, (), draws.v + 1)
        return Obj("camera ray", hit=hit)
    def path(m, inst, args):
        r = val(ctx, args[1])
        if not (isinstance(r, Obj) and r.k == "camera ray"): return NotImplemented
        ctx.oblige("paths start at the camera", And(eq(args[2]), eq(fin(args[3]))))
        ctx.oblige("with the renderer's scene", toB(isinstance(args[0], Ptr) and (args[0].same(ren) or ctx.read(args[0]) is ctx.read(ren))))
        rt = m.prog.bodies[inst]["locals"][0]; t = ctx.prog.types[rt]
        fs = []
        for f in t["vars"][0]["f"]:
            ft = ctx.prog.types[f[1]]
            if ft.get("n") == ATT: fs.append(Obj("sample", hit=r.d["hit"]))
            elif f[0].startswith("albedo"): fs.append(mkvec3(ctx, S[1]) if r.d["hit"] else any_colour(ctx))
            elif f[0].startswith("normal"): fs.append(mkvec3(ctx, S[2]) if r.d["hit"] else any_colour(ctx))
            else: fs.append(ctx.sym(f[1], "traced." + f[0]))
        return Agg(rt, 0, fs)
    def attenuated(m, inst, args):
        v = val(ctx, args[0])
        if not (isinstance(v, Obj) and v.k == "sample"): return NotImplemented
        return mkvec3(ctx, S[0]) if v.d["hit"] else any_colour(ctx)
    ctx.ghost["new camera"] = new_camera; ctx.ghost["get ray"] = get_ray; ctx.ghost["path"] = path; ctx.ghost["attenuated"] = attenuated
    ctx.ghost["needs aux"] = toB(aux)
    def scope(m):
        live("started")
        ctx.oblige("no round starts without a look for an abort request", polled.v)
        ctx.store(polled, (), FALSE)
        ctx.store(rounds, (), rounds.v + 1)
    ctx.ghost["scope"] = scope
    def recv(m, rx, dty):
        ctx.store(polled, (), TRUE)
        if ctx.choose(2) == 0:
            t = ctx.prog.types[dty]
            return Agg(dty, 1, [ctx.sym(t["vars"][1]["f"][0][1], "empty")])
        aborted.append(1)
        return Agg(dty, 0, [ctx.freshb("request")])
    ctx.ghost["recv"] = recv
    failed = []
    def process(m, inst, args, last):
        pp = val(ctx, args[0])
        if not (isinstance(pp, Obj) and pp.k == "pp"): return NotImplemented
        s, off, ln = ctx.slice_of(args[1])
        ok = isinstance(s, (Acc, Steps)) and off == I(0)
        ctx.oblige("post-processing works on the accumulated colours", toB(ok))
        if not ok: raise PathEnd()
        step = s.step if isinstance(s, Steps) else I(0)
        acc = s.of if isinstance(s, Steps) else s
        ctx.oblige("the steps run in their order, each on the result of the one before", eq(step, pp.d["idx"]))
        ctx.oblige("all pixels are processed", And(eq(ln, W * H), eq(args[4], W), eq(args[5], H)))
        done = args[6]
        ctx.oblige("the number of samples is that of the finished rounds", eq(done, rounds.v))
        ctx.oblige("every pixel has received exactly as many samples as there were rounds", And(eq(acc.counts[0], done), eq(acc.counts[1]), eq(acc.counts[2]), eq(draws.v, done)))
        if aux:
            for i in (1, 2):
                t = ctx.slice_of(args[1 + i])[0]
                good = isinstance(t, Acc)
                ctx.oblige("post-processors that ask for %s get it" % PARTS[i], And(toB(good), *([eq(t.counts[j], done if j == i else 0) for j in range(3)] if good else [])))
        if last: ctx.oblige("the last step makes the image", eq(pp.d["idx"], n - 1))
        else: ctx.oblige("every step but the last hands on colours", lt(pp.d["idx"], n - 1))
        if ctx.choose(2) == 1:
            failed.append(1); return Agg(m.prog.bodies[inst]["locals"][0], 1, [Obj("error")])
        dty = m.prog.bodies[inst]["locals"][0]
        if last: return Agg(dty, 0, [models.mkimage(ctx, "final", W, H)])
        return Agg(dty, 0, [models.mkvec(Steps(W * H, step + 1, acc))])
    ctx.ghost["process"] = process
    def send(m, tx, msg, dty):
        live("reported")
        ctx.oblige("each round is reported once", eq(sent.v + 1, rounds.v))
        ctx.store(sent, (), sent.v + 1)
        ctx.oblige("the progress is the fraction of the rounds", eq(fin(field(ctx, msg, "progress")) * N.as_real(), sent.v.as_real()))
        im = some(ctx, field(ctx, msg, "render_image"))
        if im is not None: ctx.oblige("the image is that of the last post-processing step", toB(isinstance(force(im), Obj) and force(im).d.get("name") == "final"))
        if im is None:
            ctx.oblige("the last report has an image", lt(sent.v, N))
            ctx.oblige("every report has an image if the strategy asks for it", toB(kind != "EverySample"))
        elif kind == "OnlyFinal": ctx.oblige("only the last report has an image if the strategy asks for that", eq(sent.v, N))
        if ctx.choose(2) == 1:
            failed.append(1); return Agg(dty, 1, [Obj("error")])
        return Agg(dty, 0, [Agg(-1, 0, [])])
    ctx.ghost["send"] = send
    res = force(call(m, RD + "Renderer::render", ren, ref(ctx, Obj("sender")), ref(ctx, Obj("receiver"))))
    ok = variant(ctx, res) == "Ok"
    if not failed: ctx.oblige("a finished or aborted render reports no error", toB(ok))
    ctx.oblige("every finished round has been reported", Or(eq(sent.v, rounds.v), toB(bool(aborted) or bool(failed))))
    if not failed and not aborted: ctx.oblige("a render that is not aborted runs all rounds and reports each", And(eq(sent.v, N), eq(rounds.v, N)))
def any_colour(ctx): return Agg(ctx.prog.ty("solstrale::geo::vec3::Vec3"), 0, [ANY, ANY, ANY])

# ------------------------------------------------------------------ the finished image
def final_image(m):
    """without effects the image shows every pixel's average at the pixel's own place"""
    ctx = m.ctx
    W, H, n = [ctx.fresh(x, "I") for x in ("width", "height", "samples")]
    for x in (W, H): ctx.assume(ge(x, 1)); ctx.assume(le(x, MAXU))
    ctx.assume(ge(n, 1)); ctx.assume(le(n, MAXU)); ctx.assume(le(W * H, MAXU))
    im = models.mkimage(ctx, "size", W, H)
    images.probe(ctx, im)
    P = ctx.ghost["probe_index"]
    S = sv(ctx, "sum")[0]
    want = [models.sym_byte(ctx, "want." + c) for c in "rgb"]
    ctx.ghost["want"] = want
    pty = models.pixel_ty(ctx.prog)
    px, py = ctx.ghost["probe"][:2]
    def gen(c, i):
        if len(c.guards) > 1:
            k = c.guards[0][4]
            if k is not None:
                d = k - py
                if c.branch(ge(d, 1)): c.apply_lemma(row_apart, d, W)
                elif c.branch(le(d, -1)): c.apply_lemma(row_apart, -d, W)
        return mkvec3(c, S) if c.branch(eq(i, P)) else any_colour(c)
    def tone(m, inst, args):
        c = val(ctx, args[0]); fs = [force(f) for f in c.fs]
        p = models.sym_pixel(ctx, pty, "pixel")
        if any(f.k != "fin" for f in fs): return p
        ctx.oblige("the average is over the number of samples", eq(args[1], n))
        for w, b in zip(want, images.bytes_of(ctx, p)): ctx.assume(eq(w, b))
        return p
    ctx.ghost["tone"] = tone
    N = force(call(m, "solstrale::post::nop::NopPostProcessor::new"))
    others = ctx.fresh("others", "I"); ctx.assume(ge(others))
    cols = Ptr(Cell(SymSeq(W * H, gen), "sums"), (), (I(0), W * H))
    other = Ptr(Cell(SymSeq(others, lambda c, i: any_colour(c)), "others"), (), (I(0), others))
    r = force(call(m, POST + "post_process", ref(ctx, N), cols, other, other, W, H, n))
    ctx.oblige("the image is made", toB(variant(ctx, r) == "Ok"))
    if variant(ctx, r) != "Ok": return
    out = force(r.fs[0])
    ctx.oblige("the image has the requested size", And(eq(out.d["w"], W), eq(out.d["h"], H)))
    for nm, a, b in zip("red green blue".split(), images.bytes_of(ctx, out.d["img"].get(ctx, px, py)), want):
        ctx.oblige("every pixel shows its own average (%s)" % nm, eq(a, b))
# ------------------------------------------------------------------ which reports have an image
def strategy(m):
    ctx = m.ctx
    s, n = ctx.fresh("round", "I"), ctx.fresh("rounds", "I")
    ctx.assume(ge(s, 1)); ctx.assume(le(s, n)); ctx.assume(le(n, MAXU))
    st = force(ctx.sym(ctx.prog.ty(RD + "RenderImageStrategy"), "strategy"))
    kind = variant(ctx, st)
    now, last = models.any_time(ctx, "time"), models.any_time(ctx, "time")
    r = toB(call(m, RD + "RenderImageStrategy::should_generate_image", ref(ctx, st), s, n, now, last))
    is_last = eq(s, n)
    if kind == "EverySample": ctx.oblige("every report has an image", r)
    elif kind == "OnlyFinal": ctx.oblige("only the last report has an image", Or(And(r, is_last), And(Not(r), Not(is_last))))
    else:
        ctx.oblige("the last report always has an image", Or(Not(is_last), r))
        d = models.dur_of(ctx, st.fs[0])
        p = now.d["p"] - last.d["p"]
        late = gt(p, d) if ctx.branch(ge(p)) else lt(d)
        ctx.oblige("other reports have one when the interval has passed since the last image", Or(is_last, And(r, late), And(Not(r), Not(late))))

class Needs(BySig):
    """whether albedo and normals are needed"""
    assumed = True
    def __init__(self): BySig.__init__(self, "some post-processor needs albedo and normals")
    def matches(self, prog, i, name):
        b = prog.bodies[i]; T = prog.types
        if b["argc"] != 1 or T[b["locals"][0]]["k"] != "bool": return False
        t = T[b["locals"][1]]
        return t["k"] == "ref" and T[t["p"]].get("n") == RD + "RenderConfig"
    def apply(self, m, inst, args):
        g = m.ctx.ghost.get("needs aux")
        return NotImplemented if g is None else g

def register(reg):
    A = lambda key, f, props, cost=0, **kw: reg.add(Lemma(key, f, **kw), props, cost)
    def by(key):
        return lambda m, inst, args: m.ctx.ghost[key](m, inst, args) if key in m.ctx.ghost else NotImplemented
    reg.structs["std::time::Duration"] = lambda ctx, ty, t, name, hook: nonneg_duration(ctx, name)
    reg.add(reg.Abstract("solstrale::camera::Camera::new", by("new camera"))); reg.add(reg.Abstract("solstrale::camera::Camera::get_ray", by("get ray")))
    reg.add(reg.Abstract(ATT + "::get_attenuated_color", by("attenuated")))
    reg.add(reg.Abstract(POST + "post_process", lambda m, i, a: m.ctx.ghost["process"](m, i, a, True) if "process" in m.ctx.ghost else NotImplemented))
    reg.add(reg.Abstract(POST + "intermediate_post_process", lambda m, i, a: m.ctx.ghost["process"](m, i, a, False) if "process" in m.ctx.ghost else NotImplemented))
    reg.add(Needs())
    reg.add(reg.Abstract("solstrale::util::rgb_color::to_rgb_color", by("tone")))
    A("the finished image", final_image, "P15", 5, cands=images.PIXELS)
    A("which reports have an image", strategy, "P16")
    A("the rendering loop", lambda m: rendering(m, False), "P15 P16 P22", 20, cands=RC)
    A("the rendering loop with albedo and normals", lambda m: rendering(m, True), "P15", 20, cands=RC)
def nonneg_duration(ctx, name):
    p = ctx.fresh(name); ctx.assume(ge(p)); return models.dur(p)
