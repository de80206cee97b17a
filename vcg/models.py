"""Models of library functions (trusted contracts on dependencies)."""
import re
from engine import *
import engine, terms

EXACT = {}
PATS = []
def model(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d
def pat(rx, first=False):
    """a model of every library function whose name matches; one that answers NotImplemented leaves the call to the next"""
    def d(f):
        if first: PATS.insert(0, (re.compile(rx), f))
        else: PATS.append((re.compile(rx), f))
        return f
    return d
def one_of(fs):
    def f(m, x, a, d):
        for g in fs:
            r = g(m, x, a, d)
            if r is not NotImplemented: return r
        return NotImplemented
    return f
_lk = {}
def lookup(name, x):
    if name in _lk: return _lk[name]
    r = EXACT.get(name)
    if r is None and x["crate"] != "solstrale":
        fs = [f for rx, f in PATS if rx.search(name)]
        r = fs[0] if len(fs) == 1 else one_of(fs) if fs else None
    if r is None and x["crate"] == "solstrale":
        for rx, f in PATS:
            if rx.pattern.startswith("^<solstrale") and rx.search(name): r = f; break
    _lk[name] = r
    return r
def label(name): return re.sub(r"<.*solstrale[^>]*", "<..", name)[:90] if len(name) > 90 else name

def uf(name, *args):
    """atom of an uninterpreted real function; memoised by arguments"""
    a, new = atom("%s%d" % (name, len(Atom.table)), "R", ("uf", name) + tuple(x.key() for x in args))
    if new: a.sem = ("uf", name, args)
    return Poly.of(a), a, new

PI = Fraction(engine.f64_bits(0x400921FB54442D18))

def m_sin_cos(ctx, which, x):
    x = force(x)
    if x.k != "fin": return NAN
    if x.p.is_const() and x.p.cval() == 0: return Fin(0 if which == "sin" else 1)
    sign = 1
    lead = sorted(x.p.t.items())[-1][1]
    q = x.p
    if lead < 0: q = -q; sign = -1
    s, sa, new = uf("sin", q); c, ca, _ = uf("cos", q)
    if new:
        f = [eq(s * s + c * c, 1)]
        sa.facts = f; ca.facts = f
    return Fin(s.scale(sign) if which == "sin" else c)
@model("std::intrinsics::sin")
def _(m, x, a, d): return lz(m, lambda c, v: m_sin_cos(c, "sin", v), a[0])
@model("std::intrinsics::cos")
def _(m, x, a, d): return lz(m, lambda c, v: m_sin_cos(c, "cos", v), a[0])
@model("std::sys::cmath::tan")
def _(m, x, a, d):
    v = force(a[0])
    if v.k != "fin": return NAN
    return Fin(uf("tan", v.p)[0])
@model("std::intrinsics::exp")
def _(m, x, a, d):
    v = force(a[0])
    if v.k == "nan": return NAN
    if v.k == "inf": return PINF if v.p == 1 else Fin(0)
    return Fin(m_exp(m.ctx, v.p))
def m_exp(ctx, p):
    if p.is_const() and p.cval() == 0: return R(1)
    e, at, new = uf("exp", p)
    if new: at.facts = [gt(e, 0), Or(gt(p), le(e, 1)), Or(lt(p), ge(e, 1))]
    return e
@model("std::intrinsics::log")
def _(m, x, a, d):
    v = a[0]
    ctx = m.ctx
    def th():
        w = force(v)
        if w.k == "nan": return NAN
        if w.k == "inf": return PINF if w.p == 1 else NAN
        if ctx.branch(lt(w.p)): return NAN
        if ctx.branch(eq(w.p)): return NINF
        e, at, new = uf("ln", w.p)
        if new: at.facts = [Or(gt(w.p, 1), le(e, 0)), Or(lt(w.p, 1), ge(e, 0)), Or(ne(w.p, 1), eq(e)), le(e, w.p - 1)]
        return Fin(e)
    return lazyf(th)
@model("std::sys::cmath::acos")
def _(m, x, a, d):
    ctx = m.ctx
    def th():
        v = force(a[0])
        if v.k != "fin": return NAN
        if not (ctx.is_true(And(le(v.p, 1), le(-v.p, 1))) or ctx.branch(And(le(v.p, 1), le(-v.p, 1)))): return NAN
        e, at, new = uf("acos", v.p)
        if new:
            at.facts = [ge(e), le(e, R(PI)), Or(ne(v.p, 1), eq(e))]
            s, c = m_sin_cos(ctx, "sin", Fin(e)), m_sin_cos(ctx, "cos", Fin(e))
            for t in (s, c): Atom.table[next(iter(t.p.atoms()))].facts += [eq(c.p, v.p), ge(s.p)]
        return Fin(e)
    return lazyf(th)
@model("std::sys::cmath::atan2")
def _(m, x, a, d): return lz(m, m_atan2, a[0], a[1])
def m_atan2(ctx, *a):
    y, z = force(a[0]), force(a[1])
    if y.k != "fin" or z.k != "fin": return NAN
    e, at, new = uf("atan2", y.p, z.p)
    if new:
        at.facts = [le(e, R(PI)), ge(e, R(-PI))]
        s, c = m_sin_cos(ctx, "sin", Fin(e)), m_sin_cos(ctx, "cos", Fin(e))
        l = terms.sqrt(y.p * y.p + z.p * z.p)
        for t in (s, c): Atom.table[next(iter(t.p.atoms()))].facts += [eq(s.p * l, y.p), eq(c.p * l, z.p)]
    return Fin(e)
def lz(m, f, *a):
    """apply a float function, keeping it lazy while its arguments are"""
    if any(pending(v) for v in a): return lazyf(lambda: force(f(m.ctx, *a)))
    return f(m.ctx, *a)
@model("std::intrinsics::sqrt")
def _(m, x, a, d): return lz(m, f_sqrt, a[0])
@model("std::intrinsics::fabs")
def _(m, x, a, d): return lz(m, f_abs, a[0])
@model("std::intrinsics::powi")
def _(m, x, a, d):
    ctx = m.ctx; v = force(a[0]); n = a[1]
    if not n.is_const() or n.ival() < 0 or n.ival() > 16: raise Unsupported("powi")
    r = Fin(1)
    for _ in range(n.ival()): r = f_mul(ctx, r, v)
    return r
@pat(r"^std::intrinsics::(minimum_number_nsz|minnum)_?f(64|32)|^core::f(64|32)::<impl f(64|32)>::min$|^std::f(64|32)::<impl f(64|32)>::min$")
def _(m, x, a, d): return lz(m, f_min, a[0], a[1])
@pat(r"^std::intrinsics::(maximum_number_nsz|maxnum)_?f(64|32)|<impl f(64|32)>::max$")
def _(m, x, a, d): return lz(m, f_max, a[0], a[1])
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::is_nan$")
def _(m, x, a, d): return toB(force(a[0]).k == "nan") if force(a[0]).k != "any" else m.ctx.freshb("isnan")
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::is_finite$")
def _(m, x, a, d): return toB(force(a[0]).k == "fin")
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::is_infinite$")
def _(m, x, a, d): return toB(force(a[0]).k == "inf")
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::(is_sign_negative|is_sign_positive)$")
def _(m, x, a, d):
    ctx = m.ctx; v = force(a[0])
    def neg():
        if v.k == "nan": return ctx.choose(2) == 1
        if v.k == "inf": return v.p == -1
        if ctx.branch(lt(v.p)): return True
        if ctx.branch(gt(v.p)): return False
        return ctx.choose(2) == 1
    r = neg()
    return toB(r if "negative" in x["n"] else not r)
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::(floor|ceil|trunc|round|fract)$")
def _(m, x, a, d):
    ctx = m.ctx; v = force(a[0])
    if v.k != "fin": return v if not x["n"].endswith("fract") else NAN
    k = x["n"].rsplit("::", 1)[1]
    if k == "floor": return Fin(floor_real(v.p).as_real())
    if k == "ceil": return Fin(-floor_real(-v.p).as_real())
    if ctx.branch(lt(v.p)): t = -floor_real(-v.p).as_real()
    else: t = floor_real(v.p).as_real()
    if k == "trunc": return Fin(t)
    if k == "fract": return Fin(v.p - t)
    raise Unsupported("round")
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::clamp$")
def _(m, x, a, d):
    ctx = m.ctx
    v = force(a[0])
    if v.k == "nan": return NAN
    lo, hi = force(a[1]), force(a[2])
    ctx.panic_check(f_cmp(ctx, "Le", lo, hi), "clamp with min > max")
    return f_min(ctx, f_max(ctx, v, lo), hi)
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::total_cmp$")
def _(m, x, a, d):
    ctx = m.ctx
    p, q = force(ctx.read(a[0])), force(ctx.read(a[1]))
    if p.k in ("nan", "any") or q.k in ("nan", "any"): c = ctx.choose(3)
    elif ctx.branch(f_cmp(ctx, "Lt", p, q)): c = 0
    elif ctx.branch(f_cmp(ctx, "Gt", p, q)): c = 2
    else:
        c = 1
    return Agg(d, c, [])
def float_bits(ctx, v, t): raise Unsupported("bits of a float")
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::mul_add$")
def _(m, x, a, d): return f_add(m.ctx, f_mul(m.ctx, a[0], a[1]), a[2])
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::(recip|to_radians|to_degrees|signum|copysign|hypot)$")
def _(m, x, a, d):
    ctx = m.ctx; k = x["n"].rsplit("::", 1)[1]
    if k == "recip": return f_div(ctx, Fin(1), a[0])
    if k == "to_radians": return f_mul(ctx, a[0], Fin(PI / 180))
    if k == "hypot": return f_sqrt(ctx, f_add(ctx, f_mul(ctx, a[0], a[0]), f_mul(ctx, a[1], a[1])))
    raise Unsupported(k)
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::(sin_cos)$")
def _(m, x, a, d): return Agg(d, 0, [m_sin_cos(m.ctx, "sin", a[0]), m_sin_cos(m.ctx, "cos", a[0])])
@pat(r"(?:<impl f(64|32)>|std::f(64|32)|core::f(64|32))::(powi|powf|sqrt|abs|sin|cos|tan|exp|ln|acos|asin|atan|atan2|log|log2|log10|rem_euclid|cbrt|exp2)$")
def _(m, x, a, d):
    k = x["n"].rsplit("::", 1)[1]
    if k == "sqrt": return f_sqrt(m.ctx, a[0])
    if k == "abs": return f_abs(m.ctx, a[0])
    if k in ("powf",):
        e = force(a[1])
        if e.k == "fin" and e.p.is_const() and e.p.cval() == Fraction(1, 2): return f_sqrt(m.ctx, a[0])
        if e.k == "fin" and e.p.is_const() and e.p.cval().denominator == 1 and 0 <= e.p.cval() <= 8:
            r = Fin(1)
            for _ in range(int(e.p.cval())): r = f_mul(m.ctx, r, a[0])
            return r
        raise Unsupported("powf")
    if k == "rem_euclid":
        p, q = force(a[0]), force(a[1])
        if p.k == "fin" and q.k == "fin" and q.p.is_const() and q.p.cval() > 0:
            c = q.p.cval()
            return Fin(p.p - floor_real(p.p.scale(1 / c)).as_real().scale(c))
        raise Unsupported("rem_euclid")
    return NotImplemented

# ---- random numbers: any value of the documented range
@model("fastrand::f64")
def _(m, x, a, d):
    r = m.ctx.fresh("rnd")
    m.ctx.assume(ge(r)); m.ctx.assume(lt(r, 1))
    m.ctx.ghost.setdefault("rnd", []).append(r)
    return Fin(r)
@model("fastrand::f32")
def _(m, x, a, d):
    r = m.ctx.fresh("rnd")
    m.ctx.assume(ge(r)); m.ctx.assume(lt(r, 1))
    return Fin(r)
@pat(r"^fastrand::(u32|usize|u64|i32|u8)$")
def _(m, x, a, d):
    ctx = m.ctx
    r = a[0]
    t = m.prog.types[r.ty]
    n = t["n"].split("::")[-1]
    if n == "Range": lo, hi = r.fs[0], r.fs[1] - 1
    elif n == "RangeTo": lo, hi = I(0), r.fs[0] - 1
    elif n == "RangeInclusive": lo, hi = r.fs[0], r.fs[1]
    else: raise Unsupported("fastrand range")
    ctx.panic_check(le(lo, hi), "empty range for random integer")
    v = ctx.fresh("rndi", "I")
    ctx.assume(le(lo, v)); ctx.assume(le(v, hi))
    ctx.ghost.setdefault("rndi", []).append(v); ctx.ghost.setdefault("rndr", []).append((lo, hi))
    return v

# ---- no-ops and markers
@pat(r"precondition_check|assert_inhabited|cold_path|std::intrinsics::(likely|unlikely)|ub_checks")
def _(m, x, a, d):
    if "unlikely" in x["n"] or "likely" in x["n"]: return a[0]
    return Agg(d, 0, [])
@pat(r"panicking::|^std::result::unwrap_failed|^std::rt::panic|^std::option::(expect|unwrap)_failed|handle_alloc_error")
def _(m, x, a, d):
    m.ctx.panic_check(FALSE, "explicit panic reached (%s)" % x["n"].split("::")[-1])
    raise PathEnd()
@pat(r"^std::mem::drop$")
def _(m, x, a, d):
    l = m.ctx.ghost.get("locks")
    if l and "MutexGuard" in x["n"] and isinstance(a[0], Ptr): l.release(m, a[0])
    return Agg(d, 0, [])
@pat(r"^<(.*) as std::clone::Clone>::clone$")
def _(m, x, a, d):
    if x["crate"] == "solstrale": return NotImplemented
    v = m.ctx.read(a[0])
    if isinstance(v, Obj) and v.k == "vec" and hasattr(v.d["seq"], "cloned"): return v.with_(seq=v.d["seq"].cloned())
    return v
@pat(r"^<std::boxed::Box<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$|^<&.* as std::ops::Deref>::deref$|::as_ref$.*Box")
def _(m, x, a, d): 
    v = m.ctx.read(a[0])
    return v
@pat(r"^std::boxed::Box::new$")
def _(m, x, a, d): return m.ctx.ptr(a[0], "box")
@pat(r"^std::boxed::Box::new_uninit$")
def _(m, x, a, d):
    # Box<MaybeUninit<T>>: union { uninit: (), value: ManuallyDrop<T> }
    return m.ctx.ptr(Agg(-1, 0, [Agg(-1, 0, []), Agg(-1, 0, [UNINIT])]), "box")
@pat(r"^std::boxed::(Box|box_new)")
def _(m, x, a, d):
    if len(a) == 1: return m.ctx.ptr(a[0], "box")
    return NotImplemented
@pat(r"^std::sync::Arc::new$|^std::rc::Rc::new$")
def _(m, x, a, d): return m.ctx.ptr(a[0], "arc")
@pat(r"^<std::sync::Arc<.*> as std::ops::Deref>::deref$|^<std::sync::Arc<.*> as std::convert::AsRef>::as_ref$")
def _(m, x, a, d): return m.ctx.read(a[0])
@pat(r"^std::mem::(swap|replace|take)$")
def _(m, x, a, d):
    ctx = m.ctx
    k = x["n"].split("::")[2][:4]
    if k == "swap":
        p, q = ctx.read(a[0]), ctx.read(a[1])
        ctx.write(a[0], q); ctx.write(a[1], p); return Agg(d, 0, [])
    if k == "repl":
        p = ctx.read(a[0]); ctx.write(a[0], a[1]); return p
    return NotImplemented

# ---- Vec and slices
def mkvec(seq): return Obj("vec", seq=seq)
def vec_of(ctx, p):
    v = ctx.read(p)
    if isinstance(v, Ptr): return vec_of(ctx, v)
    if isinstance(v, Obj) and v.k == "vec": return v
    raise Unsupported("vector expected, got %r" % (v,))
@pat(r"^std::vec::Vec::(new|with_capacity)$|^<std::vec::Vec<.*> as std::default::Default>::default$")
def _(m, x, a, d): return mkvec(ConcSeq([]))
@pat(r"^std::vec::from_elem$")
def _(m, x, a, d):
    n = a[1]; v = a[0]
    if n.is_const() and n.ival() <= 256: return mkvec(ConcSeq([v] * n.ival()))
    return mkvec(SymSeq(n, lambda c, i: v))
@pat(r"^std::vec::Vec::push$")
def _(m, x, a, d):
    ctx = m.ctx; v = vec_of(ctx, a[0]); s = v.d["seq"]
    ns = ConcSeq(s.xs + (a[1],)) if isinstance(s, ConcSeq) else s.push(a[1])
    ctx.write(a[0], v.with_(seq=ns)); return Agg(d, 0, [])
@pat(r"^std::vec::Vec::len$|slice::(?:<impl \[.*\]>::)?len$")
def _(m, x, a, d): return m.ctx.slice_of(a[0])[2]
@pat(r"^std::vec::Vec::is_empty$|slice::(?:<impl \[.*\]>::)?is_empty$")
def _(m, x, a, d): return eq(m.ctx.slice_of(a[0])[2])
@pat(r"^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::vec::Vec::as_(mut_)?slice$|^<std::vec::Vec<.*> as std::convert::AsRef>::as_ref$|^<std::vec::Vec<.*> as std::borrow::Borrow.*>::borrow$")
def _(m, x, a, d):
    p = a[0]; v = vec_of(m.ctx, p); s = v.d["seq"]
    return Ptr(p.cell, p.path + (("v",),), (I(0), s.length()))
@pat(r"^<std::vec::Vec<.*> as std::ops::Index(Mut)?>::index(_mut)?$|^core::slice::index::<impl std::ops::Index(Mut)?<.*> for \[.*\]>::index(_mut)?$|^<.* as (std|core)::slice::SliceIndex>::index(_mut)?$|slice::(?:<impl \[.*\]>::)?get_unchecked(_mut)?$")
def _(m, x, a, d):
    ctx = m.ctx
    if "SliceIndex" in x["n"]: a = [a[1], a[0]]
    p, i = a
    s, off, n = ctx.slice_of(p)
    base = p.path if (p.meta is not None or not isinstance(ctx.read(p), Obj)) else p.path + (("v",),)
    if isinstance(i, Poly):
        ctx.panic_check(And(ge(i), lt(i, n)), "index out of bounds")
        return Ptr(p.cell, base + (("i", off + i),))
    t = m.prog.types[i.ty]["n"].split("::")[-1]
    if t == "Range": lo, hi = i.fs
    elif t == "RangeTo": lo, hi = I(0), i.fs[0]
    elif t == "RangeFrom": lo, hi = i.fs[0], n
    elif t == "RangeFull": lo, hi = I(0), n
    elif t == "RangeInclusive": lo, hi = i.fs[0], i.fs[1] + 1
    else: raise Unsupported("slice index " + t)
    ctx.panic_check(And(le(lo, hi), le(hi, n)), "slice range out of bounds")
    return Ptr(p.cell, base, (off + lo, hi - lo))
def opt(m, d, v): return Agg(d, 0, []) if v is None else Agg(d, 1, [v])
@pat(r"slice::(?:<impl \[.*\]>::)?(get|get_mut|first|last)$")
def _(m, x, a, d):
    ctx = m.ctx; s, off, n = ctx.slice_of(a[0])
    k = x["n"].split("::")[-1].split("<")[0] or x["n"]
    base = a[0].path if a[0].meta is not None else a[0].path + (("v",),)
    if "first" in k: i = I(0)
    elif "last" in k: i = n - 1
    else: i = a[1]
    if not isinstance(i, Poly): raise Unsupported("slice get range")
    if not ctx.branch(And(ge(i), lt(i, n))): return opt(m, d, None)
    return opt(m, d, Ptr(a[0].cell, base + (("i", off + i),)))
@pat(r"slice::(?:<impl \[.*\]>::)?split_last$|slice::(?:<impl \[.*\]>::)?split_first$")
def _(m, x, a, d):
    ctx = m.ctx; s, off, n = ctx.slice_of(a[0]); p = a[0]
    if ctx.branch(eq(n)): return opt(m, d, None)
    tt = m.prog.types[d]["vars"][1]["f"][0][1]
    if "last" in x["n"]:
        return opt(m, d, Agg(tt, 0, [Ptr(p.cell, p.path + (("i", off + n - 1),)), Ptr(p.cell, p.path, (off, n - 1))]))
    return opt(m, d, Agg(tt, 0, [Ptr(p.cell, p.path + (("i", off),)), Ptr(p.cell, p.path, (off + 1, n - 1))]))
@pat(r"slice::(?:<impl \[.*\]>::)?split_at(_mut)?$")
def _(m, x, a, d):
    ctx = m.ctx; p = a[0]; s, off, n = ctx.slice_of(p); k = a[1]
    ctx.panic_check(le(k, n), "split_at out of bounds")
    return Agg(d, 0, [Ptr(p.cell, p.path, (off, k)), Ptr(p.cell, p.path, (off + k, n - k))])
def subseq(ctx, s, off, n):
    if hasattr(s, "part"): return s.part(ctx, off, n)
    if isinstance(s, ConcSeq) and off.is_const() and n.is_const(): return ConcSeq(s.xs[off.ival():off.ival() + n.ival()])
    if off == I(0) and n == s.length(): return s
    return SymSeq(n, lambda c, i: s.get(c, i + off))
@pat(r"slice::(?:<impl \[.*\]>::)?(to_vec|to_owned|into_vec)$|^<std::vec::Vec<.*> as std::convert::From.*>::from$|slice::<impl .*ToOwned.*>::to_owned$|^<.* as slice::.*ToVec>::to_vec$|^<std::vec::Vec<.*> as std::clone::Clone>::clone$")
def _(m, x, a, d):
    ctx = m.ctx
    v = a[0]
    if isinstance(v, Ptr):
        if "into_vec" in x["n"]:
            s = ctx.read(v); return mkvec(s) if isinstance(s, Seq) else s
        s, off, n = ctx.slice_of(v)
        return mkvec(subseq(ctx, s, off, n))
    if isinstance(v, Seq): return mkvec(v)
    return v
@pat(r"^std::boxed::box_assume_init_into_vec_unsafe$|^std::slice::into_vec$")
def _(m, x, a, d):
    s = m.ctx.read(a[0])
    if isinstance(s, Agg) and len(s.fs) == 2 and isinstance(s.fs[1], Agg): s = s.fs[1].fs[0]
    return mkvec(s) if isinstance(s, Seq) else s
@pat(r"^std::vec::Vec::(append)$")
def _(m, x, a, d):
    ctx = m.ctx; p, q = vec_of(ctx, a[0]), vec_of(ctx, a[1])
    s, t = p.d["seq"], q.d["seq"]
    ctx.write(a[0], p.with_(seq=cat(ctx, s, t))); ctx.write(a[1], q.with_(seq=ConcSeq([])))
    return Agg(d, 0, [])
def cat(ctx, s, t):
    if isinstance(s, ConcSeq) and not s.xs: return t
    if isinstance(t, ConcSeq) and not t.xs: return s
    if isinstance(s, ConcSeq) and isinstance(t, ConcSeq): return ConcSeq(s.xs + t.xs)
    if isinstance(s, Abs) or isinstance(t, Abs): return Abs.cat(s, t)
    if hasattr(s, "cat"): return s.cat(ctx, t)
    if hasattr(t, "rcat"): return t.rcat(ctx, s)
    n = s.length()
    return SymSeq(n + t.length(), lambda c, i: s.get(c, i) if c.branch(lt(i, n)) else t.get(c, i - n))
class Abs(Seq):
    """formal concatenation of sequences known only by name (ghost)"""
    def __init__(self, parts): self.parts = tuple(parts)
    def length(self):
        r = I(0)
        for p in self.parts: r = r + (p.length() if isinstance(p, Seq) else p[1])
        return r
    def get(self, ctx, i): raise Unsupported("element of an abstract sequence")
    @staticmethod
    def cat(s, t):
        f = lambda z: z.parts if isinstance(z, Abs) else (z,)
        return Abs(f(s) + f(t))
@pat(r"^std::vec::Vec::extend_from_slice$|^<std::vec::Vec<.*> as std::iter::Extend.*>::extend$|^std::vec::Vec::extend$")
def _(m, x, a, d):
    ctx = m.ctx; p = vec_of(ctx, a[0])
    v = a[1]
    if isinstance(v, Ptr):
        s, off, n = ctx.slice_of(v); t = subseq(ctx, s, off, n)
    elif isinstance(v, Obj) and v.k == "vec": t = v.d["seq"]
    else: t = collect(m, as_iter(m, v))
    ctx.write(a[0], p.with_(seq=cat(ctx, p.d["seq"], t))); return Agg(d, 0, [])
@pat(r"^std::vec::Vec::(pop|remove|swap_remove|insert|truncate|clear|split_off)$")
def _(m, x, a, d):
    ctx = m.ctx; p = vec_of(ctx, a[0]); s = p.d["seq"]; k = x["n"].split("::")[-1]
    if k == "clear": ctx.write(a[0], p.with_(seq=ConcSeq([]))); return Agg(d, 0, [])
    if k == "split_off":
        n = s.length(); ctx.panic_check(le(a[1], n), "split_off out of bounds")
        ctx.write(a[0], p.with_(seq=subseq(ctx, s, I(0), a[1])))
        return mkvec(subseq(ctx, s, a[1], n - a[1]))
    if k == "pop" and isinstance(s, ConcSeq):
        if not s.xs: return opt(m, d, None)
        ctx.write(a[0], p.with_(seq=ConcSeq(s.xs[:-1]))); return opt(m, d, s.xs[-1])
    raise Unsupported("Vec::" + k)
@pat(r"slice::(?:<impl \[.*\]>::)?sort(_unstable)?_by$")
def _(m, x, a, d):
    import contracts.tree
    return contracts.tree.sort_model(m, x, a, d)
@pat(r"slice::(?:<impl \[.*\]>::)?reverse$")
def _(m, x, a, d):
    ctx = m.ctx; s, off, n = ctx.slice_of(a[0])
    if not hasattr(s, "permuted") or not (off == I(0) and n == s.len): raise Unsupported("reverse")
    ctx.store(a[0].cell, a[0].path, s.permuted(ctx)); return Agg(d, 0, [])
@pat(r"slice::(?:<impl \[.*\]>::)?swap$")
def _(m, x, a, d):
    ctx = m.ctx; p = a[0]; s, off, n = ctx.slice_of(p)
    i, j = a[1], a[2]
    ctx.panic_check(And(lt(i, n), lt(j, n)), "swap index out of bounds")
    base = p.path if p.meta is not None else p.path + (("v",),)
    if hasattr(s, "permuted") and off == I(0) and n == s.len:
        ctx.store(p.cell, base, s.permuted(ctx)); return Agg(d, 0, [])
    pi = Ptr(p.cell, base + (("i", off + i),)); pj = Ptr(p.cell, base + (("i", off + j),))
    u, v = ctx.read(pi), ctx.read(pj)
    ctx.write(pi, v); ctx.write(pj, u); return Agg(d, 0, [])

# ---- memory that a value can write through
def mut_bases(m, v, seen=None):
    """pointers through which stepping an iterator or calling a closure can write"""
    ctx = m.ctx; out = []
    v = v.val if isinstance(v, Lazy) else v
    if isinstance(v, IterV):
        src = v.src
        if isinstance(src, tuple):
            if src[0] == "mut": out.append(src[1])
            for x in src:
                if isinstance(x, (IterV, Agg)): out += mut_bases(m, x)
    elif isinstance(v, Agg) and v.ty is not None and v.ty >= 0:
        t = m.prog.types[v.ty]
        if t["k"] == "closure":
            ups = m.prog.types[t["up"]].get("f", []) if isinstance(t["up"], int) else []
            for f, ut in zip(v.fs, ups):
                u = m.prog.types[ut]
                if u["k"] == "ref" and u["mut"] and isinstance(f, Ptr): out.append(f); out += mut_bases(m, ctx.read(f))
                elif u["k"] == "ref" and isinstance(f, Ptr):
                    w = ctx.read(f)
                    if isinstance(w, Obj) and w.k == "mutex": out.append(w.d["cell"])
                elif isinstance(f, Agg): out += mut_bases(m, f)
    elif isinstance(v, Obj) and v.k == "mutex": out.append(v.d["cell"])
    return out
def snapshot(m, f):
    """a closure that only reads its environment, with the environment as it is now"""
    if not isinstance(f, Agg) or mut_bases(m, f): return f
    return Agg(f.ty, f.var, [Ptr(Cell(x.cell.v, x.cell.name), x.path, x.meta) if isinstance(x, Ptr) else x for x in f.fs])

# ---- images (8 bit RGB)
def sym_byte(c, name):
    p = c.fresh(name, "I"); c.assume(ge(p)); c.assume(le(p, 255)); return p
def sym_pixel(c, pty, name): return Agg(pty, 0, [ConcSeq([sym_byte(c, "%s.%s" % (name, ch)) for ch in "rgb"])])
def pixel_ty(prog): return prog.ty("image::Rgb")
def mkimage(ctx, name, w, h, gen=None):
    pty = pixel_ty(ctx.prog)
    return Obj("image", name=name, w=w, h=h, pty=pty, img=Img(w, h, gen or (lambda c, x, y: sym_pixel(c, pty, "%s(%r,%r)" % (name, x, y)))))
def image_of(ctx, p):
    v = ctx.read(p) if isinstance(p, Ptr) else p
    if isinstance(v, Ptr): return image_of(ctx, v)
    if isinstance(v, Obj) and v.k == "image": return p, v
    raise Unsupported("image expected, got %r" % (v,))
@pat(r"^image::ImageBuffer::(width|height)$|^image::ImageBuffer::dimensions$")
def _(m, x, a, d):
    p, im = image_of(m.ctx, a[0])
    if x["n"].endswith("dimensions"): return Agg(d, 0, [im.d["w"], im.d["h"]])
    return im.d["w"] if "width" in x["n"].split("::")[-1] else im.d["h"]
@pat(r"^image::ImageBuffer::(get_pixel|get_pixel_mut|put_pixel|get_pixel_checked)$|^<image::ImageBuffer<.*> as (std::ops::Index(Mut)?|image::GenericImage(View)?)>::(index|index_mut|get_pixel|put_pixel)$")
def _(m, x, a, d):
    ctx = m.ctx; p, im = image_of(ctx, a[0])
    k = strip_gen(x["n"]).split("::")[-1]
    if k.startswith("index"): xx, yy = a[1].fs[0], a[1].fs[1]
    else: xx, yy = a[1], a[2]
    inb = And(lt(xx, im.d["w"]), lt(yy, im.d["h"]))
    if k == "get_pixel_checked":
        return opt(m, d, Ptr(p.cell, p.path + (("px", xx, yy),))) if ctx.branch(inb) else opt(m, d, None)
    ctx.panic_check(inb, "pixel outside the image")
    q = Ptr(p.cell, p.path + (("px", xx, yy),))
    if k == "put_pixel": ctx.write(q, a[3]); return Agg(d, 0, [])
    if k == "get_pixel" and "GenericImage" in x["n"]: return ctx.read(q)
    return q
@pat(r"^image::ImageBuffer::new$")
def _(m, x, a, d):
    pty = pixel_ty(m.prog)
    z = Agg(pty, 0, [ConcSeq([I(0)] * 3)])
    return mkimage(m.ctx, "new", a[0], a[1], lambda c, u, v: z)
@pat(r"^image::ImageBuffer::from_(fn|pixel)$")
def _(m, x, a, d):
    ctx = m.ctx
    if x["n"].rstrip(">").find("from_pixel") >= 0: return mkimage(ctx, "filled", a[0], a[1], lambda c, u, v: a[2])
    f = snapshot(m, a[2])
    if mut_bases(m, f): raise Unsupported("image from a closure with side effects")
    if ctx.choose(2) == 1:
        u, v = ctx.fresh("px", "I"), ctx.fresh("py", "I")
        for b in (ge(u), lt(u, a[0]), ge(v), lt(v, a[1])): ctx.assume(b)
        m.call_value(f, [u, v]); raise PathEnd()
    return mkimage(ctx, "fn", a[0], a[1], lambda c, u, v: force(m.call_value(f, [u, v])))
@pat(r"^<image::Rgb<.*> as std::ops::Index(Mut)?>::index(_mut)?$")
def _(m, x, a, d):
    m.ctx.panic_check(And(ge(a[1]), lt(a[1], 3)), "channel index out of bounds")
    return Ptr(a[0].cell, a[0].path + (("f", 0), ("i", a[1])))
@pat(r"^<image::Rgb<.*> as image::Pixel>::(channels|channels_mut)$")
def _(m, x, a, d): return Ptr(a[0].cell, a[0].path + (("f", 0),), (I(0), I(3)))
@pat(r"^<image::Rgb<.*> as std::convert::From>::from$")
def _(m, x, a, d): return Agg(d, 0, [a[0]])
def grid(ctx, im, i):
    """column and row of the i-th pixel, row by row"""
    w = im.d["w"]
    memo = ctx.ghost.setdefault("grid", {})
    k = (i.key(), w.key())
    if k not in memo:
        pr = ctx.ghost.get("probe")
        if pr is not None and w == pr[2] and ctx.branch(eq(i, pr[1] * w + pr[0])):
            # the iteration that handles the probed pixel
            memo[k] = (pr[0], pr[1])
            h = ctx.ghost.pop("on_probe", None)
            if h: h()
            return memo[k]
        u, v = ctx.fresh("gx", "I"), ctx.fresh("gy", "I")
        for b in (ge(u), lt(u, w), ge(v), lt(v, im.d["h"]), eq(i, v * w + u)): ctx.assume(b)
        memo[k] = (u, v)
        if pr is not None:
            if w == pr[2]: ctx.assume(Or(ne(u, pr[0]), ne(v, pr[1])))
            else: ctx.assume(Iff(eq(i, pr[1] * w + pr[0]), And(eq(u, pr[0]), eq(v, pr[1]))))
    return memo[k]
@pat(r"^image::ImageBuffer::(pixels|pixels_mut|enumerate_pixels|enumerate_pixels_mut)$")
def _(m, x, a, d):
    ctx = m.ctx; p, im = image_of(ctx, a[0])
    k = strip_gen(x["n"]).split("::")[-1]
    def el(c, i):
        u, v = grid(c, im, i)
        q = Ptr(p.cell, p.path + (("px", u, v),))
        return Agg(TUP, 0, [u, v, q]) if "enumerate" in k else q
    return IterV(im.d["w"] * im.d["h"], el, src=("mut", p) if "mut" in k else ("image", p))
@pat(r"^image::DynamicImage::(into|to)_rgb8$")
def _(m, x, a, d): return a[0] if isinstance(a[0], Obj) else m.ctx.read(a[0])

# ---- iterators
def as_iter(m, v):
    ctx = m.ctx
    v = force(v)
    if isinstance(v, IterV): return v
    if isinstance(v, Agg):
        t = m.prog.types[v.ty]; n = t.get("n", "").split("::")[-1]
        if n == "Range": return range_iter(v.fs[0], v.fs[1], ctx)
        if n == "RangeInclusive": return range_iter(v.fs[0], v.fs[1] + 1, ctx)
        if n == "RangeFrom": return IterV(I((1 << 63) - 1), lambda c, i: v.fs[0] + i)
        if n == "Option":
            return IterV(I(v.var), lambda c, i: v.fs[0])
    if isinstance(v, Obj) and v.k == "vec":
        s = v.d["seq"]; return IterV(s.length(), lambda c, i: s.get(c, i), src=s)
    if isinstance(v, Seq): return IterV(v.length(), lambda c, i: v.get(c, i), src=v)
    if isinstance(v, Ptr):
        w = ctx.read(v)
        if isinstance(w, IterV): return w
        if isinstance(w, Obj) and w.k == "vec": v = Ptr(v.cell, v.path + (("v",),), (I(0), w.d["seq"].length()))
        s, off, n = ctx.slice_of(v)
        base = v
        return IterV(n, lambda c, i: Ptr(base.cell, base.path + (("i", off + i),)), src=(base, off))
    raise Unsupported("iterator over %r" % (v,))
def range_iter(lo, hi, ctx):
    if isinstance(lo, Poly) and lo.is_const() and hi.is_const(): n = I(max(0, hi.ival() - lo.ival()))
    elif ctx.is_true(le(lo, hi)): n = hi - lo
    else: n = hi - lo if ctx.branch(le(lo, hi)) else I(0)
    return IterV(n, lambda c, i: lo + i, src=("range", lo))
@pat(r"IntoIterator>::into_iter$|slice::(?:<impl \[.*\]>::)?iter(_mut)?$|IntoParallelIterator.*>::into_par_iter$|IntoParallelRef(Mut)?Iterator.*>::par_iter(_mut)?$|::into_iter$|^rayon::[\w:]+::(into_par_iter|par_iter(_mut)?)$")
def _(m, x, a, d):
    it = as_iter(m, a[0])
    if isinstance(a[0], Ptr) and ("mut" in strip_gen(x["n"]).split("::")[-1] or "&mut " in x["n"].split(" as ")[0] or "&'_ mut " in x["n"].split(" as ")[0]):
        it = IterV(it.len, it.elem, it.pos, ("mut", a[0], it))
    return it
@pat(r"^std::ops::RangeInclusive::new$")
def _(m, x, a, d): return Agg(d, 0, [a[0], a[1], FALSE])
@pat(r"^std::ops::(RangeInclusive|Range)::(start|end)$")
def _(m, x, a, d): return Ptr(a[0].cell, a[0].path + (("f", 0 if x["n"].endswith("start") else 1),))
def it_get(m, p):
    v = m.ctx.read(p)
    if not isinstance(v, IterV):
        v = as_iter(m, v); m.ctx.write(p, v)
    return v
@pat(r"(as std::iter::Iterator|as std::iter::DoubleEndedIterator|as std::iter::range::Range(Inclusive)?IteratorImpl)>::(next|spec_next)$|^std::iter::range::next$")
def _(m, x, a, d):
    ctx = m.ctx; it = it_get(m, a[0])
    if not ctx.branch(lt(it.pos, it.len)): return opt(m, d, None)
    ctx.write(a[0], it.at(it.pos + 1))
    return opt(m, d, it.elem(ctx, it.pos))
ITER = r"(as (std|core)::iter::\w+|as rayon::iter::\w+|std::iter::Iterator|rayon::iter::\w+)(<.*>)?(>)?::"
def tupty(m, d): return d
@pat(ITER + r"(map|cloned|copied|enumerate|zip|rev|step_by|skip|take|chain|by_ref|with_min_len|with_max_len|into_par_iter|fuse|peekable)$")
def _(m, x, a, d):
    ctx = m.ctx; k = x["n"]; k = strip_gen(k).split("::")[-1]
    it = as_iter(m, a[0])
    n = it.len - it.pos; p0 = it.pos; e = it.elem
    if k == "map":
        f = snapshot(m, a[1])
        return IterV(n, lambda c, i: m.call_value(f, [e(c, p0 + i)]), src=("map", it, f))
    if k in ("cloned", "copied"): return IterV(n, lambda c, i: c.read(e(c, p0 + i)), src=("copied", it))
    if k == "enumerate":
        return IterV(n, lambda c, i: Agg(TUP, 0, [i, e(c, p0 + i)]), src=("enumerate", it))
    if k == "zip":
        j = as_iter(m, a[1]); n2 = j.len - j.pos; q0 = j.pos
        nn = rmin(n, n2) if not (n - n2).is_const() else (n if (n - n2).cval() <= 0 else n2)
        return IterV(nn, lambda c, i: Agg(TUP, 0, [e(c, p0 + i), j.elem(c, q0 + i)]), src=("zip", it, j))
    if k == "rev": return IterV(n, lambda c, i: e(c, p0 + n - 1 - i), src=("rev", it))
    if k == "step_by":
        s = a[1]
        if not s.is_const() or s.ival() < 1: raise Unsupported("step_by")
        s = s.ival()
        return IterV(fdiv(n + (s - 1), s), lambda c, i: e(c, p0 + i * s), src=("step_by", it, s))
    if k == "skip":
        if ctx.branch(le(a[1], n)): return IterV(n - a[1], lambda c, i: e(c, p0 + i + a[1]))
        return IterV(I(0), e)
    if k == "take":
        return IterV(a[1] if ctx.branch(le(a[1], n)) else n, lambda c, i: e(c, p0 + i))
    if k == "chain":
        j = as_iter(m, a[1]); n2 = j.len - j.pos; q0 = j.pos
        return IterV(n + n2, lambda c, i: e(c, p0 + i) if c.branch(lt(i, n)) else j.elem(c, q0 + i - n))
    return it
TUP = -1
def native_loop(m, it, acc, step, label, env=()):
    """for i in it: acc = step(acc, elem_i); step may return ('break', v)"""
    ctx = m.ctx
    n = it.len - it.pos
    if n.is_const() and n.ival() <= 64:
        for i in range(n.ival()):
            acc = step(acc, it.elem(ctx, it.pos + i), i)
            if isinstance(acc, tuple) and acc and acc[0] == "break": return acc[1], True
        return acc, False
    # loop rule: invariants from the candidates of the contract under proof
    idx = ctx.names.get("nloop", 0); ctx.names["nloop"] = idx + 1
    key = ("native", label, idx)
    live, live2 = [], []
    bases = []
    for q in mut_bases(m, it) + [q for e in env for q in mut_bases(m, e)] + [Ptr(c) for c in ctx.ghost.get("cells", ())]:
        if all(q.cell is not r.cell for r in bases): bases.append(Ptr(q.cell))
    fkey = ("fin", key)
    for c in ctx.cands:
        lab = (str(key), "acc", c.name)
        if lab in ctx.houdini: continue
        g = c.goal(ctx, acc, I(0), it, acc)
        if g is None: continue
        live.append((lab, c))
        ctx.oblige("loop invariant '%s' holds on entry to %s" % (c.name, label), g, ("inv", lab))
    acc0 = acc
    for q in bases:
        ent = ctx.read(q)
        for c in list(ctx.cands) + (m.auto_cands(None, {"it": 1}, ("ghost", q.cell.name), ent) if q.cell in ctx.ghost.get("cells", ()) else []):
            lab = (str(key), "base" + q.cell.name if q.cell in ctx.ghost.get("cells", ()) else "base", c.name)
            if lab in ctx.houdini: continue
            g = c.goal(ctx, ent, I(0), it, ent)
            if g is None: continue
            live2.append((lab, c, q, ent))
            ctx.oblige("loop invariant '%s' holds on entry to %s" % (c.name, label), g, ("inv", lab))
    a2 = m.havoc(acc, "acc%d" % idx, key)
    for q in bases:
        try: nv = m.havoc(ctx.read(q), "mb%d" % idx, (key, "b"))
        except Unsupported: nv = UNINIT
        ctx.write(q, nv)
    k = ctx.fresh("kn%d" % idx, "I")
    ctx.assume(ge(k)); ctx.assume(le(k, n))
    for lab, c in live:
        c.use(ctx, a2, k, it, acc0)
    for lab, c, q, ent in live2:
        c.use(ctx, ctx.read(q), k, it, ent)
    ctx.guards.append((engine._serial[0], {q.cell for q in bases}, None, (), k))
    if ctx.branch(lt(k, n)):
        a3 = step(a2, it.elem(ctx, it.pos + k), k)
        if isinstance(a3, tuple) and a3 and a3[0] == "break": ctx.guards.pop(); return a3[1], True
        for lab, c in live:
            g = c.goal(ctx, a3, k + 1, it, acc0)
            ctx.oblige("loop invariant '%s' is preserved by %s" % (c.name, label), g if g is not None else FALSE, ("inv", lab))
        for lab, c, q, ent in live2:
            g = c.goal(ctx, ctx.read(q), k + 1, it, ent)
            ctx.oblige("loop invariant '%s' is preserved by %s" % (c.name, label), g if g is not None else FALSE, ("inv", lab))
        m.fin_back(a3, acc0, key)
        raise PathEnd()
    ctx.guards.pop()
    ctx.assume(eq(k, n))
    return a2, False
@pat(ITER + r"(sum|fold|for_each|product|count|min_by|max_by|last|any|all|position|find)$")
def _(m, x, a, d):
    ctx = m.ctx; k = strip_gen(x["n"]).split("::")[-1]
    it = as_iter(m, a[0])
    if k == "count": return it.len - it.pos
    if k in ("sum", "product"):
        t = m.prog.types[d]
        def add(acc, v, i):
            v = force(v)
            if isinstance(v, Ptr): v = ctx.read(v)
            acc = force(acc)
            if isinstance(acc, Flt): return force((f_add if k == "sum" else f_mul)(ctx, acc, v))
            return acc + v if k == "sum" else acc * v
        init = (Fin(0) if k == "sum" else Fin(1)) if t["k"] == "float" else (I(0) if k == "sum" else I(1))
        return native_loop(m, it, init, add, k)[0]
    if k == "fold":
        return native_loop(m, it, a[1], lambda acc, v, i: force(m.call_value(a[2], [acc, v])), k, [a[2]])[0]
    if k == "for_each":
        u = Agg(d, 0, [])
        def st(acc, v, i): m.call_value(a[1], [v]); return u
        native_loop(m, it, u, st, k, [a[1]]); return u
    if k in ("any", "all"):
        def st(acc, v, i):
            r = ctx.branch(m.call_value(a[1], [v]))
            if r == (k == "any"): return ("break", toB(r))
            return acc
        return native_loop(m, it, toB(k == "all"), st, k, [a[1]])[0]
    if k == "position":
        def st(acc, v, i):
            if ctx.branch(m.call_value(a[1], [v])): return ("break", I(i) if isinstance(i, int) else i)
            return acc
        r, br = native_loop(m, it, Agg(d, 0, []), st, k, [a[1]])
        return opt(m, d, r if br else None)
    raise Unsupported("iterator " + k)
def collect(m, it):
    ctx = m.ctx
    n = it.len - it.pos; p0 = it.pos
    if n.is_const() and n.ival() <= 64:
        return ConcSeq([force(it.elem(ctx, p0 + i)) for i in range(n.ival())])
    # element functions are evaluated at an arbitrary index for their obligations, then on demand;
    # a candidate for the elements that holds at the arbitrary index replaces them from then on
    site = ctx.names.get("collect", 0); ctx.names["collect"] = site + 1
    live = [(("collect", site, nm), v) for nm, v in ctx.ghost.get("collect", ()) if ("collect", site, nm) not in ctx.houdini]
    if ctx.choose(2) == 1:
        i = ctx.fresh_index("ci", n)
        e = force(it.elem(ctx, p0 + i))
        for lab, v in live:
            w = v(ctx, i)
            ctx.oblige("every element is the %s (collection %d)" % (lab[2], site), ctx.same(e, w) if w is not None else FALSE, ("inv", lab))
        raise PathEnd()
    def gen(c, i):
        if live:
            w = live[0][1](c, i)
            if w is not None: return w
        return force(it.elem(c, p0 + i))
    if live: ctx.ghost.setdefault("collected", set()).add(live[0][0][2])
    return SymSeq(n, gen)
@pat(ITER + r"(collect|collect_into_vec|collect_vec)$")
def _(m, x, a, d):
    return mkvec(collect(m, as_iter(m, a[0])))
@pat(r"as std::iter::ExactSizeIterator>::len$")
def _(m, x, a, d):
    it = it_get(m, a[0]); return it.len - it.pos

# ---- closures and concurrency primitives (sequential, exactly-once semantics is assumed)
@pat(r"^rayon::join$")
def _(m, x, a, d):
    return Agg(d, 0, [m.call_value(a[0], []), m.call_value(a[1], [])])
@pat(r"^std::sync::Mutex::new$")
def _(m, x, a, d):
    l = m.ctx.ghost.get("locks")
    if l: return l.new(m, a[0])
    return Obj("mutex", cell=Ptr(Cell(a[0], "mutex")))
@pat(r"^std::sync::Mutex::lock$")
def _(m, x, a, d):
    l = m.ctx.ghost.get("locks"); mx = m.ctx.read(a[0])
    if l: l.acquire(m, mx)
    return Agg(d, 0, [mx.d["cell"]])
@pat(r"MutexGuard<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def _(m, x, a, d): return m.ctx.read(a[0])
@pat(r"^std::time::(SystemTime|Instant)::now$")
def _(m, x, a, d): return Obj("time", p=m.ctx.fresh("now"))
def dur(p): return Obj("duration", p=p)
TIMES = {"std::time::SystemTime": "time", "std::time::Instant": "time", "std::time::Duration": "duration"}
def any_time(ctx, k):
    p = ctx.fresh(k)
    if k == "duration": ctx.assume(ge(p))
    return Obj(k, p=p)
def dur_of(ctx, v):
    v = force(v)
    while isinstance(v, Ptr): v = force(ctx.read(v))
    # constants: UNIX_EPOCH, Duration::ZERO ...
    if isinstance(v, Agg) and ctx.prog.types[v.ty].get("n") in TIMES: return any_time(ctx, TIMES[ctx.prog.types[v.ty]["n"]]).d["p"]
    return v.d["p"]
@pat(r"^std::time::SystemTime::(duration_since|elapsed)$")
def _(m, x, a, d):
    ctx = m.ctx
    p = dur_of(ctx, a[0]) - dur_of(ctx, a[1]) if len(a) > 1 else ctx.fresh("now") - dur_of(ctx, a[0])
    if ctx.branch(ge(p)): return Agg(d, 0, [dur(p)])
    return Agg(d, 1, [Obj("text")])
@pat(r"^std::time::Duration::from_(secs|millis|micros|nanos)$")
def _(m, x, a, d): return dur(a[0].as_real() * Fraction(1, {"secs": 1, "millis": 10 ** 3, "micros": 10 ** 6, "nanos": 10 ** 9}[x["n"].split("from_")[-1]]))
@pat(r"^std::time::Duration::as_secs_f(32|64)$")
def _(m, x, a, d): return Fin(dur_of(m.ctx, a[0]))
@pat(r"^std::time::Duration::(div|mul)_f(32|64)$")
def _(m, x, a, d):
    ctx = m.ctx; f = force(a[1])
    m.ctx.panic_check(toB(f.k == "fin"), "duration scaled by an undefined factor")
    if "div" in x["n"]:
        ctx.panic_check(gt(f.p), "duration divided by zero"); return dur(div(dur_of(ctx, a[0]), f.p))
    ctx.panic_check(ge(f.p), "negative duration"); return dur(dur_of(ctx, a[0]) * f.p)
@pat(r"^<std::time::Duration as std::cmp::Partial(Ord|Eq)(<.*>)?>::(lt|le|gt|ge|eq|ne)$")
def _(m, x, a, d):
    p, q = dur_of(m.ctx, a[0]), dur_of(m.ctx, a[1])
    return {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": ne}[x["n"].split("::")[-1]](p, q)
# ---- channels
@pat(r"^std::sync::mpsc::(Sender|SyncSender)::send$")
def _(m, x, a, d):
    g = m.ctx.ghost.get("send")
    if g is None: raise Unsupported("send")
    return g(m, a[0], a[1], d)
@pat(r"^std::sync::mpsc::Receiver::(try_recv|try_iter)$")
def _(m, x, a, d):
    g = m.ctx.ghost.get("recv")
    if g is None: raise Unsupported("receive")
    return g(m, a[0], d)
# ---- thread pools: every task runs once before the scope ends
@pat(r"^rayon::ThreadPoolBuilder::(new|num_threads|thread_name|stack_size)$")
def _(m, x, a, d): return Obj("pool builder")
@pat(r"^rayon::ThreadPoolBuilder::build$")
def _(m, x, a, d): return Agg(d, 0, [Obj("pool")])
@pat(r"^rayon::(ThreadPool::(scope|in_place_scope|scope_fifo|install)|scope|in_place_scope)$")
def _(m, x, a, d):
    g = m.ctx.ghost.get("scope")
    if g: g(m)
    r = m.call_value(a[-1], [] if x["n"].split("<")[0].endswith("install") else [ref_of(m.ctx, Obj("scope"))])
    return r if r is not None else Agg(d, 0, [])
@pat(r"^rayon::(Scope|ScopeFifo)::(spawn|spawn_fifo)$")
def _(m, x, a, d):
    m.call_value(a[1], [a[0]]); return Agg(d, 0, [])
def ref_of(ctx, v): return Ptr(Cell(v))
@pat(r"^simple_error::SimpleError::(new|from)$")
def _(m, x, a, d): return Obj("error")
@pat(r"^<std::boxed::Box<dyn .*> as std::convert::From.*>::from$|^std::boxed::convert::from$|^<.* as std::error::Error>::")
def _(m, x, a, d): return Obj("error")
@pat(r"^std::fmt::|fmt::Arguments|fmt::rt::Argument|^<str as .*ToString>|^std::fmt::format")
def _(m, x, a, d): return Obj("text")
@pat(r"^std::intrinsics::integer_(max|min)$")
def _(m, x, a, d): return (rmax if "max" in x["n"].split("<")[0] else rmin)(a[0], a[1])
