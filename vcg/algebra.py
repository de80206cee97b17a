"""Equational back end: identities in towers of fractions and square roots, by elimination of the
definitional atoms and reduction modulo the hypotheses' equations; everything else goes to SMT."""
import time
from terms import *
import solver

def split_by(p, v):
    """p as {exponent of atom v: coefficient polynomial}"""
    out = {}
    for m, c in p.t.items():
        e = 0; rest = []
        for a, k in m:
            if a == v: e = k
            else: rest.append((a, k))
        q = out.setdefault(e, {})
        rest = tuple(rest)
        q[rest] = q.get(rest, 0) + c
    return {e: Poly({m: c for m, c in q.items() if c}, "R") for e, q in out.items()}

def ppow(p, n):
    r = Poly.const(1)
    for _ in range(n): r = r * p
    return r

LIMIT = 6000
def eliminate(p, side):
    """normal form of p (zero iff p = 0 under the side conditions), or None when stuck"""
    p = p.as_real()
    while True:
        if not p.t or len(p.t) > LIMIT: return p
        cand = [a for a in p.atoms() if Atom.table[a].sem is not None and Atom.table[a].sem[0] in ("div", "sqrt")]
        if not cand: return p
        v = max(cand)
        sem = Atom.table[v].sem
        parts = split_by(p, v)
        if sem[0] == "div":
            n, d = sem[1], sem[2]
            mx = max(parts)
            side.append(ne(d))
            r = Poly({}, "R")
            for e, q in parts.items():
                r = r + q * ppow(n, e) * ppow(d, mx - e)
            p = r
        else:
            x = sem[1]
            A = Poly({}, "R"); Bq = Poly({}, "R")
            for e, q in parts.items():
                if e % 2 == 0: A = A + q * ppow(x, e // 2)
                else: Bq = Bq + q * ppow(x, e // 2)
            if max(parts) > 1: side.append(ge(x))
            if not Bq.t: p = A
            elif not A.t: p = Bq          # p = Bq * s: it suffices that Bq = 0
            else:
                # A + B s = 0 can still follow when both vanish
                za = eliminate(A, side); zb = eliminate(Bq, side)
                if za is not None and zb is not None and not za.t and not zb.t: return za
                return None
    return p

def mono_div(m, n):
    d = dict(m)
    for v, e in n:
        if d.get(v, 0) < e: return None
        d[v] -= e
        if d[v] == 0: del d[v]
    return tuple(sorted(d.items()))
def lead(p):
    return max((m for m in p.t if m), key=mkey, default=None)
def mkey(m):
    """graded lexicographic order (a monomial order)"""
    return (sum(e for _, e in m), tuple(sorted(m, reverse=True)))
def reduce(p, eqs, steps=400):
    rules = []
    for e in eqs:
        l = lead(e)
        if l is not None: rules.append((l, e.scale(1 / e.t[l])))
    p = Poly(dict(p.t), "R")
    for _ in range(steps):
        ch = False
        for m in sorted(p.t, key=mkey, reverse=True):
            for l, e in rules:
                q = mono_div(m, l)
                if q is not None and p.t.get(m):
                    p = p - Poly({q: p.t[m]}, "R") * e
                    ch = True
                    break
            if ch: break
        if not ch: return p
        if not p.t: return p
    return p

def exact_div(n, d, steps=4000):
    """n / d when the division is exact, else None"""
    if not n.t: return Poly({}, "R")
    if not d.t: return None
    ld = max(d.t, key=mkey); cd = d.t[ld]
    rest = [(m, c) for m, c in d.t.items() if m != ld]
    n = dict(n.t); q = {}
    for _ in range(steps):
        if not n: return Poly(q, "R")
        lm = max(n, key=mkey)
        m = mono_div(lm, ld)
        if m is None: return None
        c = n.pop(lm) / cd
        q[m] = c
        for r, k in rest:
            x = mono_mul(m, r)
            s = n.get(x, 0) - c * k
            if s: n[x] = s
            else: n.pop(x, None)
    return None
def frac(p, known_ne):
    """p as numerator / denominator free of division atoms (None when a denominator may vanish)"""
    num, den = p.as_real(), Poly.const(1)
    while True:
        if len(num.t) > 3000 or len(den.t) > 3000: return None
        cand = [a for a in (num.atoms() | den.atoms()) if Atom.table[a].sem is not None and Atom.table[a].sem[0] == "div"]
        if not cand: return num, den
        v = max(cand)
        n, d = Atom.table[v].sem[1:3]
        if not known_ne(d): return None
        pn, pd = split_by(num, v), split_by(den, v)
        mx = max(max(pn, default=0), max(pd, default=0))
        def hom(parts):
            r = Poly({}, "R")
            for e, q in parts.items(): r = r + q * ppow(n, e) * ppow(d, mx - e)
            return r
        num, den = hom(pn), hom(pd)
_simp = {}
def sqrt_reduce(p):
    """even powers of square roots rewritten (callers know the radicands are non-negative)"""
    for v in sorted(p.atoms(), reverse=True):
        sem = Atom.table[v].sem
        if sem is None or sem[0] != "sqrt": continue
        parts = split_by(p, v)
        if max(parts) < 2: continue
        r = Poly({}, "R"); a = Poly.of(Atom.table[v])
        for e, q in parts.items(): r = r + q * ppow(sem[1], e // 2) * (a if e % 2 else Poly.const(1))
        p = r
    return p
def simplify(p, known_ne):
    """an equal polynomial without division atoms when cancellation yields one, else p"""
    if not any(Atom.table[a].sem is not None and Atom.table[a].sem[0] == "div" for a in p.atoms()): return p
    f = frac(p, known_ne)
    if f is None: return p
    return exact_div(*f)
def clear_roots(p, known_ne):
    """a polynomial of the same sign, when the denominator of p is a product of positive square roots"""
    f = frac(p, known_ne)
    num, den = f
    if len(den.t) != 1: return p
    (m, c), = den.t.items()
    for v, e in m:
        a = Atom.table[v]
        if a.sem is None or a.sem[0] != "sqrt" or not known_ne(Poly.of(a)): return p
    # common square-root factors of the numerator
    if not num.t: return num
    com = None
    for mm in num.t:
        d = {v: e for v, e in mm if Atom.table[v].sem is not None and Atom.table[v].sem[0] == "sqrt" and known_ne(Poly.of(Atom.table[v]))}
        com = d if com is None else {v: min(e, d[v]) for v, e in com.items() if v in d}
    if com:
        cm = tuple(sorted(com.items()))
        num = Poly({mono_div(mm, cm): k for mm, k in num.t.items()}, "R")
    return num if c > 0 else -num
def alg_zero(hyps, p, timeout):
    side = []
    z = eliminate(p, side)
    if z is None: return False, 0.0
    if z.t:
        eqs = [h.a[0].as_real() for h in hyps if h.k == "eq"]
        eqs = [e for e in eqs]
        # hypotheses that mention definitional atoms are reduced too
        ee = []
        for e in eqs:
            s2 = []
            n = eliminate(e, s2)
            if n is not None and n.t and len(n.t) < 200: ee.append(n)
        z = reduce(z, ee)
        if z.t: return False, 0.0
    tot = 0.0
    for s in dict.fromkeys(side):
        st, _, _, dt = solver.prove(hyps, s, timeout)
        tot += dt
        if st != "proved": return False, tot
    return True, tot

def prove(hyps, goal, timeout=30):
    if goal is TRUE: return "proved", None, "syntactic", 0.0
    if goal in hyps: return "proved", None, "syntactic", 0.0
    if goal.k == "and":
        tot, bes = 0.0, set()
        for g in goal.a:
            s, m, be, dt = prove(hyps, g, timeout)
            tot += dt; bes.add(be)
            if s != "proved": return s, m, be, tot
        return "proved", None, "+".join(sorted(bes)), tot
    tot = 0.0
    if goal.k == "eq" and goal.a[0].sort == "R":
        t0 = time.time()
        ok, dt = alg_zero(hyps, goal.a[0], min(timeout, 10))
        tot += time.time() - t0
        if ok: return "proved", None, "algebra", tot
    s, m, be, dt = solver.prove(hyps, goal, timeout)
    return s, m, be, tot + dt
