"""Terms of the verification conditions: polynomials over real/integer atoms with exact rational
coefficients, and hash-consed boolean formulas over them.

Atoms may carry universally valid facts (definitional axioms), e.g. the atom for a quotient q of
n by d carries  d != 0 -> q*d = n.  They are emitted whenever the atom occurs in a query."""
from fractions import Fraction
import struct

class Atom:
    __slots__ = ("id", "name", "sort", "facts", "key", "sem")
    table = []
    bykey = {}
    def __init__(self, name, sort, key=None):
        self.id = len(Atom.table)
        self.name = name
        self.sort = sort
        self.facts = []
        self.key = key
        self.sem = None
        Atom.table.append(self)

def atom(name, sort, key=None):
    """memoised by key when given; returns (atom, is_new)"""
    if key is not None:
        a = Atom.bykey.get(key)
        if a is not None:
            return a, False
    a = Atom(name, sort, key)
    if key is not None:
        Atom.bykey[key] = a
    return a, True

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))

class Poly:
    __slots__ = ("t", "sort", "_h", "_key")
    def __init__(self, t, sort):
        self.t = t
        self.sort = sort
        self._key = None
    @staticmethod
    def const(c, sort="R"):
        c = Fraction(c)
        return Poly({(): c} if c else {}, sort)
    @staticmethod
    def of(a):
        return Poly({((a.id, 1),): Fraction(1)}, a.sort)
    def key(self):
        if self._key is None:
            self._key = (self.sort, tuple(sorted(self.t.items())))
        return self._key
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, Poly) and self.key() == o.key()
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def cval(self):
        return self.t.get((), Fraction(0))
    def ival(self):
        c = self.cval()
        assert c.denominator == 1
        return c.numerator
    def _lift(self, o):
        if isinstance(o, Poly): return o
        return Poly.const(o, self.sort)
    def _sort(self, o):
        return "I" if self.sort == "I" and o.sort == "I" else "R"
    def __add__(self, o):
        o = self._lift(o)
        d = dict(self.t)
        for m, c in o.t.items():
            s = d.get(m, 0) + c
            if s: d[m] = s
            else: d.pop(m, None)
        return Poly(d, self._sort(o))
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()}, self.sort)
    def __sub__(self, o):
        return self + (-self._lift(o))
    def __rsub__(self, o):
        return self._lift(o) - self
    def scale(self, c):
        if not c: return Poly({}, self.sort)
        return Poly({m: k * c for m, k in self.t.items()}, self.sort)
    def __mul__(self, o):
        o = self._lift(o)
        if self.is_const(): return Poly(o.scale(self.cval()).t, self._sort(o))
        if o.is_const(): return Poly(self.scale(o.cval()).t, self._sort(o))
        d = {}
        for m, c in self.t.items():
            for n, k in o.t.items():
                mm = mono_mul(m, n)
                s = d.get(mm, 0) + c * k
                if s: d[mm] = s
                else: d.pop(mm, None)
        return Poly(d, self._sort(o))
    __rmul__ = __mul__
    def atoms(self):
        return {v for m in self.t for v, _ in m}
    def as_real(self):
        return self if self.sort == "R" else Poly(self.t, "R")
    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)
    def __repr__(self):
        if not self.t: return "0"
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join(Atom.table[v].name + ("" if e == 1 else "^%d" % e) for v, e in m)
            cs = str(c) if len(str(c)) < 14 else "%.6g" % float(c)
            out.append(cs if not s else (s if c == 1 else "%s*%s" % (cs, s)))
        return " + ".join(out)
    # comparison builders
    def __le__(self, o): return le(self, o)
    def __lt__(self, o): return lt(self, o)
    def __ge__(self, o): return le(self._lift(o), self)
    def __gt__(self, o): return lt(self._lift(o), self)

def R(x): return x.as_real() if isinstance(x, Poly) else Poly.const(x, "R")
def I(x): return x if isinstance(x, Poly) else Poly.const(x, "I")

class B:
    __slots__ = ("k", "a", "_key", "n", "_at")
    tab = {}
    cnt = 0
    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._at = None
    def __repr__(self):
        if self.k in ("le", "lt", "eq"):
            return "(%r %s 0)" % (self.a[0], {"le": "<=", "lt": "<", "eq": "=="}[self.k])
        if self.k == "v": return self.a[0]
        if self.k in ("T", "F"): return {"T": "true", "F": "false"}[self.k]
        if self.k == "not": return "!" + repr(self.a[0])
        return "(" + (" & " if self.k == "and" else " | ").join(map(repr, self.a)) + ")"
    def atoms(self):
        if self._at is None:
            s = set()
            for x in self.a:
                if isinstance(x, (Poly, B)): s |= x.atoms()
            self._at = s
        return self._at
    def bvars(self):
        if self.k == "v": return {self.a[0]}
        s = set()
        for x in self.a:
            if isinstance(x, B): s |= x.bvars()
        return s
    def __invert__(self): return Not(self)
    def __and__(self, o): return And(self, o)
    def __or__(self, o): return Or(self, o)

def mkB(k, *a):
    key = (k,) + tuple(x.n if isinstance(x, B) else x for x in a)
    b = B.tab.get(key)
    if b is None:
        b = B(k, a)
        b.n = ("B", B.cnt)
        B.cnt += 1
        B.tab[key] = b
    return b

TRUE = mkB("T")
FALSE = mkB("F")
def bvar(name): return mkB("v", name)

def _norm(p, signed):
    """scale by a positive (or, for equalities, any non-zero) constant to a canonical form"""
    if not p.t: return p
    items = sorted(p.t.items())
    lead = None
    for m, c in items:
        if m: lead = c; break
    if lead is None: return p
    s = abs(lead) if signed else lead
    if p.sort == "I":
        from math import gcd
        den = 1
        for c in p.t.values(): den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for m, c in p.t.items():
            g = gcd(g, abs((c * den).numerator))
        f = Fraction(den, g or 1)
        if not signed and lead < 0: f = -f
        return p.scale(f)
    return p.scale(1 / s)

def le(a, b=0):
    p = (a - b) if isinstance(a, Poly) else (-(b - a))
    if p.is_const(): return TRUE if p.cval() <= 0 else FALSE
    return mkB("le", _norm(p, True))
def lt(a, b=0):
    p = (a - b) if isinstance(a, Poly) else (-(b - a))
    if p.is_const(): return TRUE if p.cval() < 0 else FALSE
    if p.sort == "I":
        return le(p + 1, 0)
    return mkB("lt", _norm(p, True))
def ge(a, b=0): return le(b - a if isinstance(a, Poly) or isinstance(b, Poly) else R(b - a))
def gt(a, b=0): return lt(b - a if isinstance(a, Poly) or isinstance(b, Poly) else R(b - a))
def eq(a, b=0):
    p = (a - b) if isinstance(a, Poly) else (b - a)
    if p.is_const(): return TRUE if p.cval() == 0 else FALSE
    return mkB("eq", _norm(p, False))
def ne(a, b=0): return Not(eq(a, b))

def Not(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.k == "not": return b.a[0]
    if b.k == "le":
        p = b.a[0]
        return lt(-p) if p.sort == "R" else le(-p + 1, 0)
    if b.k == "lt": return le(-b.a[0])
    return mkB("not", b)

def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = And(*x)
        if isinstance(x, bool): x = TRUE if x else FALSE
        if x is TRUE: continue
        if x is FALSE: return FALSE
        for y in (x.a if x.k == "and" else (x,)):
            if y not in out: out.append(y)
    for y in out:
        if Not(y) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mkB("and", *out)
def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = Or(*x)
        if isinstance(x, bool): x = TRUE if x else FALSE
        if x is FALSE: continue
        if x is TRUE: return TRUE
        for y in (x.a if x.k == "or" else (x,)):
            if y not in out: out.append(y)
    for y in out:
        if Not(y) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mkB("or", *out)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return And(Implies(a, b), Implies(b, a))
def toB(x):
    if isinstance(x, bool): return TRUE if x else FALSE
    return x

_fresh = [0]
def fresh(name, sort="R"):
    _fresh[0] += 1
    return Poly.of(Atom("%s!%d" % (name, _fresh[0]), sort))
def var(name, sort="R"):
    a, _ = atom(name, sort, ("var", name, sort))
    return Poly.of(a)

# ---- definitional atoms ------------------------------------------------------------------
def div(n, d):
    n, d = R(n), R(d)
    if d.is_const() and d.cval() != 0: return n.scale(1 / d.cval())
    if n.is_const() and n.cval() == 0: return Poly.const(0)
    # canonical: make the denominator monic
    lead = sorted(d.t.items())[-1][1]
    d = d.scale(1 / lead); n = n.scale(1 / lead)
    if n == d: pass
    # pull a constant factor out of the numerator
    nl = sorted(n.t.items())[-1][1]
    n1 = n.scale(1 / nl)
    a, new = atom("q%d" % len(Atom.table), "R", ("div", n1.key(), d.key()))
    q = Poly.of(a)
    if new:
        a.sem = ("div", n1, d)
        a.facts = [Or(eq(d), eq(q * d, n1))]
    return q.scale(nl)

def sqrt(x):
    x = R(x)
    if x.is_const():
        c = x.cval()
        if c >= 0:
            from math import isqrt
            rn, rd = isqrt(c.numerator), isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return Poly.const(Fraction(rn, rd))
    a, new = atom("s%d" % len(Atom.table), "R", ("sqrt", x.key()))
    s = Poly.of(a)
    if new:
        a.sem = ("sqrt", x)
        a.facts = [Or(lt(x), And(ge(s), eq(s * s, x))), ge(s)]
    return s

def rmin(x, y):
    if x == y: return x
    if (x - y).is_const(): return x if (x - y).cval() <= 0 else y
    so = "I" if x.sort == y.sort == "I" else "R"
    k = sorted([x.key(), y.key()])
    a, new = atom("min%d" % len(Atom.table), so, ("min", k[0], k[1]))
    m = Poly.of(a)
    if new:
        a.sem = ("min", x, y)
        a.facts = [le(m, x), le(m, y), Or(eq(m, x), eq(m, y))]
    return m
def rmax(x, y): return -rmin(-x, -y)
def rabs(x):
    if x.is_const(): return Poly.const(abs(x.cval()), x.sort)
    lead = sorted(x.t.items())[-1][1]
    if lead < 0: x = -x
    a, new = atom("abs%d" % len(Atom.table), x.sort, ("abs", x.key()))
    m = Poly.of(a)
    if new:
        a.sem = ("abs", x)
        a.facts = [ge(m, 0), Or(eq(m, x), eq(m, -x)), le(x, m), le(-x, m)]
    return m
def ite(c, x, y):
    if c is TRUE: return x
    if c is FALSE: return y
    if x == y: return x
    so = "I" if x.sort == y.sort == "I" else "R"
    a, new = atom("ite%d" % len(Atom.table), so, ("ite", c.n, x.key(), y.key()))
    m = Poly.of(a)
    if new:
        a.sem = ("ite", c, x, y)
        a.facts = [Or(Not(c), eq(m, x)), Or(c, eq(m, y))]
    return m
def fdiv(x, c):
    """integer floor division by a positive constant"""
    if x.is_const(): return I(x.ival() // c)
    if c == 1: return x
    whole = {m: k / c for m, k in x.t.items() if k.denominator == 1 and k % c == 0}
    if whole:
        rest = Poly({m: k for m, k in x.t.items() if m not in whole}, "I")
        return Poly(whole, "I") + fdiv(rest, c)
    a, new = atom("fd%d" % len(Atom.table), "I", ("fdiv", x.key(), c))
    m = Poly.of(a)
    if new:
        a.sem = ("fdiv", x, c)
        a.facts = [le(m * c, x), lt(x, m * c + c)]
    return m
def floor_real(x):
    if x.is_const():
        import math
        return I(math.floor(x.cval()))
    a, new = atom("fl%d" % len(Atom.table), "I", ("floor", x.key()))
    m = Poly.of(a)
    if new:
        a.sem = ("floor", x)
        a.facts = [le(m.as_real(), x), lt(x, m.as_real() + 1)]
    return m

def f64_bits(bits): return struct.unpack("<d", struct.pack("<Q", bits))[0]
def f32_bits(bits): return struct.unpack("<f", struct.pack("<I", bits))[0]
