"""Back ends: obligations are written as SMT-LIB and discharged by z3 / cvc5 processes."""
import os, subprocess, tempfile, time, re, threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from terms import *

STATS = {"time": 0.0, "by": {}, "queries": 0}
LOCK = threading.Lock()

def closure_facts(bs):
    """formulas plus the definitional facts of every atom they (transitively) mention"""
    seen, out = set(), []
    todo = set()
    for b in bs: todo |= b.atoms()
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        for f in Atom.table[a].facts:
            out.append(f)
            todo |= f.atoms() - seen
    return out, seen

def smt_num(c, sort):
    if sort == "I":
        assert c.denominator == 1
        return str(c.numerator) if c >= 0 else "(- %d)" % -c.numerator
    n, d = abs(c.numerator), c.denominator
    s = "%d.0" % n if d == 1 else "(/ %d.0 %d.0)" % (n, d)
    return s if c >= 0 else "(- %s)" % s

def smt_poly(p):
    so = p.sort
    if not p.t: return "0" if so == "I" else "0.0"
    parts = []
    for m, c in sorted(p.t.items()):
        fs = []
        for v, e in m:
            a = Atom.table[v]
            n = "a%d" % v
            if so == "R" and a.sort == "I": n = "(to_real %s)" % n
            fs += [n] * e
        if c != 1 or not fs: fs.insert(0, smt_num(c, so))
        parts.append(fs[0] if len(fs) == 1 else "(* %s)" % " ".join(fs))
    return parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)

LIN = threading.local()
def lin_poly(p, names):
    """the polynomial with every nonlinear monomial as an opaque unknown"""
    so = p.sort
    if not p.t: return "0" if so == "I" else "0.0"
    parts = []
    for m, c in sorted(p.t.items()):
        if not m: n = None
        elif len(m) == 1 and m[0][1] == 1:
            a = Atom.table[m[0][0]]
            n = "a%d" % m[0][0]
            if so == "R" and a.sort == "I": n = "(to_real %s)" % n
        else:
            i = so == "I" or all(Atom.table[v].sort == "I" for v, _ in m)
            n = "m%s" % "_".join("%d.%d" % x for x in m)
            names[n] = "Int" if i else "Real"
            if so == "R" and i: n = "(to_real %s)" % n
        parts.append(smt_num(c, so) if n is None else (n if c == 1 else "(* %s %s)" % (smt_num(c, so), n)))
    return parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)
def lin_bool(b, memo, names):
    if b in memo: return memo[b]
    k = b.k
    if k == "T": r = "true"
    elif k == "F": r = "false"
    elif k in ("le", "lt", "eq"):
        p = b.a[0]
        r = "(%s %s %s)" % ({"le": "<=", "lt": "<", "eq": "="}[k], lin_poly(p, names), "0" if p.sort == "I" else "0.0")
    elif k == "v": r = "|%s|" % b.a[0]
    elif k == "not": r = "(not %s)" % lin_bool(b.a[0], memo, names)
    else: r = "(%s %s)" % (k, " ".join(lin_bool(x, memo, names) for x in b.a))
    memo[b] = r
    return r
def linear(forms, timeout=2):
    """is the conjunction unsatisfiable already when products are opaque?"""
    facts, atoms = closure_facts(forms)
    memo, names = {}, {}
    bv = set()
    for f in list(forms) + facts: bv |= f.bvars()
    body = ["(assert %s)" % lin_bool(f, memo, names) for f in list(forms) + facts]
    if not names: return False, 0.0
    lines = ["(declare-fun a%d () %s)" % (a, "Int" if Atom.table[a].sort == "I" else "Real") for a in sorted(atoms)]
    lines += ["(declare-fun %s () %s)" % x for x in sorted(names.items())]
    lines += ["(declare-fun |%s| () Bool)" % v for v in sorted(bv)]
    out, dt = run_cmd(["z3-new", "-in", "-T:%d" % timeout], "\n".join(lines + body) + "\n(check-sat)", timeout)
    return out.startswith("unsat"), dt

def smt_split(p):
    """lhs/rhs with positive coefficients only, for readability to the solver"""
    return smt_poly(p)

def smt_bool(b, memo):
    if b in memo: return memo[b]
    k = b.k
    if k == "T": r = "true"
    elif k == "F": r = "false"
    elif k in ("le", "lt", "eq"):
        p = b.a[0]
        r = "(%s %s %s)" % ({"le": "<=", "lt": "<", "eq": "="}[k], smt_poly(p), "0" if p.sort == "I" else "0.0")
    elif k == "v": r = "|%s|" % b.a[0]
    elif k == "not": r = "(not %s)" % smt_bool(b.a[0], memo)
    else: r = "(%s %s)" % (k, " ".join(smt_bool(x, memo) for x in b.a))
    memo[b] = r
    return r

def script(forms):
    facts, atoms = closure_facts(forms)
    memo = {}
    lines = []
    bv = set()
    for f in list(forms) + facts: bv |= f.bvars()
    sorts = {Atom.table[a].sort for a in atoms}
    for a in sorted(atoms):
        lines.append("(declare-fun a%d () %s)" % (a, "Int" if Atom.table[a].sort == "I" else "Real"))
    for v in sorted(bv): lines.append("(declare-fun |%s| () Bool)" % v)
    for f in forms + facts:
        lines.append("(assert %s)" % smt_bool(f, memo))
    return lines, atoms, bv, sorts

def run_cmd(cmd, text, timeout):
    t = time.time()
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 2)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    return out, time.time() - t

def parse_model(out):
    m = {}
    for name, val in re.findall(r"\(a(\d+)\s+((?:\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))|[^\s()]+)\)", out):
        v = parse_val(val)
        if v is not None: m[int(name)] = v
    return m

def parse_val(s):
    toks = re.findall(r"\(|\)|[^\s()]+", s)
    pos = [0]
    def ev():
        t = toks[pos[0]]; pos[0] += 1
        if t == "(":
            op = toks[pos[0]]; pos[0] += 1
            args = []
            while toks[pos[0]] != ")":
                args.append(ev())
            pos[0] += 1
            if None in args: return None
            if op == "-": return -args[0] if len(args) == 1 else args[0] - args[1]
            if op == "/": return args[0] / args[1] if args[1] else None
            if op == "+": return sum(args)
            if op == "*":
                r = 1
                for a in args: r *= a
                return r
            return None
        try: return Fraction(t.rstrip("?"))
        except Exception: return None
    try: return ev()
    except Exception: return None

def check(forms, timeout=20, want_model=True):
    """returns (status, model|None, backend, seconds); status in unsat/sat/unknown"""
    forms = [f for f in forms if f is not TRUE]
    if any(f is FALSE for f in forms): return "unsat", None, "syntactic", 0.0
    lines, atoms, bv, sorts = script(forms)
    pure_real = "I" not in sorts
    base = "\n".join(lines)
    gv = ""
    if want_model and atoms:
        gv = "\n(get-value (%s))" % " ".join("a%d" % a for a in sorted(atoms))
    tot = 0.0
    plans = []
    T = timeout
    z = "z3-new"
    pre = "(set-option :pp.decimal false)\n"
    d = pre + base + "\n(check-sat)" + gv
    n = pre + base + "\n(check-sat-using (then simplify propagate-values solve-eqs simplify qfnra-nlsat))" + gv
    if pure_real:
        stages = [[("z3-nlsat", [z, "-in", "-T:2"], n, 2)],
                  [("z3-nlsat", [z, "-in", "-T:%d" % T], n, T), ("z3", [z, "-in", "-T:%d" % T], d, T),
                   ("cvc5", ["cvc5", "--tlimit=%d" % (T * 1000), "--produce-models"], "(set-logic QF_NRA)\n" + base + "\n(check-sat)" + gv, T)]]
    else:
        stages = [[("z3", [z, "-in", "-T:3"], d, 3)],
                  [("z3", [z, "-in", "-T:%d" % T], d, T), ("z3-4.8", ["z3", "-in", "-T:%d" % T], d, T),
                   ("cvc5", ["cvc5", "--tlimit=%d" % (T * 1000), "--produce-models"], "(set-logic ALL)\n" + base + "\n(check-sat)" + gv, T)]]
    for st in stages:
        if len(st) == 1:
            outs = [(st[0][0],) + run_cmd(st[0][1], st[0][2], st[0][3])]
            it = iter(outs)
        else:
            procs = []
            t0 = time.time()
            for nm, cmd, text, to in st:
                p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                res = {}
                def rd(p=p, text=text, res=res):
                    try: res["o"] = p.communicate(text)[0]
                    except Exception: res["o"] = ""
                th = threading.Thread(target=rd, daemon=True); th.start()
                procs.append((nm, p, th, res))
            outs = []
            live = list(procs)
            while live and time.time() - t0 < T + 3:
                for x in list(live):
                    if not x[2].is_alive():
                        live.remove(x)
                        o = x[3].get("o", "")
                        outs.append((x[0], o, time.time() - t0))
                        if o.startswith("sat") or o.startswith("unsat"):
                            live_kill = live; live = []
                            for y in live_kill: y[1].kill()
                            break
                else:
                    time.sleep(0.02)
            for x in procs:
                if x[1].poll() is None: x[1].kill()
            it = iter(outs)
        for nm, out, dt in it:
            tot += dt
            if out.startswith("unsat"):
                with LOCK:
                    STATS["by"][nm] = STATS["by"].get(nm, 0) + 1
                return "unsat", None, nm, tot
            if out.startswith("sat"):
                return "sat", parse_model(out), nm, tot
    return "unknown", None, "portfolio", tot

def prune(hyps, goal_atoms, rounds):
    """hypotheses within `rounds` steps of shared atoms from the goal"""
    cur = set(goal_atoms)
    sel = []
    rest = list(hyps)
    for _ in range(rounds):
        nxt = []
        add = set()
        for h in rest:
            if h.atoms() & cur: sel.append(h); add |= h.atoms()
            else: nxt.append(h)
        rest = nxt
        cur |= add
    return sel

def prove(hyps, goal, timeout=20):
    """status 'proved' | 'refuted' | 'unknown', model, backend, seconds"""
    if goal is TRUE: return "proved", None, "syntactic", 0.0
    if goal in hyps: return "proved", None, "syntactic", 0.0
    if goal.k == "and":
        tot, bes = 0.0, []
        for g in goal.a:
            s, m, be, dt = prove(hyps, g, timeout)
            tot += dt
            bes.append(be)
            if s != "proved": return s, m, be, tot
        return "proved", None, bes[-1] if len(set(bes)) == 1 else "+".join(sorted(set(bes))), tot
    ng = Not(goal)
    ok, dl = linear(list(hyps) + [ng])
    if ok: return "proved", None, "z3-linear", dl
    s, m, be, dt = check(list(hyps) + [ng], timeout)
    dt += dl
    if s == "unsat": return "proved", None, be, dt
    if s == "sat": return "refuted", m, be, dt
    # try again with fewer hypotheses (sound: dropping hypotheses only weakens)
    for r in (1, 2):
        sel = prune(hyps, ng.atoms(), r)
        if len(sel) < len(hyps):
            s2, m2, be2, dt2 = check(sel + [ng], max(5, timeout // 2), want_model=False)
            dt += dt2
            if s2 == "unsat": return "proved", None, be2, dt
    return "unknown", None, be, dt
