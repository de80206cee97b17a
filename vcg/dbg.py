"""debug: explore one contract and time obligations one by one"""
import sys, time
import registry, verify, algebra, engine
from engine import *
prog = Prog("/verif/build/mir.json"); reg = registry.make(prog)
key = sys.argv[1]; T = int(sys.argv[2]) if len(sys.argv) > 2 else 10
c = [c for k, c in reg.contracts.items() if key in k][0]
engine.DEBUGC = {}
for inst in c.insts(prog):
    t = time.time()
    ex = verify.explore(prog, reg, c, inst, set(), time.time() + 120)
    print(c.key, "explored", ex.paths, ex.reached, len(ex.obls), "%.1fs" % (time.time() - t), "feas %d %.1fs" % (engine.FEAS["n"], engine.FEAS["t"]), ex.unsupported[:3])
    seen = set()
    for k, n in sorted(engine.DEBUGC.items(), key=lambda x: -x[1])[:12]: print("   choice", n, k)
    for o in ex.obls:
        k = (frozenset(h.n for h in o.hyps), o.goal.n)
        if k in seen: continue
        seen.add(k)
        t = time.time(); r = algebra.prove(o.hyps, o.goal, T); dt = time.time() - t
        if dt > 1 or r[0] != "proved": print("  %.1fs %s %s | %s | hyps %d | %s" % (dt, r[0], r[2], o.name, len(o.hyps), repr(o.goal)[:150]), flush=True)
