"""Verification driver: exploration of a contract, invariant pruning, discharge of obligations."""
import time, os, traceback
from concurrent.futures import ThreadPoolExecutor
from engine import *
from interp import Machine
from spec import *
import solver, terms, algebra

MAXPATHS = int(os.environ.get("VCG_MAXPATHS", "4000"))

class Explored: pass

def explore(prog, reg, c, inst, houdini, deadline):
    ex = Explored()
    ex.obls = []; ex.paths = 0; ex.used = {}; ex.inlined = {}; ex.models = {}; ex.unsupported = []; ex.reached = 0; ex.bounded = []
    stack = [[]]
    while stack:
        if ex.paths >= MAXPATHS: ex.unsupported.append("more than %d paths" % MAXPATHS); break
        if time.time() > deadline: ex.unsupported.append("exploration time limit"); break
        dec = stack.pop()
        ctx = Ctx(prog, reg, dec, houdini)
        m = Machine(ctx)
        try:
            c.check(m, inst)
            ex.reached += 1
        except PathEnd: pass
        except Unsupported as e:
            ex.unsupported.append("%s [%s]" % (e, ctx.where()))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
            if os.environ.get("VCG_DEBUG"): print(''.join(traceback.format_exc().splitlines(True)[-7:]))
            ex.unsupported.append("cannot interpret: %r [%s]" % (e, ctx.where()))
        ex.paths += 1
        ex.obls += ctx.obls
        ex.used.update(ctx.used); ex.inlined.update(ctx.inlined); ex.models.update(ctx.models); ex.bounded += ctx.bounded
        stack += ctx.alts
        if len(ex.unsupported) > 5: break
    return ex

def discharge(obls, timeout, workers=4, stop_on_fail=False):
    """-> list of (obl, status, model, backend, secs)"""
    groups = {}
    for o in obls:
        k = (frozenset(h.n for h in o.hyps), o.goal.n)
        groups.setdefault(k, []).append(o)
    items = list(groups.values())
    def one(os_):
        o = os_[0]
        try:
            r = algebra.prove(o.hyps, o.goal, timeout)
        except Exception as e:
            if os.environ.get("VCG_DEBUG"): print(''.join(traceback.format_exc().splitlines(True)[-7:]))
            r = ("unknown", None, "error %r" % e, 0.0)
        return os_, r
    out = []
    with ThreadPoolExecutor(workers) as p:
        for os_, r in p.map(one, items):
            for i, o in enumerate(os_):
                out.append((o, r[0], r[1], r[2], r[3] if i == 0 else 0.0))
    return out

def verify(prog, reg, c, timeout=30, limit=300, workers=4):
    """verify one contract on all matching instances; returns a plain dict"""
    t0 = time.time()
    insts = c.insts(prog)
    res = {"key": c.key, "root": c.root, "insts": 0, "obligations": 0, "discharged": 0, "failed": [], "unsupported": [], "paths": 0,
           "used": [], "inlined": [], "models": [], "by": {}, "solver_s": 0.0, "dropped": [], "bounded": [], "reached": 0, "names": {}}
    if not insts:
        res["missing"] = True
        res["unsupported"].append("function %s not found in the program" % c.name)
        return res
    used, inl, mods = set(), set(), set()
    for inst in insts:
        houdini = set()
        while True:
            ex = explore(prog, reg, c, inst, houdini, t0 + limit)
            if ex.unsupported: break
            inv = [o for o in ex.obls if isinstance(o.tag, tuple)]
            if not inv: break
            rs = discharge(inv, min(timeout, 10), workers)
            bad = {o.tag[1] for o, st, *_ in rs if st != "proved"}
            if not bad: break
            # invariants about lengths first: the indices in the others depend on them
            ln = {b for b in bad if str(b[-1]).startswith("length ")}
            houdini |= ln or bad
        res["insts"] += 1
        res["paths"] += ex.paths; res["reached"] += ex.reached
        res["unsupported"] += ex.unsupported[:5]
        res["bounded"] += [b for b in ex.bounded if b not in res["bounded"]]
        used |= set(ex.used); inl |= set(ex.inlined); mods |= set(ex.models)
        res["dropped"] += [str(h) for h in sorted(map(str, houdini))]
        rs = discharge(ex.obls, timeout, workers)
        for o, st, model, be, dt in rs:
            res["obligations"] += 1
            res["names"][o.name] = res["names"].get(o.name, 0) + 1
            res["solver_s"] += dt
            if st == "proved":
                res["discharged"] += 1
                res["by"][be] = res["by"].get(be, 0) + 1
            else:
                res["failed"].append({"contract": c.key, "obligation": o.name, "status": st, "where": o.where, "backend": be,
                    "model": pretty_model(o, model) if model else None, "goal": repr(o.goal)[:600],
                    "hyps": [repr(h)[:200] for h in o.hyps][-12:]})
        if ex.reached == 0 and not ex.unsupported and not ex.obls:
            res["failed"].append({"contract": c.key, "obligation": "some path reaches the postcondition (non-vacuity)", "status": "refuted", "where": "", "backend": "engine", "model": None})
            res["obligations"] += 1
    res["used"] = sorted(used); res["inlined"] = sorted(inl); res["models"] = sorted(mods)
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def pretty_model(o, model):
    out = {}
    for a, v in sorted(model.items()):
        at = Atom.table[a]
        if at.key and at.key[0] == "var": out[at.name] = float(v) if at.sort == "R" else int(v)
    return dict(list(out.items())[:60])
