"""Verifies a property: its root contracts and the closure of the contracts they rely on, in parallel."""
import os, time, json, multiprocessing as mp, queue
from engine import Prog
import registry, verify
from meta import META, ASSUMPTIONS, LIB_TRUST, interface

def _work(prog, key, disabled, timeout, limit, conn):
    try:
        reg = registry.make(prog); reg.disabled = set(disabled)
        r = verify.verify(prog, reg, reg.contracts[key], timeout, limit, 3)
        r["assumed"] = sorted(k for k in r["used"] if getattr(reg.contracts[k], "assumed", None))
        conn.send(r)
    except BaseException as e:
        import traceback
        conn.send({"crash": "%r %s" % (e, traceback.format_exc()[-600:])})
    conn.close()

def pool(prog, keys, disabled, timeout, limit, deadline, width=6):
    """run verify on each key in its own forked process"""
    out = {}; todo = list(keys); live = {}
    while todo or live:
        while todo and len(live) < width:
            k = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_work, args=(prog, k, disabled, timeout, limit, b)); p.start(); b.close()
            live[k] = (p, a)
        for k in list(live):
            p, a = live[k]
            if a.poll(0.01):
                try: out[k] = a.recv()
                except EOFError: out[k] = {"crash": "worker died"}
                p.join(); del live[k]
            elif not p.is_alive():
                out[k] = {"crash": "worker died"}; del live[k]
        if time.time() > deadline:
            for k, (p, a) in live.items():
                os.system("pkill -P %d >/dev/null 2>&1" % p.pid)
                p.kill(); out[k] = {"crash": "time budget"}
            for k in todo: out[k] = {"crash": "time budget"}
            return out
        time.sleep(0.005)
    return out

def run_property(pid, mir, tier, budget):
    t0 = time.time(); deadline = t0 + budget
    prog = Prog(mir)
    reg = registry.make(prog)
    roots = [k for k, c in reg.contracts.items() if pid in getattr(c, "props", ())]
    timeout = 30 if tier == "quick" else 90
    limit = min(budget * 0.6, 300 if tier == "quick" else 1200)
    disabled, res = set(), {}
    for _ in range(12):
        need = set(roots)
        st = list(roots)
        while st:
            k = st.pop()
            for u in res.get(k, {}).get("used", ()):
                if u not in need and not getattr(reg.contracts[u], "assumed", None): need.add(u); st.append(u)
        todo = [k for k in need if k not in res]
        if not todo: break
        todo.sort(key=lambda k: -getattr(reg.contracts[k], "cost", 0))
        new = pool(prog, todo, disabled, timeout, limit, deadline)
        for k, r in new.items():
            if "crash" in r: r = {"key": k, "used": [], "failed": [], "unsupported": [r["crash"]], "obligations": 0, "discharged": 0, "by": {}, "solver_s": 0, "inlined": [], "models": [], "bounded": [], "paths": 0, "insts": 0, "assumed": []}
            res[k] = r
        # a helper contract that does not hold any more is dropped: its callers are verified through its body
        bad = [k for k in list(res) if k not in roots and (res[k]["failed"] or res[k]["unsupported"])]
        if bad and time.time() < deadline - 20:
            for k in bad:
                disabled.add(k)
                for c in [c for c in res if k in res[c].get("used", ())]: res.pop(c, None)
                res.pop(k, None)
        elif bad: break
    out = {"obligations": 0, "discharged": 0, "failed": [], "by": {}, "solver_s": 0.0, "paths": 0, "contracts": [], "functions": [], "inlined": [], "bounded": [], "trusted": [], "disabled": sorted(disabled)}
    inl, mods, assumed = set(), set(), set()
    for k, r in sorted(res.items()):
        out["obligations"] += r["obligations"]; out["discharged"] += r["discharged"]
        out["solver_s"] += r["solver_s"]; out["paths"] += r["paths"]
        for b, n in r["by"].items(): out["by"][b] = out["by"].get(b, 0) + n
        out["failed"] += r["failed"]
        for u in r["unsupported"][:3]:
            out["failed"].append({"contract": k, "obligation": "the function is within the verifier's reach", "status": "unsupported", "where": u[:400], "backend": "engine", "model": None})
        inl |= set(r["inlined"]); mods |= set(r["models"]); assumed |= set(r.get("assumed", ()))
        out["bounded"] += r["bounded"]
        out["contracts"].append("%s%s: %d/%d obligations, %d paths" % (k, " [property]" if k in roots else "", r["discharged"], r["obligations"], r["paths"]))
        c = reg.contracts[k]
        out["functions"] += [c.name] if c.insts(prog) != [None] else []
    if not roots and META[pid]["level"] == "proof":
        out["failed"].append({"contract": pid, "obligation": "the property has contracts", "status": "refuted", "where": "", "backend": "engine", "model": None})
    # unproved roots first
    out["failed"].sort(key=lambda f: (f["status"] != "refuted",))
    out["inlined"] = sorted(inl)
    out["functions"] = sorted(set(out["functions"]) | {f for f in inl if "solstrale" in f and "{closure}" not in f})
    out["trusted"] = LIB_TRUST + ["library model: " + m for m in sorted(mods)] + [interface(a) for a in sorted(assumed)]
    return out
