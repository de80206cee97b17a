#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] -- decides one property of /repo's current tree.

1. mirror workspace + MIR of the current sources (tools/), 2. deductive verification of the property's
contracts and of every contract they rely on (vcg/), 3. falsification of the same statements on the compiled
code (harness/): a short run always, a long one guided by the verifier's models when an obligation fails."""
import os, sys, time, json, subprocess, fcntl, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(HERE, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--build-only", action="store_true")
A = ap.parse_args()
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
BUDGET = 780 if A.tier == "quick" else 3000
def left(): return BUDGET - (time.time() - T0)
def log(*a): print(*a, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import mkws
    mkws.make(REPO)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    if not os.path.exists(os.path.join(B, "mirdump/release/mirdump")):
        r = sh("cargo +nightly build --release --offline --locked", cwd=os.path.join(HERE, "mirdump"), env=dict(env, CARGO_TARGET_DIR=os.path.join(B, "mirdump")))
        if r.returncode: log(r.stdout[-2000:]); sys.exit(2)
    hb = subprocess.Popen("cargo build --offline --locked", shell=True, cwd=os.path.join(HERE, "harness"), env=dict(env, CARGO_TARGET_DIR=os.path.join(B, "target-h")),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = sh(os.path.join(HERE, "tools/dumpmir.sh") + " " + os.path.join(B, "mir.json"))
    if r.returncode: log("cannot export the MIR of the current sources:\n" + r.stdout[-2000:]); hb.communicate(); sys.exit(2)
    out, _ = hb.communicate()
    ok = hb.returncode == 0
    if not ok: log("harness does not build against the current sources:\n" + "\n".join(l for l in out.split("\n") if l.startswith("error"))[:1500])
    return ok

def harness(prop, secs, params=None, case=None, seed=SEED, at=None):
    cmd = [os.path.join(B, "target-h/debug/harness"), prop, "--seed", str(seed), "--secs", str(secs)]
    if params:
        f = os.path.join(B, "params.txt")
        open(f, "w").write("".join("%s %r\n" % (k, v) for k, v in params.items()))
        cmd += ["--params", f]
    if case: cmd += ["--case", case]
    if at is not None: cmd += ["--at", str(at)]
    try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 120)
    except subprocess.TimeoutExpired: return {"cases": 0, "fails": [{"case": "?", "check": "no hang", "message": "the code under test does not return", "params": {}, "seed": seed, "iteration": -1}]}
    try: return json.loads(p.stdout)
    except Exception:
        return {"cases": 0, "fails": [{"case": "?", "check": "no crash", "message": ("the process died: %s %s" % (p.returncode, p.stderr[-300:])), "params": {}, "seed": seed, "iteration": -1}]}

def git(*a):
    r = subprocess.run(["git", "-C", REPO] + list(a), capture_output=True, text=True); return r.stdout.strip()

def main():
    prop = A.prop
    ok_h = build()
    if A.build_only: return 0
    sys.path.insert(0, os.path.join(HERE, "vcg"))
    import driver
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = [k for k in known if k["property"] == prop and k.get("status") == "open"]
    # falsification on the compiled code
    runs = {"cases": 0, "fails": []}
    def fals(secs, **kw):
        if not ok_h: return []
        r = harness(prop, secs, **kw); runs["cases"] += r["cases"]; return r["fails"]
    base_secs = 8 if A.tier == "quick" else 120
    fails = fals(base_secs)
    # a property that is violated on a concrete input needs no more than the names of the obligations that fail
    ver = driver.run_property(prop, os.path.join(B, "mir.json"), A.tier, 120 if fails else max(60, left() - 160))
    t_ver = time.time() - T0
    bad = ver["failed"]
    if bad and not fails and ok_h:
        log("undischarged: %d obligation(s), e.g. %s / %s (%s)" % (len(bad), bad[0]["contract"], bad[0]["obligation"], bad[0]["status"]))
        for f in [f for f in bad if f.get("model")][:4]:
            fails = fals(4, params=f["model"])
            if fails: break
        if not fails: fails = fals(min(90, max(20, left() - 30)), seed=SEED + 1000)
    kn_lines = []
    for k in known:
        hit = None
        if k.get("case") and ok_h:
            r = harness(prop, 2, case=k["case"])
            hit = r["fails"][0] if r["fails"] else None
        if hit: kn_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rdir = os.path.join(B, "replay"); os.makedirs(rdir, exist_ok=True)
    lines = []
    if fails:
        seen = set()
        for f in fails:
            key = (f["case"], f["check"])
            if key in seen: continue
            seen.add(key)
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(lines)))
            json.dump({"property": prop, "violated": f["check"], "case": f["case"], "message": f["message"], "params": f["params"], "seed": f["seed"], "iteration": f["iteration"],
                       "replay": "%s/build/target-h/debug/harness %s --case '%s' --seed %s --at %s" % (HERE, prop, f["case"], f["seed"], f["iteration"]),
                       "failed_obligations": [{k: b.get(k) for k in ("contract", "obligation", "status", "where", "backend")} for b in bad[:10]]}, open(path, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            log("  %s / %s: %s" % (f["case"], f["check"], f["message"][:300]))
        for b in bad[:3]: log("  failed obligation: %s / %s [%s] %s" % (b["contract"], b["obligation"], b["status"], b.get("where") or ""))
    elif bad:
        path = os.path.join(rdir, "%s-0.json" % prop)
        json.dump({"property": prop, "failed_obligations": bad[:20], "note": "no failing input was found on the compiled code"}, open(path, "w"), indent=1, default=str)
        for b in bad[:6]: log("  failed obligation: %s / %s [%s] %s" % (b["contract"], b["obligation"], b["status"], b.get("where") or ""))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    meta = driver.META[prop]
    ev = {"property": prop, "tier": A.tier, "seed": SEED, "level": meta["level"],
          "coverage": {"obligations": ver["obligations"], "discharged": ver["discharged"],
                       "checker_cmd": "python3 check.py %s --tier %s" % (prop, A.tier),
                       "trusted_base": ver["trusted"],
                       "functions_under_contract": ver["functions"], "back_ends": ver["by"], "solver_s": round(ver["solver_s"], 2), "paths": ver["paths"],
                       "contracts": ver["contracts"], "helpers_dropped": ver["disabled"], "executed_through_bodies": ver["inlined"][:80],
                       "bounded_stand_ins": meta.get("bounded", []) + ver["bounded"],
                       "falsification_evaluations": runs["cases"], "evaluations": runs["cases"],
                       "undischarged": [{k: b.get(k) for k in ("contract", "obligation", "status", "where")} for b in bad[:20]],
                       "repo_head": git("rev-parse", "HEAD")},
          "assumptions": driver.ASSUMPTIONS + meta.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(lines)}
    if runs["cases"] == 0 and not fails and ok_h and meta.get("harness", True):
        log("harness ran no cases"); return 2
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        ev["coverage"]["executed_through_bodies"] = ev["coverage"]["executed_through_bodies"][:10]; ev["coverage"]["contracts"] = ev["coverage"]["contracts"][:40]
        s = json.dumps(ev, indent=1, default=str)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    open(os.path.join(HERE, "evidence", prop + ".json"), "w").write(s)
    for l in kn_lines: log(l)
    log("%s: %d/%d obligations discharged in %d contracts (%s), %.1fs verify, %d falsification cases, %.1fs" % (prop, ver["discharged"], ver["obligations"], len(ver["contracts"]),
        ", ".join("%s %d" % x for x in sorted(ver["by"].items())), t_ver, runs["cases"], time.time() - T0))
    for l in lines: log(l)
    return 1 if lines else 0
sys.exit(main())
