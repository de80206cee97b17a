"""Making and trying planted bugs (seeded/<id>/).
make(id, prop, [(file, old, new), ...], needs, breaks, demo): writes patch.diff, demo.sh, demo.rs, meta.json.
  python3 tools/seed.py try ID...   applies each to /repo, builds, runs the stable tests, the demo and the property's check, and undoes it."""
import os, re, sys, json, subprocess, time, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")
SH = """#!/bin/bash
# compiles demo.rs against the library that build.sh has just built and runs it; exit 0: the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L=/opt/vp/ws/target/debug/deps
x() { echo "--extern $1=$(ls -t $L/lib$1-*.rlib | head -1)"; }
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2021 -A warnings -o "$T/demo" "$D/demo.rs" $(x solstrale) $(x fastrand) $(x image) $(x rayon) -L dependency=$L || exit 3
cd "$T" && timeout 200 "$T/demo"
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def undo(): sh("git -C %s checkout -- ." % REPO)
def make(id, prop, edits, needs, breaks, demo):
    d = os.path.join(HERE, "seeded", id); os.makedirs(d, exist_ok=True)
    undo()
    for f, old, new in edits:
        p = os.path.join(REPO, f); s = open(p).read()
        m = re.findall(r"\n(?:[ \t]*\n)*".join(re.escape(l) for l in old.split("\n")), s)
        assert len(m) == 1, (id, f, len(m), old)
        open(p, "w").write(s.replace(m[0], new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout)
    undo()
    open(os.path.join(d, "demo.sh"), "w").write(SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def stable(): return set(json.load(open("/opt/vp/BASELINE.json")).get("tests") or json.load(open("/opt/vp/BASELINE.json")))
def try1(id, check=True, tests=True):
    d = os.path.join(HERE, "seeded", id); meta = json.load(open(os.path.join(d, "meta.json")))
    r = {"id": id, "property": meta["property"]}
    undo()
    a = sh("git -C %s apply %s/patch.diff" % (REPO, d))
    if a.returncode: r["apply"] = a.stdout[-300:]; return r
    try:
        b = sh("bash /opt/vp/build.sh"); r["build"] = b.returncode
        if b.returncode: r["out"] = b.stdout[-1500:]; return r
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seed/out.json")
            o = json.load(open("/tmp/seed/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            r["tests"] = verdict(base, o)
        m = sh("bash %s/demo.sh" % d, cwd=REPO); r["demo_patched"] = m.returncode; r["demo_out"] = m.stdout[-300:]
        if check:
            t = time.time(); c = sh("python3-vt check.py %s" % meta["property"], cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            r["check"] = c.returncode; r["check_s"] = round(time.time() - t); r["lines"] = "\n".join(c.stdout.strip().split("\n")[-7:])
    finally:
        undo()
    return r
def verdict(base, o):
    good = set(base["stable"] if "stable" in base else base.get("passed", base.get("tests", [])))
    ok = set(o.get("passed", []))
    return "ok" if good <= ok else "FAILED: %s" % sorted(good - ok)[:5]
if __name__ == "__main__":
    if sys.argv[1] == "try":
        flags = [a for a in sys.argv[2:] if a.startswith("-")]
        for i in [a for a in sys.argv[2:] if not a.startswith("-")]:
            r = try1(i, "--nocheck" not in flags, "--notest" not in flags)
            print(json.dumps({k: v for k, v in r.items() if k != "lines"})); print(r.get("lines", "")); sys.stdout.flush()
        sh("bash /opt/vp/build.sh")
        for i in [a for a in sys.argv[2:] if not a.startswith("-")]:
            m = sh("bash %s/seeded/%s/demo.sh" % (HERE, i), cwd=REPO)
            if m.returncode: print("DEMO FAILS ON CLEAN", i, m.returncode, m.stdout[-800:])
