"""debug driver: run.py [KEY-substring ...]"""
import sys, time, json, importlib
import registry
from engine import *
import verify
def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("keys", nargs="*"); ap.add_argument("--mir", default="/verif/build/mir.json"); ap.add_argument("-t", type=int, default=20); ap.add_argument("-v", action="store_true"); ap.add_argument("--limit", type=int, default=300)
    a = ap.parse_args()
    prog = Prog(a.mir); reg = registry.make(prog)
    for k, c in reg.contracts.items():
        if a.keys and not any(x in k for x in a.keys) or getattr(c, "assumed", None): continue
        r = verify.verify(prog, reg, c, a.t, a.limit, 6)
        print("%-70s paths %d/%d obl %d/%d  %.1fs unsup %d" % (k[-70:], r["reached"], r["paths"], r["discharged"], r["obligations"], r["wall_s"] if "wall_s" in r else 0, len(r["unsupported"])))
        for u in r["unsupported"][:3]: print("   UNSUP", u[:300])
        for f in r["failed"][:4]: print("   FAIL", f["obligation"], f["status"], f.get("where"), f.get("backend"), str(f.get("model"))[:300] if a.v else "", f.get("goal","")[:200] if a.v else "")
        if a.v: print("   used", r["used"], "\n   inlined", r["inlined"], "\n   by", r["by"], "dropped", r["dropped"])
main()
