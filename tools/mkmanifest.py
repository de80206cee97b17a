"""Writes /verif/MANIFEST.json from vcg/meta.py (claimed properties) and the property list."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(H, "vcg"), os.path.join(H, "tools")]
from meta import META, NA
import props
checks = []
for x in props.P:
    i = x["id"]
    if i not in META: continue
    m = META[i]
    checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
        "technique": m.get("technique", "contract-based deductive verification: function contracts and lemmas over the MIR of the real code, verification conditions discharged by an algebraic normaliser, z3 and cvc5"),
        "level": m["level"], "level_note": m.get("note", "all inputs over exact reals; every obligation of every contract of the property and of the contracts it relies on must be discharged; a run of the compiled code against the same statements looks for failing inputs")})
na = [{"property": x["id"], "reason": NA.get(x["id"], "not claimed yet: contracts under construction")} for x in props.P if x["id"] not in META]
json.dump({"version": 1, "setup_cmd": "python3-vt check.py P04 --build-only", 
    "checks": checks, "not_applicable": na, "notes": "see DESIGN.md"}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
