"""writes MANIFEST.json from the list of claimed properties"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from claims import CLAIMS, NOT_APPLICABLE
checks = []
for pid, (level, note) in sorted(CLAIMS.items()):
    checks.append({"property": pid, "quick_cmd": "python3-vt check.py %s --tier quick" % pid, "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": "function contracts in Python, verification conditions generated from the real source by symbolic execution with loop invariants, discharged by z3; native replay of counterexamples",
                   "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, numpy\"", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
     "notes": "See DESIGN.md. No hooks in /repo: the checks read its source and import it unchanged."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
