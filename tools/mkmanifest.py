"""Writes MANIFEST.json from the property list and the modules in props/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/props/%s.py" % i):
        m = importlib.import_module("props." + i)
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                       "technique": getattr(m, "TECHNIQUE", "contracts on the real functions, discharged function by function over LLVM IR of /repo by symbolic execution and SMT (z3, cvc5)"),
                       "level": getattr(m, "LEVEL", "proof"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. See DESIGN.md; genuine defects are in known_findings.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
