"""Writes MANIFEST.json from the registered checks (sa/checks/*.py) and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa", "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3 sa/run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 sa/run.py %s --thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "static analysis: abstract interpretation of MIR with symbolic terms, property monitor"),
                       "level": "other",
                       "level_note": "Rule: %s. Assumes: %s. Paths the analysis cannot decide are counted in the evidence and raise no alarm." % (
                           m.RULE, "; ".join(getattr(m, "ASSUME", [])) or "nothing beyond the model of std")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check for this property has been built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'sa'); import load; load.build_driver()\"",
           "checks": checks, "not_applicable": na,
           "notes": "All checks are static: sa/run.py extracts the MIR of /repo's current tree with driver/ (a rustc wrapper) and interprets it abstractly; nothing of /repo is executed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
