#!/usr/bin/env python3
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "N02": "Monotone decrease of the iALS objective depends on floating-point runtime values that no static argument in reach bounds.",
 "N03": "Convergence of SLIM coordinate descent to the optimum within tolerance is a numeric runtime quantity.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/sa/rules/{i.lower()}.py"):
        m = importlib.import_module(f"sa.rules.{i.lower()}")
        checks.append({"property": i, "quick_cmd": f"python3 check.py --property {i} --tier quick",
                       "thorough_cmd": f"python3 check.py --property {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": getattr(m, "TECHNIQUE", "static analysis: interprocedural symbolic dataflow (gated value terms and effect log) over the source, compared with a reference term"),
                       "level": m.LEVEL, "level_note": m.EXPLANATION})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo's current Python and C++ sources on every run and never import or execute them."},
          open(V + "/MANIFEST.json", "w"), indent=1)
