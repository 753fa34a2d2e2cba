#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
NA = {
 "C34": "The affine transform and matrix headers cannot be instantiated at this commit: no program using the call operator compiles, so there are no executions to enumerate.",
 "C38": "The mask header does not compile at this commit (it includes a mask iterator header which does not exist), so there are no executions to enumerate.",
 "C36": "The PNG and TIFF headers do not compile at this commit (they include headers which are not part of the repository), so there are no executions to enumerate.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CHECKS and glob.glob(os.path.join(V, "harness", p + "*.cpp")):
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py --property %s --tier quick" % p,
          "thorough_cmd": "python3 run.py --property %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
          "technique": c["technique"], "level": "model_checking",
          "level_note": ("Every execution within these bounds was run on the real code and compared with a reference model: " + c["bounds"] + ". " + c["note"]).strip()})
    else:
        na.append({"property": p, "reason": NA.get(p, "Check not built yet.")})
m = {"version": 1, "setup_cmd": "python3 run.py --build-only",
     "checks": checks, "not_applicable": na,
     "notes": "Stateless exhaustive exploration of the real code (harness/mc.hpp, harness/mc_main.cpp); see DESIGN.md. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
