#!/opt/venv/bin/python
"""Writes MANIFEST.json from the registry and properties.jsonl (run from /verif)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.registry import CHECKS
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "specification and conformance driver not built yet (work in progress)"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p["id"],
                   "technique": c["technique"], "level": c["level"],
                   "level_note": ("Models (%s): exhaustive within their constants. Implementation: every recorded run of the real code, "
                                  "built from /repo's working tree, is judged by TLC against %s; inputs are generated from the seed, so other inputs are "
                                  "not covered. Trusted: TLC, the recording harness, g++/python." %
                                  (", ".join(m if isinstance(m, str) else m[1] for m in c["models"]) or "none",
                                   ", ".join(t for _, t in c["parts"])))})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/build.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. See DESIGN.md. No hooks in /repo: the checks observe the public API only."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not yet")
