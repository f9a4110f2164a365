"""Writes MANIFEST.json from vc/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc.props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    p = PROPS[i]
    if p["stages"]:
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} --tier quick", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                       "technique": p.get("technique", "contract-based deductive verification of the compiled source (symbolic execution with ownership contracts, z3)"),
                       "level": p["level"], "level_note": p.get("note", "")})
    else:
        na.append({"property": i, "reason": p.get("reason", "no check yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks in /repo are needed: the checks verify the LLVM IR compiled from the unmodified sources", "source_commits": []},
     "notes": "known findings: known-findings.txt; design: DESIGN.md"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
