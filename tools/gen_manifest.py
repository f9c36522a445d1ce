#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/build.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    s = B.PROPS.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": s.get("technique", "property-based testing (rapid) against a reference model"),
        "level": s.get("level", "exploration"),
        "level_note": s.get("note", "Generated-input search on the real code with shrinking and replay; it shows the absence of violations only on the cases generated. Trusts the reference model in /verif/harness/model."),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check builds the harness from /verif and /repo's working tree into a scratch directory and removes it."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
