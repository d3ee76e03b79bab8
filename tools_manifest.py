#!/usr/bin/env python3
"""Writes MANIFEST.json: every property in CLAIMED is claimed, the rest is listed as not (yet) claimed."""
import json
S = "bash -c 'exec python3 bin/check {} --tier {}'"
NOTE = {}
TECH = {}
exec(open("tools_claims.py").read())
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = [{"property": p, "quick_cmd": f"python3 bin/check {p} --tier quick", "thorough_cmd": f"python3 bin/check {p} --tier thorough",
           "evidence_file": f"evidence/{p}.json", "technique": CLAIMS[p][0], "level": "model_checking", "level_note": CLAIMS[p][1]} for p in props if p in CLAIMS]
na = [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; bound to the code by the harness crate (harness/) and the drivers in checks/. No hooks in /repo. See DESIGN.md."},
          open("MANIFEST.json", "w"), indent=1)
