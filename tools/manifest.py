#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
NOT_APPLICABLE = {}
ENGINE_B = {"C07", "C11", "C17", "C18", "C22", "C23", "C24", "C25"}
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid not in checks.CHECKS:
        out["not_applicable"].append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "check not built yet")})
        continue
    t = checks.TECHNIQUE.get(pid, "model-based property-based testing: generated histories run in-process on the library, compared with a reference model; failures shrunk to a minimal replayable choice sequence")
    out["checks"].append({
        "property": pid, "quick_cmd": "python3 run.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + pid,
        "technique": t, "level": "exploration", "level_note": checks.NOTE.get(pid, "random exploration of the stated domain, not exhaustive; see DESIGN.md for bounds"),
        "evidence_file": "evidence/%s.json" % pid})
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
