#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props as PR
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
T = "contract-based deductive verification of the extracted source (Verus/Z3), with concrete replay on the real crate"
checks = []
for i in ids:
    if i not in PR.PROPS: continue
    p = PR.PROPS[i]
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": p.get("technique", T), "level": p["level"],
                   "level_note": p["note"] + (". Bounded, not proved: " + "; ".join(p["bounded"]) if p.get("bounded") else "") + ". Trusted: Verus/Z3, the extraction, contracts assumed for dependencies (listed in the evidence)."})
na = [{"property": i, "reason": PR.NOT.get(i, "not yet under contract")} for i in ids if i not in PR.PROPS]
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
