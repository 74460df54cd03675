#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(root, "engine", "checks.go")).read()
claimed = re.findall(r'^\t"(C\d\d)": \{', src, re.M)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
notes = json.load(open(os.path.join(root, "tools", "notes.json")))
checks = []
na = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": "./check " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the real Go code (go/ssa) with z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes["common"] + " " + notes.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": notes.get("na", {}).get(i, "no check registered yet")})
m = {"version": 1, "setup_cmd": "./check -build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
