#!/usr/bin/env python3
# Writes MANIFEST.json from the checks registered below. Usage: tools/mkmanifest.py
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
FE = "fault_enumeration"
checks = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks: the checks drive the exported API of the real code, built from /repo's working tree through an overlay. "
             "Genuine defects found on the way were repaired in 'fix:' commits, see KNOWN_FINDINGS.txt and DESIGN.md.",
}
for p in props:
    c = checks.get(p)
    if c is None:
        out["not_applicable"].append({"property": p, "reason": "no check built yet"})
        continue
    out["checks"].append({
        "property": p,
        "quick_cmd": f"bash run.sh {p} quick",
        "thorough_cmd": f"bash run.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": c["technique"],
        "level": c.get("level", MC),
        "level_note": c["note"],
    })
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
