#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have checks."""
import json, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools", "levels.json")))
have = set()
d = os.path.join(HERE, "harness", "props")
for f in os.listdir(d):
    have |= set(re.findall(r"^func Test(C\d\d)_", open(os.path.join(d, f)).read(), re.M)) if f.endswith(".go") else set()
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        n = notes.get(i, {})
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "property-based testing (rapid)"),
            "level": "exploration",
            "level_note": n.get("note", "Generated cases against an explicit oracle; shows presence, not absence, of violations.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
