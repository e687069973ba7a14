#!/usr/bin/env python3
"""writes MANIFEST.json from units/units.json"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/units/units.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
hooks = [l.split()[0] for l in hook if "verification hooks" in l]
checks, na = [], []
for i in ids:
    P = C["properties"].get(i, {})
    if P.get("na"):
        na.append({"property": i, "reason": P["na"]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
        "technique": P.get("technique", "contract-based deductive verification (Verus) of the extracted code; bounded native search as stand-in"),
        "level": P.get("level", "other"),
        "level_note": P.get("note", "bounded stand-in"),
    })
    if P.get("theorems"):
        checks[-1]["theorems"] = P["theorems"]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "--cfg patriecia_verif (rustc cfg)", "enable": "RUSTFLAGS=\"--cfg patriecia_verif\" (set by tools/check.py when it builds /verif/native against /repo)", "source_commits": hooks},
     "checks": checks, "not_applicable": na, "notes": "see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
