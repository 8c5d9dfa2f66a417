#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the check binaries present and tools/levels.json."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
lv = json.load(open(f"{root}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if (any(os.path.exists(f"{root}/{d}/src/bin/{i.lower()}.rs") for d in ("mc", "mt", "cli")) or os.path.exists(f"{root}/py/{i.lower()}.py")) and i in lv["checks"]:
        c = lv["checks"][i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                       "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": lv["not_applicable"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": lv["hooks"], "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
