"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(HERE, "tools", "checks_table.py"), encoding="utf-8").read())
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    if p in TECH:
        t, note = TECH[p]
        checks.append(dict(property=p, quick_cmd=f"./run {p.lower()} --tier quick", thorough_cmd=f"./run {p.lower()} --tier thorough",
                           technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
