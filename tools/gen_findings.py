"""Writes known_findings.json: 'findings' (kept by hand below) and 'fixed' (from the fix commits in /repo)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
exec(open(os.path.join(HERE, "tools", "findings_table.py"), encoding="utf-8").read())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        for p in PROPS[s[5:]].split():
            fixed.append(f"fixed: property={p} {h} {s[5:]}")
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(FINDINGS), "findings", len(fixed), "fixed")
