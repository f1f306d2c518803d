"""Writes /verif/seeded/<id>/ from tools/bugs/<batch>.py and tries it: plant.py [--check] [--tests] ID...

A bug is a dict: id, property, edits [(file, old, new)], demo (python text), needs, breaks.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "0b9af3a"


def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "bugs", "b*.py"))):
        ns = {}
        exec(open(f, encoding="utf-8").read(), ns)
        out += ns["BUGS"]
    return out


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, shell=True, capture_output=True, text=True, timeout=timeout)


def one(b, a):
    scratch = f"/tmp/plant_{b['id']}"
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree("/repo", scratch, ignore=shutil.ignore_patterns("__pycache__", "dist", ".venv"))
    out = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    for f, old, new in b["edits"]:
        p = os.path.join(scratch, f)
        s = open(p, encoding="utf-8").read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    diff = sh("git diff", scratch).stdout
    assert diff
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(HERE, "tools", "bugs", "demolib.py"), out)
    shutil.copy(os.path.join(HERE, "vf", "penpa.py"), out)
    if "Page(" in b["demo"]:
        shutil.copy(os.path.join(HERE, "vf", "page.js"), out)
    open(os.path.join(out, "demo.py"), "w").write(b["demo"].strip() + "\n")
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    env = dict(PYTHONDONTWRITEBYTECODE="1")
    good = sh(f"bash {out}/demo.sh", "/repo", env, 300)
    bad = sh(f"bash {out}/demo.sh", scratch, env, 300)
    res = [b["id"], b["property"], "demo ok" if good.returncode == 0 else "DEMO FAILS ON GOOD TREE " + good.stdout + good.stderr[-600:],
           "demo shows" if bad.returncode == 1 and "BROKEN" in bad.stdout else f"DEMO DOES NOT SHOW rc={bad.returncode} {bad.stdout} {bad.stderr[-600:]}"]
    if not a.no_tests:
        t = sh("/opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=400 tests -x", scratch,
               {**env, "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1", "PYTHONPATH": ""})
        res.append("tests pass" if t.returncode == 0 else "TESTS FAIL " + t.stdout[-700:])
    if a.check:
        c = sh(f"{HERE}/run {(a.prop or b['property']).lower()} --tier quick", HERE, dict(NOQX_REPO=scratch, VERIF_SEED=str(a.seed)))
        caught = c.returncode == 1 and f"VIOLATION property={a.prop or b['property']}" in c.stdout
        lines = [x for x in c.stdout.splitlines() if x.startswith("  ")][:1]
        res.append(("caught" if caught else f"MISSED rc={c.returncode}") + " " + " ".join(lines)[:160])
    shutil.rmtree(scratch, ignore_errors=True)
    print(" | ".join(res), flush=True)


ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--check", action="store_true")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--prop")
ap.add_argument("--seed", type=int, default=1)
a = ap.parse_args()
for b in bugs():
    if not a.ids or b["id"] in a.ids:
        try:
            one(b, a)
        except AssertionError as e:
            print(b["id"], "SPEC ERROR", e)
