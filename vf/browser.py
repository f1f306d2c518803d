"""The Python side of the page in the browser: main_deploy.py with a stand-in for PyScript, run in the folder PyScript would fill.

Started with `python -I -S` (no installed packages, like the browser).  JSON lines in, JSON lines out.
"""
import json
import os
import sys
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())


class JsObject:
    """An object of the page as Python sees it."""

    def __init__(self, data):
        self._data = data

    def to_py(self):
        return json.loads(json.dumps(self._data))


def main():
    out = sys.stdout
    sys.stdout = sys.stderr
    mod = types.ModuleType("pyscript")
    mod.window = types.SimpleNamespace()
    sys.modules["pyscript"] = mod
    try:
        with open("main_deploy.py", encoding="utf-8") as f:
            exec(compile(f.read(), "main_deploy.py", "exec"), {"__name__": "__main__"})  # noqa: S102
    except BaseException as e:  # noqa: BLE001
        out.write(json.dumps({"dead": f"{type(e).__name__}: {e}"}) + "\n")
        out.flush()
        return
    from noqx.manager import list_solver_metadata
    out.write(json.dumps({"ready": sorted(vars(mod.window)), "meta": list_solver_metadata()}) + "\n")
    out.flush()
    objects = []
    for line in sys.stdin:
        m = json.loads(line)
        args = [objects[a["$obj"]] if isinstance(a, dict) and "$obj" in a else JsObject(a) if isinstance(a, dict) else a for a in m["args"]]
        try:
            r = getattr(mod.window, m["call"])(*args)
            res = dict(r)
            v = res.get("result")
            if not isinstance(v, (str, int, float, bool, type(None))):
                objects.append(v)
                res["result"] = {"$obj": len(objects) - 1}
            if len(objects) > 2000:
                objects[:1000] = [None] * 1000
            ans = {"value": res}
        except BaseException as e:  # noqa: BLE001
            ans = {"raised": f"{type(e).__name__}: {e}"}
        out.write(json.dumps(ans) + "\n")
        out.flush()


main()
