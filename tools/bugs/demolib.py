"""Helpers of the demonstrations: build boards, ask the code in the current directory."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), HERE]
from penpa import Board, pack, unpack  # noqa: E402,F401
from noqx import clingo, manager  # noqa: E402

manager.load_solvers("solver")


def ask(name, board, param=None, limit=10):
    """Answers as decoded boards."""
    clingo.Config.max_solutions_to_find = limit
    urls = clingo.run_solver(name, board if isinstance(board, str) else board.encode(hashi=name == "hashi"), param or {})["url"]
    return [Board.decode(u, hashi=name == "hashi") for u in urls]


def num(b, r, c, v):
    b.q.number[(r, c, "C")] = [str(v), 1, "1"]


def want(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)


def done():
    print("fine")


class Page:
    """The page's scripts in node, one action at a time (page.js beside this file)."""

    def __init__(self, deployed=False):
        import atexit
        import json
        import shutil
        import subprocess
        import tempfile
        self.json = json
        d = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, d)
        for f in os.listdir("penpa-edit"):
            if f.endswith(".js"):
                shutil.copy(os.path.join("penpa-edit", f), d)
        with open(os.path.join(d, "solver_metadata.js"), "w") as f:
            f.write(f"const solver_metadata = {json.dumps(manager.list_solver_metadata())};")
        if deployed:
            p = os.path.join(d, "prepare_deployment.js")
            s = open(p).read().replace("ENABLE_DEPLOYMENT = false", "ENABLE_DEPLOYMENT = true")
            open(p, "w").write(s)
        r3, w3 = os.pipe()
        r4, w4 = os.pipe()
        self.p = subprocess.Popen(["node", os.path.join(HERE, "page.js"), d, str(w3), str(r4)], stdin=subprocess.PIPE, pass_fds=(w3, r4), text=True)
        atexit.register(self.p.kill)
        os.close(w3)
        self.inp = os.fdopen(r3)
        self.json.loads(self.inp.readline())

    def do(self, action, **kw):
        self.p.stdin.write(self.json.dumps({"do": action, "plan": {}, **kw}) + "\n")
        self.p.stdin.flush()
        return self.json.loads(self.inp.readline())["done"]

    def answer(self, links):
        return self.do("deliver", index=0, how={"status": 200, "body": self.json.dumps({"url": links})})
