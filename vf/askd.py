"""A process that answers requests with the code under test: JSON lines in, JSON lines out (used with other hash seeds)."""
import json
import os
import random
import subprocess
import sys

from . import env
from .core import Violation
from .server import _die_with_parent


class Kid:
    """A process running the code under test with a given hash seed."""

    def __init__(self, seed, more=None):
        e = {**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONPATH": f"{env.VERIF}:{env.SITE}", "PYTHONDONTWRITEBYTECODE": "1", **(more or {})}
        self.p = subprocess.Popen([sys.executable, "-m", "vf.askd"], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, preexec_fn=_die_with_parent, cwd="/")

    def ask(self, r):
        self.p.stdin.write(json.dumps(r) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Violation("the process solving the board died")
        return json.loads(line)

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


def handle(r):
    random.seed(r["random"])
    if "warp" in r:
        os.environ["WARP"] = str(r["warp"])
    try:
        return ["answers", env.solve(r["name"], r["link"], r["param"], r["limit"], r["time"], r["threads"])]
    except Exception as e:  # noqa: BLE001
        return [type(e).__name__, str(e)]
    finally:
        os.environ.pop("WARP", None)


def main():
    out = sys.stdout
    sys.stdout = sys.stderr
    env.load()
    for line in sys.stdin:
        out.write(json.dumps(handle(json.loads(line))) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
