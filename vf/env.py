"""Access to the code under test (/repo's working tree)."""
import logging
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("NOQX_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)


def load():
    """Import noqx from the working tree and load every solver."""
    os.chdir(REPO)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)
    from noqx import manager
    if not manager.modules:
        manager.load_solvers("solver")
    return manager


def solve(name, url, param, limit=10, time_limit=30, threads=1):
    """The server's own entry point: list of links, or raises what it raises."""
    from noqx import clingo
    clingo.Config.max_solutions_to_find = limit
    clingo.Config.time_limit = time_limit
    clingo.Config.parallel_threads = threads
    return clingo.run_solver(name, url, param)["url"]


SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
