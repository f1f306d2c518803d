"""C14: a time-out is reported as a time-out; a list shorter than the limit comes only from a finished search."""
import json
import os
import subprocess
import tempfile
import time

import clingo

from .. import env, shipped
from ..askd import Kid
from ..core import Violation
from ..penpa import Board
from ..server import Server, scratch_copy
from .c12 import HARD, post, read
from .exact import registry

PROPERTY = "C14"
RULE = ("Boards the solvers ship with, with marks left out, and generated small boards, each with an answer limit (1 to 10**6) and time "
        "limits chosen inside, just around and beyond the time the search needs (measured by running the same program in a separate "
        "answer-set solver that also says whether the search was exhausted). The request must time out or give min(limit, count) answers; "
        "with a limit in whole seconds a time-out must not come early. The same over HTTP with whole-second limits, and in a process whose "
        "system clock is set forward by seconds to hours while the search runs (a preloaded stand-in for the timed wait). "
        "Non-trivial: the time limit cuts the search (it is below the measured search time).")
LIMITS = [1, 2, 10, 10, 100, 1000, 20000, 10**6]
BUDGET = 5.0
_SERVER = {}
_TREE = []
_SHIM = []
_KID = []


def prefork(units_):
    _TREE.append(scratch_copy())
    if any(u["group"] == "clock" for u in units_):
        shim()


def shim():
    """The preloaded library that sets the clock during a wait; None where it cannot be built."""
    if not _SHIM:
        d = tempfile.TemporaryDirectory(prefix="vf_warp_")
        so = os.path.join(d.name, "warp.so")
        try:
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(env.VERIF, "vf", "warp.c"), "-ldl"], check=True,
                           capture_output=True, timeout=60)
        except (OSError, subprocess.SubprocessError):
            so = None
        _SHIM.append((so, d))
    return _SHIM[0][0]


def reference(case, limit, threads=1, budget=BUDGET):
    """(finished, number of answers found, seconds) of the rule program of the request, in a solver of our own."""
    from noqx import manager
    prog = manager.generate_program(manager.prepare_puzzle(case["name"], case["link"], json.loads(json.dumps(case["param"]))))
    ctl = clingo.Control(logger=lambda *_: None)
    ctl.configuration.sat_prepro = 2
    ctl.configuration.asp.trans_ext = "dynamic"
    ctl.configuration.asp.eq = 1
    ctl.configuration.solve.project = "show"
    ctl.configuration.solve.models = limit
    ctl.add("base", [], prog)
    t0 = time.perf_counter()
    ctl.ground([("base", [])])
    t1 = time.perf_counter()
    n = [0]

    def seen(_):
        n[0] += 1
    with ctl.solve(on_model=seen, async_=True) as h:
        done = h.wait(budget)
        h.cancel()
        res = h.get()
    full = bool(done and (res.exhausted or n[0] >= limit))
    return full, n[0], t1 - t0, time.perf_counter() - t1


def board_marks(b):
    out = []
    for part in ("surface", "number", "sudoku", "symbol", "edge", "line"):
        out += [(part, k) for k in getattr(b.q, part)]
    return out


def gen(d, names, big):
    if big:
        name, _, link, param, _ = d.choice(big)
        b = Board.decode(link, hashi=name == "hashi")
        keep = d.choice([0, 3, 5, 8, 9])
        for part, k in board_marks(b):
            if d.int(0, 9) >= keep:
                del getattr(b.q, part)[k]
        b.a = type(b.a)()
        link = b.encode(hashi=name == "hashi")
    else:
        case = registry()[d.choice(names)].gen(d)
        name, link, param = case.name, case.url(), case.param
    return dict(name=name, link=link, param=param, limit=d.choice(LIMITS), at=d.int(0, 6))


def plan(at, finished, need):
    if not finished:
        return (0.05, 0.2, 0.5, 0.8, 1, 1, 1.2)[at]
    return (need * 0.15, need * 0.4, need * 0.7, need * 0.9, need * 1.1, 1 if need < 1.5 else 2, need * 0.02)[at]


def ask_here(c, tl):
    return env.solve(c["name"], c["link"], json.loads(json.dumps(c["param"])), c["limit"], tl)


def ask_warped(c, tl):
    if not _KID:
        _KID.append(Kid(0, dict(LD_PRELOAD=shim())))
    kind, *rest = _KID[0].ask(dict(name=c["name"], link=c["link"], param=c["param"], limit=c["limit"], time=tl, threads=1, random=0, warp=c["warp"]))
    if kind == "answers":
        return rest[0]
    raise (TimeoutError if kind == "TimeoutError" else RuntimeError)(f"{kind}: {rest}")


def warped(d, rec, big):
    if shim() is None:
        return rec.done(False, label="no shim")
    c = dict(name="kurotto", link=HARD, param={}, limit=10) if d.chance(1, 6) else gen(d, [], big)
    c.update(limit=d.choice([10, 1000, 10**6]), warp=d.choice([1, 2, 5, 60, 3600, 86400]), tl=1)
    rec.set(c)
    out, _ = check(c, c["tl"], ask_warped)
    rec.done(out == "cut", label="clock " + out)


def check(c, tl=None, ask=ask_here):
    try:
        finished, n, ground, search = reference(c, c["limit"])
    except Exception:  # noqa: BLE001  rejected or unusable board: not the subject here
        return "rejected", tl
    if ground > 4:
        return "slow grounding", tl
    if tl is None:
        tl = plan(c["at"], finished, ground + search)
    t = time.perf_counter()
    try:
        got = ask(c, tl)
    except TimeoutError:
        wall = time.perf_counter() - t
        if isinstance(tl, int) and wall < tl - 0.05:
            raise Violation(f"{c['name']}: time-out reported after {wall:.2f} s with a time limit of {tl} s") from None
        if wall > 60 + tl:
            raise Violation(f"{c['name']}: time-out of {tl} s reported after {wall:.0f} s") from None
        return ("cut" if not finished or tl < ground + search else "late"), tl
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{c['name']}: neither answers nor a time-out: {type(e).__name__}: {e}") from None
    if len(got) > c["limit"]:
        raise Violation(f"{c['name']}: {len(got)} answers with limit {c['limit']}")
    if len(got) == c["limit"]:
        return "limit reached", tl
    if finished and len(got) != n:
        raise Violation(f"{c['name']}: time limit {tl:.3f} s, answer limit {c['limit']}: {len(got)} answers given as the complete list, there are {n}")
    if not finished and tl <= BUDGET / 3:
        # the machine's speed may differ a little between the two runs: let it have six times as long before judging
        finished, n, _, _ = reference(c, c["limit"], budget=6 * BUDGET)
        if finished and len(got) == n:
            return "finished", tl
        raise Violation(f"{c['name']}: time limit {tl} s, answer limit {c['limit']}: {len(got)} answers given as the complete list, "
                        f"but the search {'finds ' + str(n) if finished else 'does not finish in ' + str(6 * BUDGET) + ' s'}")
    return "finished", tl


def over_http(d, rec, big):
    c = dict(name="kurotto", link=HARD, param={}) if d.chance(1, 4) else gen(d, [], big)
    tl = d.choice([1, 1, 2])
    c.update(limit=10, http=tl)
    rec.set(c)
    out = check_http(c)
    rec.done(out == "cut", label="http " + out)


def check_http(c):
    tl = c["http"]
    try:
        finished, n, ground, search = reference(c, 10)
    except Exception:  # noqa: BLE001
        return "rejected"
    if ground > 4:
        return "slow grounding"
    key = tl
    s = _SERVER.get(key)
    if s is None or not s.alive():
        s = _SERVER[key] = Server(_TREE[0] if _TREE else scratch_copy(), "-tl", tl).start()
    t = time.perf_counter()
    st, obj = read(post(s, json.dumps(dict(puzzle_name=c["name"], puzzle=c["link"], param=c["param"]))), c["name"])
    wall = time.perf_counter() - t
    if st == 504:
        if wall < tl - 0.05:
            raise Violation(f"{c['name']}: 504 after {wall:.2f} s with a time limit of {tl} s")
        return "cut" if not finished else "late"
    if st != 200:
        raise Violation(f"{c['name']}: time limit {tl} s: status {st}: {obj}")
    k = len(obj["url"])
    if k < 10 and (n != k if finished else tl <= BUDGET / 3):
        raise Violation(f"{c['name']}: time limit {tl} s: {k} answers given as the complete list, {n} found {'in all' if finished else 'without finishing'}")
    return "finished"


def units(tier):
    n = 40 if tier == "quick" else 300
    us = [dict(id=f"shipped-{i}", group="shipped boards with marks left out", examples=n, cost=5) for i in range(8)]
    us += [dict(id=f"small-{i}", group="generated boards", examples=n * 4, cost=3) for i in range(4)]
    us += [dict(id=f"clock-{i}", group="clock", examples=n // 2, cost=4) for i in range(2)]
    us += [dict(id=f"http-{i}", group="http", examples=n // 2, cost=4) for i in range(2)]
    return us


def body(unit):
    names = sorted(registry())
    big = shipped.examples()
    if unit["group"] == "http":
        return lambda d, rec: over_http(d, rec, big)
    if unit["group"] == "clock":
        return lambda d, rec: warped(d, rec, big)

    def run(d, rec):
        c = gen(d, names, big if unit["id"].startswith("shipped") else None)
        rec.set(c)
        out, tl = check(c)
        c["tl"] = tl
        rec.set(c)
        rec.done(out == "cut" or (out == "limit reached" and c["at"] < 5), label=out)
    return run


def replay(rp):
    env.load()
    c = rp["case"]
    if "http" in c:
        check_http(c)
        for s in _SERVER.values():
            s.stop()
    elif "warp" in c:
        check(c, c["tl"], ask_warped)
    else:
        for _ in range(3):
            check(c, c.get("tl"))
