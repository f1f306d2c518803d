"""C11: an answer depends only on the request."""
import base64
import json
import os
import pickle
import random
import sys

from .. import env
from ..core import Case, Violation, observed
from ..draw import D
from ..penpa import Board
from .exact import registry

PROPERTY = "C11"
RULE = ("Sequences of 2..8 requests to one process: boards of one puzzle type with different contents and options, the same request again, "
        "its link under other options or another puzzle name, requests of other types, requests that are rejected, fail or time out. Every "
        "result (answer set, or kind and text of the failure) is compared with that of a fresh process (forked before anything was solved); "
        "the metadata must stay as it was. Also sequences of 3..12 calls of the shared rule functions with arguments recorded from requests (and "
        "variations of them), each compared with the same call in a fresh process. Non-trivial: at least two requests of the sequence have "
        "answers; at least two calls of one function with different arguments.")
LIMIT = 41
MAXTASKS = 1


def result(req):
    """What a request gives in this process: [kind, payload]."""
    random.seed(7)
    try:
        urls = env.solve(req["name"], req["link"], json.loads(json.dumps(req["param"])), LIMIT, req["limit"])
        return ["answers", sorted(urls)]
    except BaseException as e:  # noqa: BLE001
        return [type(e).__name__, str(e)]


def outside():
    from noqx import manager
    return json.dumps(manager.list_solver_metadata(), sort_keys=True, default=str)


def in_child(reqs):
    """Results of the requests, handled in order by one forked process."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            out = [result(r) for r in reqs]
            with os.fdopen(wr, "wb") as f:
                pickle.dump((out, outside()), f)
            code = 0
        finally:
            sys.stdout.flush()
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process handling the requests died")
    return pickle.loads(data)


def same(name, a, b):
    if a[0] != b[0]:
        return False
    if a[0] != "answers":
        return a[1] == b[1]
    if len(a[1]) != len(b[1]):
        return False
    if a[1] == b[1] or len(a[1]) >= LIMIT:
        return True
    case = Case(name, Board(1, 1))
    return {observed(case, u)[0] for u in a[1]} == {observed(case, u)[0] for u in b[1]}


def short(x):
    return f"{len(x[1])} answers" if x[0] == "answers" else f"{x[0]} ({x[1][:80]})"


_META = []


def check(reqs):
    if not _META:
        _META.append(outside())
    got, meta = in_child(reqs)
    for i, r in enumerate(reqs):
        if i == 0:
            continue
        (fresh,), _ = in_child([r])
        if "TimeoutError" in (fresh[0], got[i][0]) and r["limit"]:
            raise TimeoutError
        if not same(r["name"], fresh, got[i]):
            raise Violation(f"{r['name']}: request {i + 1} of a sequence gives {short(got[i])}, on a fresh server {short(fresh)}"
                            + (" (other ones)" if short(fresh) == short(got[i]) else ""), sequence=[x["name"] for x in reqs])
    if meta != _META[0]:
        raise Violation("handling requests changed the puzzle types' metadata (names, options, defaults, examples)")
    return sum(x[0] == "answers" and bool(x[1]) for x in got)


def request(case, limit=20):
    return dict(name=case.name, link=case.url(), param=case.param, limit=limit)


def broken(d, case):
    """A request that is rejected, fails or times out."""
    r = request(case)
    k = d.int(0, 6)
    if k == 0:
        r["limit"] = 0
    elif k == 1:
        r["name"] = d.choice(["", "nosuch", "Tapa", "solver"])
    elif k == 2:
        n = d.int(0, len(r["link"]))
        r["link"] = r["link"][:n]
    elif k == 3 and r["param"]:
        del r["param"][d.choice(sorted(r["param"]))]
    else:
        b = Board.from_json(case.board.to_json())
        x = (d.int(0, b.rows - 1), d.int(0, b.cols - 1))
        if k == 4:
            b.q.number[(*x, d.choice(["C", "T", "TL"]))] = [d.choice(["Q", "?", "99", "1_5", "-"]), 1, d.choice("123")]
        elif k == 5:
            b.q.symbol[(*x, d.choice(["C", "L", "TL"]))] = [d.int(1, 9), d.choice(["star", "circle_L", "ox_B", "arrow_B_W"]), 1]
        else:
            b.q.surface[x] = d.choice([1, 2, 5, 4])
        r["link"] = Case(case.name, b).url()
    return r


def gen(d, name, names):
    reg = registry()
    n = d.int(2, 8)
    cases, out = [], []
    first = reg[name].gen(d)
    steady = d.chance(1, 2)                            # most boards of the type come with the same options

    def one():
        c = reg[name].gen(d)
        for _ in range(6 if steady else 0):
            if c.param == first.param:
                break
            c = reg[name].gen(d)
        return c

    for i in range(n):
        k = d.int(0, 9)
        if k <= 4 or i == 0 or i == n - 1 and k < 8:
            c = first if i == 0 else one()
        elif k == 5:
            c = reg[d.choice(names)].gen(d)
        elif k == 6:
            c = d.choice(cases)
        elif k == 7:                                   # the same link with the options of another request
            a, b = d.choice(cases), reg[name].gen(d)
            c = Case(a.name, a.board, b.param if a.name == name else a.param)
        elif k == 8:                                   # the same link for another puzzle type
            q = reg[d.choice(names)].gen(d)
            c = Case(q.name, d.choice(cases).board, q.param)
        else:
            out.append(broken(d, reg[name].gen(d)))
            continue
        cases.append(c)
        out.append(request(c))
    return out


# -- calls of the rule functions

def record():
    """Calls of module level functions of noqx.rule made while some boards are turned into programs (in a child process)."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            calls = {}

            def prof(frame, event, _arg):
                if event != "call":
                    return
                mod = frame.f_globals.get("__name__", "")
                if not mod.startswith("noqx.rule."):
                    return
                co = frame.f_code
                fn = frame.f_globals.get(co.co_name)
                if getattr(fn, "__code__", None) is not co or co.co_flags & 0x0C:
                    return
                try:
                    args = tuple(frame.f_locals[v] for v in co.co_varnames[:co.co_argcount + co.co_kwonlyargcount])
                    key = pickle.dumps((mod, co.co_name, args))
                except Exception:  # noqa: BLE001  arguments that cannot be stored
                    return
                if len(key) < 6000:
                    calls.setdefault((mod, co.co_name), {})[key] = None
            from noqx import manager
            for name, m in sorted(registry().items()):
                for i in range(4):
                    case = m.gen(D(random.Random(i)))
                    sys.setprofile(prof)
                    try:
                        manager.generate_program(manager.prepare_puzzle(name, case.url(), dict(case.param)))
                    except Exception:  # noqa: BLE001
                        pass
                    sys.setprofile(None)
            with os.fdopen(wr, "wb") as f:
                pickle.dump({k: sorted(v)[:400] for k, v in calls.items()}, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


POOL = {}


def prefork(units_):
    if any(u["group"] == "rule functions" for u in units_):
        POOL.update(record())


def vary(d, key):
    """The call, maybe with one argument changed."""
    mod, fn, args = pickle.loads(key)
    if args and d.chance(1, 2):
        i = d.int(0, len(args) - 1)
        a = args[i]
        args = list(args)
        if isinstance(a, bool):
            args[i] = not a
        elif isinstance(a, int):
            args[i] = a + d.choice([1, -1, 2])
        elif isinstance(a, str):
            args[i] = d.choice(["black", "white", "grid", "area", "row", "col", "4", "8", "x", "loop", a + "b"])
        elif isinstance(a, (list, tuple)) and len(a) > 1:
            args[i] = a[1:] if d.chance(1, 2) else a[::-1]
        args = tuple(args)
    return pickle.dumps((mod, fn, args))


def plain(x):
    if isinstance(x, (set, frozenset)):
        return ["set", sorted(map(repr, x))]
    if isinstance(x, (str, int, float, bool, type(None), list, tuple)):
        return repr(x)
    if isinstance(x, dict):
        return ["dict", sorted((repr(sorted(k, key=repr)) if isinstance(k, tuple) else repr(k), repr(v)) for k, v in x.items())]
    if hasattr(x, "__next__"):
        return repr(list(x))
    return repr(x)


def call(key):
    random.seed(7)
    mod, fn, args = pickle.loads(key)
    try:
        f = getattr(sys.modules[mod], fn)
        co = f.__code__
        names = co.co_varnames[:co.co_argcount + co.co_kwonlyargcount]
        return ["returns", plain(f(**dict(zip(names, args))))]
    except Exception as e:  # noqa: BLE001
        return [type(e).__name__, str(e)]


def calls_in_child(keys):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            out = [call(k) for k in keys]
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process calling the rule functions died")
    return pickle.loads(data)


def check_calls(keys):
    got = calls_in_child(keys)
    for i, k in enumerate(keys):
        if i:
            fresh = calls_in_child([k])[0]
            if fresh != got[i]:
                mod, fn, args = pickle.loads(k)
                raise Violation(f"{fn}{repr(args)[:200]} returns something else after {i} earlier calls than in a fresh process",
                                fresh=str(fresh)[:600], later=str(got[i])[:600])


def units(tier):
    n = 22 if tier == "quick" else 200
    us = [dict(id=f"rules-{i}", group="rule functions", examples=900 if tier == "quick" else 15000, cost=3) for i in range(4)]
    return us + [dict(id=name, group=name, name=name, examples=max(3, int(n * min(1, registry()[name].weight))), cost=1) for name in sorted(registry())]


def body(unit):
    names = sorted(registry())
    if unit["group"] == "rule functions":
        funs = sorted(POOL)

        def run2(d, rec):
            some = d.sample(funs, d.choice([1, 1, 2, 3]))
            base = [d.big(POOL[f]) for f in some]
            keys = [vary(d, d.choice(base) if d.chance(2, 3) else d.big(POOL[d.choice(some)])) for _ in range(d.int(3, 12))]
            rec.set(dict(calls=[base64.b64encode(k).decode() for k in keys]))
            check_calls(keys)
            by = {}
            for k in set(keys):
                by.setdefault(pickle.loads(k)[:2], []).append(k)
            rec.done(any(len(v) > 1 for v in by.values()), label="calls")
        return run2

    def run(d, rec):
        reqs = gen(d, unit["name"], names)
        rec.set(dict(requests=reqs))
        n = check(reqs)
        rec.done(n >= 2, label=f"{len(reqs)} requests")
    return run


def replay(rp):
    env.load()
    if "calls" in rp["case"]:
        check_calls([base64.b64decode(k) for k in rp["case"]["calls"]])
    else:
        check(rp["case"]["requests"])
