"""C23: the answer set does not depend on threads, hash seeds or random choices."""
import json
import os
import random
from collections import Counter

from .. import env, shipped
from ..askd import Kid, handle
from ..core import Case, Violation, observed
from ..penpa import Board
from ..server import Server, scratch_copy
from .c11 import broken
from .c12 import post, read
from .c13 import tables
from .exact import registry

PROPERTY = "C23"
RULE = ("Generated boards of every puzzle type, shipped boards with marks left out, boards against the input rules of their type and broken requests, each solved 3..6 times: in this "
        "process and in processes started with other hash seeds, with 1 to 8 solver threads and other states of the random generator; and over "
        "HTTP on servers started with -pt 1..8 and other hash seeds. Every run must give the same set of answers (the same number of different "
        "ones if there are more than the limit) or the same kind of failure. Non-trivial: at least one answer.")
LIMIT = 60
TIME = 60
_KIDS = {}
_TREE = []
_SERVERS = {}


def prefork(units_):
    _TREE.append(scratch_copy())


def kid(seed):
    if seed not in _KIDS:
        if len(_KIDS) >= 4:
            _KIDS.pop(next(iter(_KIDS))).stop()
        _KIDS[seed] = Kid(seed)
    return _KIDS[seed]


def one(req, how):
    r = dict(name=req["name"], link=req["link"], param=json.loads(json.dumps(req["param"])), limit=LIMIT, time=TIME, threads=how["threads"],
             random=how["random"])
    if how["hash"] is None:
        state = random.getstate()
        try:
            return handle(r)
        finally:
            random.setstate(state)
    return kid(how["hash"]).ask(r)


def digest(name, res, limit):
    """What must be the same in every run."""
    if res[0] != "answers":
        return res[0]
    got = [observed(Case(name, Board(1, 1)), u)[0] for u in res[1]]
    return (len(got), frozenset(Counter(got).items()) if len(got) < limit else "")


def check(req, hows):
    ref = None
    for how in hows:
        res = one(req, how)
        if res[0] == "TimeoutError":
            raise TimeoutError
        x = digest(req["name"], res, LIMIT)
        if ref is None:
            ref = x
        elif x != ref:
            a, b = (v if isinstance(v, str) else f"{v[0]} answers" for v in (ref, x))
            raise Violation(f"{req['name']}: {a} with {hows[0]} but {b} with {how}" + (" (other ones)" if a == b else ""))
    return ref


def board(d, name):
    """A request and whether it should have answers."""
    model = registry()[name]
    mine = [x for x in shipped.examples() if x[0] == name and x[4].get("test", True)]
    if mine and d.chance(1, 6):
        _, _, link, param, _ = d.choice(mine)
        b = Board.decode(link, name == "hashi")
        if d.chance(1, 2):
            marks = [(k, x) for k in ("number", "sudoku", "symbol", "edge") for x in getattr(b.q, k)]
            for k, x in d.sample(marks, min(len(marks), d.int(1, 2))):
                del getattr(b.q, k)[x]
        return dict(name=name, link=b.encode(hashi=name == "hashi"), param=param)
    case = model.gen(d)
    if d.chance(1, 5):                                 # a board its type may have to reject
        some = sorted({k for k, _ in tables()[name]})
        rooms = [k for k in some if k in ("rooms", "two clues", "indivisible")]
        kind = d.choice(rooms if rooms and d.chance(2, 3) else some) if some else None
        if kind:
            dict(tables()[name])[kind](d, case)
            return dict(name=name, link=case.url(), param=case.param)
    if d.chance(1, 8):
        r = broken(d, case)
        return dict(name=r["name"], link=r["link"], param=r["param"])
    return dict(name=name, link=case.url(), param=case.param)


def http(unit):
    """The same request on servers started with other thread counts and hash seeds."""
    hows = [(1, 0), (unit["threads"], unit["hash"])]

    def run(d, rec):
        name = d.choice(sorted(registry()))
        req = board(d, name)
        rec.set(dict(req=req, http=hows))
        rec.done(http_check(req, hows) > 0, label="http")
    return run


def http_check(req, hows):
    ref = None
    for t, h in hows:
        if (t, h) not in _SERVERS:
            old = os.environ.get("PYTHONHASHSEED")
            os.environ["PYTHONHASHSEED"] = str(h)
            _SERVERS[t, h] = Server(_TREE[0], "-pt", t, "-tl", TIME).start()
            os.environ["PYTHONHASHSEED"] = old or "0"
        try:
            body = json.dumps(dict(puzzle_name=req["name"], puzzle=req["link"], param=req["param"]))
            status, _, raw = _SERVERS[t, h].post(body)
        except UnicodeEncodeError:
            return 0
        if status == 504:
            raise TimeoutError
        x = status if status != 200 else digest(req["name"], ["answers", json.loads(raw)["url"]], 10)
        if ref is None:
            ref = x
        elif x != ref:
            a, b = (f"status {v}" if isinstance(v, int) else f"{v[0]} answers" for v in (ref, x))
            raise Violation(f"{req['name']}: {a} with -pt {hows[0][0]} but {b} with -pt {t} and hash seed {h}" + (" (other ones)" if a == b else ""))
    return ref[0] if not isinstance(ref, int) else 0


def units(tier):
    n = 40 if tier == "quick" else 300
    us = [dict(id=name, group=m.cat, name=name, seed=i, examples=max(8, int(n * min(1, m.weight))), cost=m.weight)
          for i, (name, m) in enumerate(sorted(registry().items()))]
    k = 4 if tier == "quick" else 12
    return us + [dict(id=f"http-{i}", group="http", http=True, threads=(2, 4, 8, 3)[i % 4], hash=10 + i, examples=n * 4, cost=4) for i in range(k)]


def body(unit):
    if unit.get("http"):
        return http(unit)
    seeds = [1 + (unit["seed"] * 7 + k * 131) % 4000 for k in range(3)]

    def run(d, rec):
        req = board(d, unit["name"])
        hows = [dict(hash=None, threads=1, random=0)]
        for _ in range(d.int(2, 5)):
            hows.append(dict(hash=d.choice([None] + seeds), threads=d.choice([1, 1, 2, 4, 8]), random=d.int(0, 10 ** 6)))
        rec.set(dict(req=req, hows=hows))
        x = check(req, hows)
        if isinstance(x, str):                         # failures cost little: more states of the random generator
            hows += [dict(hash=None, threads=1, random=d.int(0, 10 ** 6)) for _ in range(10)]
            rec.set(dict(req=req, hows=hows))
            check(req, hows)
        rec.done(not isinstance(x, str) and x[0] > 0, label=x if isinstance(x, str) else "answers" if x[0] else "none")
    return run


def replay(rp):
    env.load()
    c = rp["case"]
    if "http" in c:
        _TREE.append(scratch_copy())
        http_check(c["req"], [tuple(x) for x in c["http"]])
    else:
        for _ in range(5):                        # threads: not every run shows it
            check(c["req"], c["hows"])
