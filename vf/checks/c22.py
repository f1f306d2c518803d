"""C22: puzzle options change the rules exactly as named, and only for that request."""
from .. import env
from ..core import Case, Violation, answers, exact, observed
from ..grid import G, rooms_from_edges
from ..shipped import solvers
from .exact import registry

PROPERTY = "C22"
RULE = ("A generated board of a puzzle type with options is solved 2..5 times in one process, each time under another set of options: the one the "
        "board was made for, the advertised defaults, and option sets drawn afresh over all values and combinations (numbers also written as "
        "text), some twice. Each answer list must be exactly the answers the reference rules have under those options, and a board that breaks "
        "the input rules under them must be rejected. Heyawake's fast mode: answers are those of the standard rules that keep within the 2x2 "
        "limit, more with higher limits, never others. Non-trivial: two option sets of the case have different answers.")

STANDARD = dict(
    bosanowa={"max_number": 10}, cave={"product": False}, easyasabc={"letters": "ABC"}, fillomino={"fast_mode": True},
    heyawake={"fast_mode": False, "limit_border": 0, "limit_2x2": 0}, lits={"invlitso": False}, mines={"mine_count": ""},
    ncells={"region_size": 5}, numlin={"visit_all": True, "no_2x2": True}, slitherlink={"swslither": False, "tslither": False, "vslither": False},
    starbattle={"stars": 2}, statuepark={"shapeset": "tetro"}, sudoku={"diagonal": False, "untouch": False, "antiknight": False},
    symmarea={"fast_mode": False}, tapaloop={"visit_all": False})


def flag(d):
    return d.chance(1, 2)


def drawn(d, case):
    """A fresh set of options for the board."""
    b, name = case.board, case.name
    n = b.rows * b.cols
    num = lambda lo, hi: d.choice([d.int(lo, hi), str(d.int(lo, hi))])  # noqa: E731
    if name == "bosanowa":
        return {"max_number": num(1, 7)}
    if name == "easyasabc":
        own = case.param["letters"]
        return {"letters": d.choice([own, "".join(d.shuffle(own)), own[:-1], own + "Q", "".join(d.sample("ABCDE", min(b.rows, 3))), "12"])}
    if name == "heyawake":
        return {"fast_mode": False, "limit_border": num(0, 3), "limit_2x2": num(0, 3)}
    if name == "mines":
        k = d.int(0, n)
        return {"mine_count": d.choice(["", k, str(k), case.param["mine_count"]])}
    if name == "ncells":
        k = d.choice([k for k in range(1, n + 1) if n % k == 0 and k <= 6] + [d.int(1, n + 1)])
        return {"region_size": d.choice([k, str(k)])}
    if name == "starbattle":
        return {"stars": d.choice([0, 1, "1", 2, "2"])}
    if name == "statuepark":
        return {"shapeset": d.choice(["tetro", "double_tetro", "pento"])}
    return {k: flag(d) for k in STANDARD[name]}


def refused(case):
    """The board breaks the input rules under these options."""
    b, p = case.board, case.param
    if case.name == "ncells":
        return b.rows * b.cols % int(p["region_size"]) != 0
    text = [str(v[0]) for lay in (b.a, b.q) for v in lay.number.values()]
    if case.name == "easyasabc":
        return any(t not in p["letters"] for t in text)
    if case.name == "slitherlink":
        return not p["swslither"] and any(t in ("W", "S") for t in text)
    return False


def check(model, name, board, sets):
    """sets: [(options for the oracle, options for the request)]"""
    ns = []
    for oracle, req in sets:
        case, ask = Case(name, board, oracle), Case(name, board, req)
        if refused(case):
            try:
                env.solve(name, ask.url(), dict(req), 1, 20)
            except ValueError:
                ns.append(-1)
                continue
            raise Violation(f"{name}: a board that is not allowed under options {req} is not rejected")
        try:
            ns.append(exact(model, case, ask=ask))
        except Violation as e:
            e.args = (f"{e.args[0]} [options {req}]", *e.args[1:])
            raise
    return ns


def default_request(name):
    """Options as the page sends them when the user touches nothing."""
    out = {}
    for k, v in solvers()[name].parameters.items():
        x = v["default"]
        if v["type"] == "select":
            x = next(iter(x))
        out[k] = x if v["type"] == "checkbox" else str(x)
    return out


def fits(name, board):
    """Option sets the oracle can enumerate on this board."""
    n = board.rows * board.cols
    if name == "statuepark":
        return {"tetro": n <= 50, "double_tetro": n >= 90 and n <= 100, "pento": n >= 132}
    return None


def body(unit):
    name = unit["name"]
    model = registry()[name]
    if name == "heyawake" and unit["fast"]:
        return heyawake(model)

    def run(d, rec):
        case = model.gen(d)
        own = (case.param, case.param)
        std = (STANDARD[name], default_request(name))
        sets = [own, std] + [(p, p) for p in (drawn(d, case) for _ in range(d.int(0, 2)))]
        ok = fits(name, case.board)
        if ok:
            sets = [x for x in sets if ok[x[0]["shapeset"]]]
        if name == "starbattle":           # the oracle lists placements for 0 or 1 stars on small boards, 2 on 8x8
            sets = [x for x in sets if int(x[0]["stars"]) < 2 and case.board.rows <= 6 or case.board.rows == case.board.cols == 8
                    and int(x[0]["stars"]) == 2]
        if name == "bosanowa":
            sets = [x for x in sets if int(x[0]["max_number"]) ** (case.board.rows * case.board.cols) < 10 ** 6 or x[0] is case.param]
        if not sets:
            rec.done(False, label="no set")
            return
        sets = d.shuffle(sets)
        if d.chance(1, 2):
            sets.append(sets[0])
        rec.set(dict(name=name, board=case.board.to_json(), sets=sets))
        ns = check(model, name, case.board, sets)
        rec.done(len({n for n in ns if n >= 0}) > 1 or -1 in ns and max(ns) >= 0, label=f"{len(sets)} sets")
    return run


def blanks(g, room, dark):
    """2x2 squares of a room without a shaded cell."""
    return sum(all((r + y, c + x) in room and (r + y, c + x) not in dark for y in (0, 1) for x in (0, 1)) for r, c in room)


def fast_check(board, sets, model):
    """Answers under (limit_2x2, limit_border) pairs against the standard answers."""
    std = Case("heyawake", board, STANDARD["heyawake"])
    full = [observed(std, u) for u in answers(std, 601)]
    if len(full) > 600:
        return None
    g = G(board.rows, board.cols)
    edges = dict(board.a.edge)
    edges.update(board.q.edge)
    lab = rooms_from_edges(g, edges)
    text = {k[:2]: v[0] for lay in (board.a, board.q) for k, v in lay.number.items()}
    rooms = []
    for x in sorted(set(lab)):
        room = {divmod(i, board.cols) for i, y in enumerate(lab) if y == x}
        n = [str(v) for k, v in text.items() if k in room]
        if n and n[0].isdigit() and int(n[0]) > len(room) // 4:
            rooms.append(room)
    most = {}
    for key, _ in full:
        dark = {c for c, v in key[0]}
        most[key] = max([blanks(g, room, dark) for room in rooms], default=0)
    res = {}
    for a, e in [(9999, 9999)] + sets:
        req = Case("heyawake", board, {"fast_mode": True, "limit_2x2": a, "limit_border": e})
        got = {observed(req, u)[0] for u in answers(req, 601)}
        if got - most.keys():
            raise Violation(f"heyawake: fast mode (2x2 limit {a}, border limit {e}) gives an answer that breaks the rules")
        res[(int(a), int(e))] = got
        over = [most[k] for k in got if most[k] > int(a)]
        if over:
            raise Violation(f"heyawake: fast mode gives an answer with {over[0]} blank squares in a room, 2x2 limit {a}")
    for (a, e), x in res.items():
        for (a2, e2), y in res.items():
            if a <= a2 and e <= e2 and x - y:
                raise Violation(f"heyawake: fast mode loses answers when the limits grow from {a}/{e} to {a2}/{e2}")
            if e == e2 and a < a2 and any(most[k] <= a for k in y - x):
                raise Violation(f"heyawake: fast mode with 2x2 limit {a} drops an answer within that limit")
    if not rooms and any(x != set(most) for x in res.values()):
        raise Violation("heyawake: fast mode loses answers on a board without big numbers")
    return len(most)


def heyawake(model):
    def run(d, rec):
        case = model.gen(d)
        sets = [(d.choice([0, 1, 2, "0", "1"]), d.choice([0, 1, "0", 2])) for _ in range(d.int(1, 4))]
        rec.set(dict(name="heyawake", board=case.board.to_json(), sets=sets, fast=True))
        n = fast_check(case.board, sets, model)
        rec.done(bool(n), label="fast mode")
    return run


def units(tier):
    n = 300 if tier == "quick" else 2600
    reg = registry()
    us = [dict(id=f"{name}-{i}", group=name, name=name, fast=False, examples=max(15, int(n * reg[name].weight / 3)), cost=reg[name].weight)
          for name in sorted(STANDARD) for i in range(3)]
    return us + [dict(id=f"heyawake-fast-{i}", group="heyawake", name="heyawake", fast=True, examples=n // 2, cost=1) for i in range(2)]


def replay(rp):
    env.load()
    from ..penpa import Board
    c = rp["case"]
    b = Board.from_json(c["board"])
    if c.get("fast"):
        fast_check(b, [tuple(x) for x in c["sets"]], None)
    else:
        check(registry()[c["name"]], c["name"], b, c["sets"])
