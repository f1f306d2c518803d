"""C10: turning, mirroring and moving a board moves its answers."""
from .. import env
from ..core import Case, Violation, answers, observed, show
from ..penpa import Board
from ..shipped import examples
from ..transform import MATS, SWAPS, Tr
from .exact import registry

PROPERTY = "C10"
RULE = ("A generated board (every puzzle type, small) or a shipped example (up to 20 rows and columns) is turned or mirrored together with "
        "its clues (one of the eight symmetries of the square, restricted for puzzles with a fixed up/left/reading direction) and moved to a "
        "canvas with other margins; the answers, turned back, must be the same set. Non-trivial: at least one answer, and the board changed.")
LIMIT = 61
FLIPH = ("id", "fliph")
TRANS = ("id", "transpose")
NOSWAP = ("id", "fliph", "flipv", "rot180")
ALLOWED = {"aquarium": FLIPH, "cojun": FLIPH, "stostone": FLIPH, "kakuro": TRANS, "tilepaint": TRANS, "triplace": TRANS, "box": TRANS, "magnets": TRANS}


def allowed(name, case):
    if name == "sudoku" and case.board.rows in (6, 8):
        return NOSWAP
    return ALLOWED.get(name, tuple(MATS))


def solve(case, limit):
    return [observed(case, u)[0] for u in answers(case, limit)]


def judge(case, kind, margin, base=None):
    limit = LIMIT if base is None else 3
    base = solve(case, limit) if base is None else base
    t = Tr(kind, case.board.rows, case.board.cols, case.name)
    c2 = Case(case.name, t.board(case.board, margin), case.param)
    got = solve(c2, limit)
    want = {t.canon(x, case.name == "hashi") for x in base}
    have = set(got)
    full = len(base) < limit and len(got) < limit
    if min(len(base), limit) != min(len(got), limit) or (full and want != have):
        extra, miss = have - want, want - have
        raise Violation(f"{case.name}: {len(base)} answers, {len(got)} after {kind} with margins {list(c2.board.margin)}"
                        + (", or other ones" if len(base) == len(got) else ""), board=c2.to_json(),
                        extra=show(sorted(extra, key=repr)[0]) if extra else None, missing=show(sorted(miss, key=repr)[0]) if miss else None)
    return len(base)


def units(tier):
    n, m = (24, 3) if tier == "quick" else (400, 24)
    us = [dict(id=name, group=name, name=name, examples=n, cost=registry()[name].weight) for name in sorted(registry())]
    us += [dict(id=f"shipped-{name}-{i}", group="shipped examples", shipped=(name, i), examples=m, cost=3) for name, i, _, _, _ in examples()]
    return us


_BASE = {}


def pick(d, name, case):
    kind = d.choice(allowed(name, case))
    margin = tuple(d.int(0, 3) for _ in range(4)) if kind == "id" or d.chance(1, 2) else (0, 0, 0, 0)
    return kind, margin


def body(unit):
    if "shipped" in unit:
        name, i = unit["shipped"]
        case = next(Case(n, Board.decode(link, n == "hashi"), param) for n, j, link, param, _ in examples() if (n, j) == (name, i))

        def run2(d, rec):
            if unit["id"] not in _BASE:
                _BASE[unit["id"]] = solve(case, 3)
            kind, margin = pick(d, name, case)
            rec.set(dict(case=case.to_json(), kind=kind, margin=margin))
            n = judge(case, kind, margin, _BASE[unit["id"]])
            rec.done(n > 0 and (kind != "id" or any(margin)), label="shipped " + kind)
        return run2
    model = registry()[unit["name"]]

    def run(d, rec):
        case = model.gen(d)
        kind, margin = pick(d, unit["name"], case)
        rec.set(dict(case=case.to_json(), kind=kind, margin=margin))
        n = judge(case, kind, margin)
        rec.done(n > 0 and (kind != "id" or any(margin)), label=kind)
    return run


def replay(rp):
    env.load()
    c = rp["case"]
    judge(Case.from_json(c["case"]), c["kind"], c["margin"])
