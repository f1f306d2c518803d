"""C19: rooms are the connected pieces left by the drawn borders."""
import random

from .. import env
from ..core import Case, Violation, answers, observed
from ..grid import grid, random_partition
from ..penpa import Board
from .exact import registry

PROPERTY = "C19"
RULE = ("Boards of 1..16 (some 25..45) rows and columns with borders of a random division, extra dangling pieces, missing pieces, x marks, outer and "
        "diagonal borders in both layers, and clues, sent through the link format; the rooms found (for several random start orders) against "
        "a union-find of the cells. Also every room puzzle on generated boards: answers with x marks inside rooms equal answers without. "
        "Non-trivial: at least two rooms, one of them with two or more cells (rooms); at least one answer and one added mark (puzzles).")

ROOMS = ("aqre aquarium chocona cocktail cojun country detour dotchi doubleback factors haisu hakoiri hanare heyablock heyawake juosan "
         "kazunori lits magnets mannequin martini meander moonsun nanro news nondango norinori nothing onsen paintarea putteria railpool ripple "
         "shimaguni starbattle stostone sukororoom tilepaint usoone yajilin_regions").split()


def side_list(R, C, outer=True):
    out = []
    for r in range(R + 1):
        for c in range(C + 1):
            if c < C and (outer or 0 < r < R):
                out.append(("T", r, c))
            if r < R and (outer or 0 < c < C):
                out.append(("L", r, c))
    return out


def gen(d):
    big = d.chance(1, 8)
    if big and d.chance(1, 12):
        R, C = d.int(25, 45), d.int(25, 45)      # rooms of hundreds of cells
    else:
        R, C = (d.int(1, 16), d.int(1, 16)) if big else (d.int(1, 7), d.int(1, 7))
    b = Board(R, C, tuple(d.int(0, 2) for _ in range(4)) if d.chance(1, 4) else (0, 0, 0, 0))
    g = grid(R, C)
    style = 2 if R * C > 300 else d.int(0, 3)
    if style < 2:
        lab = random_partition(d, g, max_rooms=d.choice([1, 2, 4, 8]))
        drawn = {("T", r, c) for r in range(1, R) for c in range(C) if lab[g.i(r - 1, c)] != lab[g.i(r, c)]}
        drawn |= {("L", r, c) for r in range(R) for c in range(1, C) if lab[g.i(r, c - 1)] != lab[g.i(r, c)]}
    elif style == 2:
        k = d.choice([3, 10, 40, 200] if R * C > 300 else [2, 3, 5])
        drawn = {s for s in side_list(R, C, False) if d.chance(1, k)}
    else:
        drawn = set(side_list(R, C, False))
    for s in drawn:
        (b.a if d.chance(1, 5) else b.q).edge[s] = True
    sides = side_list(R, C)
    for _ in range(d.choice([0, 0, 1, 2, 4])):        # extra, missing, cleared
        s = d.big(sides)
        k = d.int(0, 3)
        if k == 0:
            b.q.edge[s] = True
        elif k == 1:
            b.q.edge.pop(s, None)
            b.a.edge.pop(s, None)
        else:
            (b.q if k == 2 else b.a).edge[s] = False
    if d.chance(1, 3):
        for s in sides:
            if s[0] == "T" and s[1] in (0, R) or s[0] == "L" and s[2] in (0, C):
                b.q.edge[s] = True
    for _ in range(d.choice([0, 0, 0, 3])):
        b.q.edge[(d.choice("UD"), d.int(0, R - 1), d.int(0, C - 1))] = True
    clues = d.choice([0, 1, 1, 2])
    one = d.chance(3, 4)               # one clue per room
    if clues:
        k = d.choice([2, 4, 10])
        for x in g.cells:
            if d.chance(1, k):
                (b.a if d.chance(1, 6) else b.q).number[(*x, "C")] = [str(d.int(0, 9)), 1, "1"]
    if one:
        for w in want_rooms(b):
            for x in sorted(w & {k[:2] for lay in (b.q, b.a) for k in lay.number})[1:]:
                b.q.number.pop((*x, "C"), None)
                b.a.number.pop((*x, "C"), None)
    return dict(board=b.to_json(), clues=clues, seeds=[d.int(0, 999) for _ in range(3)])


def want_rooms(b):
    """Union-find over the cells; the problem layer's mark on a side beats the answer layer's."""
    R, C = b.rows, b.cols
    mark = {**b.a.edge, **b.q.edge}
    up = {(r, c): (r, c) for r in range(R) for c in range(C)}

    def find(x):
        while up[x] != x:
            up[x] = up[up[x]]
            x = up[x]
        return x
    for r, c in list(up):
        if r and mark.get(("T", r, c)) is not True:
            up[find((r, c))] = find((r - 1, c))
        if c and mark.get(("L", r, c)) is not True:
            up[find((r, c))] = find((r, c - 1))
    out = {}
    for x in up:
        out.setdefault(find(x), set()).add(x)
    return {frozenset(v) for v in out.values()}


def check(sp):
    env.load()
    from noqx.puzzle.penpa import PenpaPuzzle
    from noqx.rule.helper import full_bfs
    b = Board.from_json(sp["board"])
    p = PenpaPuzzle("noq", b.encode(), {})
    p.decode()
    want = want_rooms(b)
    given = {(r, c) for lay in (b.q, b.a) for (r, c, _) in lay.number}
    for s in sp["seeds"]:
        random.seed(s)
        try:
            got = full_bfs(p.row, p.col, p.edge, p.text) if sp["clues"] else full_bfs(p.row, p.col, p.edge)
        except ValueError as e:
            if sp["clues"] and any(len(w & given) > 1 for w in want):
                continue                      # two clues in one room: refused
            raise Violation(f"the rooms are refused although no room has two clues: {e}") from None
        rooms = [tuple(x) for x in got]
        if sum(map(len, rooms)) != len(set().union(*map(set, rooms))):
            raise Violation("a cell is listed twice in the rooms found", start=s)
        if {frozenset(x) for x in rooms} != want:
            raise Violation(f"{len(rooms)} rooms found where the drawn borders leave {len(want)}, or with other cells",
                            found=sorted(sorted(x) for x in rooms)[:6], drawn=sorted(sorted(x) for x in want)[:6])
        for room, clue in got.items():
            has = bool(given & set(room)) and bool(sp["clues"])
            if (clue is not None) != has or (clue is not None and tuple(clue) not in given & set(room)):
                raise Violation(f"room {sorted(room)[:4]}.. has clue cell {clue}, the clues in it are {sorted(given & set(room))}")
    return want


def with_x(case, d):
    """The board with x marks on sides that are not drawn."""
    b = Board.from_json(case.board.to_json())
    free = [s for s in side_list(b.rows, b.cols, False) if s not in b.q.edge and s not in b.a.edge]
    n = 0
    for s in free:
        if d.chance(1, 4):
            (b.a if d.chance(1, 3) else b.q).edge[s] = False
            n += 1
    return Case(case.name, b, case.param), n


def answer_sets(a, b):
    sets = []
    for c in (a, b):
        urls = answers(c, 61)
        sets.append((len(urls), {tuple(x for x in observed(c, u)[0]) for u in urls}))
    return sets


def same(a, b):
    (n, x), (m, y) = answer_sets(a, b)
    if n != m or (n <= 60 and x != y):
        raise Violation(f"{a.name}: {n} answers become {m} (or others) when undrawn sides are marked with an x")
    return n


def units(tier):
    n, k, m = (5000, 4, 60) if tier == "quick" else (60000, 8, 900)
    us = [dict(id=f"rooms-{i}", group="rooms", examples=n) for i in range(k)]
    for name in ROOMS:
        us.append(dict(id=name, group="puzzles with rooms", name=name, examples=m))
    return us


def body(unit):
    if unit["group"] == "rooms":
        def run(d, rec):
            sp = gen(d)
            rec.set(sp)
            rooms = check(sp)
            rec.done(len(rooms) > 1 and any(len(x) > 1 for x in rooms), label="one room" if len(rooms) == 1 else "rooms")
        return run
    model = registry()[unit["name"]]

    def run2(d, rec):
        case = model.gen(d)
        other, k = with_x(case, d)
        rec.set(dict(a=case.to_json(), b=other.to_json()))
        n = same(case, other)
        rec.done(n > 0 and k > 0, label="answers" if n else "no answer")
    return run2


def replay(rp):
    env.load()
    c = rp["case"]
    if "a" in c:
        same(Case.from_json(c["a"]), Case.from_json(c["b"]))
    else:
        check(c)
