"""C02: writing an answer puts each mark in its place, keeps the problem layer, and reads back as that answer."""
from .. import env
from ..boards import random_board
from ..core import Violation
from ..penpa import Board, Layer, load_part, unpack

PROPERTY = "C02"
RULE = ("Generated: a board with random marks in both layers and random margins, plus a random answer (the text of a stable model: shading, "
        "numbers, letters, symbols, triangles, borders incl. diagonals, line pieces, bridges) stored through store_solution and encode, alone or after up to two other answers of the board; some answer "
        "marks collide with problem marks. Oracle: an independent reading of the written link (problem layer and settings untouched, solution layer = "
        "its old content plus the unprotected answer marks) and the round trip through decode. Also each shipped example is written with an empty "
        "answer. Non-trivial: the answer holds at least two kinds of marks.")
PLAIN = ["akari", "slitherlink", "gokigen", "masyu", "shakashaka", "sudoku", "tatamibari", "heyawake"]
DN = {"T": "top", "L": "left", "U": "diag_up", "D": "diag_down"}


def random_answer(d, b, name):
    """Marks of an answer as a Layer, and the text of the stable model showing them."""
    ans, atoms = Layer(), []
    R, C = b.rows, b.cols

    def cell():
        return d.int(0, R - 1), d.int(0, C - 1)

    for _ in range(d.int(0, 5)):
        r, c = cell()
        dark = d.chance(1, 2)
        if (r, c) not in ans.surface:
            ans.surface[(r, c)] = 4 if dark else 8
            atoms.append(f"{'black' if dark else 'gray'}({r},{c})")
    for _ in range(d.int(0, 5)):
        r, c = cell()
        if (r, c, "C") in ans.number:
            continue
        if d.chance(1, 2):
            v = d.int(0, 40)
            ans.number[(r, c, "C")] = [str(v), 2, "1"]
            atoms.append(f"{d.choice(['number', 'number_x'])}({r},{c},{v})")
        else:
            v = d.choice(["A", "B", "x", "-"])
            ans.number[(r, c, "C")] = [v, 2, "1"]
            atoms.append(f'content({r},{c},"{v}")')
    for _ in range(d.int(0, 4)):
        r, c = cell()
        if (r, c, "C") in ans.symbol:
            continue
        if d.chance(1, 3):
            k, code = d.choice([("ul", 1), ("ur", 4), ("dl", 2), ("dr", 3)])
            ans.symbol[(r, c, "C")] = [code, "tri", 1]
            atoms.append(f'triangle({r},{c},"{k}")')
        else:
            shape, code = d.choice(["circle_M", "star", "sun_moon", "ox_E"]), d.int(1, 8)
            ans.symbol[(r, c, "C")] = [code, shape, 1]
            atoms.append(f"{shape}__{code}({r},{c})")
    for _ in range(d.int(0, 6)):
        k = d.choice("TLUD")
        r, c = d.int(0, R if k == "T" else R - 1), d.int(0, C if k == "L" else C - 1)
        if (k, r, c) not in ans.edge:
            ans.edge[(k, r, c)] = True
            atoms.append(f"edge_{DN[k]}({r},{c})")
    for _ in range(d.int(0, 6)):
        r, c = cell()
        k = d.choice("udlr")
        if ("h", r, c, k) in ans.line:
            continue
        if name == "hashi":
            n = d.int(1, 2)
            ans.line[("h", r, c, k)] = n
            atoms.append(f'grid_direction({r},{c},"{k}",{n})')
        else:
            ans.line[("h", r, c, k)] = True
            atoms.append(f'grid_direction({r},{c},"{k}")')
    return ans, d.shuffle(atoms)


def collide(d, b, ans):
    """Copy a few answer marks (same or different value) into the problem, to exercise the protection."""
    for k, v in list(ans.surface.items()):
        if d.chance(1, 4):
            b.q.surface[k] = d.choice([v, 2, 4, 8])
    for k, v in list(ans.number.items()):
        if d.chance(1, 4):
            b.q.number[k] = [d.choice([v[0], "?", "3"]), 1, "1"]
    for k, v in list(ans.symbol.items()):
        if d.chance(1, 4):
            b.q.symbol[k] = d.choice([v, [1, "circle_L", 1]])
    for k in list(ans.edge):
        if d.chance(1, 4):
            b.q.edge[k] = True


def check(name, b, ans, atoms, earlier=()):
    from noqx.manager import store_solution
    from noqx.puzzle.penpa import PenpaPuzzle
    hashi = name == "hashi"
    url = b.encode(hashi=hashi)
    try:
        p = PenpaPuzzle(name, url, {})
        p.decode()
        for x in earlier:                              # other answers of the same board, written before
            store_solution(p, " ".join(x)).encode()
        out = store_solution(p, " ".join(atoms)).encode()
    except Exception as e:  # noqa: BLE001
        raise Violation(f"the answer cannot be written: {type(e).__name__}: {e}") from None
    try:
        before, after = unpack(url), unpack(out)
        got = Board.decode(out, hashi)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"the written link does not open: {type(e).__name__}: {e}") from None
    if len(before) != len(after) or any(x != y for i, (x, y) in enumerate(zip(before, after)) if i not in (3, 4)):
        raise Violation("header, margins or settings of the board changed")
    if load_part(before[3]) != load_part(after[3]):
        raise Violation("the problem layer of the board changed")
    old, new = load_part(before[4]), load_part(after[4])
    for k in old:
        if k not in ("surface", "number", "symbol", "edge", "line") and old[k] != new.get(k):
            raise Violation(f"unrelated part {k!r} of the solution layer changed")
    want = b.a.copy()
    for kind in ("surface", "number", "symbol", "line", "edge"):
        q, w = getattr(b.q, kind), getattr(want, kind)
        for key, v in getattr(ans, kind).items():
            if kind == "edge" and q.get(key) is not True or kind == "line" and (hashi or key not in q) or \
                    kind in ("surface", "number") and key not in q or kind == "symbol" and (name == "nondango" or key not in q):
                w[key] = v
    a = got.a
    for kind in ("surface", "number", "symbol", "edge", "line"):
        x, y = getattr(a, kind), getattr(want, kind)
        x = {k: _norm(kind, v) for k, v in x.items()}
        y = {k: _norm(kind, v) for k, v in y.items()}
        if kind in ("edge", "line"):
            # an x mark of the old solution layer may coexist with a drawn mark on the same spot
            x = {k: v for k, v in x.items() if v is not False}
            y = {k: v for k, v in y.items() if v is not False}
        if x != y:
            raise Violation(f"{kind} marks of the written answer are wrong",
                            unexpected={str(k): v for k, v in x.items() if y.get(k) != v},
                            missing={str(k): v for k, v in y.items() if x.get(k) != v})
    if got.unknown:
        raise Violation("the written link holds marks at impossible places", marks=got.unknown)
    # round trip: reading the written answer gives back the answer
    if b.a.empty() and b.q.empty():
        from .c01 import expect, seen
        clean = Board(b.rows, b.cols, b.margin, b.kind)
        clean.a = ans
        _, back = seen(out, name)
        if back != expect(clean, name):
            kind = next(k for k, v in expect(clean, name).items() if back[k] != v)
            raise Violation(f"{kind}: reading a written answer does not give the answer back")


def _norm(kind, v):
    return v[:2] if kind == "symbol" else v      # the third part of a number is its size and place


def units(tier):
    n, m = (1400, 2) if tier == "quick" else (5000, 4)
    us = [dict(id=f"{nm}-{i}", group=nm, examples=n, name=nm) for nm in ["hashi", "nondango"] + PLAIN for i in range(m)]
    us.append(dict(id="shipped", plain=True))
    return us


def body(unit):
    name = unit["name"]

    def run(d, rec):
        mode = d.int(0, 2)
        b = random_board(d, hashi=name == "hashi", maxdim=d.choice([4, 9, 16]), dense=0 if mode == 0 else 3, a=mode == 2)
        clean(b)
        ans, atoms = random_answer(d, b, name)
        if mode:
            collide(d, b, ans)
        earlier = [random_answer(d, b, name)[1] for _ in range(d.choice([0, 0, 1, 2]))]
        rec.set(dict(name=name, board=b.to_json(), answer=ans.to_json(), atoms=atoms, earlier=earlier))
        check(name, b, ans, atoms, earlier)
        kinds = sum(1 for k in Layer.KINDS if getattr(ans, k))
        rec.done(kinds >= 2, label=("blank", "problem", "both")[mode])
    return run


def clean(b):
    """Whole segments and their halves, and old solution marks under the answer, are kept apart (penpa may hold both)."""
    for y in (b.q, b.a):
        for k in list(y.line):
            if k[0] != "h":
                del y.line[k]


def run_plain(unit, rec, tier, seed, deadline):
    from .c01 import examples
    for name, i, url in examples():
        rec.set(dict(name=name, shipped=i))
        shipped(name, url)
        rec.done(True, label="shipped")


def defaults(name):
    from noqx.manager import modules
    return {k: v["default"] for k, v in modules[name].parameters.items()}


def shipped(name, url):
    from noqx.manager import store_solution
    from noqx.puzzle.penpa import PenpaPuzzle
    try:
        p = PenpaPuzzle(name, url, defaults(name))
        p.decode()
        out = store_solution(p, "").encode()
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{name}: an empty answer cannot be written: {type(e).__name__}: {e}") from None
    x, y = unpack(url), unpack(out)
    if any(a != b for i, (a, b) in enumerate(zip(x, y)) if i not in (3, 4)) or load_part(x[3]) != load_part(y[3]) \
            or load_part(x[4]) != load_part(y[4]):
        raise Violation(f"writing an empty answer changes the shipped board of {name}")


def replay(rp):
    env.load()
    c = rp["case"]
    if "shipped" in c:
        from .c01 import examples
        for name, i, url in examples():
            if (name, i) == (c["name"], c["shipped"]):
                shipped(name, url)
        return
    check(c["name"], Board.from_json(c["board"]), Layer.from_json(c["answer"]), c["atoms"], c.get("earlier", ()))
