"""Random board links with arbitrary marks (used by the codec checks)."""
from .penpa import Board, Layer

SHAPES = ["circle_L", "circle_M", "circle_SS", "ox_E", "tri", "tents", "battleship_B", "inequality", "star", "sun_moon", "kakuro", "slash"]
TEXTS = ["0", "1", "7", "12", "305", "?", "-", "-4", "A", "Zz", "3_1", "2_0", "", "007", "x y", "é"]


def random_layer(d, b, hashi=False, dense=3, allow_multi=True):
    y = Layer()
    R, C = b.rows, b.cols
    t, bo, le, ri = b.margin

    def cell():
        # margins hold outside clues, so marks may sit there as well
        if d.chance(1, 6):
            return d.int(-t, R - 1 + bo), d.int(-le, C - 1 + ri)
        return d.int(0, R - 1), d.int(0, C - 1)

    for _ in range(d.int(0, dense)):
        y.surface[cell()] = d.choice([4, 8, 1, 3, 2])
    for _ in range(d.int(0, dense)):
        r, c = cell()
        dd = d.choice(["C", "C", "T", "L", "TL"])
        sub = d.choice(["1", "1", "1", "2", "5", "6", "8", "10", "4", "7"])
        txt = d.choice(TEXTS + [5, 10] if sub != "4" else ["1", "12", "?1", "123", "1?22", "??"])
        y.number[(r, c, dd)] = [txt, d.int(1, 9), sub]
    for _ in range(d.int(0, dense)):
        r, c = cell()
        y.sudoku[(r, c, d.int(0, 7))] = [d.choice(TEXTS), d.int(1, 9)]
    for _ in range(d.int(0, dense)):
        r, c = cell()
        dd = d.choice(["C", "C", "T", "L", "TL"])
        style = [d.int(0, 1) for _ in range(d.choice([4, 8]))] if allow_multi and d.chance(1, 4) else d.int(1, 9)
        y.symbol[(r, c, dd)] = [style, d.choice(SHAPES), d.int(1, 2)]
    for _ in range(d.int(0, dense)):
        k = d.choice(["T", "L", "T", "L", "U", "D"])
        r, c = d.int(0, R if k == "T" else R - 1), d.int(0, C if k == "L" else C - 1)
        y.edge[(k, r, c)] = True if k in "UD" else d.chance(2, 3)
    for _ in range(d.int(0, dense)):
        kind = d.choice(["H", "V", "h"])
        if kind == "H" and C > 1:
            key = ("H", d.int(0, R - 1), d.int(0, C - 2))
        elif kind == "V" and R > 1:
            key = ("V", d.int(0, R - 2), d.int(0, C - 1))
        else:
            key = ("h", d.int(0, R - 1), d.int(0, C - 1), d.choice("udlr"))
        if hashi:
            y.line[key] = d.int(1, 2)
        else:
            y.line[key] = True if key[0] == "h" else d.chance(2, 3)
    return y


def random_board(d, hashi=False, maxdim=12, dense=4, a=True):
    R, C = d.int(1, maxdim), d.int(1, maxdim)
    if d.chance(1, 40):          # far beyond the boards people draw
        R, C = d.choice([(R, d.int(20, 120)), (d.int(20, 120), C), (d.int(20, 45), d.int(20, 45))])
    if d.chance(1, 2):
        margin = tuple(d.int(0, 5) for _ in range(4))
    else:
        margin = (0, 0, 0, 0)
    b = Board(R, C, margin, d.choice(["square", "square", "sudoku", "kakuro"]))
    b.q = random_layer(d, b, hashi, dense)
    if a:
        b.a = random_layer(d, b, hashi, dense)
    return b
