"""C13: boards that break the input rules of their puzzle type are rejected with an explanation."""
from .. import env
from ..core import Case, Violation
from ..grid import G, rooms_from_edges
from ..penpa import Board
from ..shipped import examples
from .exact import registry

PROPERTY = "C13"
RULE = ("A legal generated board of a puzzle type (or a shipped example), sometimes without some kinds of its marks, gets exactly one forbidden thing, in either layer and anywhere on the "
        "board: text at a place the type has no clues (side, corner, cell, 'Tapa'), a value of the wrong kind, a symbol at a wrong place or of "
        "an unknown kind, a forbidden colour, an impossible size, a bad option, a missing mandatory clue, two clues in a room, a room of a "
        "wrong size, an unpaired clue and so on. The request must be rejected with an explanation. Non-trivial: the forbidden thing applies.")
LIMIT = 20

# ---------------------------------------------------------------------------------------------------------------- tables
KS = [f"k{i}" for i in range(8)]
WHERE = ["C", "T", "L", "TL", "tapa"] + KS
TEXT = {n: {"C"} for n in """akari anglers aqre aquapelago aquarium araf balance battleship bosanowa box canal castle cave cbanana chocona
    cocktail cojun context coral country dominion doppelblock easyasabc fillmat fillomino fillpix fivecells fourcells geradeweg haisu hanare
    hashi heyablock heyawake hinge hitori kakuru koburin kropki kurochute kurodoko kurotto lightshadow lookair magnets mannequin martini
    meander mines mochikoro mochinyoro nawabari ncells news nonogram norinuri numlin numrope nuribou nurikabe nurimisaki onsen paintarea
    patchwork pentominous putteria ripple shakashaka shikaku shimaguni simplegako skyscrapers slitherlink snake squarejam stostone sudoku
    sukoro sukororoom symmarea tasquare tatamibari tents tetrochain tetrominous usoone usotatami view yajikazu yajilin yajitatami""".split()}
TEXT.update(creek={"TL"}, gokigen={"TL"}, firefly={"TL"}, compass=set(KS[4:]), detour={"k0"}, yajilin_regions={"k0"}, factors={"C", "k0"},
            nanro={"C", "k0"}, juosan={"C", "k0"}, kakuro={"C", "k1", "k2"}, triplace={"k1", "k2"}, tapa={"tapa"}, tapaloop={"tapa"},
            railpool={"tapa"}, kazunori={"C", "T", "L"}, minarism={"C", "T", "L"})
INT = set("""araf bosanowa box cojun context coral doppelblock factors fillomino hanare kazunori kropki magnets meander mines minarism nanro
    nonogram numrope simplegako skyscrapers slitherlink sudoku sukoro sukororoom symmarea usoone view""".split())
ARROW = {"castle", "yajilin", "yajikazu", "yajitatami", "tetrochain"}
OUT_INT = {"box", "coral", "nonogram", "skyscrapers"}          # every clue outside the grid must be a number too
SYM = {n: {"C"} for n in """akari anglers balance battleship binairo circlesquare dotchi hakoiri kramma martini masyu mines moonsun myopia nagare
    news nondango pentopia snake statuepark sukoro sukororoom tents triplace usoone view yinyang starbattle shakashaka magnets""".split()}
SYM.update(kropki={"T", "L"}, minarism={"T", "L"}, nuriuzu={"C", "T", "L"}, firefly={"TL"})


def one_of(*pairs):
    return lambda sh, st: any(sh == a and (b is None or st in b) for a, b in pairs)


SHAPE = dict(
    akari=one_of(("sun_moon", (3,))), anglers=one_of(("tents", (3,))), binairo=one_of(("circle_M", (1, 2))), yinyang=one_of(("circle_M", (1, 2))),
    hakoiri=one_of(("ox_B", (1, 2, 3, 4, 7, 8)), ("ox_E", (1, 2, 3, 4, 7, 8))), news=one_of(("ox_B", (4, 7, 8)), ("ox_E", (4, 7, 8))),
    magnets=one_of(("math_G", (2, 3))), mines=one_of(("sun_moon", (4,))), myopia=one_of(), pentopia=one_of(),
    nagare=one_of(("arrow_B_B", (1, 3, 5, 7)), ("arrow_B_W", (1, 3, 5, 7))), nondango=one_of(("circle_M", (4,))),
    nothree=one_of(("circle_SS", None)), nuriuzu=one_of(("circle_SS", None)), tentaisho=one_of(("circle_SS", None)),
    shakashaka=one_of(("tri", (1, 2, 3, 4))), triplace=one_of(("kakuro", None)), battleship=one_of(("battleship_B", None), ("battleship_W", None),
                                                                                              ("battleship_G", None), ("battleship_B+", None)),
    minarism=one_of(("inequality", None)))
POOL = [("star", 1), ("star", 2), ("star", 0), ("circle_L", 1), ("circle_S", 2), ("circle_M", 1), ("circle_M", 2), ("circle_M", 3), ("circle_M", 5),
        ("circle_SS", 1), ("square_L", 1), ("ox_B", 1), ("ox_B", 5), ("ox_E", 6), ("ox_E", 9), ("tri", 1), ("tri", 2), ("tri", 5), ("sun_moon", 1),
        ("sun_moon", 2), ("sun_moon", 3), ("sun_moon", 4), ("sun_moon", 5), ("tents", 1), ("tents", 3), ("math_G", 1), ("math_G", 2), ("math", 2),
        ("math_G", 4), ("inequality", 1), ("arrow_B_B", 1), ("arrow_B_B", 2), ("arrow_B_W", 4), ("arrow_B_G", 1), ("arrow_cross", 3), ("kakuro", 1),
        ("diamond_M", 1), ("battleship_B", 1)]
DARK_ONLY = set("""anglers bosanowa compass doppelblock doubleback heteromino kakuru koburin magnets nagare nanro numrope pentominous putteria
    railpool shakashaka simpleloop tentaisho tetrominous yajilin yajilin_regions""".split())
SQUARE = set("doppelblock easyasabc factors kropki meander minarism skyscrapers sudoku".split())
NEED_TEXT = set("""anglers araf compass haisu mochikoro mochinyoro nawabari numlin onsen shikaku squarejam tatamibari usotatami
    yajitatami""".split())
NEED_SYMBOL = {"anglers", "nuriuzu", "tentaisho"}
ROOM_CLUE = {n: "C" for n in "aqre chocona cocktail country heyablock heyawake hinge mannequin shimaguni stostone".split()}
ROOM_CLUE.update(detour="k0", yajilin_regions="k0", juosan="k0", railpool="tapa")
DIVIDE = {"fivecells": 5, "fourcells": 4, "heteromino": 3, "pentominous": 5, "tetrominous": 4, "triplace": 3}
OPTION = dict(mines=("mine_count", ["x", "-1", " ", "1.5", "1 2"]), starbattle=("stars", ["x", "-1", "", "1.5", " "]),
              ncells=("region_size", ["x", "-1", "", "1.5", "0"]), statuepark=("shapeset", ["", "x", "hexo", "4"]),
              bosanowa=("max_number", ["", "x", "1.5", "two", "-1"]), heyawake=("limit_2x2 limit_border", ["x", "", "-1", "1.5"]))


# ------------------------------------------------------------------------------------------------------------- mutations
def cell(d, b):
    return d.int(0, b.rows - 1), d.int(0, b.cols - 1)


def layer(d, b, kind, key):
    """A layer where a new mark takes effect (the problem layer wins over the solution layer)."""
    if key not in getattr(b.q, kind) and d.chance(1, 4):
        return b.a
    return b.q


def write(d, b, where, r, c, t):
    """Text t at one of WHERE, or as a 'Tapa' text off the middle of the cell."""
    t = str(t)
    if where.startswith("tapa@"):
        layer(d, b, "number", (r, c, where[5:])).number[(r, c, where[5:])] = [t, 1, "4"]
        return
    if where in KS:
        k = (r, c, int(where[1]))
        layer(d, b, "sudoku", k).sudoku[k] = [t, 1]
        return
    k = (r, c, "C" if where == "tapa" else where)
    sub = "4" if where == "tapa" else "2" if "_" in t else d.choice(["1", "5", "6", "10"])
    lay = layer(d, b, "number", k)
    lay.number[k] = [t, 1, sub]


def grown(d, b, dr, dc):
    n = Board(b.rows + dr, b.cols + dc, b.margin, b.kind)
    n.q, n.a = b.q, b.a
    return n


def in_grid(b, r, c):
    return 0 <= r < b.rows and 0 <= c < b.cols


def text_place(d, case):
    """Text where the type has no clue places."""
    b = case.board
    legal = TEXT[case.name]
    places = [w for w in WHERE if w not in legal] + ["tapa@T", "tapa@L", "tapa@TL"]
    old = sorted(str(v[0]) for v in b.q.number.values() if str(v[0]).strip())       # an empty 'Tapa' text is no text
    t = d.choice(old) if old and d.chance(1, 3) else d.choice(["1", "2", "0", "3", "12", "?", "x", "W", "I", "1_1", "|"])
    for i in range(d.choice([1, 1, 2])):          # types that need clues in pairs get a pair
        where = d.choice(places)
        r, c = cell(d, b)
        if where == "T" and d.chance(1, 8):
            r = b.rows
        if where == "L" and d.chance(1, 8):
            c = b.cols
        write(d, b, where, r, c, t)
        if case.name == "anglers":
            free = [(x, y) for x in range(b.rows) for y in range(b.cols) if (x, y, "C") not in b.q.symbol and (x, y, "C") not in b.a.symbol]
            if free:
                b.q.symbol[(*d.choice(free), "C")] = [3, "tents", 1]


def text_border(d, case):
    """kazunori / minarism: a side clue needs two cells."""
    b = case.board
    if d.chance(1, 2):
        write(d, b, "T", d.choice([0, b.rows]), d.int(0, b.cols - 1), d.choice(["1", "2", "3", "?"]))
    else:
        write(d, b, "L", d.int(0, b.rows - 1), d.choice([0, b.cols]), d.choice(["1", "2", "3", "?"]))


BAD_INT = ["x", "-1", "A", "2_1", "1.5", "+1", "1 2", "O"]


def bad_int(d, case):
    b = case.board
    bad = BAD_INT + (["?"] if case.name != "nonogram" else [])
    if case.name in ("factors", "nanro") and d.chance(1, 2):
        r, c = cell(d, b)
        return write(d, b, "k0", r, c, d.choice(bad))
    ks = [k for k in sorted(b.q.number) if k[2] == "C" and b.q.number[k][2] not in "47" and (in_grid(b, *k[:2]) or case.name in OUT_INT)]
    if ks and d.chance(1, 2):
        k = d.choice(ks)
        b.q.number[k] = [d.choice(bad), 1, "1"]
        return None
    r, c = cell(d, b)
    if case.name in ("coral", "nonogram", "box", "skyscrapers") and d.chance(1, 3):
        # outside the board, where their clues are
        if case.name == "skyscrapers":
            return False
        if d.chance(1, 2):
            r = -1 - d.int(0, max(0, b.margin[0] - 1))
        else:
            c = -1 - d.int(0, max(0, b.margin[2] - 1))
    return write(d, b, "C", r, c, d.choice(bad))


def bad_arrow(d, case):
    b = case.board
    bad = ["1", "x", "0", "-", "1_", "_1", "a_1", "1_a", "-1_1", "?_1", "1_4", "2_7", "1_5"] + (["?"] if case.name != "yajilin" else [])
    ks = sorted(k for k in b.q.number if k[2] == "C")
    r, c = d.choice(ks)[:2] if ks and d.chance(1, 2) else cell(d, b)
    b.q.number[(r, c, "C")] = [d.choice(bad), 1, d.choice("12")]


def bad_word(d, case):
    b = case.board
    r, c = cell(d, b)
    if case.name in ("pentominous", "tetrominous"):
        t = d.choice(["Q", "1", "?", "x", "II", "5", "i"])
    elif case.name == "news":
        t = d.choice(["Q", "1", "?", "n", "NE", "A", "9"])
    elif case.name == "easyasabc":
        letters = str(case.param.get("letters", ""))
        t = d.choice([x for x in ["?", "Z", "q", "AB", "-", "Ω", "ZZ"] if x not in letters or len(x) > 1])
    elif case.name == "juosan":
        t = d.choice(["x", "1", "?", "-", "||", "+", "3"])
    elif case.name == "slitherlink":
        t = d.choice(["W", "S"] if not case.param.get("swslither") else ["w", "s", "X", "WS"])
    write(d, b, "C", r, c, t)


def sym_place(d, case):
    b = case.board
    legal = SYM[case.name]
    bad = [w for w in ("C", "T", "L", "TL") if w not in legal]
    r, c = cell(d, b)
    keys = sorted(k for k in b.q.symbol if k[0] >= 0)
    if keys and d.chance(2, 3):
        k = d.choice(keys)
        v = b.q.symbol[k] if d.chance(1, 2) else b.q.symbol.pop(k)
    else:
        sh, st = d.choice(POOL[:-1])
        v = [st, sh, 1]
    b.q.symbol[(r, c, d.choice(bad))] = v


def sym_border(d, case):
    """Marks between two cells need two cells."""
    b = case.board
    vert = d.chance(1, 2)
    sh = {"nuriuzu": "circle_SS", "voxas": "circle_SS", "minarism": "inequality"}[case.name]
    st = d.choice([2, 4]) if sh == "inequality" and vert else d.choice([1, 3]) if sh == "inequality" else d.choice([1, 2])
    k = (d.choice([0, b.rows]), d.int(0, b.cols - 1), "T") if vert else (d.int(0, b.rows - 1), d.choice([0, b.cols]), "L")
    if case.name == "voxas" and d.chance(1, 2):
        b.q.edge[(k[2], k[0], k[1])] = True
    b.q.symbol[k] = [st, sh, 1]


def sym_shape(d, case):
    b = case.board
    ok = SHAPE[case.name]
    sh, st = d.choice([x for x in POOL if not ok(*x)])
    if case.name == "battleship" and d.chance(1, 2):
        no_symbol(d, case)
    r, c = cell(d, b)
    where = "C"
    if case.name in ("tentaisho", "nothree"):
        where = d.choice(["C", "T", "L", "TL"])
    elif case.name in SYM:
        where = d.choice(sorted(SYM[case.name]))
        if where == "T":
            r = d.int(1, b.rows - 1) if b.rows > 1 else 0
        if where == "L":
            c = d.int(1, b.cols - 1) if b.cols > 1 else 0
    k = (r, c, where)
    if case.name in ("nondango", "triplace") and k in b.q.symbol:
        b.q.symbol[k] = [st, sh, 1]
    else:
        layer(d, b, "symbol", k).symbol[k] = [st, sh, 1]


def no_arrow(d, case):
    k = (*cell(d, case.board), "C")
    case.board.q.symbol[k] = [d.choice([[0] * 8, [0] * 12, [0] * 4, [0, 0, 0, 0, 1, 0, 0, 0], [0, 0, 0, 0, 1, 1, 1, 1]][:2]), "arrow_cross", 1]


def minarism_turn(d, case):
    """An inequality sign that does not point across its side."""
    b = case.board
    if b.rows < 2:
        return False
    if d.chance(1, 2):
        b.q.symbol[(d.int(1, b.rows - 1), d.int(0, b.cols - 1), "T")] = [d.choice([1, 3]), "inequality", 1]
    else:
        b.q.symbol[(d.int(0, b.rows - 1), d.int(1, b.cols - 1), "L")] = [d.choice([2, 4]), "inequality", 1]


def green(d, case):
    b = case.board
    k = cell(d, b)
    layer(d, b, "surface", k).surface[k] = 2


def dark(d, case):
    """hanare: only cleared cells may be coloured."""
    b = case.board
    k = cell(d, b)
    layer(d, b, "surface", k).surface[k] = d.choice([4, 8, 1, 3])


def no_text(d, case):
    b = case.board
    for lay in (b.q, b.a):
        lay.number.clear()
        lay.sudoku.clear()


def no_clue(d, case):
    no_text(d, case)
    no_symbol(d, case)


def no_symbol(d, case):
    case.board.q.symbol.clear()
    case.board.a.symbol.clear()


def unsquare(d, case):
    b = case.board
    case.board = grown(d, b, *d.choice([(0, 1), (1, 0), (2, 0), (0, 2)]))


def odd_size(d, case):
    b = case.board
    dr, dc = d.choice([(1, 0), (0, 1), (1, 1)] if case.name == "binairo" else [(1, 0), (1, 1), (3, 0)])
    case.board = grown(d, b, dr, dc)


def sudoku_size(d, case):
    b = case.board
    n = d.choice([1, 2, 3, 5, 7, 10, 11, 13])
    case.board = Board(n, n, b.margin)
    if d.chance(1, 2):
        case.board.q.number[(0, 0, "C")] = ["1", 1, "1"]


def indivisible(d, case):
    b = case.board
    size = DIVIDE.get(case.name) or int(case.param["region_size"])
    if case.name in ("heteromino", "pentominous", "tetrominous") and d.chance(1, 2):
        k = cell(d, b)
        if k in b.q.surface or k in b.a.surface:
            b.q.surface.pop(k, None)
            b.a.surface.pop(k, None)
        else:
            b.q.surface[k] = 4
        return None
    if case.name == "triplace" and d.chance(1, 2):
        k = (*cell(d, b), "C")
        if k in b.q.symbol:
            del b.q.symbol[k]
        else:
            b.q.symbol[k] = [1, "kakuro", 1]
        return None
    dr, dc = d.choice([(1, 0), (0, 1), (1, 1), (2, 0), (0, 2)])
    if ((b.rows + dr) * (b.cols + dc) - b.rows * b.cols) % size == 0:
        return False
    case.board = grown(d, b, dr, dc)


def bad_option(d, case):
    k, vals = OPTION[case.name]
    if case.name == "heyawake":           # limits are used in fast mode, in rooms with big numbers
        b = case.board
        lab = labels(b)
        num = {lab[k[0] * b.cols + k[1]] for lay in (b.q, b.a) for k in lay.number if in_grid(b, *k[:2])}
        free = [i for i, x in enumerate(lab) if x not in num]
        if not free:
            return False
        i = d.choice(free)
        b.q.number[(*divmod(i, b.cols), "C")] = [str(lab.count(lab[i])), 1, "1"]
        case.param.update(fast_mode=True, limit_2x2="0", limit_border="0")
        k = d.choice(k.split())
    case.param[k] = d.choice(vals)


def labels(b):
    """Rooms of the board as the decoder sees them (problem layer wins)."""
    edges = dict(b.a.edge)
    edges.update(b.q.edge)
    return rooms_from_edges(G(b.rows, b.cols), edges)


def two_clues(d, case):
    b = case.board
    where = ROOM_CLUE[case.name]
    lab = labels(b)
    groups = {}
    for i, x in enumerate(lab):
        groups.setdefault(x, []).append(divmod(i, b.cols))
    ok = [g for g in groups.values() if len(g) > 1]
    if not ok:
        return False
    for r, c in d.sample(d.choice(ok), 2):
        if where == "C" and ((r, c, "C") in b.q.number or (r, c, "C") in b.a.number):
            continue
        t = d.choice(["1", "2", "?", "0"])
        if where == "tapa":
            b.q.number[(r, c, "C")] = [t, 1, "4"]
        elif where == "k0":
            b.q.sudoku[(r, c, 0)] = [t, 1]
        else:
            b.q.number[(r, c, "C")] = [t, 1, "1"]


def bad_rooms(d, case):
    """Rooms of a forbidden size, or a forbidden number of rooms."""
    b = case.board
    for _ in range(d.int(1, 6)):
        r, c = cell(d, b)
        k = d.choice([("T", r, c), ("L", r, c)])
        if k[1] == 0 and k[0] == "T" or k[2] == 0 and k[0] == "L":
            continue
        if b.q.edge.pop(k, None) is None and b.a.edge.pop(k, None) is None:
            b.q.edge[k] = True
    lab = labels(b)
    sizes = [lab.count(x) for x in set(lab)]
    if case.name == "moonsun":
        return len(sizes) % 2 == 1
    return any(n % 2 for n in sizes) if case.name == "kazunori" else any(n != 2 for n in sizes)


def unpaired(d, case):
    b = case.board
    keys = sorted(k for k in b.q.number if k[2] == "C")
    if not keys or d.chance(1, 2):
        r, c = cell(d, b)
        if (r, c, "C") in b.q.number or (r, c, "C") in b.a.number:
            return False
        write(d, b, "C", r, c, d.choice([b.q.number[k][0] for k in keys] + ["Z"]))
    elif d.chance(1, 2):
        del b.q.number[d.choice(keys)]
    else:                                              # more than two of a kind
        t = b.q.number[d.choice(keys)][0]
        free = [(r, c) for r in range(b.rows) for c in range(b.cols) if (r, c, "C") not in b.q.number and (r, c, "C") not in b.a.number]
        if not free:
            return False
        for r, c in d.sample(free, d.int(1, min(4, len(free)))):
            write(d, b, "C", r, c, t)


def no_ends(d, case):
    b = case.board
    which = d.choice("SG")
    for lay in (b.q, b.a):
        for k in [k for k, v in lay.number.items() if v[0] == which]:
            if d.chance(1, 2) and lay is b.q:
                lay.number[k] = ["1", 1, "1"]
            else:
                del lay.number[k]
                b.a.number.pop(k, None)


def fish_left(d, case):
    b = case.board
    kind = d.choice(["number", "symbol"])
    lay = getattr(b.q, kind)
    if not lay:
        return False
    del lay[d.choice(sorted(lay))]


def line_x(d, case):
    b = case.board
    if b.cols < 2 or b.rows < 2:
        return False
    k = ("H", d.int(0, b.rows - 1), d.int(0, b.cols - 2)) if d.chance(1, 2) else ("V", d.int(0, b.rows - 2), d.int(0, b.cols - 1))
    for lay in (b.q, b.a):                        # nothing drawn on top of it
        lay.line = {x: v for x, v in lay.line.items() if x != k and not half(x, k)}
    layer(d, b, "line", k).line[k] = False


def half(x, k):
    if x[0] != "h":
        return False
    _, r, c, dd = x
    return k == {"r": ("H", r, c), "l": ("H", r, c - 1), "d": ("V", r, c), "u": ("V", r - 1, c)}[dd]


def on_edge(d, case):
    """voxas: something else than a circle on a drawn side."""
    b = case.board
    ks = sorted(k for lay in (b.a, b.q) for k, v in lay.edge.items() if v is True and k[0] in "TL")
    if not ks:
        return False
    w, r, c = d.choice(ks)
    sh, st = d.choice([x for x in POOL if x[0] != "circle_SS"] + [("circle_SS", 3), ("circle_SS", 4), ("circle_SS", 8)])
    b.q.symbol[(r, c, w)] = [st, sh, 1]


def off_edge(d, case):
    """voxas: a circle on a side that is not drawn."""
    b = case.board
    w = d.choice(["T", "L", "C", "TL"])
    r, c = cell(d, b)
    edges = dict(b.a.edge)
    edges.update(b.q.edge)
    if edges.get((w, r, c)) is True:
        return False
    b.q.symbol[(r, c, w)] = [d.choice([1, 2, 5]), "circle_SS", 1]


def loose_circle(d, case):
    """nondango: an answer circle without a given circle."""
    b = case.board
    k = (*cell(d, b), "C")
    if b.q.symbol.get(k, [0])[0] == 4 or b.a.symbol.get(k, [0])[0] == 4:
        return False
    layer(d, b, "symbol", k).symbol[k] = [d.choice([1, 2]), "circle_M", 1]


def ship_out(d, case):
    """battleship: a ship part that needs a neighbour outside of the board."""
    b = case.board
    R, C = b.rows, b.cols
    shapes = sorted({v[1] for v in list(b.q.symbol.values()) + list(b.a.symbol.values())})
    sh = shapes[0] if shapes else "battleship_B"
    st, k = d.choice([(3, (d.int(0, R - 1), C - 1)), (5, (d.int(0, R - 1), 0)), (4, (R - 1, d.int(0, C - 1))), (6, (0, d.int(0, C - 1))),
                      (2, (d.choice([0, R - 1]), d.choice([0, C - 1])))])
    b.q.symbol[(*k, "C")] = [st, sh, 1]


def two_fleets(d, case):
    b = case.board
    if b.rows * b.cols < 2:
        return False
    for lay in (b.q, b.a):
        lay.symbol.clear()
    (i, j) = d.sample(range(b.rows * b.cols), 2)
    x, y = d.sample(["battleship_B", "battleship_W", "battleship_G", "battleship_B+"], 2)
    b.q.symbol[(*divmod(i, b.cols), "C")] = [d.choice([1, 7, 8]), x, 1]
    b.q.symbol[(*divmod(j, b.cols), "C")] = [d.choice([1, 7, 8]), y, 1]


def no_run(d, case):
    """kakuro, triplace: a clue with no cell behind it."""
    b = case.board
    r, c = cell(d, b)
    if d.chance(1, 2):
        c, k = b.cols - 1, 1
    else:
        r, k = b.rows - 1, 2
    b.q.sudoku[(r, c, k)] = [str(d.int(1, 12)), 1]


def paint_corner(d, case):
    """tilepaint: a sum written in the wrong corner of its outside cell."""
    b = case.board
    k = d.choice([0, 1, 3, 4, 5, 6, 7])
    if d.chance(1, 2):
        b.q.sudoku[(-1, d.int(0, b.cols - 1), k)] = [str(d.int(0, 3)), 1]
    else:
        b.q.sudoku[(d.int(0, b.rows - 1), -1, 2 if k == 1 else k)] = [str(d.int(0, 3)), 1]


def thin(d, b):
    """Takes whole kinds of marks from the board."""
    for kind in ("number", "symbol", "surface", "edge", "line", "sudoku"):
        if d.chance(1, 2):
            getattr(b.q, kind).clear()
            getattr(b.a, kind).clear()


def tables():
    reg = sorted(registry())
    t = {
        "text place": (text_place, set(TEXT), 4), "text border": (text_border, {"kazunori", "minarism"}, 1), "not a number": (bad_int, INT, 3),
        "not an arrow": (bad_arrow, ARROW, 3), "unknown word": (bad_word, {"pentominous", "tetrominous", "news", "easyasabc", "juosan", "slitherlink"}, 2),
        "symbol place": (sym_place, set(SYM), 2), "symbol border": (sym_border, {"nuriuzu", "voxas", "minarism"}, 1),
        "symbol kind": (sym_shape, set(SHAPE), 2), "no arrow": (no_arrow, {"myopia", "pentopia"}, 1), "sign turned": (minarism_turn, {"minarism"}, 1),
        "colour": (green, DARK_ONLY, 2), "dark colour": (dark, {"hanare"}, 2), "no text": (no_text, NEED_TEXT, 1), "no clue": (no_clue, {"anglers"}, 1), "no symbol": (no_symbol, NEED_SYMBOL, 1),
        "not square": (unsquare, SQUARE, 1), "odd size": (odd_size, {"binairo", "stostone"}, 1), "size": (sudoku_size, {"sudoku"}, 1),
        "indivisible": (indivisible, set(DIVIDE) | {"ncells"}, 2), "option": (bad_option, set(OPTION), 1), "two clues": (two_clues, set(ROOM_CLUE), 2),
        "rooms": (bad_rooms, {"kazunori", "magnets", "moonsun"}, 1), "unpaired": (unpaired, {"numlin"}, 2), "no ends": (no_ends, {"haisu"}, 2),
        "fish left": (fish_left, {"anglers"}, 1), "line x": (line_x, {"numrope", "pipelink"}, 1), "off edge": (off_edge, {"voxas"}, 2), "on edge": (on_edge, {"voxas"}, 1),
        "loose circle": (loose_circle, {"nondango"}, 2), "ship out": (ship_out, {"battleship"}, 2), "two fleets": (two_fleets, {"battleship"}, 1),
        "no run": (no_run, {"kakuro", "triplace"}, 2), "paint corner": (paint_corner, {"tilepaint"}, 1)}
    return {n: [(k, f) for k, (f, names, w) in t.items() if n in names for _ in range(w)] for n in reg}


BARE = ("invalid literal for int()", "values to unpack", "arg is an empty sequence", "argument is empty", "could not convert", "not in list",
        "substring not found", "range() arg", "empty range", "empty separator", "math domain error")          # what Python says, not what is wrong with the board


def judge(case, kind):
    try:
        n = len(env.solve(case.name, case.url(), dict(case.param), 2, LIMIT))
    except ValueError as e:
        if len(str(e).strip()) < 8 or any(x in str(e) for x in BARE):
            raise Violation(f"{case.name}: rejected without an explanation ({kind}): {str(e)!r}")
        return
    except Exception as e:
        raise Violation(f"{case.name}: {kind}: not rejected with an explanation but ended with {type(e).__name__}: {str(e)[:120]}")
    raise Violation(f"{case.name}: {kind}: answered with {n} answers, not rejected")


def units(tier):
    n = 400 if tier == "quick" else 4000
    have = {}
    for name, i, link, param, _ in examples():
        have.setdefault(name, []).append((link, param))
    tab = tables()
    return [dict(id=name, group=name, name=name, examples=n if ms else 0, cost=1) for name, ms in sorted(tab.items()) if ms]


def body(unit):
    name = unit["name"]
    model = registry()[name]
    muts = tables()[name]
    shipped = [Case(nm, Board.decode(link, nm == "hashi"), param) for nm, _, link, param, _ in examples() if nm == name]

    def run(d, rec):
        kind, f = d.choice(muts)
        if shipped and d.chance(1, 8):
            case = Case.from_json(d.choice(shipped).to_json())
        else:
            case = model.gen(d)
        if kind != "indivisible" and d.chance(1, 5):
            thin(d, case.board)
        if f(d, case) is False:
            rec.done(False, label="not applicable")
            return
        rec.set(dict(case=case.to_json(), kind=kind))
        judge(case, kind)
        rec.done(True, key=kind + case.key(), label=kind)
    return run


def replay(rp):
    env.load()
    judge(Case.from_json(rp["case"]["case"]), rp["case"]["kind"])
