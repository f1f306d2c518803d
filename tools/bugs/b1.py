BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo="from demolib import *\n" + demo, needs=needs, breaks=breaks))


bug("layer-order", "C01",
    [("noqx/puzzle/penpa.py", """        for p in (4, 3):  # must unpack solution board first, then edit board to keep consistency
            self.problem""", """        problem = {}
        for p in (3, 4):
            self.problem"""),
     ("noqx/puzzle/penpa.py", """            self._unpack_edge()
            self._unpack_line()

    def index""", """            self._unpack_edge()
            self._unpack_line()
            problem = problem or self.problem
        self.problem = problem  # keep the edit board for packing

    def index""")],
    """
b = Board(2, 2)
num(b, 0, 0, 1)
b.a.number[(0, 0, "C")] = ["3", 2, "1"]
p = manager.prepare_puzzle("kurotto", b.encode(), {})
want(list(p.text.values()) == [1], f"the clue of the problem layer is read as {list(p.text.values())}")
done()
""", "a board that holds marks in both layers at the same cell, with different values",
    "the solution layer's leftover wins over the problem layer's clue")

bug("x-becomes-line", "C02",
    [("noqx/puzzle/__init__.py", "        self.edge.clear()\n        self.line.clear()\n",
      "        self.edge.clear()\n        self.line = {k: v for k, v in self.line.items() if not v}\n")],
    """
b = Board(2, 3)
b.q.line[("V", 0, 1)] = False
for u in ask("simpleloop", b):
    want(not any(k[0] == "h" and k in (("h", 0, 1, "d"), ("h", 1, 1, "u")) for k in u.a.line), "a line is drawn over the user's x mark")
done()
""", "a loop board with x helper marks on cell sides", "x marks come back as drawn line pieces in every answer")

bug("kropki-empty", "C06",
    [("solver/kropki.py", '(N1 * 2 - N2) = 0"', '(N1 * 2 - N2) = 0, N1 + N2 > 3"')],
    """
b = Board(2, 2)
want(len(ask("kropki", b)) == 0, "1 and 2 may be neighbours without a dot")
done()
""", "1 next to 2 without a dot", "the pair 1-2 (consecutive and double at once) may stand without a dot")

bug("kakuro-same-sum", "C06",
    [("solver/kakuro.py", """                fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
                sums.append((num, area_points))

            if pos == "sudoku_2\"""", """                fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
                if (num, area_points) not in sums and num > 2:
                    sums.append((num, area_points))

            if pos == "sudoku_2\"""")],
    """
b = Board(2, 2)
b.q.symbol[(0, 0, "C")] = [1, "kakuro", 1]
b.q.symbol[(0, 1, "C")] = [1, "kakuro", 1]
b.q.symbol[(1, 0, "C")] = [1, "kakuro", 1]
b.q.sudoku[(1, 0, 1)] = ["1", 1]
b.q.sudoku[(0, 1, 2)] = ["7", 1]
want(len(ask("kakuro", b)) == 0, "a sum of 1 to the right is ignored")
done()
""", "a sum clue of 1 or 2 for a run to the right", "small sums to the right are ignored")

bug("partial-list", "C14",
    [("noqx/clingo.py", "    if (stop - start) >= Config.time_limit:\n", "    if (stop - start) >= Config.time_limit and not solutions:\n")],
    """
clingo.Config.time_limit = 0.02
b = Board(5, 5)
try:
    n = len(ask("kurotto", b, limit=100000000))
except TimeoutError:
    done()
else:
    want(False, f"the search was cut off, but {n} answers are returned as if they were all")
""", "a time-out after some answers were already found", "a truncated list is returned as a complete list")

bug("variant-cache", "C11",
    [("noqx/rule/shape.py", """    # build a set of functions that transform shapes
""", """    key = (frozenset(shape), allow_rotations or allow_reflections)
    if key in _VARIANTS:
        return _VARIANTS[key]

    # build a set of functions that transform shapes
"""),
     ("noqx/rule/shape.py", "        all_shapes_covered = current_num_shapes == len(result)\n    return result",
      "        all_shapes_covered = current_num_shapes == len(result)\n    _VARIANTS[key] = result\n    return result"),
     ("noqx/rule/shape.py", "OMINOES = {\n", "_VARIANTS: dict = {}  # computed variants\n\nOMINOES = {\n")],
    """
from noqx.rule.shape import OMINOES, get_variants
get_variants(OMINOES[4]["S"], True, True)
n = len(get_variants(OMINOES[4]["S"], True, False))
want(n == 2, f"{n} rotations of an S, it has 2")
done()
""", "the same shape asked for with reflections and then without (or the other way round)",
    "the second request for the variants of a shape gets those of the first")

bug("x-splits-room", "C19",
    [("noqx/rule/helper.py", "        if edges.get(Point(r, c + 1, Direction.LEFT)) is not True:\n", "        if Point(r, c + 1, Direction.LEFT) not in edges:\n"),
     ("noqx/rule/helper.py", "        if edges.get(Point(r, c, Direction.LEFT)) is not True:\n", "        if Point(r, c, Direction.LEFT) not in edges:\n")],
    """
from noqx.puzzle import Direction, Point
from noqx.rule.helper import full_bfs
rooms = full_bfs(1, 2, {Point(0, 1, Direction.LEFT): False})
want(len(rooms) == 1, "an x mark on a side splits a room")
done()
""", "an x mark on the side between two cells of a room", "a cleared border splits the room")

bug("pre-star", "C09",
    [("solver/starbattle.py", "filter(lambda x: x[0][0] != -1, puzzle.symbol.items())", "filter(lambda x: x[0][0] > 0, puzzle.symbol.items())")],
    """
b = Board(4, 4)
for c in range(1, 4):
    for r in range(4):
        b.q.edge[("L", r, c)] = True
n = len(ask("starbattle", b, {"stars": "1"}))
b.q.symbol[(0, 1, "C")] = [2, "star", 2]
m = ask("starbattle", b, {"stars": "1"})
want(n == 2 and len(m) == 1, f"{n} answers, {len(m)} of them have the star the user put into the first row")
done()
""", "a star the user put into the first row", "stars and crosses in the first row are ignored")
