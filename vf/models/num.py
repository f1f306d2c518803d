"""Number placement puzzles."""
import random
from functools import lru_cache

from .base import *
from .base import pc
from .csp import BLANK, search, upto
from .region import Region, letter, random_sized, inner_edges, edge_hints, random_free  # noqa: F401
from ..grid import labels_from_masks


class Num(Model):
    cat = "num"
    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (1, 4)]
    need = (0, 0, 0, 0)
    rooms = False
    maxroom = 5
    exempt = (BLANK,)
    most = 250                 # answers allowed
    effort = 6000              # search nodes allowed
    density = (1, 5)
    blankhint = None           # how a cell without a number is given

    # to override
    def setup(self, d, b, g, param):
        if self.rooms:
            draw_rooms(d, b, g, maxsize=self.maxroom)

    def param(self, d):
        return {}

    def dom(self, b, g, param):
        raise NotImplementedError

    def differ(self, b, g, param):
        """Pairs (i, j) of cells whose numbers differ."""
        return []

    def rules(self, b, g, param):
        """Constraints that do not come from clues."""
        return []

    def clues(self, d, b, g, sol, param):
        """Draw clues other than given numbers."""

    def clue_rules(self, b, g, param):
        return []

    def show(self, g, sol, y):
        pass

    def given(self, b, g):
        """{cell: value} of numbers on the board, blanks included."""
        return {g.i(r, c): v for (r, c), v in texts(b).items() if g.inside(r, c) and isinstance(v, int)}

    def put(self, b, r, c, v):
        if v != BLANK:
            num(b, r, c, v)
        elif self.blankhint:
            self.blankhint(b, r, c)

    # generic
    def csp(self, b, g, param, clued=True):
        dom = self.dom(b, g, param)
        if clued:
            for i, v in self.given(b, g).items():
                dom[i] = [x for x in dom[i] if x == v]
        neq = [set() for _ in range(g.n)]
        for i, j in self.differ(b, g, param):
            neq[i].add(j)
            neq[j].add(i)
        cons = list(self.rules(b, g, param))
        if clued:
            cons += self.clue_rules(b, g, param)
        return dom, neq, cons, self.exempt

    def size(self, d):
        return d.choice(self.sizes)

    def gen(self, d):
        R, C = self.size(d)
        g = grid(R, C)
        b = new_board(d, R, C, self.need)
        self.n = R
        param = self.param(d)
        self.setup(d, b, g, param)
        rnd = random.Random(d.int(0, 1 << 20))
        got = upto(0, self.effort, *self.csp(b, g, param, False), rnd=rnd)
        if got:
            sol = got[0]
        else:
            sol = [rnd.choice(x) if x else BLANK for x in self.dom(b, g, param)]
        self.clues(d, b, g, sol, param)
        hidden = [i for i in d.shuffle(range(g.n)) if sol[i] != BLANK or self.blankhint]
        hidden = [i for i in hidden if len(self.dom(b, g, param)[i]) > 1]
        k = sum(d.chance(*self.density) for _ in hidden)
        while True:
            for i in hidden[:k]:
                self.put(b, *g.rc(i), sol[i])
            hidden = hidden[k:]
            found = upto(self.most, self.effort, *self.csp(b, g, param))
            if found is not None and len(found) <= self.most or not hidden:
                break
            k = max(1, len(hidden) // 4)
        if d.chance(1, 15):
            self.wrong(d, b, g, param)
        return Case(self.name, b, param)

    def wrong(self, d, b, g, param):
        """Alter one given."""
        ks = [k for k, v in b.q.number.items() if k[2] == "C" and str(v[0]).isdigit() and g.inside(*k[:2])]
        if ks:
            k = d.choice(ks)
            b.q.number[k] = text(max(self.least, int(b.q.number[k][0]) + d.choice([-1, 1, 2, 7])))

    least = 0

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        for sol in search(*self.csp(b, g, case.param)):
            yield self.layer(g, sol)

    def layer(self, g, sol):
        y = Layer()
        for i, v in enumerate(sol):
            if isinstance(v, int):
                y.number[(*g.rc(i), "C")] = text(v, 2)
        self.show(g, sol, y)
        return y

    # large boards
    free = True                # boards without any clue are in order
    pins = True                # cells can be given

    def bigsizes(self):
        return [(4, 5), (5, 5), (6, 6), (4, 7), (7, 5), (1, 12), (8, 8), (3, 10), (2, 14), (9, 6)]


def line_pairs(g):
    out = []
    for r in range(g.R):
        out += [(g.i(r, c), g.i(r, e)) for c in range(g.C) for e in range(c)]
    for c in range(g.C):
        out += [(g.i(r, c), g.i(e, c)) for r in range(g.R) for e in range(r)]
    return out


def room_pairs(g, lab):
    return [(i, j) for i in range(g.n) for j in range(i) if lab[i] == lab[j]]


def room_lists(g, lab):
    return [list(g.bits(m)) for m in rooms_of(g, lab)]


def pairs8(g):
    return [(i, j) for i in range(g.n) for j in g.nb8[i] if j < i]


def rows_of(g):
    return [[g.i(r, c) for c in range(g.C)] for r in range(g.R)]


def cols_of(g):
    return [[g.i(r, c) for r in range(g.R)] for c in range(g.C)]


def holes_of(b, g):
    return g.mask(k for k, v in surfaces(b).items() if v in "BG" and g.inside(*k))


def draw_holes(d, b, g, most=None):
    col = d.choice([4, 8, 1, 3])
    for i in d.sample(range(g.n), d.int(0, g.n // 4 if most is None else most)):
        b.q.surface[g.rc(i)] = col


class Square(Num):
    sides = [2, 3, 3, 4, 4]

    def bigsizes(self):
        return [(n, n) for n in ((9,) if self.name == "sudoku" else (5, 6, 7, 8, 9))]

    def size(self, d):
        n = d.choice(self.sides)
        return n, n


class Latin(Square):
    def dom(self, b, g, param):
        return [list(range(1, g.R + 1)) for _ in range(g.n)]

    def differ(self, b, g, param):
        return line_pairs(g)


# --------------------------------------------------------------------------- neighbours
@register
class Bosanowa(Num):
    name = "bosanowa"
    sizes = [(2, 2), (2, 3), (3, 3), (1, 4), (3, 4)]

    def param(self, d):
        return {"max_number": d.choice([3, 4, 6, "4", 10])}

    def setup(self, d, b, g, param):
        draw_holes(d, b, g, g.n // 2)

    def dom(self, b, g, param):
        h = holes_of(b, g)
        return [[BLANK] if h >> i & 1 else list(range(1, int(param["max_number"]) + 1)) for i in range(g.n)]

    def rules(self, b, g, param):
        h = holes_of(b, g)
        return [([i] + [j for j in g.nb4[i] if not h >> j & 1], lambda v: v[0] == sum(abs(v[0] - x) for x in v[1:]))
                for i in range(g.n) if not h >> i & 1]


@register
class Cojun(Num):
    name, rooms = "cojun", True

    def dom(self, b, g, param):
        lab = labels(b, g)
        return [list(range(1, lab.count(k) + 1)) for k in lab]

    def differ(self, b, g, param):
        return room_pairs(g, labels(b, g)) + g.pairs4

    def rules(self, b, g, param):
        lab = labels(b, g)
        return [([i, i + g.C], lambda v: v[0] > v[1]) for i in range(g.n - g.C) if lab[i] == lab[i + g.C]]


@register
class Ripple(Num):
    name, rooms = "ripple", True

    def setup(self, d, b, g, param):
        super().setup(d, b, g, param)
        if d.chance(1, 5):
            for rc in d.sample(g.cells, d.int(1, 3)):
                num(b, *rc, "?")

    def dom(self, b, g, param):
        lab = labels(b, g)
        t = texts(b)
        return [[BLANK] if t.get(g.rc(i)) == "?" else list(range(1, lab.count(k) + 1)) for i, k in enumerate(lab)]

    def differ(self, b, g, param):
        return room_pairs(g, labels(b, g))

    def rules(self, b, g, param):
        out = []
        for i, j in line_pairs(g):
            (r, c), (e, f) = g.rc(i), g.rc(j)
            k = abs(r - e) + abs(c - f)
            out.append(([i, j], lambda v, k=k: v[0] != v[1] or v[0] == BLANK or k > v[0]))
        return out


@register
class Simplegako(Num):
    name = "simplegako"
    sizes = [(2, 2), (2, 3), (3, 3), (1, 4), (2, 4)]
    effort = 20000

    def dom(self, b, g, param):
        return [list(range(1, g.R + g.C)) for _ in range(g.n)]

    def rules(self, b, g, param):
        out = []
        for r, c in g.cells:
            cells = [g.i(r, c)] + [g.i(r, e) for e in range(g.C) if e != c] + [g.i(e, c) for e in range(g.R) if e != r]
            out.append((cells, lambda v: v[0] == v.count(v[0])))
        return out


@register
class Kakuru(Num):
    name = "kakuru"
    sizes = [(2, 2), (2, 3), (3, 3), (1, 4), (3, 4)]

    def setup(self, d, b, g, param):
        col = d.choice([4, 8, 1, 3])
        for i in d.sample(range(g.n), d.int(g.n // 2, g.n - 1)):
            b.q.surface[g.rc(i)] = col

    def dom(self, b, g, param):
        h = holes_of(b, g)
        return [[BLANK] if h >> i & 1 else list(range(1, 10)) for i in range(g.n)]

    def differ(self, b, g, param):
        return pairs8(g)

    def gen(self, d):
        R, C = self.size(d)
        g = grid(R, C)
        b = new_board(d, R, C)
        self.setup(d, b, g, {})
        while True:
            rnd = random.Random(d.int(0, 1 << 20))
            got = upto(0, self.effort, *self.csp(b, g, {}, False), rnd=rnd)
            sol = got[0] if got else [rnd.choice(x) for x in self.dom(b, g, {})]
            b.q.number.clear()
            for i in g.bits(holes_of(b, g)):
                if d.chance(3, 4):
                    v = sum(sol[j] for j in g.nb8[i] if sol[j] != BLANK)
                    num(b, *g.rc(i), "?" if d.chance(1, 6) else noisy(d, v, 0, 80, (1, 30)))
            found = upto(self.most, self.effort, *self.csp(b, g, {}))
            if found is not None and len(found) <= self.most:
                return Case(self.name, b, {})
            free = [i for i in range(g.n) if sol[i] != BLANK]
            b.q.surface[g.rc(d.choice(free))] = 4

    def given(self, b, g):
        h = holes_of(b, g)
        return {i: v for i, v in Num.given(self, b, g).items() if not h >> i & 1}

    def clue_rules(self, b, g, param):
        h = holes_of(b, g)
        out = []
        for (r, c), v in texts(b).items():
            i = g.i(r, c)
            cells = [j for j in g.nb8[i] if not h >> j & 1]
            out.append((cells, lambda x, v=v: len(set(x)) == len(x) and (v == "?" or sum(x) == v)))
        return out


@register
class NumRope(Num):
    name = "numrope"
    sizes = [(2, 2), (2, 3), (3, 3), (1, 5), (3, 4)]
    density = (1, 3)
    least = 1

    def setup(self, d, b, g, param):
        draw_holes(d, b, g)
        h = holes_of(b, g)
        used = h
        for i in d.shuffle(range(g.n)):
            if used >> i & 1:
                continue
            path = [i]
            while d.chance(3, 4):
                nx = [j for j in g.nb4[path[-1]] if not used >> j & 1 and j not in path]
                if not nx:
                    break
                path.append(d.choice(nx))
            for j in path:
                used |= 1 << j
            for a, e in zip(path, path[1:]):
                a, e = min(a, e), max(a, e)
                b.q.line[("H" if e - a == 1 and g.C > 1 else "V", *g.rc(a))] = True

    def ropes(self, b, g):
        adj = [[] for _ in range(g.n)]
        for k, v in b.q.line.items():
            i = g.i(k[1], k[2])
            j = i + (1 if k[0] == "H" else g.C)
            adj[i].append(j)
            adj[j].append(i)
        return adj

    def dom(self, b, g, param):
        h = holes_of(b, g)
        return [[BLANK] if h >> i & 1 else list(range(1, 10)) for i in range(g.n)]

    def differ(self, b, g, param):
        return g.pairs4

    def rules(self, b, g, param):
        out = []
        for i, nb in enumerate(self.ropes(b, g)):
            for j in nb:
                out.append(([i, j], lambda v: abs(v[0] - v[1]) == 1))
            if len(nb) == 2:
                out.append(([i] + nb, lambda v: v[1] != v[2]))
        return out

    def clues(self, d, b, g, sol, param):
        for i in g.bits(holes_of(b, g)):
            if d.chance(2, 3):
                num(b, *g.rc(i), noisy(d, sum(sol[j] for j in g.nb4[i] if sol[j] != BLANK), 0, 40, (1, 30)))

    given = Kakuru.given

    def clue_rules(self, b, g, param):
        h = holes_of(b, g)
        out = []
        for (r, c), v in texts(b).items():
            i = g.i(r, c)
            if h >> i & 1:
                out.append(([j for j in g.nb4[i] if not h >> j & 1], lambda x, v=v: sum(x) == v))
        return out


# --------------------------------------------------------------------------- latin squares
@register
class Skyscrapers(Latin):
    name, need = "skyscrapers", (1, 1, 1, 1)

    def sides_of(self, g):
        out = []
        for c in range(g.C):
            col = [g.i(r, c) for r in range(g.R)]
            out += [((-1, c), col), ((g.R, c), col[::-1])]
        for r in range(g.R):
            row = [g.i(r, c) for c in range(g.C)]
            out += [((r, -1), row), ((r, g.C), row[::-1])]
        return out

    def seen(self, v):
        return sum(all(y < x for y in v[:k]) for k, x in enumerate(v))

    def clues(self, d, b, g, sol, param):
        for k, cells in self.sides_of(g):
            if d.chance(1, 3):
                num(b, *k, noisy(d, self.seen([sol[i] for i in cells]), 1, g.R))

    def clue_rules(self, b, g, param):
        t = texts(b)
        return [(cells, lambda v, n=t[k]: self.seen(v) == n) for k, cells in self.sides_of(g) if k in t]


@register
class Factors(Latin):
    name, rooms, maxroom = "factors", True, 4

    def clues(self, d, b, g, sol, param):
        for room in room_lists(g, labels(b, g)):
            if d.chance(2, 3):
                p = 1
                for i in room:
                    p *= sol[i]
                r, c = g.rc(room[0] if d.chance(3, 4) else d.choice(room))
                b.q.sudoku[(r, c, 0)] = [str(noisy(d, p, 1, 999, (1, 30))), 1]

    def clue_rules(self, b, g, param):
        out = []
        rooms = room_lists(g, labels(b, g))
        for (r, c, k), v in sudokus(b).items():
            room = next(x for x in rooms if g.i(r, c) in x)

            def ok(x, v=v):
                p = 1
                for y in x:
                    p *= y
                return p == v
            out.append((room, ok))
        return out


@register
class Kropki(Latin):
    name = "kropki"

    def clues(self, d, b, g, sol, param):
        none = d.chance(1, 6)
        for k in inner_edges(g):
            o, r, c = k
            x, y = sol[g.i(r, c)], sol[g.i(r - 1, c) if o == "T" else g.i(r, c - 1)]
            st = [s for s, ok in ((1, abs(x - y) == 1), (2, x == 2 * y or y == 2 * x)) if ok]
            if none and not d.chance(1, 20):
                st = []
            if d.chance(1, 80):
                st = [1, 2]
            if st:
                b.q.symbol[(r, c, o)] = [d.choice(st), "circle_SS", 1]

    def clue_rules(self, b, g, param):
        s = {dd: symbols(b, dd) for dd in "TL"}
        out = []
        for o, r, c in inner_edges(g):
            m = s[o].get((r, c))
            pair = [g.i(r, c), g.i(r - 1, c) if o == "T" else g.i(r, c - 1)]

            def ok(v, m=m):
                one, two = abs(v[0] - v[1]) == 1, v[0] == 2 * v[1] or v[1] == 2 * v[0]
                return one if m == "circle_SS__1" else two if m == "circle_SS__2" else not one and not two
            out.append((pair, ok))
        return out


@register
class Minarism(Latin):
    name = "minarism"

    def clues(self, d, b, g, sol, param):
        for o, r, c in inner_edges(g):
            if not d.chance(1, 3):
                continue
            x, y = sol[g.i(r, c)], sol[g.i(r - 1, c) if o == "T" else g.i(r, c - 1)]
            if d.chance(1, 2):
                st = (1 if o == "L" else 2) if (x > y) ^ d.chance(1, 40) else (3 if o == "L" else 4)
                b.q.symbol[(r, c, o)] = [st, "inequality", 1]
            else:
                num(b, r, c, "?" if d.chance(1, 8) else noisy(d, abs(x - y), 1, 9, (1, 40)), o)

    def clue_rules(self, b, g, param):
        out = []
        for o in "TL":
            for (r, c), m in symbols(b, o).items():
                pair = [g.i(r, c), g.i(r - 1, c) if o == "T" else g.i(r, c - 1)]
                out.append((pair, (lambda v: v[0] > v[1]) if m[-1] in "12" else (lambda v: v[0] < v[1])))
            for (r, c), n in texts(b, o).items():
                if n != "?":
                    pair = [g.i(r, c), g.i(r - 1, c) if o == "T" else g.i(r, c - 1)]
                    out.append((pair, lambda v, n=n: abs(v[0] - v[1]) == n))
        return out


@register
class Sudoku(Latin):
    name = "sudoku"
    sides = [4, 4, 6, 8, 9]
    BOX = {4: (2, 2), 6: (2, 3), 8: (2, 4), 9: (3, 3)}
    weight = 0.7

    def param(self, d):
        p = {"diagonal": d.chance(1, 3), "untouch": d.chance(1, 5), "antiknight": d.chance(1, 5)}
        if self.n == 4 and p["antiknight"] and d.chance(1, 2):
            p["untouch"] = False
        return p

    def size(self, d):
        n = d.choice(self.sides)
        self.density = {4: (1, 5), 6: (1, 3), 8: (2, 5), 9: (2, 5)}[n]
        return n, n

    def differ(self, b, g, param):
        h, w = self.BOX[g.R]
        out = line_pairs(g)
        for i in range(g.n):
            for j in range(i):
                (r, c), (e, f) = g.rc(i), g.rc(j)
                dr, dc = abs(r - e), abs(c - f)
                if (r // h, c // w) == (e // h, f // w) or param["untouch"] and dr == dc == 1 \
                        or param["antiknight"] and {dr, dc} == {1, 2} \
                        or param["diagonal"] and (r == c and e == f or r + c == e + f == g.R - 1):
                    out.append((i, j))
        return out


@register
class Doppelblock(Square):
    name, need = "doppelblock", (1, 0, 1, 0)
    sides = [3, 3, 4, 4, 5]
    exempt = ("B",)

    def dom(self, b, g, param):
        h = holes_of(b, g)
        return [["B"] if h >> i & 1 else ["B"] + list(range(1, g.R - 1)) for i in range(g.n)]

    def differ(self, b, g, param):
        return line_pairs(g)

    def rules(self, b, g, param):
        return [(cells, lambda v: v.count("B") == 2) for cells in rows_of(g) + cols_of(g)]

    def inner(self, v):
        i, j = [k for k, x in enumerate(v) if x == "B"]
        return sum(v[i + 1:j])

    def clues(self, d, b, g, sol, param):
        for k, cells in self.sides_of(g):
            v = [sol[i] for i in cells]
            if d.chance(1, 2) and v.count("B") == 2:
                num(b, *k, "?" if d.chance(1, 8) else noisy(d, self.inner(v), 0, 9, (1, 40)))

    def sides_of(self, g):
        return [((-1, c), x) for c, x in enumerate(cols_of(g))] + [((r, -1), x) for r, x in enumerate(rows_of(g))]

    def put(self, b, r, c, v):
        if v == "B":
            b.q.surface[(r, c)] = 4
        else:
            num(b, r, c, v)

    def clue_rules(self, b, g, param):
        t = texts(b)
        return [(cells, lambda v, n=t[k]: v.count("B") == 2 and self.inner(v) == n) for k, cells in self.sides_of(g)
                if k in t and t[k] != "?"]

    def show(self, g, sol, y):
        for i, v in enumerate(sol):
            if v == "B":
                y.surface[g.rc(i)] = 4


@register
class EasyAsABC(Square):
    name, need = "easyasabc", (1, 1, 1, 1)
    sides = [3, 3, 4, 4, 5]

    def param(self, d):
        k = d.int(1, self.n)
        s = "".join(d.sample("ABCDEXZ", min(k, 3 if self.n > 3 else k)))
        return {"letters": s}

    def dom(self, b, g, param):
        x = [BLANK] if len(param["letters"]) < g.R else []
        return [x + list(param["letters"]) for _ in range(g.n)]

    def differ(self, b, g, param):
        return line_pairs(g)

    def rules(self, b, g, param):
        k = g.R - len(param["letters"])
        return [(cells, lambda v: v.count(BLANK) == k) for cells in rows_of(g) + cols_of(g)]

    sides_of = Skyscrapers.sides_of

    def given(self, b, g):
        return {g.i(r, c): v for (r, c), v in texts(b).items() if g.inside(r, c)}

    def first(self, v):
        return next(x for x in v if x != BLANK)

    def clues(self, d, b, g, sol, param):
        for k, cells in self.sides_of(g):
            v = [sol[i] for i in cells]
            if d.chance(1, 3) and any(x != BLANK for x in v):
                num(b, *k, d.choice(param["letters"]) if d.chance(1, 40) else self.first(v))

    def clue_rules(self, b, g, param):
        t = texts(b)
        return [(cells, lambda v, n=t[k]: any(x != BLANK for x in v) and self.first(v) == n)
                for k, cells in self.sides_of(g) if k in t]

    def wrong(self, d, b, g, param):
        pass

    def show(self, g, sol, y):
        for i, v in enumerate(sol):
            if v != BLANK:
                y.number[(*g.rc(i), "C")] = text(v, 2)


# --------------------------------------------------------------------------- runs and rooms
@register
class Kakuro(Num):
    name = "kakuro"
    free = False            # every run has its sum
    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 4), (3, 5)]
    density = (1, 8)

    def setup(self, d, b, g, param):
        for r, c in g.cells:
            if not r or not c or d.chance(1, 5):
                b.q.symbol[(r, c, "C")] = [1, "kakuro", 1]

    def walls(self, b, g):
        return g.mask(symbols(b))

    def run(self, b, g, r, c, k):
        w = self.walls(b, g)
        out = []
        for i in g.ray(r, c, *((0, 1) if k == 1 else (1, 0))):
            if w >> i & 1:
                break
            out.append(i)
        return out

    def dom(self, b, g, param):
        w = self.walls(b, g)
        return [[BLANK] if w >> i & 1 else list(range(1, 10)) for i in range(g.n)]

    def runs(self, b, g):
        w = self.walls(b, g)
        return [((*g.rc(i), k), x) for i in g.bits(w) for k in (1, 2) for x in [self.run(b, g, *g.rc(i), k)] if x]

    def differ(self, b, g, param):
        return [(i, j) for _, x in self.runs(b, g) for i in x for j in x if j < i]

    def clues(self, d, b, g, sol, param):
        runs = self.runs(b, g)
        alone = {}
        for key, x in runs:
            if len(x) == 1:
                alone.setdefault(x[0], []).append(key)
        skip = set()
        for i, keys in alone.items():
            skip.update(keys[:-1] if len(keys) == 2 and d.chance(1, 2) else keys if len(keys) == 1 and d.chance(1, 2) else [])
        for key, x in runs:
            if key not in skip:
                b.q.sudoku[key] = [str(noisy(d, sum(sol[i] for i in x), 1, 45, (1, 60))), 1]

    def clue_rules(self, b, g, param):
        return [(self.run(b, g, r, c, k), lambda x, v=v: sum(x) == v) for (r, c, k), v in sudokus(b).items()]


def even_rooms(d, b, g):
    """Rooms of even size: dominoes, some of them joined."""
    dom = random_sized(d, g, g.full, 2)
    rooms = list(dom)
    for _ in range(d.int(0, len(rooms))):
        i = d.int(0, len(rooms) - 1)
        nb = [j for j in range(len(rooms)) if j != i and g.grow4(rooms[i]) & rooms[j] and pc(rooms[i] | rooms[j]) <= 6]
        if nb:
            j = d.choice(nb)
            rooms[i] |= rooms[j]
            rooms.pop(j)
    draw_rooms(d, b, g, lab=labels_from_masks(g, rooms))


@register
class Kazunori(Num):
    name = "kazunori"
    sizes = [(2, 2), (2, 3), (2, 4), (3, 4), (4, 3), (1, 4), (4, 4)]

    def bigsizes(self):
        return [(4, 5), (6, 6), (4, 7), (7, 6), (1, 12), (8, 8), (3, 10), (2, 14), (9, 6)]

    def setup(self, d, b, g, param):
        even_rooms(d, b, g)

    def dom(self, b, g, param):
        lab = labels(b, g)
        return [list(range(1, lab.count(k) // 2 + 1)) for k in lab]

    def rules(self, b, g, param):
        lab = labels(b, g)
        out = []
        for room in room_lists(g, lab):
            out.append((room, lambda v: all(v.count(x) == 2 for x in v)))
            for i in room:
                nb = [j for j in g.nb4[i] if lab[i] == lab[j]]
                out.append(([i] + nb, lambda v: v[1:].count(v[0]) == 1))
        for m in g.blocks2:
            out.append((list(g.bits(m)), lambda v: len(set(v)) > 1))
        return out

    def clues(self, d, b, g, sol, param):
        for o, r, c in inner_edges(g):
            if d.chance(1, 5):
                x, y = sol[g.i(r, c)], sol[g.i(r - 1, c) if o == "T" else g.i(r, c - 1)]
                num(b, r, c, "?" if d.chance(1, 8) else noisy(d, x + y, 1, 9, (1, 40)), o)

    def clue_rules(self, b, g, param):
        out = []
        for o in "TL":
            for (r, c), n in texts(b, o).items():
                if n != "?":
                    pair = [g.i(r, c), g.i(r - 1, c) if o == "T" else g.i(r, c - 1)]
                    out.append((pair, lambda v, n=n: v[0] + v[1] == n))
        return out


@register
class Meander(Square):
    name = "meander"
    sides = [2, 3, 3, 4, 4]

    def setup(self, d, b, g, param):
        used, lab = 0, [-1] * g.n
        k = 0
        for i in d.shuffle(range(g.n)):
            if used >> i & 1:
                continue
            path = [i]
            used |= 1 << i
            while len(path) < 5 and d.chance(5, 6):
                nx = [j for j in g.nb4[path[-1]] if not used >> j & 1]
                if not nx:
                    break
                path.append(d.choice(nx))
                used |= 1 << path[-1]
            for j in path:
                lab[j] = k
            k += 1
        draw_rooms(d, b, g, lab=lab)

    def dom(self, b, g, param):
        lab = labels(b, g)
        return [list(range(1, lab.count(k) + 1)) for k in lab]

    def differ(self, b, g, param):
        return room_pairs(g, labels(b, g)) + pairs8(g)

    def rules(self, b, g, param):
        lab = labels(b, g)
        out = []
        for room in room_lists(g, lab):
            def ok(v, room=room):
                pos = dict(zip(v, room))
                return all(pos[k + 1] in g.nb4[pos[k]] for k in range(1, len(room)))
            out.append((room, ok))
        return out


@register
class Hanare(Num):
    name, rooms = "hanare", True

    def blankhint(self, b, r, c):
        b.q.surface[(r, c)] = 2

    def dom(self, b, g, param):
        lab = labels(b, g)
        w = g.mask(k for k, v in surfaces(b).items() if v == "N")
        return [[BLANK] if w >> i & 1 else [BLANK, lab.count(k)] for i, k in enumerate(lab)]

    def line(self, v):
        at = [k for k, x in enumerate(v) if x != BLANK]
        return all(abs(v[i] - v[j]) == j - i - 1 for i, j in zip(at, at[1:]))

    def rules(self, b, g, param):
        out = [(room, lambda v: v.count(BLANK) == len(v) - 1) for room in room_lists(g, labels(b, g))]
        return out + [(x, self.line) for x in rows_of(g) + cols_of(g)]


@register
class Putteria(Num):
    name, rooms = "putteria", True

    def blankhint(self, b, r, c):
        if (r + c) % 3:
            b.q.surface[(r, c)] = 8
        else:
            num(b, r, c, "?")

    def dom(self, b, g, param):
        lab = labels(b, g)
        h, t = holes_of(b, g), texts(b)
        return [[BLANK] if h >> i & 1 or t.get(g.rc(i)) == "?" else [BLANK, lab.count(k)] for i, k in enumerate(lab)]

    def differ(self, b, g, param):
        return line_pairs(g)

    def rules(self, b, g, param):
        out = [(room, lambda v: v.count(BLANK) == len(v) - 1) for room in room_lists(g, labels(b, g))]
        return out + [([i, j], lambda v: BLANK in v) for i, j in g.pairs4]

    def show(self, g, sol, y):
        for i, v in enumerate(sol):
            if v == BLANK:
                y.surface[g.rc(i)] = 8


# --------------------------------------------------------------------------- filled cells decide the numbers
class MaskNum(Num):
    """The set of numbered cells determines every number."""

    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (1, 5), (2, 4)]
    most = 400

    def __init__(self):
        self._base = {}

    def static(self, g, m):
        return True

    def base(self, g):
        key = (g.R, g.C)
        if key not in self._base:
            self._base[key] = [m for m in range(1 << g.n) if self.static(g, m)]
        return self._base[key]

    def values(self, g, m, x):
        """Numbers by cell for a set of numbered cells, or None when the set is not allowed; x from prep."""
        raise NotImplementedError

    def prep(self, b, g, param):
        return None

    def hints(self, b, g):
        """(numbered, blank) masks given by marks."""
        on = off = 0
        for (r, c), v in symbols(b).items():
            if v == "ox_E__1":
                on |= g.bit(r, c)
            elif v in ("ox_E__4", "ox_E__7"):
                off |= g.bit(r, c)
        return on, off

    def put_hint(self, d, b, r, c, filled):
        b.q.symbol[(r, c, "C")] = [1 if filled else d.choice([4, 7]), "ox_E", 1]

    def extra(self, b, g, m, x):
        return True

    def all(self, b, g, param):
        x = self.prep(b, g, param)
        on, off = self.hints(b, g)
        giv = self.given(b, g)
        for i in giv:
            on |= 1 << i
        for m in self.base(g):
            if m & on == on and not m & off:
                v = self.values(g, m, x)
                if v is not None and all(v[i] == n for i, n in giv.items()) and self.extra(b, g, m, x):
                    yield m, v

    def gen(self, d):
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C)
        self.setup(d, b, g, {})
        x = self.prep(b, g, {})
        sols = list(self.all(b, g, {}))
        if sols:
            m, v = d.big(sols)
            self.more(d, b, g, m, x)
            for i in range(g.n):
                r, c = g.rc(i)
                if m >> i & 1 and d.chance(1, 5):
                    num(b, r, c, noisy(d, v[i], 0, 9, (1, 30)))
                elif d.chance(1, 8):
                    self.put_hint(d, b, r, c, bool(m >> i & 1) ^ d.chance(1, 40))
        return Case(self.name, b, {})

    def more(self, d, b, g, m, x):
        pass

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        for m, v in self.all(b, g, case.param):
            y = Layer()
            for i in g.bits(m):
                y.number[(*g.rc(i), "C")] = text(v[i], 2)
            self.show(g, m, y)
            yield y


@register
class Sukoro(MaskNum):
    name = "sukoro"

    def static(self, g, m):
        return g.connected(m) and self.values(g, m, None) is not None

    def values(self, g, m, x):
        v = {i: pc(g.m4[i] & m) for i in g.bits(m)}
        return None if any(v[i] == v[j] for i, j in g.pairs4 if i in v and j in v) else v


@register
class SukoroRoom(MaskNum):
    name, rooms = "sukororoom", True

    def static(self, g, m):
        return g.connected(m)

    def prep(self, b, g, param):
        return rooms_of(g, labels(b, g))

    def values(self, g, m, x):
        if any(m & k and m & k != k for k in x):
            return None
        v = {i: pc(g.m4[i] & m) for i in g.bits(m)}
        for k in x:
            if m & k:
                z = [v[i] for i in g.bits(k)]
                if len(set(z)) < len(z):
                    return None
        return v


@register
class View(MaskNum):
    name = "view"

    def static(self, g, m):
        return g.connected(m) and self.values(g, m, None) is not None

    def values(self, g, m, x):
        v = {i: g.see(i, g.full & ~m) for i in g.bits(m)}
        return None if any(v[i] == v[j] for i, j in g.pairs4 if i in v and j in v) else v


@register
class Nanro(MaskNum):
    name, rooms = "nanro", True

    def static(self, g, m):
        return g.connected(m) and g.no2x2(m)

    def prep(self, b, g, param):
        lab = labels(b, g)
        return lab, rooms_of(g, lab)

    def values(self, g, m, x):
        lab, rooms = x
        v = {}
        for k in rooms:
            for i in g.bits(k & m):
                v[i] = pc(k & m)
        return None if any(lab[i] != lab[j] and v[i] == v[j] for i, j in g.pairs4 if i in v and j in v) else v

    def hints(self, b, g):
        return 0, holes_of(b, g)

    def put_hint(self, d, b, r, c, filled):
        if not filled:
            b.q.surface[(r, c)] = d.choice([8, 4, 1])

    def more(self, d, b, g, m, x):
        for k in x[1]:
            if d.chance(1, 3) or not m & k:
                r, c = g.rc(d.choice(list(g.bits(k))))
                b.q.sudoku[(r, c, 0)] = [str(noisy(d, pc(m & k), 0, 9, (1, 30))), 1]

    def extra(self, b, g, m, x):
        t = sudokus(b)
        return all(all(pc(m & k) == v for (r, c, _), v in t.items() if g.bit(r, c) & k) and
                   (m & k or any(g.bit(r, c) & k for r, c, _ in t)) for k in x[1]) if t or m != g.full else True

    def all(self, b, g, param):
        # while planting (no clue drawn yet) empty rooms are fine: they get the clue 0
        plant = not sudokus(b) and not texts(b) and not any(v for v in ())
        yield from super().all(b, g, param) if not plant or self._final else self.planted(b, g, param)

    _final = True

    def planted(self, b, g, param):
        x = self.prep(b, g, param)
        for m in self.base(g):
            v = self.values(g, m, x)
            if v is not None:
                yield m, v

    def gen(self, d):
        self._final = False
        try:
            return super().gen(d)
        finally:
            self._final = True

    def show(self, g, m, y):
        for i in range(g.n):
            if not m >> i & 1:
                y.surface[g.rc(i)] = 8


# --------------------------------------------------------------------------- fillomino
@register
class Fillomino(Region):
    name, cat = "fillomino", "num"
    sizes = [(1, 4), (2, 2), (2, 3), (3, 3), (3, 4), (2, 5)]

    def param(self, d):
        return {"fast_mode": d.chance(1, 2)}

    def plant(self, d, b, g, param):
        part = list(random_free(d, g, g.full, 5))
        for _ in range(20):
            hit = [(i, j) for i in range(len(part)) for j in range(i) if pc(part[i]) == pc(part[j]) and g.grow4(part[i]) & part[j]]
            if not hit:
                break
            i, j = hit[0]
            part[j] |= part[i]
            part.pop(i)
        return part

    def clues(self, d, b, g, part, param):
        for m in part:
            for r, c in g.coords(m):
                if d.chance(1, 4):
                    num(b, r, c, noisy(d, pc(m), 1, g.n, (1, 50)))

    def piece(self, b, g, param):
        t = [(g.bit(*k), v) for k, v in texts(b).items()]

        def ok(m):
            v = [n for x, n in t if x & m]
            return all(n == pc(m) for n in v) and (v or not param["fast_mode"] or pc(m) <= 5)
        return ok

    def accept(self, b, g, param):
        return lambda s, acc: not any(pc(s) == pc(k) and g.grow4(s) & k for k in acc)

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        hints = edges(b)
        for part in self.divisions(b, g, case.param):
            e = self.drawn(g, part)
            if all((k in e) == v for k, v in hints.items()):
                y = Layer()
                for k in e:
                    y.edge[k] = True
                for m in part:
                    for i in g.bits(m):
                        y.number[(*g.rc(i), "C")] = text(pc(m), 2)
                yield y
