"""Object placement and mixed puzzles."""
import random
from functools import lru_cache

from .base import *
from .base import pc
from .csp import BLANK, search
from .num import Fillomino, Num, cols_of, line_pairs, pairs8, room_lists, room_pairs, rows_of
from .region import Rect, crossing_free, touching
from ..grid import connected_sets, orientations, omino_name, POLY_CELLS


class Place(Num):
    """One object (or none) per cell, by constraint search."""

    cat = "var"

    def mark(self, v):
        """[style, shape] of a value."""
        raise NotImplementedError

    def show(self, g, sol, y):
        for i, v in enumerate(sol):
            k = self.mark(v)
            if k:
                y.symbol[(*g.rc(i), "C")] = [*k, 1]

    def put(self, b, r, c, v):
        k = self.mark(v)
        if k:
            (b.a if self.where else b.q).symbol[(r, c, "C")] = [*k, 1]

    where = 0

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        for sol in search(*self.csp(b, g, case.param)):
            yield self.layer(g, sol)

    def layer(self, g, sol):
        y = Layer()
        self.show(g, sol, y)
        return y

    def given(self, b, g):
        out = {}
        for (r, c), s in symbols(b).items():
            v = self.read(s)
            if v is not None and g.inside(r, c):
                out[g.i(r, c)] = v
        return out

    def read(self, s):
        for v in self.values:
            k = self.mark(v)
            if k and s == f"{k[1]}__{k[0]}":
                return v
        return None

    values = ()

    def gen(self, d):
        self.where = d.int(0, 1)
        return super().gen(d)

    def wrong(self, d, b, g, param):
        y = b.a if self.where else b.q
        if y.symbol:
            k = d.choice(sorted(y.symbol))
            v = d.choice([x for x in self.values if self.mark(x)])
            y.symbol[k] = [*self.mark(v), 1]


@register
class Binairo(Place):
    name = "binairo"
    values = (1, 2)
    sizes = [(2, 2), (2, 4), (4, 2), (4, 4), (4, 4), (4, 6), (6, 4)]
    effort = 30000
    density = (1, 4)

    def bigsizes(self):
        return [(6, 6), (8, 8), (6, 10), (10, 6), (10, 10), (4, 12), (2, 8)]

    def mark(self, v):
        return [v, "circle_M"]

    def dom(self, b, g, param):
        return [[1, 2] for _ in range(g.n)]

    def rules(self, b, g, param):
        out = []
        for lines, k in ((rows_of(g), g.C // 2), (cols_of(g), g.R // 2)):
            for x in lines:
                out.append((x, lambda v, k=k: v.count(1) == k))
                out += [(x[i:i + 3], lambda v: len(set(v)) > 1) for i in range(len(x) - 2)]
            for i, x in enumerate(lines):
                for y in lines[:i]:
                    out.append((x + y, lambda v, k=len(x): v[:k] != v[k:]))
        return out


@register
class Hakoiri(Place):
    name = "hakoiri"
    values = (1, 2, 3)
    sizes = [(1, 3), (3, 3), (3, 4), (4, 3), (2, 5), (4, 4)]
    rooms = True
    effort = 20000
    density = (1, 6)

    def setup(self, d, b, g, param):
        draw_rooms(d, b, g, max(1, g.n // 5))
        self.shape = d.choice(["ox_B", "ox_E"])
        self.cross = d.choice([4, 7, 8])

    def mark(self, v):
        return [v, "ox_E"] if v != BLANK else None

    def put(self, b, r, c, v):
        if v == BLANK:
            return
        (b.a if self.where else b.q).symbol[(r, c, "C")] = [v, self.shape, 1]

    def read(self, s):
        k = int(s.split("__")[1])
        return k if k in (1, 2, 3) else BLANK

    def dom(self, b, g, param):
        return [[BLANK, 1, 2, 3] for _ in range(g.n)]

    def differ(self, b, g, param):
        return pairs8(g)

    def rules(self, b, g, param):
        out = []
        for x in room_lists(g, labels(b, g)):
            out.append((x, lambda v: sorted(v, key=str) == [BLANK] * (len(v) - 3) + [1, 2, 3]))
        out.append((list(range(g.n)), lambda v: g.connected(sum(1 << i for i, x in enumerate(v) if x != BLANK))))
        return out

    def clues(self, d, b, g, sol, param):
        for i in range(g.n):
            if (sol[i] == BLANK or d.chance(1, 60)) and d.chance(1, 8):
                b.q.symbol[(*g.rc(i), "C")] = [self.cross, self.shape, 1]


@register
class Magnets(Place):
    name = "magnets"
    values = (2, 3, "g")
    sizes = [(1, 2), (2, 2), (2, 3), (2, 4), (3, 4), (4, 3), (1, 4), (4, 4)]
    need = (1, 1, 1, 1)
    exempt = ("g",)

    def bigsizes(self):
        return [(4, 5), (6, 6), (4, 7), (7, 6), (1, 12), (8, 8), (3, 10), (2, 14), (10, 10)]

    effort = 20000
    density = (1, 6)

    def mark(self, v):
        return [v, "math_G"] if v != "g" else None

    def show(self, g, sol, y):
        super().show(g, sol, y)
        for i, v in enumerate(sol):
            if v == "g":
                y.surface[g.rc(i)] = 8

    def put(self, b, r, c, v):                       # only neutral cells can be given
        if v == "g":
            (b.a if self.where else b.q).surface[(r, c)] = 8

    blankhint = True

    def given(self, b, g):
        return {g.i(*k): "g" for k, v in surfaces(b).items()}

    def wrong(self, d, b, g, param):
        b.q.surface[d.choice(g.cells)] = 4

    def setup(self, d, b, g, param):
        lab = [-1] * g.n
        k = 0
        for i in range(g.n):
            if lab[i] < 0:
                o = [j for j in g.nb4[i] if j > i and lab[j] < 0]
                lab[i] = k
                if o:
                    lab[d.choice(o)] = k
                k += 1
        if any(lab.count(x) != 2 for x in lab):      # a plain tiling instead
            for i in range(g.n):
                r, c = g.rc(i)
                lab[i] = (r, c // 2) if g.C % 2 == 0 else (r // 2, c)
        for key in edges_of(g, lab):
            b.q.edge[key] = True
        if d.chance(1, 2):
            for key in outer_edges(g.R, g.C):
                b.q.edge[key] = True

    def dom(self, b, g, param):
        return [[2, 3, "g"] for _ in range(g.n)]

    def differ(self, b, g, param):
        return g.pairs4

    def rules(self, b, g, param):
        return [(x, lambda v: v[0] == "g" and v[1] == "g" or "g" not in v) for x in room_lists(g, labels(b, g))]

    def clues(self, d, b, g, sol, param):
        p = d.choice([1, 2, 3])
        for r in range(g.R):
            row = [sol[g.i(r, c)] for c in range(g.C)]
            for v, c in ((2, -1), (3, g.C)):
                if d.chance(p, 4):
                    num(b, r, c, noisy(d, row.count(v), 0, g.C, (1, 40)))
        for c in range(g.C):
            col = [sol[g.i(r, c)] for r in range(g.R)]
            for v, r in ((2, -1), (3, g.R)):
                if d.chance(p, 4):
                    num(b, r, c, noisy(d, col.count(v), 0, g.R, (1, 40)))

    def clue_rules(self, b, g, param):
        out = []
        R, C = rows_of(g), cols_of(g)
        for (r, c), n in texts(b).items():
            if g.inside(r, c):
                continue
            x = R[r] if 0 <= r < g.R else C[c]
            k = 2 if -1 in (r, c) else 3
            out.append((x, lambda v, k=k, n=n: v.count(k) == n))
        return out


@register
class News(Place):
    name = "news"
    values = tuple("NEWS")
    sizes = [(1, 2), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (2, 4), (4, 4)]
    effort = 20000
    density = (1, 6)

    def setup(self, d, b, g, param):
        draw_rooms(d, b, g, max(1, g.n // 4))
        self.shape = d.choice(["ox_B", "ox_E"])
        self.cross = d.choice([4, 7, 8])

    def dom(self, b, g, param):
        return [[BLANK, "N", "E", "W", "S"] for _ in range(g.n)]

    def differ(self, b, g, param):
        return line_pairs(g) + room_pairs(g, labels(b, g))

    def rules(self, b, g, param):
        out = []
        for x in room_lists(g, labels(b, g)):
            at = [g.rc(i) for i in x]

            def ok(v, at=at):
                k = [(a, t) for a, t in zip(at, v) if t != BLANK]
                if len(k) != 2:
                    return False
                for (p, t), (q, _) in (k, k[::-1]):
                    if not {"N": p[0] < q[0], "S": p[0] > q[0], "W": p[1] < q[1], "E": p[1] > q[1]}[t]:
                        return False
                return True
            out.append((x, ok))
        return out

    def show(self, g, sol, y):
        for i, v in enumerate(sol):
            if v != BLANK:
                y.number[(*g.rc(i), "C")] = [v, 2, "1"]

    def put(self, b, r, c, v):
        if v == BLANK:
            b.q.symbol[(r, c, "C")] = [self.cross, self.shape, 1]
        else:
            (b.a if self.where else b.q).number[(r, c, "C")] = text(v)

    blankhint = True

    def given(self, b, g):
        out = {g.i(*k): v for k, v in texts(b).items()}
        out.update({g.i(*k): BLANK for k in symbols(b)})
        return out

    def wrong(self, d, b, g, param):
        k = d.choice(g.cells)
        if (*k, "C") not in b.q.symbol and (*k, "C") not in b.a.number:
            b.q.number[(*k, "C")] = text(d.choice("NEWS"))


@register
class StarBattle(Place):
    name = "starbattle"
    values = (2, 0)
    sizes = [(1, 1), (2, 2), (4, 4), (4, 4), (5, 5), (5, 5), (6, 6), (4, 5)]
    need = (0, 0, 0, 0)

    def mark(self, v):
        return [2, "star"] if v == 2 else None

    def read(self, s):
        return {"star__2": 2, "star__0": 0}.get(s)

    def stars(self, g, k, cap, rnd=None, part=None):
        """Placements of k stars in every row and column without touching, as masks."""
        opts = [m for m in range(1 << g.C) if pc(m) == k and not m & m << 1]
        if rnd:
            rnd.shuffle(opts)
        out = []
        left = [k] * g.C

        def rec(r, prev, m):
            if len(out) >= cap:
                return
            if r == g.R:
                if not any(left):
                    out.append(m)
                return
            near = prev | prev << 1 | prev >> 1
            for o in opts:
                if o & near:
                    continue
                on = list(g.bits(o))
                if any(left[c] == 0 for c in on):
                    continue
                for c in on:
                    left[c] -= 1
                if max(left) <= g.R - 1 - r:
                    rec(r + 1, o, m | o << r * g.C)
                for c in on:
                    left[c] += 1
        rec(0, 0, 0)
        return out

    @lru_cache(None)
    def base(self, R, C, k):
        return self.stars(grid(R, C), k, 10 ** 9)

    def gen(self, d):
        k = 2 if d.chance(1, 8) else 0 if d.chance(1, 30) else 1
        R, C = d.choice([(8, 8), (8, 8), (9, 9)]) if k == 2 else d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C)
        sols = self.base(R, C, k) if k < 2 or R == 8 else None
        if sols is None:
            sols = self.stars(g, k, 1, random.Random(d.int(0, 1 << 20)))
        lab = None
        if sols:
            m = d.big(sols)
            lab = star_rooms(d, g, m, max(1, k)) if k and not d.chance(1, 12) else None
        draw_rooms(d, b, g, R, lab=lab)
        y = hint_layer(d, b)
        for i in d.sample(range(g.n), d.int(0, 4) if k < 2 else d.int(2, 10)):
            on = bool(sols and m >> i & 1) ^ d.chance(1, 60)
            y.symbol[(*g.rc(i), "C")] = [2 if on else 0, "star", 1]
        if d.chance(1, 10):                          # decoration above the board
            b = widen(b, 1)
            b.q.symbol[(-1, C - 1, "C")] = [2, "star", 1]
        return Case(self.name, b, {"stars": str(k)})

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        k = int(case.param["stars"])
        rooms = rooms_of(g, labels(b, g))
        on = off = 0
        for i, v in self.given(b, g).items():
            if v == 2:
                on |= 1 << i
            else:
                off |= 1 << i
        for m in (self.base(g.R, g.C, k) if (k < 2 or g.R <= 8) else self.stars9(g, k, rooms)):
            if m & on == on and not m & off and all(pc(m & x) == k for x in rooms):
                y = Layer()
                for i in g.bits(m):
                    y.symbol[(*g.rc(i), "C")] = [2, "star", 1]
                yield y

    def stars9(self, g, k, rooms):
        """Row by row with room counts."""
        opts = [m for m in range(1 << g.C) if pc(m) == k and not m & m << 1]
        at = {}
        for j, x in enumerate(rooms):
            for i in g.bits(x):
                at[i] = j
        last = [max(i for i in at if at[i] == j) // g.C for j in range(len(rooms))]
        left = [k] * g.C
        room = [k] * len(rooms)

        def rec(r, prev, m):
            if r == g.R:
                if not any(left) and not any(room):
                    yield m
                return
            near = prev | prev << 1 | prev >> 1
            for o in opts:
                if o & near:
                    continue
                on = list(g.bits(o))
                for c in on:
                    left[c] -= 1
                    room[at[r * g.C + c]] -= 1
                if min(left) >= 0 and min(room) >= 0 and max(left) <= g.R - 1 - r and all(
                        room[j] == 0 for j in range(len(rooms)) if last[j] == r):
                    yield from rec(r + 1, o, m | o << r * g.C)
                for c in on:
                    left[c] += 1
                    room[at[r * g.C + c]] += 1
        yield from rec(0, 0, 0)


def widen(b, top):
    """The same marks on a board with at least this top margin."""
    nb = Board(b.rows, b.cols, (max(top, b.margin[0]), *b.margin[1:]), b.kind)
    nb.q, nb.a = b.q, b.a
    return nb


def star_rooms(d, g, m, k):
    """Rooms with k stars each where possible: pair up stars, connect them by growth."""
    seeds = list(g.bits(m))
    lab = [-1] * g.n
    n = 0
    rest = set(seeds)
    while rest:
        s = min(rest)
        rest.discard(s)
        lab[s] = n
        if k == 2 and rest:
            # walk to the nearest other star through free cells
            seen, layer, hit = {s: None}, [s], None
            while layer and hit is None:
                nxt = []
                for i in layer:
                    for j in g.nb4[i]:
                        if j in seen or lab[j] >= 0:
                            continue
                        seen[j] = i
                        if j in rest:
                            hit = j
                            break
                        nxt.append(j)
                    if hit is not None:
                        break
                layer = nxt
            if hit is not None:
                rest.discard(hit)
                while hit is not None:
                    lab[hit] = n
                    hit = seen[hit]
        n += 1
    while True:
        opts = [(i, j) for i in range(g.n) if lab[i] < 0 for j in g.nb4[i] if lab[j] >= 0]
        if not opts:
            return lab
        i, j = opts[d.int(0, len(opts) - 1)]
        lab[i] = lab[j]


def rect_ok(comp):
    """Is a set of quarter cells (r, c, side) a rectangle, upright or turned by 45 degrees?"""
    pts = {"N": ((0, 0), (0, 2)), "S": ((2, 0), (2, 2)), "W": ((0, 0), (2, 0)), "E": ((0, 2), (2, 2))}
    xs, ys, us, vs = [], [], [], []
    for r, c, s in comp:
        for y, x in pts[s] + ((1, 1),):
            y, x = y + 2 * r, x + 2 * c
            xs.append(x)
            ys.append(y)
            us.append(x + y)
            vs.append(x - y)
    a = len(comp)                                    # area unit: a quarter cell, i.e. 1 in doubled coordinates
    up = (max(xs) - min(xs)) * (max(ys) - min(ys))
    tilt = (max(us) - min(us)) * (max(vs) - min(vs)) / 2
    return a == up or a == tilt


@register
class Shakashaka(Place):
    name = "shakashaka"
    values = ("w", "ul", "ur", "dl", "dr")
    sizes = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4)]
    effort = 60000
    most = 200
    density = (0, 1)
    pins = False
    TRI = {"ul": 1, "ur": 4, "dl": 2, "dr": 3}
    # octants (clockwise from the top right) of each cell's corner, white or not: a cell corner at a vertex spans two octants
    DARK = {"ul": "NW", "ur": "NE", "dl": "SW", "dr": "SE"}

    def mark(self, v):
        return [self.TRI[v], "tri"] if v in self.TRI else None

    def given(self, b, g):
        return {}

    def put(self, b, r, c, v):
        """Reveal by turning the cell into a wall (a triangle cannot be given)."""
        b.q.surface[(r, c)] = 4

    blankhint = True

    def setup(self, d, b, g, param):
        for i in range(g.n):
            if d.chance(1, 4):
                b.q.surface[g.rc(i)] = d.choice([4, 8, 1, 3])

    def dom(self, b, g, param):
        w = surfaces(b)
        return [["b"] if g.rc(i) in w else ["w", "ul", "ur", "dl", "dr"] for i in range(g.n)]

    def quarter(self, v, s):
        """Is the quarter s (N, E, S, W) of a cell with content v white?"""
        return v == "w" or v in self.DARK and s not in self.DARK[v]

    def rules(self, b, g, param):
        out = []
        # around every lattice point the white parts span 90, 180 or 360 degrees
        for r in range(g.R + 1):
            for c in range(g.C + 1):
                spots = [(r - 1, c, "SW"), (r, c, "WN"), (r, c - 1, "NE"), (r - 1, c - 1, "ES")]   # clockwise from up-right
                live = [(g.i(a, e), s) for a, e, s in spots if g.inside(a, e)]
                idx = {i: k for k, (i, _) in enumerate(live)}

                def ok(v, spots=spots, idx=idx):
                    # octants clockwise starting at "up": each cell contributes the two quarters touching the point
                    o = []
                    for a, e, s in spots:
                        if g.inside(a, e):
                            x = v[idx[g.i(a, e)]]
                            # order the two quarters clockwise around the point
                            o += [self.quarter(x, t) for t in ORDER[s]]
                        else:
                            o += [False, False]
                    if all(o):
                        return True
                    k = o.index(False)
                    o = o[k:] + o[:k]
                    return all(n in (2, 4) for n in runs(o))
                out.append(([i for i, _ in live], ok))
        out.append((list(range(g.n)), lambda v: self.legal(g, v)))
        return out

    def legal(self, g, v):
        cells = {(*g.rc(i), s) for i, x in enumerate(v) for s in "NESW" if self.quarter(x, s)}
        step = {"N": (-1, 0, "S"), "S": (1, 0, "N"), "E": (0, 1, "W"), "W": (0, -1, "E")}
        while cells:
            comp, stack = set(), [cells.pop()]
            while stack:
                r, c, s = stack.pop()
                comp.add((r, c, s))
                a, e, t = step[s]
                for k in [(r + a, c + e, t)] + [(r, c, q) for q in ("EW" if s in "NS" else "NS")]:
                    if k in cells:
                        cells.discard(k)
                        stack.append(k)
            if not rect_ok(comp):
                return False
        return True

    def tri(self, v):
        return v in self.TRI

    def clues(self, d, b, g, sol, param):
        for (r, c) in sorted(surfaces(b)):
            if d.chance(2, 3):
                n = sum(self.tri(sol[j]) for j in g.nb4[g.i(r, c)])
                num(b, r, c, d.choice(["?", " "]) if d.chance(1, 10) else noisy(d, n, 0, 4, (1, 40)))

    def clue_rules(self, b, g, param):
        return [(g.nb4[g.i(*k)], lambda v, n=n: sum(map(self.tri, v)) == n) for k, n in texts(b).items() if isinstance(n, int)]

    def wrong(self, d, b, g, param):
        pass


# the quarters of a cell that touch the lattice point, clockwise around the point.  The cell up-right of the point touches
# it with its bottom-left corner: first its W quarter (next to the upward line), then its S quarter.
ORDER = {"SW": "WS", "WN": "NW", "NE": "EN", "ES": "SE"}


# --------------------------------------------------------------------------- sets of marked cells
class Spots(Model):
    """Answers are sets of marked cells, enumerated as masks."""

    cat = "var"
    sizes = [(1, 1), (1, 4), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (2, 5)]
    need = (0, 0, 0, 0)
    sym = None                 # [style, shape]

    def setup(self, d, b, g, param):
        pass

    def param(self, d, g):
        return {}

    def prune(self, b, g, param):
        """(must, must not) masks before clues."""
        return 0, 0

    def rule(self, b, g, param, clued=True):
        raise NotImplementedError

    def clues(self, d, b, g, m, param):
        pass

    def hint_masks(self, b, g):
        if not self.sym:
            return 0, 0
        on = 0
        want = f"{self.sym[1]}__{self.sym[0]}"
        for k, v in symbols(b).items():
            if v == want:
                on |= g.bit(*k)
        return on, 0

    def hint(self, d, b, g, m):
        y = hint_layer(d, b)
        for i in d.sample(list(g.bits(m)) or [0], d.int(0, 2)):
            y.symbol.setdefault((*g.rc(i), "C"), [*self.sym, 1])

    def bounds(self, b, g, param, clued=True):
        """(must, must not) masks."""
        on, off = self.prune(b, g, param)
        if clued:
            x, y = self.hint_masks(b, g)
            on, off = on | x, off | y
        return on, off

    def start(self, rnd, b, g, param):
        """An answer of a large board without clues, or None."""

    def masks(self, b, g, param, clued=True):
        on, off = self.bounds(b, g, param, clued)
        ok = self.rule(b, g, param, clued)
        free = g.full & ~on & ~off
        if on & off:
            return
        s = free
        while True:
            if ok(s | on):
                yield s | on
            if not s:
                return
            s = (s - 1) & free

    def gen(self, d):
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C, self.need)
        param = {}
        self.setup(d, b, g, param)
        ms = list(self.masks(b, g, param, False))
        m = d.big(ms) if ms else d.int(0, g.full)
        self.clues(d, b, g, m, param)
        if d.chance(1, 3):
            self.hint(d, b, g, m)
        return Case(self.name, b, param)

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        for m in self.masks(b, g, case.param):
            yield self.marks(b, g, m)

    def marks(self, b, g, m):
        y = Layer()
        for i in g.bits(m):
            y.symbol[(*g.rc(i), "C")] = [*self.sym, 1]
        return y


@register
class Akari(Spots):
    name = "akari"
    sym = [3, "sun_moon"]

    def setup(self, d, b, g, param):
        for i in range(g.n):
            if d.chance(1, 4):
                b.q.surface[g.rc(i)] = d.choice([4, 4, 8, 1, 3])
            elif d.chance(1, 20):
                hint_layer(d, b).surface[g.rc(i)] = 2

    def walls(self, b, g):
        return g.mask(k for k, v in surfaces(b).items() if v in "BG")

    def prune(self, b, g, param):
        return 0, self.walls(b, g)

    def start(self, rnd, b, g, param):
        w = self.walls(b, g)
        m = lit = 0
        for i in rnd.sample(range(g.n), g.n):
            if (w | lit) >> i & 1:
                continue
            m |= 1 << i
            lit |= 1 << i
            for e in ((-1, 0), (1, 0), (0, -1), (0, 1)):
                for j in g.ray(*g.rc(i), *e):
                    if w >> j & 1:
                        break
                    lit |= 1 << j
        return m

    def rule(self, b, g, param, clued=True):
        w = self.walls(b, g)
        see = []
        for i in range(g.n):
            s = 0
            for e in ((-1, 0), (1, 0), (0, -1), (0, 1)):
                for j in g.ray(*g.rc(i), *e):
                    if w >> j & 1:
                        break
                    s |= 1 << j
            see.append(s)
        t = [(g.m4[g.i(*k)], v) for k, v in texts(b).items() if isinstance(v, int)] if clued else []
        free = [i for i in range(g.n) if not w >> i & 1]

        def ok(m):
            for i in free:
                if m >> i & 1:
                    if m & see[i]:
                        return False
                elif not m & see[i]:
                    return False
            return all(pc(x & m) == v for x, v in t)
        return ok

    def clues(self, d, b, g, m, param):
        w = self.walls(b, g)
        cell_clues(d, b, g, lambda r, c: pc(g.m4[g.i(r, c)] & m), 0, 4, g.coords(w), (2, 3))


@register
class Mines(Spots):
    name = "mines"
    sym = [4, "sun_moon"]

    def start(self, rnd, b, g, param):
        p = rnd.choice([0.1, 0.3, 0.5, 0.8])
        return g.mask(rc for rc in g.cells if rnd.random() < p)

    def rule(self, b, g, param, clued=True):
        if not clued:
            return lambda m: True
        t = [(1 << g.i(*k), g.m8[g.i(*k)], v) for k, v in texts(b).items()]
        n = int(param["mine_count"]) if param["mine_count"] != "" else None
        return lambda m: (n is None or pc(m) == n) and all(not m & x and pc(y & m) == v for x, y, v in t)

    def setup(self, d, b, g, param):
        param["mine_count"] = ""

    def clues(self, d, b, g, m, param):
        if d.chance(1, 2):
            param["mine_count"] = str(max(0, pc(m) + (d.choice([-1, 1]) if d.chance(1, 15) else 0)))
        cell_clues(d, b, g, lambda r, c: pc(g.m8[g.i(r, c)] & m), 0, 8, g.coords(g.full & ~m), (2, 5), q=None)


@register
class Juosan(Spots):
    name = "juosan"
    sizes = [(1, 3), (1, 5), (2, 3), (3, 3), (3, 4), (4, 3), (5, 1), (2, 6)]

    def setup(self, d, b, g, param):
        draw_rooms(d, b, g)

    def start(self, rnd, b, g, param):
        return g.mask((r, c) for r, c in g.cells if (r + c) % 2)

    def rule(self, b, g, param, clued=True):
        """m: cells with a horizontal line."""
        rm = []
        if clued:
            s = sudokus(b)
            rm = [(m, s[(r, c, 0)]) for m in rooms_of(g, labels(b, g)) for r, c in g.coords(m) if isinstance(s.get((r, c, 0)), int)]
        up = [g.bit(r, c) | g.bit(r + 1, c) | g.bit(r + 2, c) for r in range(g.R - 2) for c in range(g.C)]
        ac = [g.bit(r, c) | g.bit(r, c + 1) | g.bit(r, c + 2) for r in range(g.R) for c in range(g.C - 2)]
        return lambda m: (all(m & x != x for x in up) and all(m & x for x in ac)
                          and all(v in (pc(m & x), pc(x & ~m)) for x, v in rm))

    def clues(self, d, b, g, m, param):
        for x in rooms_of(g, labels(b, g)):
            if d.chance(2, 3):
                n = pc(m & x) if d.chance(1, 2) else pc(x & ~m)
                r, c = g.coords(x)[0] if d.chance(2, 3) else d.choice(g.coords(x))
                b.q.sudoku[(r, c, 0)] = ["?" if d.chance(1, 12) else str(noisy(d, n, 0, pc(x), (1, 25))), 1]

    def hint(self, d, b, g, m):
        pass

    def hint_masks(self, b, g):
        return 0, 0

    def marks(self, b, g, m):
        y = Layer()
        for i in range(g.n):
            y.number[(*g.rc(i), "C")] = ["——" if m >> i & 1 else "|", 2, "1"]
        return y


@register
class Tents(Spots):
    name = "tents"
    sym = [2, "tents"]
    need = (1, 0, 1, 0)
    sizes = [(1, 2), (1, 4), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (2, 5), (3, 5), (4, 4)]

    def setup(self, d, b, g, param):
        free = list(range(g.n))
        tents = trees = 0
        for i in d.sample(free, d.int(0, max(5, g.n // 5))):
            if g.m8[i] & tents or (trees | tents) >> i & 1:
                continue
            o = [j for j in g.nb4[i] if not (trees | tents) >> j & 1]
            if o:
                tents |= 1 << i
                trees |= 1 << d.choice(o)
        self.pitched = tents
        if d.chance(1, 15):
            trees |= 1 << d.choice(free)
        if g.R >= 3 and g.C >= 3 and d.chance(1, 8):        # a ring: two ways to pair the same tents and trees
            r, c = d.int(0, g.R - 3), d.int(0, g.C - 3)
            trees = g.mask([(r, c + 1), (r + 1, c), (r + 1, c + 2), (r + 2, c + 1)])
        for i in g.bits(trees):
            b.q.symbol[(*g.rc(i), "C")] = [1, "tents", 1]

    def start(self, rnd, b, g, param):
        return self.pitched

    def trees(self, b, g):
        return g.mask(k for k, v in symbols(b).items() if v == "tents__1")

    def prune(self, b, g, param):
        return 0, self.trees(b, g)

    def rule(self, b, g, param, clued=True):
        tr = list(g.bits(self.trees(b, g)))
        t = []
        if clued:
            t = [((g.row[r] if c < 0 else g.col[c]), v) for (r, c), v in texts(b).items() if isinstance(v, int)]

        def match(m):
            owner = {}

            def aug(x, seen):
                for j in g.nb4[x]:
                    if m >> j & 1 and j not in seen:
                        seen.add(j)
                        if j not in owner or aug(owner[j], seen):
                            owner[j] = x
                            return True
                return False
            return all(aug(x, set()) for x in tr)

        return lambda m: (pc(m) == len(tr) and all(not m & g.m8[i] for i in g.bits(m)) and all(pc(m & x) == v for x, v in t) and match(m))

    def clues(self, d, b, g, m, param):
        p = d.choice([1, 2, 3])
        for r in range(g.R):
            if d.chance(p, 4):
                num(b, r, -1, "?" if d.chance(1, 10) else noisy(d, pc(m & g.row[r]), 0, 3, (1, 40)))
        for c in range(g.C):
            if d.chance(p, 4):
                num(b, -1, c, "?" if d.chance(1, 10) else noisy(d, pc(m & g.col[c]), 0, 3, (1, 40)))


@register
class Nondango(Spots):
    name = "nondango"
    sizes = [(1, 3), (2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (2, 6)]
    sym = [2, "circle_M"]

    def setup(self, d, b, g, param):
        k = d.int(1, 3)
        self.layer = 0
        for i in range(g.n):
            if d.chance(k + 2, 6) if g.n <= 16 else d.chance(k, 7):
                b.q.symbol[(*g.rc(i), "C")] = [4, "circle_M", 1]
        draw_rooms(d, b, g, max(1, g.n // 3))
        if g.n > 16:
            for x in rooms_of(g, labels(b, g)):
                if not x & self.spots(b, g) and d.chance(49, 50):
                    b.q.symbol[(*d.choice(g.coords(x)), "C")] = [4, "circle_M", 1]

    def spots(self, b, g):
        return g.mask(k[:2] for y in (b.a, b.q) for k, v in y.symbol.items() if v[0] == 4)

    def prune(self, b, g, param):
        return 0, g.full & ~self.spots(b, g)

    def rule(self, b, g, param, clued=True):
        s = self.spots(b, g)
        rm = rooms_of(g, labels(b, g))
        tr = []
        for r, c in g.cells:
            for a, e in ((0, 1), (1, 0), (1, 1), (1, -1)):
                x = [g.bit(r + k * a, c + k * e) for k in range(3)]
                if all(x):
                    tr.append(sum(x))
        return lambda m: all(pc(m & x) == 1 for x in rm) and all(m & x != x and (s & ~m) & x != x for x in tr)

    def hint_masks(self, b, g):
        on = off = 0
        for y in (b.a, b.q):
            for (r, c, _), (k, _, _) in y.symbol.items():
                if k == 2:
                    on |= g.bit(r, c)
                if k == 1:
                    off |= g.bit(r, c)
        return on, off

    def hint(self, d, b, g, m):
        s = self.spots(b, g)
        for i in d.sample(list(g.bits(s)) or [0], d.int(0, 2)):
            if s >> i & 1:
                b.a.symbol[(*g.rc(i), "C")] = [2 if bool(m >> i & 1) ^ d.chance(1, 20) else 1, "circle_M", 1]

    def marks(self, b, g, m):
        y = Layer()
        for i in g.bits(self.spots(b, g)):
            y.symbol[(*g.rc(i), "C")] = [2 if m >> i & 1 else 1, "circle_M", 1]
        return y


@register
class Gokigen(Spots):
    """m: cells with a falling diagonal (top left to bottom right)."""

    name = "gokigen"
    sizes = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (2, 5)]

    def __init__(self):
        self._base = {}

    def vertex(self, g, r, c):
        return r * (g.C + 1) + c

    def ends(self, g, i, falling):
        r, c = g.rc(i)
        return ((r, c), (r + 1, c + 1)) if falling else ((r, c + 1), (r + 1, c))

    def acyclic(self, g, m):
        par = list(range((g.R + 1) * (g.C + 1)))

        def find(x):
            while par[x] != x:
                par[x] = par[par[x]]
                x = par[x]
            return x
        for i in range(g.n):
            a, e = self.ends(g, i, m >> i & 1)
            a, e = find(self.vertex(g, *a)), find(self.vertex(g, *e))
            if a == e:
                return False
            par[a] = e
        return True

    def masks(self, b, g, param, clued=True):
        key = (g.R, g.C)
        if key not in self._base:
            self._base[key] = [m for m in range(1 << g.n) if self.acyclic(g, m)]
        if not clued:
            yield from self._base[key]
            return
        ok = self.told(b, g)
        yield from filter(ok, self._base[key])

    def told(self, b, g):
        t = []
        for (r, c), v in texts(b, "TL").items():
            if isinstance(v, int):
                fall = g.bit(r, c) | g.bit(r - 1, c - 1)
                rise = g.bit(r - 1, c) | g.bit(r, c - 1)
                t.append((fall, rise, v))
        return lambda m: all(pc(m & f) + pc(~m & e) == v for f, e, v in t)

    def rule(self, b, g, param, clued=True):
        ok = self.told(b, g) if clued else lambda m: True
        return lambda m: ok(m) and self.acyclic(g, m)

    def start(self, rnd, b, g, param):
        return g.full if rnd.random() < .5 else 0

    def clues(self, d, b, g, m, param):
        p = d.choice([1, 2, 4])
        for r in range(g.R + 1):
            for c in range(g.C + 1):
                if d.chance(p, 6):
                    v = pc(m & (g.bit(r, c) | g.bit(r - 1, c - 1))) + pc(~m & (g.bit(r - 1, c) | g.bit(r, c - 1)))
                    num(b, r, c, "?" if d.chance(1, 12) else noisy(d, v, 0, 4, (1, 50)), "TL")

    def hint(self, d, b, g, m):
        pass

    def marks(self, b, g, m):
        y = Layer()
        for i in range(g.n):
            r, c = g.rc(i)
            y.edge[("D" if m >> i & 1 else "U", r, c)] = True
        return y


# --------------------------------------------------------------------------- polyominoes
def placements(g, shape):
    """Masks of all positions of a shape given by cells."""
    out = set()
    for o in orientations(shape):
        h, w = max(r for r, _ in o) + 1, max(c for _, c in o) + 1
        for r in range(g.R - h + 1):
            for c in range(g.C - w + 1):
                out.add(g.mask((a + r, e + c) for a, e in o))
    return sorted(out)


@register
class Pentopia(Shade):
    name, cat = "pentopia", "var"
    weight = 0.15
    sizes = [(1, 6), (2, 4), (3, 3), (3, 4), (4, 4), (3, 5), (4, 5), (5, 5)]
    BITS = [(128, (0, -1)), (64, (-1, 0)), (32, (0, 1)), (16, (1, 0))]

    def enum(self, g):
        key = (g.R, g.C, "e")
        if key in self._base:
            return self._base[key]
        ps = [(m, k) for k, s in POLY_CELLS.items() if k[1] == "5" for m in placements(g, s)]
        out = []

        def rec(start, m, near, used):
            out.append(m)
            for j in range(start, len(ps)):
                x, k = ps[j]
                if k not in used and not x & near:
                    rec(j + 1, m | x, near | g.grow8(x), used | {k})
        rec(0, 0, 0, frozenset())
        self._base[key] = sorted(out)
        return self._base[key]

    def whole(self, g, m):
        cs = [g.coords(k) for k in g.comps(m, True)]
        if any(len(k) != 5 or not g.connected(g.mask(k)) for k in cs):
            return False
        names = [omino_name(k) for k in cs]
        return len(set(names)) == len(names)

    def reach(self, g, i, m):
        """Distance to the first shaded cell in each direction (left, up, right, down)."""
        far = max(g.R, g.C) + 1
        out = []
        for _, e in self.BITS:
            k = far
            for n, j in enumerate(g.ray(*g.rc(i), *e), 1):
                if m >> j & 1:
                    k = n
                    break
            out.append(k)
        return out

    def clues(self, d, b, g, m, param):
        far = max(g.R, g.C) + 1
        for i in range(g.n):
            if m >> i & 1 or not d.chance(1, 4):
                continue
            ds = self.reach(g, i, m)
            if min(ds) == far:
                continue
            on = [x == min(ds) for x in ds]
            if d.chance(1, 40):
                on[d.int(0, 3)] ^= True
            if any(on) and not all(on):
                b.q.symbol[(*g.rc(i), "C")] = [[int(x) for x in on] + [0] * 4, "arrow_cross", 1]

    def rule(self, b, g, param):
        t = []
        for (r, c), (_, bits) in symbols(b).items():
            t.append((g.i(r, c), [bool(x) for x in bits[:4]]))

        def ok(m):
            for i, on in t:
                if m >> i & 1:
                    return False
                ds = self.reach(g, i, m)
                k = min(ds)
                if [x == k for x in ds] != on:
                    return False
            return True
        return ok


class Fleet(Model):
    """A fixed set of polyominoes, each placed the given number of times."""

    cat = "var"
    budget = 40000
    limit = 60

    def pieces(self, param):
        """[(name, shape cells, times)]"""
        raise NotImplementedError

    def touch(self, g, m):
        """Cells no other piece may use."""
        raise NotImplementedError

    def final(self, g, m):
        return True

    @lru_cache(None)
    def table(self, R, C, names):
        g = grid(R, C)
        return [(n, [(m, self.touch(g, m)) for m in placements(g, s)]) for n, s in names]

    def pack(self, g, param, rnd, tries=80):
        """A random arrangement, pieces put close together; None when not found."""
        tab = dict(self.table(g.R, g.C, tuple((n, tuple(map(tuple, s))) for n, s, _ in self.pieces(param))))
        names = [n for n, s, k in self.pieces(param) for _ in range(k)]
        for _ in range(tries):
            m = near = 0
            acc = []
            width = rnd.choice([3, 6, 12, 25])
            for n in sorted(names, key=lambda n: rnd.random() - 2 * pc(tab[n][0][0])):
                fit = [x for x in tab[n] if not x[0] & near]
                fit = [x for x in rnd.sample(fit, min(width, len(fit))) if self.final(g, m | x[0])]
                if not fit:
                    break
                x, nx = min(fit, key=lambda x: pc(near | x[1]))
                m, near = m | x, near | nx
                acc.append(x)
            else:
                return acc
        return None

    def arrange(self, g, param, on, off, counts=None, rnd=None, cap=None, budget=None):
        """Arrangements (lists of masks): on covered, off free, counts {('r'|'c', k): n}; None when over budget."""
        tab = self.table(g.R, g.C, tuple((n, tuple(map(tuple, s))) for n, s, _ in self.pieces(param)))
        todo = []
        size = 0
        for (n, s, k), (_, ms) in zip(self.pieces(param), tab):
            ms = [x for x in ms if not x[0] & off]
            todo.append((n, k, ms, len(s)))
            size += k * len(s)
        todo.sort(key=lambda x: (-x[3], len(x[2])))
        lim = {(k, j): n for (k, j), n in (counts or {}).items()}
        if pc(on) > size:
            return []
        for k, full in (("r", g.R), ("c", g.C)):
            if all((k, j) in lim for j in range(full)) and sum(lim[(k, j)] for j in range(full)) != size:
                return []
        lines = [(g.row[j] if k == "r" else g.col[j], n) for (k, j), n in lim.items()]
        seq = [(t, i) for t, x in enumerate(todo) for i in range(x[1])]
        rest = [0] * (len(seq) + 1)
        for p in range(len(seq) - 1, -1, -1):
            rest[p] = rest[p + 1] + todo[seq[p][0]][3]
        lists = [x[2] for x in todo]
        if rnd:
            lists = [rnd.sample(x, len(x)) for x in lists]
        out = []
        nodes = [0]

        class Over(Exception):
            pass

        class Full(Exception):
            pass

        def rec(p, start, m, near, acc):
            nodes[0] += 1
            if budget and nodes[0] > budget:
                raise Over
            if pc(on & ~m) > rest[p]:
                return
            for x, n in lines:
                if pc(x & m) > n or pc(x & ~near | x & m) < n:
                    return
            if p == len(seq):
                if on & ~m == 0 and all(pc(x & m) == n for x, n in lines) and self.final(g, m):
                    out.append(list(acc))
                    if cap and len(out) >= cap:
                        raise Full
                return
            t, i = seq[p]
            ms = lists[t]
            for j in range(start if i else 0, len(ms)):
                x, nx = ms[j]
                if not x & near:
                    acc.append(x)
                    rec(p + 1, j + 1, m | x, near | nx, acc)
                    acc.pop()
        try:
            rec(0, 0, 0, off_near(g, off), [])
        except Over:
            return None
        except Full:
            pass
        return out


def off_near(g, off):
    return off


@register
class Battleship(Fleet):
    name = "battleship"
    weight = 0.3

    def pieces(self, param):
        return [(k, [(0, c) for c in range(k)], 5 - k) for k in (4, 3, 2, 1)]

    def touch(self, g, m):
        return g.grow8(m)

    def part(self, g, ship, i):
        """Picture of cell i of a ship."""
        if pc(ship) == 1:
            return 1
        r, c = g.rc(i)
        up, dn, lf, rt = (bool(g.bit(a, e) & ship) for a, e in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)))
        if (up and dn) or (lf and rt):
            return 2
        return 3 if rt else 4 if dn else 5 if lf else 6

    def pictures(self, g, ships):
        return {i: self.part(g, s, i) for s in ships for i in g.bits(s)}

    def gen(self, d):
        R, C = d.choice([(7, 7), (7, 8), (8, 7), (8, 8), (6, 9)])
        g = grid(R, C)
        b = new_board(d, R, C, (1, 0, 1, 0))
        rnd = random.Random(d.int(0, 1 << 20))
        got = [self.pack(g, {}, rnd)]
        if not got[0]:
            return Case(self.name, b, {})
        ships = got[0]
        m = sum(ships)
        for r in range(R):
            if d.chance(9, 10):
                num(b, r, -1, noisy(d, pc(m & g.row[r]), 0, C, (1, 120)))
            elif d.chance(1, 2):
                num(b, r, -1, "?")
        for c in range(C):
            if d.chance(9, 10):
                num(b, -1, c, noisy(d, pc(m & g.col[c]), 0, R, (1, 120)))
        pic = self.pictures(g, ships)
        fleet = d.choice(["battleship_B", "battleship_B", "battleship_G", "battleship_W"])
        order = d.shuffle(range(g.n))
        k = d.int(1, 6)
        y = hint_layer(d, b)
        while True:
            for i in order[:k]:
                v = pic.get(i, d.choice([7, 8]))
                if d.chance(1, 150):
                    r, c = g.rc(i)
                    v = d.choice([1] + [2] * (0 < r < R - 1 or 0 < c < C - 1) + [3] * (c < C - 1) + [4] * (r < R - 1) + [5] * (c > 0) + [6] * (r > 0))
                y.symbol[(*g.rc(i), "C")] = [v, fleet, 1]
            order = order[k:]
            sols = self.find(b, g, self.limit + 1, self.budget)
            if sols is not None and len(sols) <= self.limit or not order:
                break
            k = 3
        return Case(self.name, b, {})

    def find(self, b, g, cap=None, budget=None):
        on = off = 0
        pics = []
        for (r, c), s in symbols(b).items():
            v = int(s.split("__")[1])
            if v in (7, 8):
                off |= g.bit(r, c)
            else:
                on |= g.bit(r, c)
                pics.append((g.i(r, c), v))
                # cells that must be water next to this picture
                for a in (-1, 0, 1):
                    for e in (-1, 0, 1):
                        if a and e:
                            off |= g.bit(r + a, c + e)
        if on & off:
            return []
        counts = {}
        for (r, c), v in texts(b).items():
            if isinstance(v, int):
                counts[("r", r) if c == -1 else ("c", c)] = v
        got = self.arrange(g, {}, on, off, counts, cap=cap, budget=budget)
        if got is None:
            return None
        out = []
        for ships in got:
            p = self.pictures(g, ships)
            if all(p.get(i) == v for i, v in pics):
                out.append(p)
        return out

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        fleet = "battleship_B"
        for s in symbols(b).values():
            fleet = s.split("__")[0]
        for p in self.find(b, g):
            y = Layer()
            for i, v in p.items():
                y.symbol[(*g.rc(i), "C")] = [v, fleet, 1]
            yield y


@register
class StatuePark(Fleet):
    name = "statuepark"
    weight = 0.3

    def pieces(self, param):
        k = {"tetro": ("4", 1), "pento": ("5", 1), "double_tetro": ("4", 2)}[param["shapeset"]]
        return [(n, s, k[1]) for n, s in sorted(POLY_CELLS.items()) if n[1] == k[0]]

    def touch(self, g, m):
        return g.grow4(m)

    def final(self, g, m):
        return g.connected(g.full & ~m)

    def gen(self, d):
        kind = d.choice(["tetro", "tetro", "tetro", "tetro", "double_tetro", "double_tetro", "pento"])
        R, C = d.choice({"tetro": [(6, 7), (7, 6), (7, 7), (6, 6)], "double_tetro": [(9, 10), (10, 10)], "pento": [(11, 12), (12, 12)]}[kind])
        g = grid(R, C)
        b = new_board(d, R, C)
        param = {"shapeset": kind}
        rnd = random.Random(d.int(0, 1 << 20))
        got = [self.pack(g, param, rnd)]
        if not got[0]:
            got = [[]]
        m = sum(got[0])
        order = d.shuffle(range(g.n))
        k = g.n // 2 if kind == "tetro" else 3 * g.n // 4
        y = hint_layer(d, b)
        while True:
            for i in order[:k]:
                on = bool(m >> i & 1) ^ d.chance(1, 1500)
                if d.chance(1, 6):
                    y.surface[g.rc(i)] = d.choice([8, 4, 1, 3]) if on else 2
                else:
                    y.symbol[(*g.rc(i), "C")] = [2 if on else 1, "circle_M", 1]
            order = order[k:]
            sols = self.find(b, g, param, self.limit + 1, self.budget)
            if sols is not None and len(sols) <= self.limit or not order:
                break
            k = max(3, g.n // 12)
        return Case(self.name, b, param)

    def find(self, b, g, param, cap=None, budget=None):
        on, off = hint_masks(b, g)
        for k, s in symbols(b).items():
            if s == "circle_M__2":
                on |= g.bit(*k)
            elif s == "circle_M__1":
                off |= g.bit(*k)
        if on & off:
            return []
        got = self.arrange(g, param, on, off, cap=cap, budget=budget)
        return got if got is None else [sum(x) for x in got]

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        for m in set(self.find(b, g, case.param)):
            yield mask_layer(g, m, 8)


# --------------------------------------------------------------------------- divisions
@register
class Fillmat(Rect):
    name, cat = "fillmat", "var"
    one = cross = False
    sizes = [(1, 4), (1, 6), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (4, 5)]

    def legal(self, g, m):
        h, w = g.rect_dims(m)
        return min(h, w) == 1 and max(h, w) <= 4

    def plant(self, d, b, g, param):
        best = None
        for _ in range(12):
            part = super().plant(d, b, g, param)
            k = sum(pc(part[i]) == pc(part[j]) for i, j in touching(g, part)) + (not crossing_free(g, part))
            if best is None or k < best[0]:
                best = (k, part)
            if not k:
                break
        return best[1]

    def value(self, d, g, part, m, r, c):
        return noisy(d, pc(m), 1, 4, (1, 40))

    def accept(self, b, g, param):
        return lambda s, acc: not any(pc(s) == pc(k) and g.grow4(s) & k for k in acc)


@register
class SymmArea(Fillomino):
    name, cat = "symmarea", "var"

    def param(self, d):
        return {"fast_mode": d.chance(1, 3)}

    def symmetric(self, g, m):
        cs = g.coords(m)
        R = min(r for r, _ in cs) + max(r for r, _ in cs)
        C = min(c for _, c in cs) + max(c for _, c in cs)
        return all(g.bit(R - r, C - c) & m for r, c in cs)

    def plant(self, d, b, g, param):
        best = None
        for _ in range(8):
            part, free, bad = [], g.full, 0
            while free:
                low = (free & -free).bit_length() - 1
                c = [s for s in connected_sets(g.R, g.C, low, 5) if s & free == s and self.symmetric(g, s)
                     and not any(pc(s) == pc(k) and g.grow4(s) & k for k in part)]
                if not c:
                    c = [1 << low]
                    bad += 1
                s = d.choice(c)
                part.append(s)
                free &= ~s
            if best is None or bad < best[0]:
                best = (bad, part)
            if not bad:
                break
        return best[1]

    def piece(self, b, g, param):
        t = [(g.bit(*k), v) for k, v in texts(b).items()]

        def ok(m):
            v = [n for x, n in t if x & m]
            if any(n != pc(m) for n in v):
                return False
            if param["fast_mode"] and not v:
                return pc(m) <= 5
            return self.symmetric(g, m)
        return ok
