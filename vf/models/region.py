"""Region division puzzles: answers are divisions of the board into regions, shown by their borders."""
from functools import lru_cache

from .base import *
from .base import pc
from ..grid import canon as shift, connected_sets, labels_from_masks, omino_name, rect_masks


def cover(g, cands, free, accept=None):
    """Exact covers of the mask `free` by candidate masks (cands(low) lists masks whose lowest cell is low)."""
    def rec(rest, acc):
        if not rest:
            yield tuple(acc)
            return
        low = (rest & -rest).bit_length() - 1
        for s in cands(low):
            if s & rest == s and (accept is None or accept(s, acc)):
                acc.append(s)
                yield from rec(rest & ~s, acc)
                acc.pop()
    yield from rec(free, [])


@lru_cache(None)
def sized_sets(R, C, cell, size):
    return tuple(s for s in connected_sets(R, C, cell, size) if pc(s) == size)


def clue_mask(b, g):
    return g.mask(k for k in texts(b) if g.inside(*k))


class Region(Model):
    cat = "region"
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (2, 5), (1, 4)]
    maxsize = None
    holes = False              # dark cells are holes
    rect = False
    need = (0, 0, 0, 0)
    edgehints = True
    free = False               # boards without clues have answers

    def bigfit(self, R, C):
        return True

    def bigparam(self, d, g):
        return self.param(d)

    # to override -------------------------------------------------------
    def piece(self, b, g, param):
        """Predicate over one region (mask)."""
        return lambda m: True

    def whole(self, b, g, param):
        """Predicate over a finished division (tuple of masks)."""
        return lambda part: True

    def single(self, b, g, param):
        """Predicate over one region of any shape: piece, and what cands adds to it."""
        ok = self.piece(b, g, param)
        return (lambda m: g.is_rect(m) and ok(m)) if self.rect else ok

    def legal_division(self, b, g, param):
        """Predicate over a division of a board of any size."""
        one, whole, acc = self.single(b, g, param), self.whole(b, g, param), self.accept(b, g, param)

        def ok(part):
            return all(one(m) for m in part) and (acc is None or all(acc(m, part[:i]) for i, m in enumerate(part))) and whole(tuple(part))
        return ok

    def accept(self, b, g, param):
        """Optional predicate (new mask, earlier masks) pruning the enumeration."""
        return None

    def clues(self, d, b, g, part, param):
        """Draw clues derived from the division."""

    def plant(self, d, b, g, param):
        """A division to derive the clues from (need not be perfect)."""
        hole = self.hole_mask(b, g)
        if self.rect:
            return random_rects(d, g, g.full & ~hole)
        return random_free(d, g, g.full & ~hole, self.maxsize)

    def param(self, d):
        return {}

    # generic -----------------------------------------------------------
    def hole_mask(self, b, g):
        return g.mask(k for k, v in surfaces(b).items() if v in "BG") if self.holes else 0

    def cands(self, b, g, param):
        ok = self.piece(b, g, param)
        memo = {}

        def f(low):
            if low not in memo:
                src = rect_masks(g.R, g.C)[low] if self.rect else connected_sets(g.R, g.C, low, self.maxsize or g.n)
                memo[low] = [s for s in src if ok(s)]
            return memo[low]
        return f

    def divisions(self, b, g, param):
        whole = self.whole(b, g, param)
        for part in cover(g, self.cands(b, g, param), g.full & ~self.hole_mask(b, g), self.accept(b, g, param)):
            if whole(part):
                yield part

    def drawn(self, g, part):
        return set(edges_of(g, labels_from_masks(g, part))) | set(outer_edges(g.R, g.C))

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        hints = {k: v for k, v in edges(b).items()}
        for part in self.divisions(b, g, case.param):
            e = self.drawn(g, part)
            if all((k in e) == v for k, v in hints.items()):
                y = Layer()
                for k in e:
                    y.edge[k] = True
                yield y

    def setup(self, d, b, g, param):
        if self.holes and d.chance(1, 2):
            col = d.choice([4, 8, 1, 3])
            for i in d.sample(range(g.n), d.int(1, max(1, g.n // 4))):
                b.q.surface[g.rc(i)] = col

    def gen(self, d):
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C, self.need)
        param = self.param(d)
        self.setup(d, b, g, param)
        part = self.plant(d, b, g, param)
        self.clues(d, b, g, part, param)
        self.after(d, b, g)
        if self.edgehints and d.chance(1, 3):
            edge_hints(d, b, g, self.drawn(g, part))
        return Case(self.name, b, param)

    def after(self, d, b, g):
        pass


def all_edges(g):
    return [("T", r, c) for r in range(g.R + 1) for c in range(g.C)] + [("L", r, c) for r in range(g.R) for c in range(g.C + 1)]


def inner_edges(g):
    return [("T", r, c) for r in range(1, g.R) for c in range(g.C)] + [("L", r, c) for r in range(g.R) for c in range(1, g.C)]


def edge_hints(d, b, g, drawn, n=3, wrong=(1, 25)):
    y = hint_layer(d, b)
    ks = inner_edges(g) if d.chance(2, 3) else all_edges(g)
    for k in d.sample(ks, min(len(ks), d.int(1, n))):
        if k not in b.q.edge:
            y.edge[k] = (k in drawn) ^ d.chance(*wrong)


def random_free(d, g, free, maxsize=None):
    """Random division of the free cells into connected regions."""
    part = []
    while free:
        comp = g.flood(free & -free, free)
        want = d.int(1, maxsize or max(2, g.n // 2))
        s = 1 << d.choice(list(g.bits(comp)))
        while pc(s) < want:
            f = g.grow4(s) & comp & ~s
            if not f:
                break
            s |= 1 << d.choice(list(g.bits(f)))
        part.append(s)
        free &= ~s
    return part


def random_sized(d, g, free, size):
    """Random division into regions of the given size when one is found, else a partial one."""
    best = []
    for _ in range(6):
        part, rest = [], free
        while rest:
            low = (rest & -rest).bit_length() - 1
            c = [s for s in sized_sets(g.R, g.C, low, size) if s & rest == s and all(pc(k) % size == 0 for k in g.comps(rest & ~s))]
            if not c:
                break
            s = d.choice(c)
            part.append(s)
            rest &= ~s
        if not rest:
            return part
        best = part
    return best


def random_rects(d, g, free, ok=None):
    part = []
    while free:
        low = (free & -free).bit_length() - 1
        c = [s for s in rect_masks(g.R, g.C)[low] if s & free == s and (ok is None or ok(s))]
        if not c:
            c = [1 << low]
        s = d.choice(c)
        part.append(s)
        free &= ~s
    return part


def fences(g, part):
    """Number of borders around each cell (outer borders included)."""
    lab = labels_from_masks(g, part)
    out = {}
    for r, c in g.cells:
        i = g.i(r, c)
        out[(r, c)] = 4 - sum(lab[j] == lab[i] for j in g.nb4[i])
    return out


def crossing_free(g, part):
    """No point where four regions meet."""
    lab = labels_from_masks(g, part)
    for r in range(g.R - 1):
        for c in range(g.C - 1):
            i = g.i(r, c)
            a, b, e, f = lab[i], lab[i + 1], lab[i + g.C], lab[i + g.C + 1]
            if a != b and e != f and a != e and b != f:
                return False
    return True


def touching(g, part):
    """Pairs of regions sharing a border."""
    return [(i, j) for i in range(len(part)) for j in range(i) if g.grow4(part[i]) & part[j]]


def letter(g, m):
    return omino_name(g.coords(m))[0]


# --------------------------------------------------------------------------- clue pairs and compass
@register
class Araf(Region):
    name = "araf"
    sizes = [(1, 4), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (2, 5)]

    def clues(self, d, b, g, part, param):
        for k in part:
            cells = g.coords(k)
            if len(cells) < 2:
                num(b, *cells[0], d.int(1, g.n))
                continue
            x, y = d.sample(cells, 2)
            n = pc(k)
            lo, hi = max(1, n - d.int(1, 2)), n + d.int(1, 3)
            if d.chance(1, 2):
                x, y = y, x
            num(b, *x, noisy(d, lo, 1, g.n))
            num(b, *y, noisy(d, hi, 1, g.n))

    def plant(self, d, b, g, param):
        part = random_free(d, g, g.full, d.int(3, 6))
        out, small = [], 0
        for k in sorted(part, key=pc):
            if pc(k) == 1:
                small |= k
            else:
                out.append(k)
        for i in g.bits(small):            # single cells join a neighbour
            for j, k in enumerate(out):
                if g.m4[i] & k:
                    out[j] = k | 1 << i
                    break
            else:
                out.append(1 << i)
        return out

    def piece(self, b, g, param):
        t = [(g.bit(*k), v) for k, v in texts(b).items()]

        def ok(m):
            v = [x for k, x in t if k & m]
            return len(v) == 2 and min(v) < pc(m) < max(v)
        return ok


@register
class Compass(Region):
    name = "compass"
    holes = True
    # position in the cell: above, left, right, below
    WAY = {4: lambda r, c, a, e: a < r, 6: lambda r, c, a, e: e < c, 5: lambda r, c, a, e: e > c, 7: lambda r, c, a, e: a > r}

    def clues(self, d, b, g, part, param):
        for k in part:
            r, c = d.choice(g.coords(k))
            some = d.subset([4, 5, 6, 7], 1, 2) or [d.choice([4, 5, 6, 7])]
            for w in some:
                if d.chance(1, 10):
                    v = "?"
                else:
                    v = noisy(d, sum(self.WAY[w](r, c, a, e) for a, e in g.coords(k)), 0, 9)
                b.q.sudoku[(r, c, w)] = [str(v), 1]

    def piece(self, b, g, param):
        t = {}
        for (r, c, w), v in sudokus(b).items():
            t.setdefault((r, c), []).append((w, v))

        def ok(m):
            src = [k for k in t if g.bit(*k) & m]
            if len(src) != 1:
                return False
            r, c = src[0]
            cells = g.coords(m)
            return all(v == sum(self.WAY[w](r, c, a, e) for a, e in cells) for w, v in t[(r, c)] if isinstance(v, int))
        return ok


# --------------------------------------------------------------------------- equal sizes
class Fence(Region):
    """Regions of one size; a number counts the borders of its cell."""

    free = True
    size = 4

    def bigfit(self, R, C):
        return self.name == "ncells" or R * C % self.size == 0

    def piece_size(self, param):
        return self.size

    def cands(self, b, g, param):
        k = self.piece_size(param)
        t = [(g.bit(*c), v, g.m4[g.i(*c)]) for c, v in texts(b).items() if isinstance(v, int)]
        ok = lambda m: all(v == 4 - pc(nb & m) for x, v, nb in t if x & m)  # noqa: E731
        memo = {}

        def f(low):
            if low not in memo:
                memo[low] = [s for s in sized_sets(g.R, g.C, low, k) if ok(s)]
            return memo[low]
        return f

    def single(self, b, g, param):
        k = self.piece_size(param)
        t = [(g.bit(*c), v, g.m4[g.i(*c)]) for c, v in texts(b).items() if isinstance(v, int)]
        return lambda m: pc(m) == k and all(v == 4 - pc(nb & m) for x, v, nb in t if x & m)

    def plant(self, d, b, g, param):
        return random_sized(d, g, g.full, self.piece_size(param))

    def clues(self, d, b, g, part, param):
        f = fences(g, part)
        cell_clues(d, b, g, lambda r, c: f[(r, c)], 0, 4)


@register
class FourCells(Fence):
    name = "fourcells"
    sizes = [(1, 4), (2, 2), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4)]


@register
class FiveCells(Fence):
    name = "fivecells"
    size = 5
    sizes = [(1, 5), (2, 5), (5, 2), (3, 5), (5, 3), (4, 5)]
    weight = 0.5


@register
class NCells(Fence):
    name = "ncells"
    sizes = [(2, 2), (2, 3), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (2, 5), (4, 4), (1, 6)]
    weight = 0.7

    def param(self, d):
        return {}

    def bigparam(self, d, g):
        return {"region_size": str(d.choice([k for k in range(1, 13) if g.n % k == 0]))}

    def piece_size(self, param):
        return int(param["region_size"])

    def gen(self, d):
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C)
        p = {"region_size": str(d.choice([k for k in range(1, R * C + 1) if R * C % k == 0 and k <= 6]))}
        part = self.plant(d, b, g, p)
        self.clues(d, b, g, part, p)
        if d.chance(1, 3):
            edge_hints(d, b, g, self.drawn(g, part))
        return Case(self.name, b, p)


class Omino(Region):
    holes = True
    free = True
    size = 3

    def single(self, b, g, param):
        ok = self.piece(b, g, param)
        return lambda m: pc(m) == self.size and ok(m)

    def cands(self, b, g, param):
        ok = self.piece(b, g, param)
        memo = {}

        def f(low):
            if low not in memo:
                memo[low] = [s for s in sized_sets(g.R, g.C, low, self.size) if ok(s)]
            return memo[low]
        return f

    def plant(self, d, b, g, param):
        hole = self.hole_mask(b, g)
        return random_sized(d, g, g.full & ~hole, self.size)

    def setup(self, d, b, g, param):
        k = g.n % self.size
        while d.chance(1, 3) and k + self.size < g.n:
            k += self.size
        col = d.choice([4, 8, 1, 3])
        for i in d.sample(range(g.n), k):
            b.q.surface[g.rc(i)] = col

    def kind(self, g, m):
        return letter(g, m)

    def accept(self, b, g, param):
        kind = lru_cache(None)(lambda m: self.kind(g, m))
        return lambda s, acc: not any(kind(s) == kind(k) and g.grow4(s) & k for k in acc)


@register
class Heteromino(Omino):
    name = "heteromino"
    sizes = [(1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (3, 5)]

    def kind(self, g, m):
        return shift(g.coords(m))


@register
class Tetrominous(Omino):
    name = "tetrominous"
    size = 4
    sizes = [(2, 2), (2, 4), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (3, 5), (4, 5)]

    def clues(self, d, b, g, part, param):
        names = "TOILS" if self.size == 4 else "FILNPTUVWXYZ"
        for k in part:
            if d.chance(1, 2):
                r, c = d.choice(g.coords(k))
                num(b, r, c, d.choice(names) if d.chance(1, 15) else letter(g, k))

    def piece(self, b, g, param):
        t = [(g.bit(*k), v) for k, v in texts(b).items()]
        return lambda m: all(v == letter(g, m) for x, v in t if x & m)


@register
class Pentominous(Tetrominous):
    name = "pentominous"
    size = 5
    sizes = [(1, 5), (2, 5), (5, 2), (3, 4), (3, 5), (4, 4), (5, 3), (4, 5)]
    weight = 0.4


@register
class Triplace(Omino):
    name = "triplace"
    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (3, 5), (5, 3), (2, 4)]

    def accept(self, b, g, param):
        return None

    def hole_mask(self, b, g):
        return g.mask(symbols(b))

    def setup(self, d, b, g, param):
        k = g.n % 3
        while d.chance(1, 2) and k + 3 < g.n:
            k += 3
        edge = [i for i in range(g.n) if not all(g.rc(i))]
        for i in d.sample(edge if d.chance(1, 2) and k <= len(edge) else range(g.n), k):
            b.q.symbol[(*g.rc(i), "C")] = [1, "kakuro", 1]

    def lines(self, b, g, r, c, k):
        hole = self.hole_mask(b, g)
        out = []
        for i in g.ray(r, c, *((0, 1) if k == 1 else (1, 0))):
            if hole >> i & 1:
                break
            out.append(i)
        return out

    def clues(self, d, b, g, part, param):
        for i in g.bits(self.hole_mask(b, g)):
            r, c = g.rc(i)
            for k in (1, 2):
                run = self.lines(b, g, r, c, k)
                if run and d.chance(1, 2):
                    m = sum(1 << j for j in run)
                    v = sum(1 for p in part if p & m and letter(g, p) == "I")
                    b.q.sudoku[(r, c, k)] = ["?" if d.chance(1, 12) else str(noisy(d, v, 0, 5)), 1]

    def whole(self, b, g, param):
        t = []
        for (r, c, k), v in sudokus(b).items():
            if isinstance(v, int):
                t.append((sum(1 << j for j in self.lines(b, g, r, c, k)), v))
        return lambda part: all(v == sum(1 for p in part if p & m and letter(g, p) == "I") for m, v in t)


# --------------------------------------------------------------------------- straight cuts
@register
class Kramma(Region):
    name = "kramma"
    sizes = [(1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (4, 4), (5, 3)]

    def plant(self, d, b, g, param):
        rows = [r for r in range(1, g.R) if d.chance(1, 3)]
        cols = [c for c in range(1, g.C) if d.chance(1, 3)]
        return cuts(g, rows, cols)

    def clues(self, d, b, g, part, param):
        for k in part:
            col = d.int(1, 2)
            for r, c in d.subset(g.coords(k), 1, 3) or [d.choice(g.coords(k))]:
                b.q.symbol[(r, c, "C")] = [3 - col if d.chance(1, 40) else col, "circle_M", 1]

    def divisions(self, b, g, param):
        s = symbols(b)
        w = g.mask(k for k, v in s.items() if v == "circle_M__1")
        k = g.mask(k for k, v in s.items() if v == "circle_M__2")
        for x in range(1 << (g.R - 1)):
            for y in range(1 << (g.C - 1)):
                part = cuts(g, [r for r in range(1, g.R) if x >> (r - 1) & 1], [c for c in range(1, g.C) if y >> (c - 1) & 1])
                if all((m & w != 0) != (m & k != 0) for m in part):
                    yield part

    def single(self, b, g, param):
        s = symbols(b)
        w = g.mask(k for k, v in s.items() if v == "circle_M__1")
        k = g.mask(k for k, v in s.items() if v == "circle_M__2")
        return lambda m: (m & w != 0) != (m & k != 0)

    def whole(self, b, g, param):
        def ok(part):
            e = set(edges_of(g, labels_from_masks(g, part)))
            return e == {k for k in inner_edges(g) if k in e or any((k[0], *p) in e for p in
                         ([(k[1], c) for c in range(g.C)] if k[0] == "T" else [(r, k[2]) for r in range(g.R)]))}
        return ok


def cuts(g, rows, cols):
    rs, cs = [0] + rows + [g.R], [0] + cols + [g.C]
    return [g.mask((r, c) for r in range(rs[i], rs[i + 1]) for c in range(cs[j], cs[j + 1]))
            for i in range(len(rs) - 1) for j in range(len(cs) - 1)]


# --------------------------------------------------------------------------- rectangles
class Rect(Region):
    rect = True
    sizes = [(1, 4), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3)]
    one = True                 # exactly one clue per region
    cross = True               # four regions may meet at a point
    needclue = True

    def value(self, d, g, part, m, r, c):
        return pc(m)

    def fits(self, g, m, r, c, v):
        return v == pc(m)

    def legal(self, g, m):
        return True

    def coarse(self, d, g):
        """A few large rectangles."""
        out, todo = [], [(0, 0, g.R, g.C)]
        while todo:
            r, c, h, w = todo.pop()
            if h * w > 1 and d.chance(1, 2) and len(out) + len(todo) < 12:
                if h > 1 and (w == 1 or d.chance(1, 2)):
                    k = d.int(1, h - 1)
                    todo += [(r, c, k, w), (r + k, c, h - k, w)]
                else:
                    k = d.int(1, w - 1)
                    todo += [(r, c, h, k), (r, c + k, h, w - k)]
            else:
                out.append(g.mask((i, j) for i in range(r, r + h) for j in range(c, c + w)))
        return out

    def plant(self, d, b, g, param):
        part = None
        for _ in range(4 if g.n > 20 and not self.hole_mask(b, g) and d.chance(1, 2) else 0):
            part = self.coarse(d, g)
            if (self.cross or crossing_free(g, part)) and all(self.legal(g, m) for m in part):
                return part
        for _ in range(8):
            part = random_rects(d, g, g.full, lambda m: self.legal(g, m) and (pc(m) <= 6 or d.chance(1, 4)))
            if (self.cross or crossing_free(g, part)) and all(self.legal(g, m) for m in part):
                break
        return part

    def clues(self, d, b, g, part, param):
        todo = part if self.one else [m for m in part if d.chance(1, 2)] or [d.choice(part)]
        for m in todo:
            r, c = d.choice(g.coords(m))
            v = self.value(d, g, part, m, r, c)
            num(b, r, c, "?" if d.chance(1, 6) else v)
        if d.chance(1, 25):
            r, c = d.choice(g.cells)
            num(b, r, c, "?")

    def piece(self, b, g, param):
        t = [(g.bit(*k), *k, v) for k, v in texts(b).items()]

        def ok(m):
            mine = [x for x in t if x[0] & m]
            if self.one and len(mine) != 1:
                return False
            return self.legal(g, m) and all(self.fits(g, m, r, c, v) for _, r, c, v in mine if v != "?")
        return ok

    def whole(self, b, g, param):
        return (lambda part: True) if self.cross else lambda part: crossing_free(g, part)


@register
class Shikaku(Rect):
    name = "shikaku"

    def value(self, d, g, part, m, r, c):
        return noisy(d, pc(m), 1, g.n)


@register
class Nawabari(Rect):
    name = "nawabari"

    def value(self, d, g, part, m, r, c):
        return noisy(d, 4 - pc(g.m4[g.i(r, c)] & m), 0, 4)

    def fits(self, g, m, r, c, v):
        return v == 4 - pc(g.m4[g.i(r, c)] & m)


@register
class SquareJam(Rect):
    name = "squarejam"
    one = cross = False
    sizes = [(1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (4, 4), (3, 5), (4, 5), (5, 5)]

    def legal(self, g, m):
        a, e = g.rect_dims(m)
        return a == e

    def value(self, d, g, part, m, r, c):
        return noisy(d, g.rect_dims(m)[0], 1, 4)

    def fits(self, g, m, r, c, v):
        return v == g.rect_dims(m)[0]


@register
class Tatamibari(Rect):
    name = "tatamibari"
    cross = False

    def kind(self, g, m):
        h, w = g.rect_dims(m)
        return "+" if h == w else "-" if w > h else "|"

    def value(self, d, g, part, m, r, c):
        return d.choice("+-|") if d.chance(1, 15) else self.kind(g, m)

    def fits(self, g, m, r, c, v):
        return v == self.kind(g, m)


class Strip(Rect):
    cross = False
    least = 1

    def legal(self, g, m):
        h, w = g.rect_dims(m)
        return min(h, w) == 1 and max(h, w) >= self.least


@register
class Usotatami(Strip):
    name = "usotatami"

    def value(self, d, g, part, m, r, c):
        return noisy(d, pc(m) + d.choice([1, 2]), 1, 9, (1, 4))

    def fits(self, g, m, r, c, v):
        return v != pc(m)


@register
class Yajitatami(Strip):
    name = "yajitatami"
    one = False
    least = 2
    sizes = [(1, 4), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (4, 5)]
    STEP = {0: (-1, 0), 1: (0, -1), 2: (0, 1), 3: (1, 0)}

    def clues(self, d, b, g, part, param):
        lab = labels_from_masks(g, part)
        n = 0
        cells = d.shuffle(g.cells)
        for r, c in cells:
            m = part[lab[g.i(r, c)]]
            good = [w for w in self.STEP if self.count(g, lab, r, c, w) == pc(m)]
            if good and d.chance(1, 2):
                self.put(b, r, c, noisy(d, pc(m), 1, 9, (1, 40)), d.choice(good))
                n += 1
        if not n or d.chance(1, 12):
            r, c = cells[0]
            self.put(b, r, c, d.int(1, 4), d.int(0, 3))

    def put(self, b, r, c, v, w):
        b.q.number[(r, c, "C")] = [f"{v}_{w}", 1, "2"]

    def count(self, g, lab, r, c, w):
        """Borders beyond the cell inside the board, or None when the cell has no border that way."""
        dr, dc = self.STEP[w]
        path = [g.i(r, c)] + g.ray(r, c, dr, dc)
        ch = [lab[path[k]] != lab[path[k + 1]] for k in range(len(path) - 1)]
        if ch and not ch[0]:
            return None
        return sum(ch)

    def piece(self, b, g, param):
        t = []
        for k, v in texts(b).items():
            n, w = str(v).split("_")
            t.append((g.bit(*k), int(n)))
        return lambda m: self.legal(g, m) and all(v == pc(m) for x, v in t if x & m)

    def whole(self, b, g, param):
        t = []
        for k, v in texts(b).items():
            n, w = str(v).split("_")
            t.append((*k, int(w), int(n)))

        def ok(part):
            if not crossing_free(g, part):
                return False
            lab = labels_from_masks(g, part)
            return all(self.count(g, lab, r, c, w) == n for r, c, w, n in t)
        return ok


# --------------------------------------------------------------------------- galaxies
@register
class Tentaisho(Region):
    name = "tentaisho"
    holes = True
    sizes = [(1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (2, 5), (4, 4)]
    maxsize = 8

    def centre(self, g, m):
        cs = g.coords(m)
        r0, r1 = min(r for r, c in cs), max(r for r, c in cs)
        c0, c1 = min(c for r, c in cs), max(c for r, c in cs)
        return r0 + r1, c0 + c1                     # doubled coordinates

    def around(self, g, y, x):
        """Cells touching the point (doubled coordinates)."""
        return g.mask((r, c) for r in {y // 2, (y + 1) // 2} for c in {x // 2, (x + 1) // 2})

    def sym(self, g, m, y, x):
        return all(g.bit(y - r, x - c) & m for r, c in g.coords(m))

    def plant(self, d, b, g, param):
        free = g.full & ~self.hole_mask(b, g)
        part = []
        while free:
            low = (free & -free).bit_length() - 1
            cand = [s for s in connected_sets(g.R, g.C, low, min(6, g.n)) if s & free == s
                    and self.sym(g, s, *self.centre(g, s)) and self.around(g, *self.centre(g, s)) & s == self.around(g, *self.centre(g, s))]
            if d.chance(1, 2):
                cand = [s for s in cand if pc(s) >= 3] or cand
            s = d.choice(cand)
            part.append(s)
            free &= ~s
        return part

    def clues(self, d, b, g, part, param):
        for m in part:
            y, x = self.centre(g, m)
            if d.chance(1, 25):
                y = max(0, min(2 * g.R - 2, y + d.choice([-1, 1])))
            st = d.int(1, 3)
            r, c = (y + 1) // 2, (x + 1) // 2
            b.q.symbol[(r, c, ("TL" if x % 2 else "T") if y % 2 else ("L" if x % 2 else "C"))] = [st, "circle_SS", 1]

    def stars(self, b):
        out = []
        for dd, oy, ox in (("C", 0, 0), ("T", -1, 0), ("L", 0, -1), ("TL", -1, -1)):
            out += [(2 * r + oy, 2 * c + ox) for r, c in symbols(b, dd)]
        return out

    def single(self, b, g, param):
        stars = self.stars(b)
        free = g.full & ~self.hole_mask(b, g)

        def ok(m):
            if m & ~free:
                return False
            mine = [s for s in stars if self.around(g, *s) & m]
            return len(mine) == 1 and self.around(g, *mine[0]) & m == self.around(g, *mine[0]) and self.sym(g, m, *mine[0])
        return ok

    def cands(self, b, g, param):
        memo = {}
        ok = self.single(b, g, param)

        def f(low):
            if low not in memo:
                memo[low] = [s for s in connected_sets(g.R, g.C, low, g.n) if ok(s)]
            return memo[low]
        return f

    def whole(self, b, g, param):
        stars = self.stars(b)
        return lambda part: len(part) == len(stars)


# --------------------------------------------------------------------------- voxas
@register
class Voxas(Region):
    name = "voxas"
    rect = True
    sizes = [(1, 4), (1, 5), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (3, 5)]

    def fine(self, g, m):
        h, w = g.rect_dims(m)
        return min(h, w) == 1 and max(h, w) in (2, 3)

    def piece(self, b, g, param):
        return lambda m: self.fine(g, m)

    def plant(self, d, b, g, param):
        for _ in range(6):
            part = random_rects(d, g, g.full, lambda m: self.fine(g, m))
            if all(self.fine(g, m) for m in part):
                break
        return part

    def sig(self, g, m):
        h, w = g.rect_dims(m)
        return pc(m), h > w

    def pair(self, g, part, k):
        lab = labels_from_masks(g, part)
        o, r, c = k
        a, e = lab[g.i(r, c)], lab[g.i(r - 1, c) if o == "T" else g.i(r, c - 1)]
        s, t = self.sig(g, part[a]), self.sig(g, part[e])
        return (s[0] != t[0]) + (s[1] != t[1])

    def clues(self, d, b, g, part, param):
        e = self.drawn(g, part)
        for k in inner_edges(g):
            if k in e and d.chance(1, 4):
                b.q.edge[k] = True
                if d.chance(2, 3):
                    st = {0: 1, 1: 5, 2: 2}[self.pair(g, part, k)]
                    if d.chance(1, 20):
                        st = d.choice([1, 2, 5])
                    b.q.symbol[(k[1], k[2], k[0])] = [st, "circle_SS", 1]

    def whole(self, b, g, param):
        t = []
        for dd in "TL":
            for (r, c), v in symbols(b, dd).items():
                t.append(((dd, r, c), {"circle_SS__1": 0, "circle_SS__5": 1, "circle_SS__2": 2}[v]))

        def ok(part):
            e = self.drawn(g, part)
            return all(k in e and self.pair(g, part, k) == v for k, v in t)
        return ok
