"""Shared parts of the reference models."""
from functools import lru_cache

from ..core import Board, Case, Layer, Model, Violation, text
from ..grid import (G, edges_of, grid, outer_edges, pc, random_partition, rooms_from_edges, rooms_of)

REGISTRY = {}


def register(cls):
    m = REGISTRY[cls.name] = cls()
    if getattr(m, "sizes", None) and m.name != "stostone":
        m.sizes = m.sizes + [(c, r) for r, c in m.sizes if (c, r) not in m.sizes]   # every shape in both orientations
    return cls


def new_board(d, R, C, need=(0, 0, 0, 0)):
    """Board with the margins the clues need, sometimes more."""
    mg = list(need)
    if d.chance(1, 6):
        mg = [max(x, d.int(0, 3)) for x in mg]
    return Board(R, C, mg)


def num(b, r, c, v, dd="C", sub="1"):
    b.q.number[(r, c, dd)] = text(v, 1, sub)


def noisy(d, v, lo, hi, p=(1, 14)):
    """Usually v, sometimes another value in lo..hi."""
    if d.chance(*p):
        return max(lo, min(hi, v + d.choice([-1, 1, 2])))
    return v


def texts(b, d="C"):
    """{(r, c): int or str} of ordinary numbers at the given place, problem over solution layer."""
    out = {}
    for y in (b.a, b.q):
        for (r, c, dd), (t, _, sub) in y.number.items():
            if dd == d and sub not in ("4", "7"):
                t = str(t)
                out[(r, c)] = int(t) if t.isdigit() else t
    return out


def tapas(b):
    """{(r, c): [values]} of multi-number clues."""
    out = {}
    for y in (b.a, b.q):
        for (r, c, dd), (t, _, sub) in y.number.items():
            if sub == "4":
                out[(r, c)] = [int(x) if x.isdigit() else x for x in str(t)]
    return out


def sudokus(b):
    out = {}
    for y in (b.a, b.q):
        for (r, c, k), (t, _) in y.sudoku.items():
            t = str(t)
            out[(r, c, k)] = int(t) if t.isdigit() else t
    return out


def symbols(b, d="C"):
    """{(r, c): 'shape__style'} for scalar styles, list styles as ('shape', bits tuple)."""
    out = {}
    for y in (b.a, b.q):
        for (r, c, dd), (style, shape, _) in y.symbol.items():
            if dd == d:
                out[(r, c)] = (shape, tuple(style)) if isinstance(style, list) else f"{shape}__{style}"
    return out


def surfaces(b):
    """{(r, c): 'B'|'G'|'N'} black, gray, green."""
    out = {}
    for y in (b.a, b.q):
        for k, v in y.surface.items():
            x = {4: "B", 1: "G", 3: "G", 8: "G", 2: "N"}.get(v)
            if x:
                out[k] = x
    return out


def edges(b):
    out = {}
    for y in (b.a, b.q):
        out.update(y.edge)
    return out


def labels(b, g):
    return rooms_from_edges(g, {k: v for k, v in edges(b).items() if k[0] in "TL"})


def halflines(b):
    """{(r, c, dir): True/False/1/2}."""
    out = {}
    for y in (b.a, b.q):
        for k, v in y.line.items():
            if k[0] == "H":
                out[(k[1], k[2], "r")] = v
                out[(k[1], k[2] + 1, "l")] = v
            elif k[0] == "V":
                out[(k[1], k[2], "d")] = v
                out[(k[1] + 1, k[2], "u")] = v
            else:
                out[k[1:]] = v
    return out


def draw_rooms(d, b, g, max_rooms=None, maxsize=None, outer=None, lab=None, layer=None):
    """Draw the borders of a (random) division into rooms; returns the labels."""
    lab = lab or random_partition(d, g, max_rooms, maxsize)
    y = layer or b.q
    for k in edges_of(g, lab):
        y.edge[k] = True
    if d.chance(1, 2) if outer is None else outer:
        for k in outer_edges(g.R, g.C):
            y.edge[k] = True
    return lab


def hint_layer(d, b):
    return b.a if d.chance(1, 2) else b.q


def surface_hints(d, b, g, m, dark=(4, 8, 1, 3), p=(1, 3), wrong=(1, 25), skip=()):
    """A few pre-shaded / pre-cleared cells, mostly agreeing with the shading m."""
    if not d.chance(*p):
        return
    y = hint_layer(d, b)
    for i in d.sample(range(g.n), d.int(1, 3)):
        rc = g.rc(i)
        if rc in skip:
            continue
        v = bool(m >> i & 1)
        if d.chance(*wrong):
            v = not v
        y.surface[rc] = d.choice(dark) if v else 2


def hint_masks(b, g, dark="BG"):
    on = off = 0
    for (r, c), v in surfaces(b).items():
        if g.inside(r, c):
            if v in dark:
                on |= g.bit(r, c)
            else:
                off |= g.bit(r, c)
    return on, off


def scan(d, seq, pred):
    """A random element of seq satisfying pred (next one cyclically), or None."""
    if not seq:
        return None
    s = d.int(0, len(seq) - 1)
    for k in range(len(seq)):
        x = seq[(s + k) % len(seq)]
        if pred(x):
            return x
    return None


def mask_layer(g, m, colour):
    y = Layer()
    for i in g.bits(m):
        y.surface[g.rc(i)] = colour
    return y


class Shade(Model):
    """Answers are sets of shaded cells (bit masks)."""

    cat = "shade"
    out = 4                    # colour of answer marks
    sizes = [(3, 3), (3, 4), (4, 3), (2, 4), (4, 2), (1, 5), (5, 2)]
    need = (0, 0, 0, 0)        # margins for outside clues
    rooms = False
    max_rooms = None
    params = {}
    hints = True
    clued = False              # rules demand clues: plant any member of base

    def __init__(self):
        self._base = {}

    # to override
    def static(self, g, m):
        return True

    def setup(self, d, b, g, param):
        """Draw givens that do not depend on the answer (rooms)."""
        if self.rooms:
            draw_rooms(d, b, g, self.max_rooms)

    def clues(self, d, b, g, m, param):
        """Draw clues derived from the answer m."""

    def rule(self, b, g, param):
        """Predicate over masks: all rules not covered by static and by the shading hints."""
        return lambda m: True

    def param(self, d):
        return {}

    def enum(self, g):
        """All masks to consider."""
        return range(1 << g.n)

    # generic
    def base(self, g):
        key = (g.R, g.C)
        if key not in self._base:
            self._base[key] = [m for m in self.enum(g) if self.static(g, m)]
        return self._base[key]

    def pred(self, b, g, param):
        on, off = hint_masks(b, g)
        rule = self.rule(b, g, param)
        return lambda m: m & on == on and not m & off and rule(m)

    def gen(self, d):
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C, self.need)
        param = self.param(d)
        self.setup(d, b, g, param)
        base = self.base(g)
        m = scan(d, base, self.pred(b, g, param)) if not self.clued else d.choice(base) if base else None
        if m is None:
            m = d.int(0, g.full)
        self.clues(d, b, g, m, param)
        if self.hints:
            surface_hints(d, b, g, m)
        return Case(self.name, b, param)

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        p = self.pred(b, g, case.param)
        for m in self.base(g):
            if p(m):
                yield self.drawn(case, g, m)

    def marks(self, g, m):
        return mask_layer(g, m, self.out)

    def drawn(self, case, g, m):
        """All marks the answer m shows."""
        return self.marks(g, m)

    # large boards
    def margins(self, R, C):
        return self.need

    def whole(self, g, m):
        """static, where base leaves a part of it to enum."""
        return self.static(g, m)

    def back(self, g, x):
        """The shading canonical marks show."""
        return g.mask(k for k, v in x[0] if g.inside(*k))

    def pin(self, b, y, g, m):
        """Give every cell's state."""
        for i in range(g.n):
            rc = g.rc(i)
            if rc not in b.q.surface and rc not in b.a.surface:
                y.surface[rc] = self.out if m >> i & 1 else 2


def room_clues(d, b, g, lab, value, hi, p=(1, 2), q=True, lo=0):
    """One clue per room (with probability p): value(room mask)."""
    for room in rooms_of(g, lab):
        if not d.chance(*p):
            continue
        cells = g.coords(room)
        r, c = d.choice(cells)
        if q and d.chance(1, 10):
            num(b, r, c, "?")
        else:
            num(b, r, c, noisy(d, value(room), lo, hi))


def room_values(b, g, lab=None):
    """[(room mask, int clue)] for rooms having an int clue (one clue cell per room)."""
    lab = lab or labels(b, g)
    t = texts(b)
    out = []
    for room in rooms_of(g, lab):
        for r, c in g.coords(room):
            v = t.get((r, c))
            if isinstance(v, int):
                out.append((room, v))
    return out


def cell_clues(d, b, g, value, lo, hi, cells=None, p=(1, 3), q=(1, 10), ok=None, dd="C"):
    """Clues at random cells: value(r, c); '?' sometimes."""
    for r, c in cells if cells is not None else g.cells:
        if not d.chance(*p):
            continue
        if q and d.chance(*q):
            num(b, r, c, "?", dd)
        else:
            v = value(r, c)
            if v is not None:
                num(b, r, c, noisy(d, v, lo, hi), dd)


def runs(bits):
    """Lengths of runs of truthy values."""
    out, k = [], 0
    for x in list(bits) + [0]:
        if x:
            k += 1
        elif k:
            out.append(k)
            k = 0
    return out


def row_bits(g, m, r):
    return [m >> g.i(r, c) & 1 for c in range(g.C)]


def col_bits(g, m, c):
    return [m >> g.i(r, c) & 1 for r in range(g.R)]


__all__ = [n for n in dir() if not n.startswith("_")]
