"""The eight turns and mirror images of a board with its marks, and moves to a larger canvas."""
from .penpa import Board, Layer

VEC = {"u": (-1, 0), "l": (0, -1), "r": (0, 1), "d": (1, 0)}
NAME = {v: k for k, v in VEC.items()}
# (a, b, c, d): (x, y) -> (a x + b y, c x + d y), x = rows, y = columns
MATS = {"id": (1, 0, 0, 1), "fliph": (1, 0, 0, -1), "flipv": (-1, 0, 0, 1), "rot180": (-1, 0, 0, -1),
        "transpose": (0, 1, 1, 0), "rotr": (0, 1, -1, 0), "rotl": (0, -1, 1, 0), "anti": (0, -1, -1, 0)}
SWAPS = ("transpose", "rotr", "rotl", "anti")
# orientation of symbol styles
ARROWS = {"arrow_B_W": "1l3u5r7d", "arrow_B_B": "1l3u5r7d", "firefly": "1r2d3l4u", "inequality": "1l2u3r4d",
          # one end of a ship: the side the ship goes on
          "battleship_B": "3r4d5l6u", "battleship_G": "3r4d5l6u", "battleship_W": "3r4d5l6u", "battleship_B+": "3r4d5l6u",
          "battleship_G+": "3r4d5l6u", "battleship_W+": "3r4d5l6u"}
TRI = {1: (-1, -1), 2: (1, -1), 3: (1, 1), 4: (-1, 1)}          # corner of the right angle
CORNER_K = {4: (-1, 0), 6: (0, -1), 7: (1, 0), 5: (0, 1)}       # compass clues
TEXTS = {"juosan": {"——": ("l", "r"), "|": ("u", "d")}, "tatamibari": {"-": ("l", "r"), "|": ("u", "d")},
         "news": {"N": ("u",), "E": ("r",), "W": ("l",), "S": ("d",)}}
TOP_LEFT_ONLY = {"aquarium", "battleship", "coral", "doppelblock", "nonogram", "snake", "tents"}


class Tr:
    """One transformation of an R x C board of a given puzzle."""

    def __init__(self, kind, R, C, name):
        self.kind, self.R, self.C, self.name = kind, R, C, name
        self.m = MATS[kind]
        self.R2, self.C2 = (C, R) if kind in SWAPS else (R, C)

    def vec(self, v):
        a, b, c, d = self.m
        return (a * v[0] + b * v[1], c * v[0] + d * v[1])

    def dir(self, s):
        return NAME[self.vec(VEC[s])]

    def dbl(self, x, y):
        """Doubled coordinates (cell r, c has centre 2r+1, 2c+1)."""
        u, v = self.vec((x - self.R, y - self.C))
        return u + self.R2, v + self.C2

    def cell(self, r, c):
        x, y = self.dbl(2 * r + 1, 2 * c + 1)
        return x // 2, y // 2

    def point(self, r, c, d):
        x, y = self.dbl(2 * r + (d in ("C", "L")), 2 * c + (d in ("C", "T")))
        return x // 2, y // 2, {(1, 1): "C", (0, 1): "T", (1, 0): "L", (0, 0): "TL"}[(x % 2, y % 2)]

    def edge(self, k):
        d, r, c = k
        if d in "TL":
            r, c, d = self.point(r, c, d)
            return d, r, c
        u, v = self.vec((1, 1))
        same = u * v > 0
        return (d if same else "UD"[d == "U"], *self.cell(r, c))

    def half(self, h):
        return (*self.cell(*h[:2]), self.dir(h[2]))

    def keep(self, k):
        """The star count drawn above a star battle board is no clue."""
        return self.name != "starbattle" or (0 <= k[0] < self.R and 0 <= k[1] < self.C)

    def line(self, k):
        if k[0] == "h":
            return ("h", *self.half(k[1:]))
        r, c, d = self.half((k[1], k[2], "r" if k[0] == "H" else "d"))
        return {"r": ("H", r, c), "l": ("H", r, c - 1), "d": ("V", r, c), "u": ("V", r - 1, c)}[d]

    def style(self, shape, st):
        tup = isinstance(st, tuple)
        if isinstance(st, (list, tuple)):
            if shape == "arrow_cross":
                out = [0] * 8
                for i, s in enumerate("lurd"):
                    out["lurd".index(self.dir(s))] = st[i]
                return tuple(out) if tup else out
            return st
        if shape in ARROWS:
            t = ARROWS[shape]
            fwd = {int(t[i]): t[i + 1] for i in range(0, len(t), 2)}
            if int(st) in fwd:
                d = self.dir(fwd[int(st)])
                return next(k for k, v in fwd.items() if v == d)
        if shape == "tri" and int(st) in TRI:
            w = self.vec(TRI[int(st)])
            return next(k for k, v in TRI.items() if v == w)
        return st

    def text(self, t, sub="1"):
        t = str(t)
        if sub == "2" and "_" in t:
            n, d = t.split("_")
            if d in tuple("0123"):
                return f"{n}_{'ulrd'.index(self.dir('ulrd'[int(d)]))}"
            return t
        tab = TEXTS.get(self.name, {})
        if t in tab:
            w = self.dir(tab[t][0])
            return next(k for k, v in tab.items() if w in v)
        return t

    def k(self, k):
        if self.name == "compass":
            w = self.vec(CORNER_K[k])
            return next(a for a, b in CORNER_K.items() if b == w)
        if self.name in ("kakuro", "tilepaint", "triplace") and self.kind in SWAPS:
            return {1: 2, 2: 1}.get(k, k)
        return k

    def layer(self, y):
        z = Layer()
        z.surface = {self.cell(*k): v for k, v in y.surface.items()}
        z.number = {self.point(*k): [self.text(v[0], v[2]), *v[1:]] for k, v in y.number.items()}
        z.sudoku = {(*self.cell(*k[:2]), self.k(k[2])): list(v) for k, v in y.sudoku.items()}
        z.symbol = {self.point(*k): [self.style(v[1], v[0]), *v[1:]] for k, v in y.symbol.items() if self.keep(k)}
        z.edge = {self.edge(k): v for k, v in y.edge.items()}
        z.line = {self.line(k): v for k, v in y.line.items()}
        if self.name in TOP_LEFT_ONLY:
            self.outside(z)
        return z

    def outside(self, z):
        """Row and column clues are given on the top and left only."""
        low, right = {}, {}
        for r, c, d in z.number:
            if d == "C" and r >= self.R2:
                low[c] = max(low.get(c, 0), r - self.R2 + 1)
            if d == "C" and c >= self.C2:
                right[r] = max(right.get(r, 0), c - self.C2 + 1)
        new = {}
        for (r, c, d), v in z.number.items():
            if d == "C" and r >= self.R2:
                r -= self.R2 + low[c]
            elif d == "C" and c >= self.C2:
                c -= self.C2 + right[r]
            new[(r, c, d)] = v
        z.number = new

    def board(self, b, margin=None):
        t, bo, l, r = b.margin
        mg = {"u": t, "d": bo, "l": l, "r": r}
        m2 = {self.dir(k): v for k, v in mg.items()}
        if self.name in TOP_LEFT_ONLY:
            for p, q in (("u", "d"), ("l", "r")):
                m2[p] = max(m2[p], m2[q])
        new = Board(self.R2, self.C2, [m2[k] + e for k, e in zip("udlr", margin or (0, 0, 0, 0))], b.kind)
        new.q, new.a = self.layer(b.q), self.layer(b.a)
        return new

    def canon(self, cn, hashi=False):
        """Transform canonical marks (core.canon)."""
        surf, num, sym, edge, line = cn
        z = Layer()
        z.number = {self.point(*k): [self.text(v, "2" if "_" in v else "1"), 1, "1"] for k, v in num}
        if self.name in TOP_LEFT_ONLY:
            self.outside(z)
        return (frozenset((self.cell(*k), v) for k, v in surf), frozenset((k, v[0]) for k, v in z.number.items()),
                frozenset((self.point(*k[:3]) + k[3:], (self.style(v[1], v[0]), v[1])) for k, v in sym if self.keep(k)),
                frozenset(map(self.edge, edge)),
                frozenset((self.half(h), v) for h, v in line) if hashi else frozenset(map(self.half, line)))
