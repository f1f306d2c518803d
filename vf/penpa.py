"""Independent model of penpa-edit board links (square lattices).

Nothing here is taken from /repo: the layout is the one of penpa-edit's own
"Edit link" export: a raw-deflate, base64 text of newline separated parts,
part 0 the header, part 1 the margins, part 3 the problem layer and part 4 the
solution layer.  Marks live on lattice points numbered
    category * H * W + (row + 2) * W + (col + 2)
with W = columns + 4, H = rows + 4, category 0 the cell centre, 1 the cell's
bottom-right corner, 2 its bottom side, 3 its right side.

Coordinates used by the framework: (r, c) counted from the first row/column
inside the margins; sides are addressed as 'T' (top of r,c) and 'L' (left of
r,c), corners as 'TL'.
"""
import base64
import json
import zlib

PREFIX = "m=edit&p="
ABBR = [
    ('"qa"', "z9"), ('"pu_q"', "zQ"), ('"pu_a"', "zA"), ('"grid"', "zG"), ('"edit_mode"', "zM"),
    ('"surface"', "zS"), ('"line"', "zL"), ('"edge"', "zE"), ('"wall"', "zW"), ('"cage"', "zC"),
    ('"number"', "zN"), ('"sudoku"', "z1"), ('"symbol"', "zY"), ('"special"', "zP"), ('"board"', "zB"),
    ('"command_redo"', "zR"), ('"command_undo"', "zU"), ('"command_replay"', "z8"), ('"freeline"', "zF"),
    ('"freeedge"', "z2"), ('"thermo"', "zT"), ('"arrows"', "z3"), ('"d"', "zD"), ('"squareframe"', "z0"),
    ('"polygon"', "z5"), ('"deleteedge"', "z4"), ('"killercages"', "z6"), ('"nobulbthermo"', "z7"),
    ('"__a"', "z_"), ("null", "zO"),
]
MODE = ('{"qa":"pu_a","grid":["1","2","1"],"pu_q":{"edit_mode":"surface","surface":["",1],"line":["1",2],'
        '"edge":["1",2],"wall":["",2],"cage":["1",10],"number":["1",1],"symbol":["circle_L",1],'
        '"special":["thermo",""],"board":["",""],"move":["1",""],"combi":["battleship",""],"sudoku":["1",1]},'
        '"pu_a":{"edit_mode":"symbol","surface":["",1],"line":["1",3],"edge":["1",3],"wall":["",3],'
        '"cage":["1",10],"number":["1",2],"symbol":["circle_L",1],"special":["thermo",""],"board":["",""],'
        '"move":["1",""],"combi":["battleship",""],"sudoku":["1",9]}}')
CAT = {"C": (0, 0, 0), "TL": (1, -1, -1), "T": (2, -1, 0), "L": (3, 0, -1)}


class Layer:
    """Marks of one layer (problem or solution)."""

    KINDS = ("surface", "number", "sudoku", "symbol", "edge", "line")

    def __init__(self):
        self.surface = {}  # (r, c) -> colour code
        self.number = {}   # (r, c, d) -> [text, colour, subtype]
        self.sudoku = {}   # (r, c, k) -> [text, colour], k in 0..7
        self.symbol = {}   # (r, c, d) -> [style, shape, layer]
        self.edge = {}     # ('T'|'L'|'U'|'D', r, c) -> True (drawn) / False (x mark)
        self.line = {}     # ('H'|'V', r, c) -> True/False, ('h', r, c, dir) -> True; hashi: 1/2 instead of True

    def copy(self):
        new = Layer()
        for k in self.KINDS:
            getattr(new, k).update(getattr(self, k))
        return new

    def empty(self):
        return not any(getattr(self, k) for k in self.KINDS)

    def to_json(self):
        return {k: sorted(([list(a) if isinstance(a, tuple) else a, b] for a, b in getattr(self, k).items()), key=repr)
                for k in self.KINDS if getattr(self, k)}

    @classmethod
    def from_json(cls, data):
        new = cls()
        for k, items in data.items():
            for key, val in items:
                getattr(new, k)[tuple(key)] = val
        return new


class Board:
    """A whole board link."""

    def __init__(self, rows, cols, margin=(0, 0, 0, 0), kind="square"):
        self.rows, self.cols, self.margin, self.kind = rows, cols, tuple(margin), kind
        self.q, self.a = Layer(), Layer()
        self.parts = None
        self.unknown = []

    # -- geometry
    def dims(self):
        t, b, l, r = self.margin
        return self.rows + t + b + 4, self.cols + l + r + 4

    def idx(self, r, c, cat=0):
        H, W = self.dims()
        t, _, l, _ = self.margin
        return cat * H * W + (r + 2 + t) * W + c + 2 + l

    def pos(self, index):
        H, W = self.dims()
        t, _, l, _ = self.margin
        cat, rest = divmod(index, H * W)
        return rest // W - 2 - t, rest % W - 2 - l, cat

    def point(self, r, c, d):
        cat, dr, dc = CAT[d]
        return self.idx(r + dr, c + dc, cat)

    def unpoint(self, index):
        r, c, cat = self.pos(index)
        d = ("C", "TL", "T", "L")[cat]
        _, dr, dc = CAT[d]
        return r - dr, c - dc, d

    # -- keys
    def edge_key(self, key):
        d, r, c = key
        a, b = {"T": ((r - 1, c - 1), (r - 1, c)), "L": ((r - 1, c - 1), (r, c - 1)),
                "U": ((r - 1, c), (r, c - 1)), "D": ((r - 1, c - 1), (r, c))}[d]
        i, j = self.idx(*a, 1), self.idx(*b, 1)
        return f"{min(i, j)},{max(i, j)}"

    def line_key(self, key):
        if key[0] == "H":
            return f"{self.idx(key[1], key[2])},{self.idx(key[1], key[2] + 1)}"
        if key[0] == "V":
            return f"{self.idx(key[1], key[2])},{self.idx(key[1] + 1, key[2])}"
        _, r, c, d = key
        mid = {"r": (r, c, 3), "l": (r, c - 1, 3), "d": (r, c, 2), "u": (r - 1, c, 2)}[d]
        return f"{self.idx(r, c)},{self.idx(*mid)}"

    # -- layer <-> JSON object
    def layer_obj(self, layer, hashi=False, edge_style=2, line_style=2):
        o = {"command_redo": {"__a": []}, "command_undo": {"__a": []}, "command_replay": {"__a": []}}
        o["surface"] = {str(self.idx(*k)): v for k, v in layer.surface.items()}
        o["number"] = {str(self.point(*k)): list(v) for k, v in layer.number.items()}
        o["sudoku"] = {str(self.idx(r, c, 1 + k // 4) * 4 + k % 4): list(v) for (r, c, k), v in layer.sudoku.items()}
        o["symbol"] = {str(self.point(*k)): list(v) for k, v in layer.symbol.items()}
        for k in ("freeline", "freeedge"):
            o[k] = {}
        for k in ("thermo", "arrows", "d", "squareframe", "polygon"):
            o[k] = []
        o["line"], o["edge"] = {}, {}
        for k, v in layer.line.items():
            if v is False:
                o["line"][str(self.idx(k[1], k[2], 3 if k[0] == "H" else 2))] = 98
            else:
                o["line"][self.line_key(k)] = (30 if v == 2 else 3) if hashi else line_style
        for k, v in layer.edge.items():
            if v is False:
                o["edge"][str(self.point(k[1], k[2], k[0]))] = 98
            else:
                o["edge"][self.edge_key(k)] = edge_style
        for k in ("surface", "number", "sudoku", "symbol"):   # browsers keep integer keys in ascending order
            o[k] = dict(sorted(o[k].items(), key=lambda x: int(x[0])))
        for k in ("wall", "cage", "deleteedge"):
            o[k] = {}
        for k in ("killercages", "nobulbthermo"):
            o[k] = []
        return o

    def read_obj(self, o, hashi=False):
        """Independent reading of a layer; unknown things are collected in self.unknown."""
        y = Layer()
        for k, v in o.get("surface", {}).items():
            r, c, cat = self.pos(int(k))
            if cat:
                self.unknown.append(("surface", k, v))
            y.surface[(r, c)] = v
        for k, v in o.get("number", {}).items():
            y.number[self.unpoint(int(k))] = list(v)
        for k, v in o.get("sudoku", {}).items():
            r, c, cat = self.pos(int(k) // 4)
            y.sudoku[(r, c, (cat - 1) * 4 + int(k) % 4)] = list(v)
        for k, v in o.get("symbol", {}).items():
            y.symbol[self.unpoint(int(k))] = list(v)
        for k, v in o.get("edge", {}).items():
            if "," not in k:
                r, c, d = self.unpoint(int(k))
                y.edge[(d, r, c)] = False
                continue
            i, j = sorted(map(int, k.split(",")))
            (r1, c1, k1), (r2, c2, k2) = self.pos(i), self.pos(j)
            if k1 != 1 or k2 != 1:
                self.unknown.append(("edge", k, v))
                continue
            step = (r2 - r1, c2 - c1)
            key = {(0, 1): ("T", r1 + 1, c1 + 1), (1, 0): ("L", r1 + 1, c1 + 1),
                   (1, 1): ("D", r2, c2), (1, -1): ("U", r2, c2 + 1)}.get(step)
            if key is None:
                self.unknown.append(("edge", k, v))
            else:
                y.edge[key] = True
        for k, v in o.get("line", {}).items():
            val = (2 if v == 30 else 1) if hashi else True
            if "," not in k:
                r, c, cat = self.pos(int(k))
                y.line[({3: "H", 2: "V"}.get(cat, "?"), r, c)] = False
                continue
            i, j = sorted(map(int, k.split(",")))
            (r1, c1, k1), (r2, c2, k2) = self.pos(i), self.pos(j)
            key = None
            if k1 == 0 and k2 == 0:
                key = {(0, 1): ("H", r1, c1), (1, 0): ("V", r1, c1)}.get((r2 - r1, c2 - c1))
            elif k1 == 0 and k2 == 3:
                key = {(0, 0): ("h", r1, c1, "r"), (0, -1): ("h", r1, c1, "l")}.get((r2 - r1, c2 - c1))
            elif k1 == 0 and k2 == 2:
                key = {(0, 0): ("h", r1, c1, "d"), (-1, 0): ("h", r1, c1, "u")}.get((r2 - r1, c2 - c1))
            if key is None:
                self.unknown.append(("line", k, v))
            else:
                y.line[key] = val
        return y

    # -- links
    def header(self):
        H, W = self.rows + self.margin[0] + self.margin[1], self.cols + self.margin[2] + self.margin[3]
        n = (H + 4) * (W + 4)
        return (f"{self.kind},{W},{H},38,0,1,1,{38 * (W + 1)},{38 * (H + 1)},{n + n // 2},{n + n // 2},0,0,0,0,"
                "Title: ,Author: ,,,OFF,false")

    def encode(self, hashi=False, abbreviate=True, extra=None):
        def short(s):
            if abbreviate:
                for long, ab in ABBR:
                    s = s.replace(long, ab)
            return s

        def dump(o):
            return short(json.dumps(o, separators=(",", ":"), ensure_ascii=False))

        empty = dump(self.layer_obj(Layer()))
        parts = [self.header(), json.dumps(list(self.margin), separators=(",", ":")), short(MODE),
                 dump(self.layer_obj(self.q, hashi)), dump(self.layer_obj(self.a, hashi, 3, 3)),
                 json.dumps([self.idx(0, 0)] + [1] * (self.rows * self.cols - 1), separators=(",", ":")),
                 '["Surface"]', "{}", '"x"', '"x"', "[3,1,4]", short(MODE), '"x"', "0", empty, empty, "{}", "[]", ""]
        if extra:
            for i, v in extra.items():
                parts[i] = v
        return pack(parts)

    @classmethod
    def decode(cls, url, hashi=False):
        parts = unpack(url)
        head = parts[0].split(",")
        margin = json.loads(parts[1])
        t, b, l, r = margin
        bd = cls(int(head[2]) - t - b, int(head[1]) - l - r, margin, head[0])
        bd.parts = parts
        bd.q = bd.read_obj(load_part(parts[3]), hashi)
        bd.a = bd.read_obj(load_part(parts[4]), hashi)
        return bd

    # -- persistence for replay files
    def to_json(self):
        return dict(rows=self.rows, cols=self.cols, margin=list(self.margin), kind=self.kind,
                    q=self.q.to_json(), a=self.a.to_json())

    @classmethod
    def from_json(cls, d):
        b = cls(d["rows"], d["cols"], d["margin"], d["kind"])
        b.q, b.a = Layer.from_json(d["q"]), Layer.from_json(d["a"])
        return b

    def copy(self):
        b = Board(self.rows, self.cols, self.margin, self.kind)
        b.q, b.a = self.q.copy(), self.a.copy()
        return b


def load_part(s):
    for long, ab in ABBR:
        s = s.replace(ab, long)
    return json.loads(s)


def unpack(url):
    return zlib.decompress(base64.b64decode(url[len(PREFIX):]), -15).decode().split("\n")


def pack(parts):
    comp = zlib.compressobj(9, zlib.DEFLATED, -15)
    raw = comp.compress("\n".join(parts).encode()) + comp.flush()
    return PREFIX + base64.b64encode(raw).decode()
