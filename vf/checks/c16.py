"""C16: the shape rules accept exactly the shapes they describe."""
from functools import lru_cache

from ..core import Violation
from ..grid import free as free_, grid
from .c15 import EDGE_SHOW, EDGE_SIZES, adjm, area_text, as_model, base, flood, inner_sides, side_adj, side_sets
from .rules import Prob, Rules, color, holds, shading, size, is_large, size_or_large, target, tgt
from ..grid import random_partition

PROPERTY = "C16"
RULE = ("For each shape rule, generated parameters (board size, colour polarity, neighbourhood, polyomino sets, counts, areas, anchors); every "
        "colouring or division of a small board the rule accepts against a reference that classifies the connected pieces. The polyomino "
        "tables and variant function are compared with an independent enumeration. Boards of up to 11x11 and 1x22: single generated colourings. Non-trivial: some but not all are accepted.")

# the shapes the names stand for, drawn
LETTERS = {
    1: {".": ["#"]},
    2: {"I": ["##"]},
    3: {"I": ["###"], "L": ["##", "#."]},
    4: {"T": ["###", ".#."], "O": ["##", "##"], "I": ["####"], "L": ["#.", "#.", "##"], "S": [".##", "##."]},
    5: {"F": [".##", "##.", ".#."], "I": ["#####"], "L": ["#.", "#.", "#.", "##"], "N": [".#", ".#", "##", "#."], "P": ["##", "##", "#."],
        "T": ["###", ".#.", ".#."], "U": ["#.#", "###"], "V": ["#..", "#..", "###"], "W": ["#..", "##.", ".##"], "X": [".#.", "###", ".#."],
        "Y": [".#", "##", ".#", ".#"], "Z": ["##.", ".#.", ".##"]},
}


@lru_cache(1 << 16)
def free_norm(cells):
    return free_(cells)


def free(cells):
    """Canonical form up to turning and mirroring."""
    cells = list(cells)
    r0, c0 = min(r for r, c in cells), min(c for r, c in cells)
    return free_norm(tuple(sorted((r - r0, c - c0) for r, c in cells)))


def cells_of(pic):
    return tuple((r, c) for r, row in enumerate(pic) for c, x in enumerate(row) if x == "#")


def norm(cells):
    s = sorted(cells)
    r0, c0 = s[0]
    return tuple((r - r0, c - c0) for r, c in s)


def turned(cells, k, flip):
    out = [(r, -c) for r, c in cells] if flip else list(cells)
    for _ in range(k):
        out = [(c, -r) for r, c in out]
    return norm(out)


def variants(cells, rot, ref):
    out = set()
    for flip in ((0, 1) if ref else (0,)):
        for k in (range(4) if rot else (0,)):
            out.add(turned(cells, k, flip))
    if ref and not rot:       # one mirror image, up-down
        out = {norm(cells), norm([(-r, c) for r, c in cells])}
    return out


@lru_cache(None)
def polyominoes(n):
    if n == 1:
        return (((0, 0),),)
    out = set()
    for p in polyominoes(n - 1):
        for r, c in p:
            for a, b in ((r + 1, c), (r - 1, c), (r, c + 1), (r, c - 1)):
                if (a, b) not in p:
                    out.add(free(list(p) + [(a, b)]))
    return tuple(sorted(out))


def random_shape(d, most=5):
    n = d.int(1, most)
    s = {(0, 0)}
    while len(s) < n:
        r, c = d.choice(sorted(s))
        a, b = d.choice([(0, 1), (1, 0), (0, -1), (-1, 0)])
        s.add((r + a, c + b))
    return sorted(s)


# -- tables and variants

def gen_table(d):
    return dict(n=d.int(1, 5))


def build_table(sp, nq):
    om = nq.OMINOES
    n = sp["n"]
    if n not in om:
        raise Violation(f"no polyominoes of size {n}")
    want = {k: free(cells_of(v)) for k, v in LETTERS[n].items()}
    assert set(want.values()) == {free(p) for p in polyominoes(n)}
    got = {k: free(v) for k, v in om[n].items()}
    if got != want:
        raise Violation(f"polyominoes of size {n}: {sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))} are not the shapes they are named after")
    return Prob("a.", shows=[], expected={frozenset()}, view=lambda m: frozenset())


def gen_variants(d):
    dr, dc = d.int(-3, 3), d.int(-3, 3)
    return dict(shape=[[r + dr, c + dc] for r, c in d.shuffle(random_shape(d, 7))], rot=d.chance(1, 2), ref=d.chance(1, 2))


def build_variants(sp, nq):
    sh = [tuple(x) for x in sp["shape"]]
    got = {norm(x) for x in nq.get_variants(tuple(sh), sp["rot"], sp["ref"])}
    raw = list(nq.get_variants(tuple(sh), sp["rot"], sp["ref"]))
    want = variants(sh, sp["rot"], sp["ref"])
    if got != want:
        raise Violation(f"variants of {sh} (turned {sp['rot']}, mirrored {sp['ref']}): {len(want - got)} missing, {len(got - want)} too many")
    if len(raw) != len(want):
        raise Violation(f"variants of {sh}: {len(raw)} given, {len(want)} distinct")
    return Prob("a.", shows=[], expected={frozenset()}, view=lambda m: frozenset())


# -- polyominoes on a coloured grid

def pick_shapes(d):
    if d.chance(1, 3):
        out, seen = [], set()
        for _ in range(d.int(1, 3)):
            s = random_shape(d, 4)
            if free(s) not in seen:
                seen.add(free(s))
                out.append([list(x) for x in s])
        return out
    n = d.choice([1, 2, 3, 3, 4, 4, 5])
    return [[n, k] for k in d.sample(sorted(LETTERS[n]), d.int(1, len(LETTERS[n])))]


def shape_cells(s, nq):
    """Cells as the code has them (tables) or as drawn."""
    if isinstance(s[1] if len(s) > 1 else None, str):
        return tuple(nq.OMINOES[s[0]][s[1]]), free(cells_of(LETTERS[s[0]][s[1]]))
    return tuple(map(tuple, s)), free([tuple(x) for x in s])


def gen_shapes(d):
    R, C = size_or_large(d, 12)
    shapes = pick_shapes(d)
    sp = dict(R=R, C=C, color=color(d), adj=d.choice([4, 4, 8]), shapes=shapes, all=d.chance(2, 3),
              counts=[target(d, 0, 3) if d.chance(1, 2) else None for _ in shapes], total=target(d, 0, 3) if d.chance(1, 4) else None)
    if is_large(R, C):
        laid, n = [], [0] * len(shapes)
        for _ in range(3):
            n = [0] * len(shapes)
            m = lay(d, grid(R, C), [drawn_cells(s) for s in shapes], d.int(1, 9), n, sp["adj"])
            laid.append(m)
        if d.chance(3, 4):        # counts met by the last one
            sp["counts"] = [t and (v if isinstance(t, int) else [t[0], v]) for t, v in zip(sp["counts"], n)]
            sp["total"] = sp["total"] and sum(n)
        sp["hint"] = [grid(R, C).full & ~m if sp["color"] not in ("black", "gray") else m for m in laid]
    return sp


def drawn_cells(s):
    return cells_of(LETTERS[s[0]][s[1]]) if isinstance(s[1] if len(s) > 1 else None, str) else tuple(map(tuple, s))


def lay(d, g, shapes, k, n, adj=4):
    """A few of the shapes, turned at will, apart from one another."""
    m = 0
    for _ in range(k):
        i = d.int(0, len(shapes) - 1)
        v = d.choice(sorted(variants(shapes[i], True, True)))
        r, c = d.int(0, g.R - 1), d.int(0, g.C - 1)
        if all(g.inside(r + x, c + y) for x, y in v):
            p = g.mask((r + x, c + y) for x, y in v)
            near = p
            for j in g.bits(p):
                near |= adjm(g, adj)[j]
            if not near & m:
                m |= p
                n[i] += 1
    return m


def pieces(adj, m):
    out = []
    while m:
        k = flood(adj, m & -m, m)
        out.append(k)
        m &= ~k
    return out


def build_shapes(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C) + rule + "\n" + nq.adjacent(_type=sp["adj"]) + "\n"
    kinds = {}
    for i, s in enumerate(sp["shapes"]):
        cells, f = shape_cells(s, nq)
        kinds[f] = i
        p += nq.general_shape("poly", i, cells, color=sp["color"], adj_type=sp["adj"]) + "\n"
        if sp["counts"][i] is not None:
            p += nq.count_shape(tgt(sp["counts"][i]), "poly", _id=i, color=sp["color"]) + "\n"
    if sp["total"] is not None:
        p += nq.count_shape(tgt(sp["total"]), "poly", color=sp["color"]) + "\n"
    if sp["all"]:
        p += nq.all_shapes("poly", color=sp["color"]) + "\n"
    adj = adjm(g, sp["adj"])
    known = {}

    def kind(k):
        if k not in known:
            known[k] = kinds.get(free(g.coords(k)))
        return known[k]

    def ok(m):
        n = [0] * len(sp["shapes"])
        for k in pieces(adj, m):
            i = kind(k)
            if i is None:
                if sp["all"]:
                    return False
            else:
                n[i] += 1
        return (all(t is None or holds(t, v) for t, v in zip(sp["counts"], n)) and (sp["total"] is None or holds(sp["total"], sum(n))))
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


# -- polyominoes inside areas

def gen_area_shapes(d):
    R, C = size_or_large(d, 12)
    shapes = pick_shapes(d)
    sp = dict(R=R, C=C, label=random_partition(d, grid(R, C), max_rooms=12 if is_large(R, C) else 3), color=color(d, ("black", "gray", "not gray", "white")),
              simple=d.chance(2, 3), shapes=shapes, all=d.chance(2, 3), total=target(d, 0, 2) if d.chance(2, 3) else None,
              counts=[target(d, 0, 1) if d.chance(1, 4) else None for _ in shapes])
    if is_large(R, C):        # in every room one of the shapes, where it fits
        g = grid(R, C)
        sp["hint"] = []
        for _ in range(3):
            m = 0
            for a in sorted(set(sp["label"])):
                room = [i for i in range(g.n) if sp["label"][i] == a]
                rm = sum(1 << i for i in room)
                for _ in range(8):
                    v = d.choice(sorted(variants(drawn_cells(d.choice(shapes)), True, True)))
                    r, c = g.rc(d.choice(room))
                    if all(g.inside(r + x, c + y) for x, y in v):
                        p = g.mask((r + x, c + y) for x, y in v)
                        if not p & ~rm:
                            m |= p
                            break
            sp["hint"].append(g.full & ~m if sp["color"] not in ("black", "gray") else m)
    return sp


def build_area_shapes(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C) + rule + "\n" + nq.adjacent(_type=4) + "\n" + area_text(nq, g, sp["label"])
    places = []          # (area, kind, cells, ring)
    for i, s in enumerate(sp["shapes"]):
        cells, f = shape_cells(s, nq)
        p += nq.general_shape("poly", i, cells, color=sp["color"], _type="area", adj_type=4, simple=sp["simple"]) + "\n"
        for a in set(sp["label"]):
            room = sum(1 << x for x in range(g.n) if sp["label"][x] == a)
            for v in variants(f, True, True):
                for r, c in g.cells:
                    if all(g.inside(r + x, c + y) for x, y in v):
                        m = g.mask((r + x, c + y) for x, y in v)
                        if m & ~room == 0:
                            places.append((a, i, m, 0 if sp["simple"] else g.grow4(m) & g.full & ~m))
        if sp["counts"][i] is not None:
            p += nq.count_shape(tgt(sp["counts"][i]), "poly", _id=i, color=sp["color"], _type="area") + "\n"
    if sp["total"] is not None:
        p += nq.count_shape(tgt(sp["total"]), "poly", color=sp["color"], _type="area") + "\n"
    if sp["all"]:
        p += nq.all_shapes("poly", color=sp["color"], _type="area") + "\n"
    areas = sorted(set(sp["label"]))

    def ok(m):
        here = [(a, i, x) for a, i, x, ring in places if x & ~m == 0 and not ring & m]
        if sp["all"]:
            cov = 0
            for _, _, x in here:
                cov |= x
            if m & ~cov:
                return False
        for a in areas:
            if sp["total"] is not None and not holds(sp["total"], sum(1 for b, _, _ in here if b == a)):
                return False
            for i, t in enumerate(sp["counts"]):
                if t is not None and not holds(t, sum(1 for b, j, _ in here if b == a and i == j)):
                    return False
        return True
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


# -- polyominoes as regions

def gen_region_shapes(d):
    R, C = d.choice(EDGE_SIZES)
    shapes = pick_shapes(d)
    return dict(R=R, C=C, shapes=shapes, all=d.chance(3, 4), counts=[target(d, 0, 3) if d.chance(1, 3) else None for _ in shapes],
                total=target(d, 0, 4) if d.chance(1, 3) else None)


def build_region_shapes(sp, nq):
    R, C = sp["R"], sp["C"]
    g = grid(R, C)
    p = base(nq, R, C) + nq.edge(R, C) + "\n" + nq.adjacent(_type="edge") + "\n"
    kinds = {}
    for i, s in enumerate(sp["shapes"]):
        cells, f = shape_cells(s, nq)
        kinds[f] = i
        p += nq.general_shape("poly", i, cells, color="grid", adj_type="edge") + "\n"
        if sp["counts"][i] is not None:
            p += nq.count_shape(tgt(sp["counts"][i]), "poly", _id=i, color="grid") + "\n"
    if sp["total"] is not None:
        p += nq.count_shape(tgt(sp["total"]), "poly", color="grid") + "\n"
    if sp["all"]:
        p += nq.all_shapes("poly", color="grid") + "\n"
    exp = set()
    for drawn in side_sets(R, C):
        adj = side_adj(R, C, drawn)
        n, ok = [0] * len(sp["shapes"]), True
        for k in pieces(adj, g.full):
            i = kinds.get(free(g.coords(k)))
            clean = all(adj[x] & k == g.m4[x] & k for x in g.bits(k))
            if i is None or not clean:
                ok = ok and not sp["all"]
            else:
                n[i] += 1
        if (ok and all(t is None or holds(t, v) for t, v in zip(sp["counts"], n)) and (sp["total"] is None or holds(sp["total"], sum(n)))):
            exp.add(as_model(R, C, drawn))
    return Prob(p, shows=EDGE_SHOW, expected=exp)


# -- rectangles

def is_rect(g, k):
    rows = [r for r, c in g.coords(k)]
    cols = [c for r, c in g.coords(k)]
    h, w = max(rows) - min(rows) + 1, max(cols) - min(cols) + 1
    return bin(k).count("1") == h * w, h == w


def gen_rect(d):
    R, C = size_or_large(d, 15)
    return with_boxes(d, dict(R=R, C=C, color=color(d, ("black", "gray", "white")), square=d.chance(1, 2)))


def with_boxes(d, sp):
    """Large boards: colourings made of a few boxes."""
    R, C = sp["R"], sp["C"]
    if is_large(R, C):
        g = grid(R, C)
        sp["hint"] = []
        for _ in range(4):
            h = d.int(1, min(R, 6))
            box = tuple((r, c) for r in range(h) for c in range(h if sp.get("square") else d.int(1, C)))
            small = ((0, 0),) if sp.get("square") else ((0, 0), (0, 1))
            m = lay(d, g, [box, box, box, small], d.int(1, 9), [0] * 4)
            sp["hint"].append(g.full & ~m if sp["color"] not in ("black", "gray") else m)
    return sp


def build_rect(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C) + rule + "\n" + nq.all_rect(color=sp["color"], square=sp["square"])

    def ok(m):
        for k in pieces(g.m4, m):
            a, b = is_rect(g, k)
            if not a or (sp["square"] and not b):
                return False
        return True
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


def gen_no_rect(d):
    R, C = size_or_large(d, 15)
    return with_boxes(d, dict(R=R, C=C, color=color(d)))


def build_no_rect(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C) + rule + "\n" + nq.adjacent() + "\n" + nq.no_rect(color=sp["color"])

    def ok(m):
        return not any(is_rect(g, k)[0] for k in pieces(g.m4, m))
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


def gen_region_rect(d):
    R, C = d.choice(EDGE_SIZES)
    return dict(R=R, C=C, square=d.chance(1, 2), fixed=[d.int(0, 5) for _ in inner_sides(R, C)])


def build_region_rect(sp, nq):
    R, C = sp["R"], sp["C"]
    g = grid(R, C)
    fix = {x: v for x, v in zip(inner_sides(R, C), sp["fixed"]) if v < 2}
    p = base(nq, R, C) + nq.edge(R, C) + "\n" + nq.all_rect_region(square=sp["square"]) + "\n"
    p += "".join(f":- {'not ' if v else ''}edge_{k}({r}, {c}).\n" for (k, r, c), v in fix.items())
    exp = set()
    for drawn in side_sets(R, C):
        ds = set(drawn)
        if any((x in ds) != bool(v) for x, v in fix.items()):
            continue
        adj = side_adj(R, C, drawn)
        ok = True
        for k in pieces(adj, g.full):
            a, b = is_rect(g, k)
            ok = ok and a and (b or not sp["square"]) and all(adj[x] & k == g.m4[x] & k for x in g.bits(k))
        if ok:
            exp.add(as_model(R, C, drawn))
    return Prob(p, shows=EDGE_SHOW, expected=exp)


def gen_avoid(d):
    R, C = size_or_large(d, 12)
    a, b = d.int(1, min(4, R + 1)), d.int(1, min(4, C + 1))
    cr = d.int(0, R - a) if a <= R and d.chance(1, 3) else None
    cc = d.int(0, C - b) if b <= C and d.chance(1, 3) else None
    return dict(R=R, C=C, color=color(d), a=a, b=b, at=[cr, cc])


def build_avoid(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    a, b, (cr, cc) = sp["a"], sp["b"], sp["at"]
    p = base(nq, g.R, g.C) + rule + "\n" + nq.avoid_rect(a, b, color=sp["color"], corner=(cr, cc))
    bad = [g.mask((r + x, c + y) for x in range(a) for y in range(b)) for r in range(g.R - a + 1) for c in range(g.C - b + 1)
           if cr in (None, r) and cc in (None, c)]
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: all((g.full & ~m if comp else m) & x != x for x in bad))


def gen_cross(d):
    R, C = d.choice(EDGE_SIZES)
    return dict(R=R, C=C)


def build_cross(sp, nq):
    R, C = sp["R"], sp["C"]
    p = base(nq, R, C) + nq.edge(R, C) + "\n" + nq.avoid_region_border_crossover()
    exp = set()
    for drawn in side_sets(R, C):
        s = set(drawn)
        if not any({("left", r, c), ("left", r - 1, c), ("top", r, c), ("top", r, c - 1)} <= s for r in range(1, R) for c in range(1, C)):
            exp.add(as_model(R, C, drawn))
    return Prob(p, shows=EDGE_SHOW, expected=exp)


KINDS = {
    "polyomino table": (gen_table, build_table, 0.2),
    "variants of a shape": (gen_variants, build_variants, 4),
    "polyominoes": (gen_shapes, build_shapes, 0.8),
    "polyominoes in areas": (gen_area_shapes, build_area_shapes, 1.5),
    "polyominoes as regions": (gen_region_shapes, build_region_shapes, 0.6),
    "rectangles": (gen_rect, build_rect, 0.5),
    "no rectangles": (gen_no_rect, build_no_rect, 0.5),
    "rectangular regions": (gen_region_rect, build_region_rect, 0.4),
    "forbidden blocks": (gen_avoid, build_avoid),
    "border crossings": (gen_cross, build_cross, 0.2),
}
R_ = Rules(KINDS)
body, replay = R_.body, R_.replay


def units(tier):
    return R_.units(tier, 180, 5000)
