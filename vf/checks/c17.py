"""C17: the counting, neighbour and number rules mean what they say."""
from itertools import product

from ..grid import grid, random_partition
from .c15 import adjm, area_text, base, facts, line_facts, with_holes
from .rules import OPS, Prob, Rules, color, holds, shading, size, size_or_large, target, tgt

PROPERTY = "C17"
RULE = ("For each counting, neighbour or number rule, generated parameters (board size, holes, areas, sources, ranges, colours, every comparison "
        "operator and target); every colouring, border set or filling of a small board the rule accepts against the plain reading. "
        "Boards of up to 11x11 and 1x22: single generated colourings. Non-trivial: some but not all are accepted.")

PLAIN = ("black", "gray", "white")


def pc(m):
    return bin(m).count("1")


def coloured(sp, nq, names=None):
    """Board, all colourings, and the set meant by the colour."""
    g = grid(sp["R"], sp["C"])
    al = g.full & ~g.mask(map(tuple, sp.get("holes", ())))
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C, sp.get("holes", ())) + rule + "\n"
    return g, al, p, shown, (lambda m: al & ~m) if comp else (lambda m: m)


# -- counting cells

def gen_count(d):
    R, C = size_or_large(d, 12)
    t = d.choice(["grid", "row", "col", "area"])
    sp = dict(R=R, C=C, holes=with_holes(d, R, C) if t != "area" else [], type=t, color=d.choice(PLAIN) if t != "area" else color(d), target=target(d, 0, R * C if t == "grid" else max(R, C)), id=None)
    if t == "row":
        sp["id"] = d.int(0, R - 1) if d.chance(2, 3) else None
    if t == "col":
        sp["id"] = d.int(0, C - 1) if d.chance(2, 3) else None
    if t == "area":
        sp["label"] = random_partition(d, grid(R, C), max_rooms=3)
        sp["id"] = d.choice(sorted(set(sp["label"])))
    return sp


def build_count(sp, nq):
    g, al, p, shown, meant = coloured(sp, nq)
    if sp["type"] == "area":
        p += area_text(nq, g, sp["label"])
        lines = [g.mask(g.rc(i) for i in range(g.n) if sp["label"][i] == sp["id"])]
    elif sp["type"] == "row":
        lines = [g.mask((r, c) for c in range(g.C)) for r in range(g.R) if sp["id"] in (None, r)]
    elif sp["type"] == "col":
        lines = [g.mask((r, c) for r in range(g.R)) for c in range(g.C) if sp["id"] in (None, c)]
    else:
        lines = [g.full]
    if sp["type"] in ("row", "col"):
        lines = [x for x in lines if x & al]
    p += nq.count(tgt(sp["target"]), color=sp["color"], _type=sp["type"], _id=sp["id"])
    return Prob(p, name=shown, C=g.C, cells=al, ref=lambda m: all(holds(sp["target"], pc(meant(m) & x & al)) for x in lines))


# -- colours of a cell

def gen_colors(d):
    R, C = size(d, 5)
    return dict(R=R, C=C, holes=with_holes(d, R, C), names=["black", "gray", "red", "blue"][:d.int(1, 4)], invert=d.chance(1, 3))


def build_colors(sp, nq):
    g = grid(sp["R"], sp["C"])
    hs = set(map(tuple, sp["holes"]))
    cells = [x for x in g.cells if x not in hs]
    p = base(nq, g.R, g.C, sp["holes"])
    if sp["invert"]:
        p += nq.shade_c(color="black") + "\n" + nq.invert_c(color="black", invert="other")
        names = ["black", "other"]
    else:
        p += nq.shade_cc(sp["names"])
        names = sp["names"]
    exp = {frozenset((n, *x) for n, x in zip(pick, cells)) for pick in product(names, repeat=len(cells))}
    return Prob(p, shows=[(n, 2) for n in names], expected=exp)


# -- neighbours

def gen_adj(d):
    t = d.choice([4, 8, "x", "edge", "loop", "loop_directed"])
    if t in (4, 8, "x"):
        R, C = (d.int(1, 6), d.int(1, 6)) if d.chance(3, 4) else (d.int(1, 14), d.int(1, 14))
        return dict(R=R, C=C, type=t, self=d.chance(1, 3), holes=with_holes(d, R, C))
    R, C = d.int(1, 5), d.int(1, 5)
    segs = [["H", r, c] for r in range(R) for c in range(C - 1)] + [["V", r, c] for r in range(R - 1) for c in range(C)]
    return dict(R=R, C=C, type=t, self=d.chance(1, 3), holes=[], segs=[s + [d.int(0, 1)] for s in segs if d.chance(1, 2)], directed=t == "loop_directed")


def build_adj(sp, nq):
    g = grid(sp["R"], sp["C"])
    t = sp["type"]
    hs = set(map(tuple, sp["holes"]))
    cells = [x for x in g.cells if x not in hs]
    p = base(nq, g.R, g.C, sp["holes"])
    name = f"adj_{t}"
    exp = set()
    if t in (4, 8, "x"):
        for a in cells:
            for b in cells:
                dr, dc = abs(a[0] - b[0]), abs(a[1] - b[1])
                near = {4: dr + dc == 1, "x": dr == dc == 1, 8: max(dr, dc) == 1}[t]
                if near:
                    exp.add((name, *a, *b))
    else:
        pairs = [((r, c), (r, c + 1) if k == "H" else (r + 1, c)) for k, r, c, _ in sp["segs"]]
        if t == "edge":
            # the listed sides are closed
            p += "".join(f"edge_left({r}, {c + 1}).\n" if k == "H" else f"edge_top({r + 1}, {c}).\n" for k, r, c, _ in sp["segs"])
            p += "#defined edge_left/2. #defined edge_top/2.\n"
            closed = set(pairs)
            pairs = [(a, b) for a in cells for b in ((a[0], a[1] + 1), (a[0] + 1, a[1])) if g.inside(*b) and (a, b) not in closed]
        else:
            p += line_facts(sp)[0]
        for a, b in pairs:
            exp |= {(name, *a, *b), (name, *b, *a)}
    if sp["self"]:
        exp |= {(name, *a, *a) for a in cells}
    p += nq.adjacent(_type=t, include_self=sp["self"])
    return Prob(p, shows=[(name, 4)], expected={frozenset(exp)})


def gen_count_adj(d):
    R, C = size_or_large(d, 12)
    return dict(R=R, C=C, holes=with_holes(d, R, C), color=color(d, PLAIN if d.chance(1, 2) else ("black", "not black", "not gray")), adj=d.choice([4, 8, "x"]), self=d.chance(1, 4),
                src=[d.int(0, R - 1), d.int(0, C - 1)], target=target(d, 0, 5))


def build_count_adj(sp, nq):
    g, al, p, shown, meant = coloured(sp, nq)
    p += nq.adjacent(_type=sp["adj"], include_self=sp["self"]) + "\n" + nq.count_adjacent(tgt(sp["target"]), tuple(sp["src"]), color=sp["color"], adj_type=sp["adj"])
    i = g.i(*sp["src"])
    near = (adjm(g, sp["adj"])[i] | (1 << i if sp["self"] else 0)) & al if al >> i & 1 else 0
    return Prob(p, name=shown, C=g.C, cells=al, ref=lambda m: holds(sp["target"], pc(meant(m) & near)))


def gen_count_edges(d):
    R, C = d.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (3, 3)])
    return dict(R=R, C=C, src=[d.int(0, R - 1), d.int(0, C - 1)], target=target(d, 0, 4))


def build_count_edges(sp, nq):
    from .c15 import EDGE_SHOW, as_model, side_sets
    R, C = sp["R"], sp["C"]
    r, c = sp["src"]
    p = base(nq, R, C) + nq.edge(R, C) + "\n" + nq.count_adjacent_edges(tgt(sp["target"]), (r, c))
    sides = {("left", r, c), ("left", r, c + 1), ("top", r, c), ("top", r + 1, c)}
    border = {("left", x, y) for x in range(R) for y in (0, C)} | {("top", x, y) for x in (0, R) for y in range(C)}
    exp = {as_model(R, C, dr) for dr in side_sets(R, C) if holds(sp["target"], len(sides & (set(map(tuple, dr)) | border)))}
    return Prob(p, shows=EDGE_SHOW, expected=exp)


def gen_no_adj(d):
    R, C = size_or_large(d, 14)
    return dict(R=R, C=C, holes=with_holes(d, R, C), color=color(d), adj=d.choice([4, 8, "x"]))


def build_no_adj(sp, nq):
    g, al, p, shown, meant = coloured(sp, nq)
    p += nq.adjacent(_type=sp["adj"]) + "\n" + nq.avoid_adjacent_color(color=sp["color"], adj_type=sp["adj"])
    if sp["color"].startswith("not "):        # a variable needs a positive atom: adj gives it
        pass
    adj = adjm(g, sp["adj"])

    def ok(m):
        m = meant(m)
        return not any(adj[i] & m for i in g.bits(m))
    return Prob(p, name=shown, C=g.C, cells=al, ref=ok)


def gen_pairs(d):
    R, C = size_or_large(d, 12)
    return dict(R=R, C=C, holes=with_holes(d, R, C), color=d.choice(PLAIN), adj=d.choice([4, 8, "x"]))


def build_pairs(sp, nq):
    g, al, p, shown, meant = coloured(sp, nq)
    p += nq.adjacent(_type=sp["adj"]) + "\n" + nq.nori_adjacent(color=sp["color"], adj_type=sp["adj"])
    adj = adjm(g, sp["adj"])

    def ok(m):
        m = meant(m)
        return all(pc(adj[i] & m) == 1 for i in g.bits(m))
    return Prob(p, name=shown, C=g.C, cells=al, ref=ok)


def gen_arrow(d):
    R, C = size_or_large(d, 12)
    return dict(R=R, C=C, holes=with_holes(d, R, C), color=d.choice(PLAIN), src=[d.int(0, R - 1), d.int(0, C - 1)], dir=d.int(0, 3), n=d.int(0, d.choice([3, 3, max(R, C)])), unshade=d.chance(1, 2))


def build_arrow(sp, nq):
    g, al, p, shown, meant = coloured(sp, nq)
    r, c = sp["src"]
    p += nq.yaji_count(sp["n"], (r, c), sp["dir"], color=sp["color"], unshade_clue=sp["unshade"])
    ray = {0: [(x, c) for x in range(r)], 1: [(r, y) for y in range(c)], 2: [(r, y) for y in range(c + 1, g.C)], 3: [(x, c) for x in range(r + 1, g.R)]}[sp["dir"]]
    ray = g.mask(ray)
    here = 1 << g.i(r, c)

    def ok(m):
        m = meant(m)
        return pc(m & ray) == sp["n"] or (not sp["unshade"] and bool(m & here))
    return Prob(p, name=shown, C=g.C, cells=al, ref=ok)


# -- areas

def gen_area_color(d):
    R, C = size_or_large(d, 12)
    return dict(R=R, C=C, label=random_partition(d, grid(R, C), max_rooms=4), color=color(d))


def build_area_color(sp, nq):
    g, al, p, shown, meant = coloured(sp, nq)
    p += area_text(nq, g, sp["label"]) + nq.area_same_color(color=sp["color"])
    rooms = [g.mask(g.rc(i) for i in range(g.n) if sp["label"][i] == a) for a in set(sp["label"])]
    return Prob(p, name=shown, C=g.C, cells=al, ref=lambda m: all(m & x in (0, x) for x in rooms))


def gen_area_adj(d):
    R, C = (d.int(1, 5), d.int(1, 5)) if d.chance(3, 4) else (d.int(1, 13), d.int(1, 13))
    sp = dict(R=R, C=C, label=random_partition(d, grid(R, C), max_rooms=6 if R * C <= 25 else 30), adj=d.choice([4, 8, "x", "edge", "loop"]), color=d.choice([None, None, "black", "not black"]),
              black=[i for i in range(R * C) if d.chance(1, 2)], directed=False)
    segs = [["H", r, c] for r in range(R) for c in range(C - 1)] + [["V", r, c] for r in range(R - 1) for c in range(C)]
    sp["segs"] = [s + [0] for s in segs if d.chance(1, 2)] if sp["adj"] in ("loop", "edge") else []
    return sp


def build_area_adj(sp, nq):
    g = grid(sp["R"], sp["C"])
    t = sp["adj"]
    p = base(nq, g.R, g.C) + area_text(nq, g, sp["label"]) + nq.adjacent(_type=t) + "\n"
    pairs = [(i, j) for i in range(g.n) for j in range(g.n) if t in (4, 8, "x") and adjm(g, t)[i] >> j & 1]
    segs = {(g.i(r, c), g.i(r, c + 1) if k == "H" else g.i(r + 1, c)) for k, r, c, _ in sp["segs"]}
    if t == "edge":
        p += "".join(f"edge_left({r}, {c + 1}).\n" if k == "H" else f"edge_top({r + 1}, {c}).\n" for k, r, c, _ in sp["segs"]) + "#defined edge_left/2. #defined edge_top/2.\n"
        pairs = [(i, j) for i in range(g.n) for j in g.bits(g.m4[i]) if i < j and (i, j) not in segs]
    elif t == "loop":
        p += line_facts(sp)[0]
        pairs = sorted(segs)
    if sp["color"]:
        p += "#defined black/2.\n" + "".join(f"black({g.rc(i)[0]}, {g.rc(i)[1]}).\n" for i in sp["black"])
        inn = set(sp["black"]) if sp["color"] == "black" else set(range(g.n)) - set(sp["black"])
        pairs = [(i, j) for i, j in pairs if i in inn and j in inn]
    name = nq.tag_encode("area_adj", t, sp["color"])
    p += nq.area_adjacent(adj_type=t, color=sp["color"])
    lab = sp["label"]
    want = {tuple(sorted((lab[i], lab[j]))) for i, j in pairs if lab[i] != lab[j]}
    return Prob(p, shows=[(name, 2)], expected={frozenset(want)}, view=lambda m: frozenset(x[1:] for x in m))


# -- numbers

def gen_fill(d):
    R, C = size(d, 4)
    area = d.chance(1, 3)
    sp = dict(R=R, C=C, holes=with_holes(d, R, C) if not area else [], area=area, range=sorted(set(d.int(-1, 6) for _ in range(d.int(1, 3)))), color=d.chance(1, 4))
    if area:
        sp["label"] = random_partition(d, grid(R, C), max_rooms=3)
        sp["id"] = d.choice(sorted(set(sp["label"]))) if d.chance(1, 2) else None
    hs = set(map(tuple, sp["holes"]))
    sp["given"] = [[r, c, d.int(-1, 7)] for r in range(R) for c in range(C) if (r, c) not in hs and d.chance(1, 5)]
    return sp


def build_fill(sp, nq):
    g = grid(sp["R"], sp["C"])
    hs = set(map(tuple, sp["holes"]))
    p = base(nq, g.R, g.C, sp["holes"])
    kw = dict(color="gray") if sp["color"] else {}
    cells = [x for x in g.cells if x not in hs]
    if sp["area"]:
        p += area_text(nq, g, sp["label"])
        if sp["id"] is not None:
            cells = [x for x in cells if sp["label"][g.i(*x)] == sp["id"]]
            kw["_id"] = sp["id"]
        p += nq.fill_num(_range=sp["range"], _type="area", **kw)
    else:
        p += nq.fill_num(_range=sp["range"], **kw)
    p += "\n" + "".join(f"number({r}, {c}, {n}).\n" for r, c, n in sp["given"])
    giv = {(r, c): n for r, c, n in sp["given"]}
    opts = [("number", n) for n in sp["range"]] + ([("gray",)] if sp["color"] else [])
    rest = frozenset(("number", *x, n) for x, n in giv.items() if x not in cells)
    exp = set()
    for pick in product(opts, repeat=len(cells)):
        if all(x not in giv or o == ("number", giv[x]) for x, o in zip(cells, pick)):
            exp.add(rest | frozenset((o[0], *x, *o[1:]) for x, o in zip(cells, pick)))
    return Prob(p, shows=[("number", 3), ("gray", 2)], expected=exp)


def gen_num(d, kind):
    R, C = d.choice([(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 2), (2, 3), (3, 2), (1, 5), (5, 1)])
    hi = d.int(1, 3 if R * C <= 5 else 2)
    sp = dict(R=R, C=C, kind=kind, hi=hi, gray=d.chance(1, 2) and hi < 3)
    sp["label"] = random_partition(d, grid(R, C), max_rooms=3)
    if kind == "unique":
        sp["type"] = d.choice(["row", "col", "area"])
        sp["color"] = d.choice(["grid", "not gray"]) if sp["gray"] else "grid"
    else:
        sp["adj"] = d.choice([4, 8, "x"])
    return sp


def build_num(sp, nq):
    g = grid(sp["R"], sp["C"])
    p = base(nq, g.R, g.C) + area_text(nq, g, sp["label"]) + nq.fill_num(_range=range(1, sp["hi"] + 1)) + "\n"
    if sp["gray"]:       # a shaded cell keeps its number
        p += nq.shade_c(color="gray") + "\n"
    if sp["kind"] == "unique":
        p += nq.unique_num(color=sp["color"], _type=sp["type"])
    else:
        p += nq.adjacent(_type=sp["adj"]) + "\n" + nq.avoid_num_adjacent(adj_type=sp["adj"])
    exp = set()
    key = {"row": lambda x: x[0], "col": lambda x: x[1], "area": lambda x: sp["label"][g.i(*x)]}
    for nums in product(range(1, sp["hi"] + 1), repeat=g.n):
        for gm in range(1 << g.n if sp["gray"] else 1):
            if sp["kind"] == "unique":
                seen = [(key[sp["type"]](x), nums[g.i(*x)]) for x in g.cells if not (sp["color"] == "not gray" and gm >> g.i(*x) & 1)]
                ok = len(set(seen)) == len(seen)
            else:
                ok = not any(nums[i] == nums[j] for i in range(g.n) for j in g.bits(adjm(g, sp["adj"])[i]))
            if ok:
                exp.add(frozenset(("number", *x, nums[g.i(*x)]) for x in g.cells) | frozenset(("gray", *g.rc(i)) for i in g.bits(gm)))
    return Prob(p, shows=[("number", 3), ("gray", 2)], expected=exp)


KINDS = {
    "cells counted": (gen_count, build_count, 2),
    "colours": (gen_colors, build_colors, 0.5),
    "neighbours": (gen_adj, build_adj),
    "neighbours counted": (gen_count_adj, build_count_adj, 2),
    "borders counted": (gen_count_edges, build_count_edges, 0.6),
    "no neighbours": (gen_no_adj, build_no_adj),
    "exactly one neighbour": (gen_pairs, build_pairs),
    "arrow counts": (gen_arrow, build_arrow, 2),
    "same colour in areas": (gen_area_color, build_area_color, 0.5),
    "neighbouring areas": (gen_area_adj, build_area_adj, 1.5),
    "numbers filled": (gen_fill, build_fill, 1.5),
    "numbers unique": (lambda d: gen_num(d, "unique"), build_num, 1.5),
    "numbers not adjacent": (lambda d: gen_num(d, "adjacent"), build_num),
}
R_ = Rules(KINDS)
body, replay = R_.body, R_.replay


def units(tier):
    return R_.units(tier, 500, 24000)
