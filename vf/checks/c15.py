"""C15: the connectivity rules accept exactly the colourings they describe."""
from ..grid import grid, random_partition
from .rules import Prob, Rules, color, holds, is_large, shading, size, size_or_large, target, tgt

PROPERTY = "C15"
RULE = ("For each connectivity rule, generated parameters (board size, holes, neighbourhood kind, colour polarity, sources, included and "
        "excluded cells, operator and number, areas, drawn lines or borders, group ids); small boards: every accepted colouring or border "
        "set against a flood-fill reference; boards of up to 11x11 and 1x22: single generated colourings, some built to meet the numbers, some with a cell or two changed. Non-trivial: some but not all are accepted.")


def flood(adj, seed, m):
    """Cells of m reachable from seed (which counts itself) by neighbour lists/masks adj."""
    seen = seed
    todo = seed
    while todo:
        new = 0
        i = 0
        t = todo
        while t:
            if t & 1:
                new |= adj[i]
            t >>= 1
            i += 1
        todo = new & m & ~seen
        seen |= todo
    return seen


def adjm(g, kind):
    return {4: g.m4, 8: g.m8, "x": g.mx}[kind]


def connected(adj, m):
    return not m or flood(adj, m & -m, m) == m


def with_holes(d, R, C):
    holes = [[r, c] for r in range(R) for c in range(C) if d.chance(1, 6)] if d.chance(1, 3) else []
    if len(holes) == R * C:
        holes = holes[1:]
    return holes


def base(nq, R, C, holes=()):
    p = nq.grid(R, C, with_holes=bool(holes)) + "\n"
    return p + "".join(f"hole({r}, {c}).\n" for r, c in holes)


def blob(d, g, allowed):
    """A colouring that is often connected."""
    if not allowed:
        return 0
    cells = list(g.bits(allowed))
    m = 1 << d.choice(cells)
    for _ in range(d.int(0, len(cells))):
        front = [i for i in cells if not m >> i & 1 and g.m4[i] & m]
        if not front:
            break
        m |= 1 << d.choice(front)
    for _ in range(d.choice([0, 0, 1, 2])):
        m ^= 1 << d.choice(cells)
    return m


def facts(g, cells, m, name):
    return [(name, g.rc(i), bool(m >> i & 1)) for i in g.bits(cells)]


# -- one connected group

def gen_grid(d):
    big = d.chance(1, 5)
    R, C = (d.int(3, 8), d.int(3, 8)) if big else size(d)
    sp = dict(R=R, C=C, holes=with_holes(d, R, C), color=color(d), adj=d.choice([4, 4, 8, "x"]), middle=d.chance(1, 2))
    if big:
        g = grid(R, C)
        al = g.full & ~g.mask(map(tuple, sp["holes"]))
        sp["ask"] = [blob(d, g, al) for _ in range(12)]
    return sp


def build_grid(sp, nq):
    g = grid(sp["R"], sp["C"])
    al = g.full & ~g.mask(map(tuple, sp["holes"]))
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C, sp["holes"]) + rule + "\n" + nq.adjacent(_type=sp["adj"]) + "\n"
    p += nq.grid_color_connected(color=sp["color"], adj_type=sp["adj"], grid_size=(g.R, g.C) if sp["middle"] else None)
    adj = adjm(g, sp["adj"])
    if "ask" in sp:
        return Prob(p, ask=[(facts(g, al, al & ~m if comp else m, shown), connected(adj, m)) for m in sp["ask"]])
    return Prob(p, name=shown, C=g.C, cells=al, ref=lambda m: connected(adj, al & ~m if comp else m))


# -- connected along a drawn line

def gen_line(d):
    R, C = size_or_large(d, 9)
    segs = [["H", r, c] for r in range(R) for c in range(C - 1)] + [["V", r, c] for r in range(R - 1) for c in range(C)]
    return dict(R=R, C=C, segs=[s + [d.int(0, 1)] for s in segs if d.chance(2, 3)], directed=d.chance(1, 2), color=color(d, ("black", "gray", "not black", "white")),
                middle=d.chance(1, 3))


def line_facts(sp):
    out, adj = "", [0] * (sp["R"] * sp["C"])
    for k, r, c, back in sp["segs"]:
        r2, c2 = (r, c + 1) if k == "H" else (r + 1, c)
        a, b = ("r", "l") if k == "H" else ("d", "u")
        i, j = r * sp["C"] + c, r2 * sp["C"] + c2
        adj[i] |= 1 << j
        adj[j] |= 1 << i
        if sp["directed"]:
            x, y = ("grid_in", "grid_out") if back else ("grid_out", "grid_in")
            out += f'{x}({r}, {c}, "{a}"). {y}({r2}, {c2}, "{b}").\n'
        else:
            out += f'grid_direction({r}, {c}, "{a}"). grid_direction({r2}, {c2}, "{b}").\n'
    return out + "#defined grid_in/3. #defined grid_out/3. #defined grid_direction/3.\n", adj


def build_line(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    t = "loop_directed" if sp["directed"] else "loop"
    drawn, adj = line_facts(sp)
    p = base(nq, g.R, g.C) + rule + "\n" + drawn + nq.adjacent(_type=t) + "\n"
    p += nq.grid_color_connected(color=sp["color"], adj_type=t, grid_size=(g.R, g.C) if sp["middle"] else None)
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: connected(adj, g.full & ~m if comp else m))


# -- connected to the border

def gen_border(d):
    big = d.chance(1, 5)
    R, C = (d.int(3, 8), d.int(3, 8)) if big else size(d, 15)
    sp = dict(R=R, C=C, color=color(d), adj=d.choice([4, 4, 8, "x"]))
    if big:
        g = grid(R, C)
        sp["ask"] = [blob(d, g, g.full) for _ in range(6)] + [blob(d, g, g.full & ~g.border) | (1 << d.choice(list(g.bits(g.border))) if d.chance(2, 3) else 0) for _ in range(8)]
    return sp


def build_border(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C) + rule + "\n" + nq.adjacent(_type=sp["adj"]) + "\n"
    p += nq.border_color_connected(g.R, g.C, color=sp["color"], adj_type=sp["adj"])
    adj = adjm(g, sp["adj"])

    def ok(m):
        return flood(adj, m & g.border, m) == m

    if "ask" in sp:
        return Prob(p, ask=[(facts(g, g.full, g.full & ~m if comp else m, shown), ok(m)) for m in sp["ask"]])
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


# -- connected inside each area

def gen_area(d):
    R, C = size_or_large(d)
    lab = random_partition(d, grid(R, C), max_rooms=14 if is_large(R, C) else 4)
    gone = [x for x in sorted(set(lab)) if d.chance(1, 6)]
    return dict(R=R, C=C, label=[-1 if x in gone else x for x in lab], color=color(d), adj=d.choice([4, 4, 8, "x"]))


def area_text(nq, g, lab):
    out = "#defined area/3.\n"
    for x in sorted(set(lab)):
        if x >= 0:
            out += nq.area(_id=x, src_cells=[g.rc(i) for i in range(g.n) if lab[i] == x]) + "\n"
    return out


def build_area(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C) + rule + "\n" + nq.adjacent(_type=sp["adj"]) + "\n" + area_text(nq, g, sp["label"])
    p += nq.area_color_connected(color=sp["color"], adj_type=sp["adj"])
    adj = adjm(g, sp["adj"])
    rooms = [sum(1 << i for i in range(g.n) if sp["label"][i] == x) for x in set(sp["label"]) if x >= 0]

    def ok(m):
        return all(connected(adj, m & a) for a in rooms)
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


# -- reachable from sources

def gen_src(d):
    kind = d.choice([4, 4, 4, 8, "x", "loop", "loop_directed"])
    R, C = size_or_large(d, 9 if isinstance(kind, str) and kind != "x" else 11)
    g = grid(R, C)
    sp = dict(R=R, C=C, adj=kind, color=color(d), count=d.chance(3, 4), unknown=d.chance(1, 3) and kind != "x",
              srcs=[])
    if kind in ("loop", "loop_directed"):
        sp.update({k: v for k, v in gen_line(d).items() if k == "none"})
        segs = [["H", r, c] for r in range(R) for c in range(C - 1)] + [["V", r, c] for r in range(R - 1) for c in range(C)]
        sp["segs"] = [s + [d.int(0, 1)] for s in segs if d.chance(2, 3)]
        sp["directed"] = kind == "loop_directed"
    for s in d.sample(range(g.n), d.int(1, 2)):
        rest = [i for i in range(g.n) if i != s]
        inc = d.sample(rest, 1) if rest and d.chance(1, 4) else []
        exc = d.sample([i for i in rest if i not in inc], d.int(1, 2)) if d.chance(1, 3) else []
        sp["srcs"].append(dict(at=s, inc=inc, exc=exc, target=target(d, 1, g.n)))
    if is_large(R, C) and kind in (4, 8, "x"):
        comp = sp["color"] == "white" or sp["color"].startswith("not ")
        sp["hint"] = hints(d, g, comp, sp["srcs"], lambda s, m: bin(flood(adjm(g, kind), sum(1 << i for i in [s["at"]] + s["inc"]), m)).count("1"))
    return sp


def hints(d, g, comp, srcs, value):
    """A few colourings, one of which mostly meets every number; the numbers are taken from it."""
    seeds = [1 << s["at"] for s in srcs]
    out = []
    for _ in range(3):
        m = 0
        for s in seeds:
            m |= s | (blob(d, g, g.full) if d.chance(1, 2) else 0)
        for _ in range(d.choice([0, g.n // 3, g.n])):
            front = [i for i in range(g.n) if not m >> i & 1 and g.m4[i] & m]
            if not front:
                break
            m |= 1 << d.choice(front)
        out.append(m)
    if d.chance(3, 4):
        for s in srcs:
            v = value(s, out[0])
            s["target"] = v if isinstance(s["target"], int) else [s["target"][0], max(0, v + d.choice([-1, 0, 0, 1]))]
    return [g.full & ~m for m in out] if comp else out


def build_src(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C) + rule + "\n"
    if "segs" in sp:
        drawn, adj = line_facts(sp)
        p += drawn
    else:
        adj = adjm(g, sp["adj"])
    p += nq.adjacent(_type=sp["adj"]) + "\n"
    for s in sp["srcs"]:
        p += nq.grid_src_color_connected(g.rc(s["at"]), include_cells=[g.rc(i) for i in s["inc"]] or None,
                                         exclude_cells=[g.rc(i) for i in s["exc"]] or None, color=sp["color"], adj_type=sp["adj"]) + "\n"
        if sp["count"]:
            p += nq.count_reachable_src(tgt(s["target"]), g.rc(s["at"]), color=sp["color"], adj_type=sp["adj"]) + "\n"
    if sp["unknown"]:
        p += nq.avoid_unknown_src(color=sp["color"], adj_type=sp["adj"])

    def ok(m):
        allr = 0
        for s in sp["srcs"]:
            reach = flood(adj, sum(1 << i for i in [s["at"]] + s["inc"]), m)
            allr |= reach
            if any(reach >> i & 1 for i in s["exc"]):
                return False
            if sp["count"] and not holds(s["target"], bin(reach).count("1")):
                return False
        return not sp["unknown"] or not m & ~allr
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


# -- reachable without crossing a border

def inner_sides(R, C):
    return [("left", r, c) for r in range(R) for c in range(1, C)] + [("top", r, c) for r in range(1, R) for c in range(C)]


def side_sets(R, C):
    """All sets of inner sides."""
    s = inner_sides(R, C)
    for m in range(1 << len(s)):
        yield [x for i, x in enumerate(s) if m >> i & 1]


def side_adj(R, C, drawn):
    adj = [0] * (R * C)
    drawn = set(drawn)
    for k, r, c in inner_sides(R, C):
        if (k, r, c) not in drawn:
            a = r * C + c
            b = a - 1 if k == "left" else a - C
            adj[a] |= 1 << b
            adj[b] |= 1 << a
    return adj


def outer(R, C):
    return [("edge_left", r, c) for r in range(R) for c in (0, C)] + [("edge_top", r, c) for c in range(C) for r in (0, R)]


def as_model(R, C, drawn):
    return frozenset([("edge_" + k, r, c) for k, r, c in drawn] + outer(R, C))


EDGE_SHOW = [("edge_left", 2), ("edge_top", 2)]
EDGE_SIZES = [(1, 2), (2, 1), (1, 5), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3)]


def gen_src_edge(d):
    R, C = d.choice(EDGE_SIZES)
    n = R * C
    srcs = []
    for s in d.sample(range(n), d.int(1, 3)):
        rest = [i for i in range(n) if i != s]
        exc = d.sample(rest, d.int(1, 2)) if d.chance(1, 2) else []
        inc = d.sample([i for i in rest if i not in exc], 1) if d.chance(1, 8) else []
        srcs.append(dict(at=s, exc=exc, inc=inc, target=target(d, 1, n) if d.chance(2, 3) else None))
    return dict(R=R, C=C, srcs=srcs, unknown=d.chance(1, 2))


def build_src_edge(sp, nq):
    R, C = sp["R"], sp["C"]
    p = base(nq, R, C) + nq.edge(R, C) + "\n" + nq.adjacent(_type="edge") + "\n"
    for s in sp["srcs"]:
        rc = divmod(s["at"], C)
        p += nq.grid_src_color_connected(rc, include_cells=[divmod(i, C) for i in s["inc"]] or None,
                                         exclude_cells=[divmod(i, C) for i in s["exc"]] or None, color=None, adj_type="edge") + "\n"
        if s["target"] is not None:
            p += nq.count_reachable_src(tgt(s["target"]), rc, color=None, adj_type="edge") + "\n"
    if sp["unknown"]:
        p += nq.avoid_unknown_src(color=None, adj_type="edge")
    exp = set()
    full = (1 << R * C) - 1
    for drawn in side_sets(R, C):
        adj = side_adj(R, C, drawn)
        allr, ok = 0, True
        for s in sp["srcs"]:
            reach = flood(adj, sum(1 << i for i in [s["at"]] + s["inc"]), full)
            allr |= reach
            if any(reach >> i & 1 for i in s["exc"]) or (s["target"] is not None and not holds(s["target"], bin(reach).count("1"))):
                ok = False
                break
            for k, r, c in drawn:
                a = r * C + c
                b = a - 1 if k == "left" else a - C
                if reach >> a & 1 and reach >> b & 1:
                    ok = False
                    break
        if ok and not (sp["unknown"] and allr != full):
            exp.add(as_model(R, C, drawn))
    return Prob(p, shows=EDGE_SHOW, expected=exp)


def gen_branch_edge(d):
    R, C = d.choice(EDGE_SIZES)
    return dict(R=R, C=C, fixed=[d.int(0, 4) for _ in inner_sides(R, C)])


def build_branch_edge(sp, nq):
    """No border piece may end inside a piece it does not separate."""
    R, C = sp["R"], sp["C"]
    p = base(nq, R, C) + nq.edge(R, C) + "\n" + nq.adjacent(_type="edge") + "\n" + nq.grid_branch_color_connected(color=None, adj_type="edge") + "\n"
    fix = {x: v for x, v in zip(inner_sides(R, C), sp["fixed"]) if v < 2}
    p += "".join(f":- {'not ' if v else ''}edge_{k}({r}, {c}).\n" for (k, r, c), v in fix.items())
    exp = set()
    full = (1 << R * C) - 1
    for drawn in side_sets(R, C):
        ds = set(drawn)
        if any((x in ds) != bool(v) for x, v in fix.items()):
            continue
        adj = side_adj(R, C, drawn)
        if all(not flood(adj, 1 << (r * C + c), full) >> (r * C + c - (1 if k == "left" else C)) & 1 for k, r, c in drawn):
            exp.add(as_model(R, C, drawn))
    return Prob(p, shows=EDGE_SHOW, expected=exp)


# -- groups: every cell of a piece counted

def gen_branch(d):
    R, C = size_or_large(d, 10, 64)
    sp = dict(R=R, C=C, color=color(d, ("black", "gray", "not black", "white")), adj=d.choice([4, 4, 8, "x"]), at=d.int(0, R * C - 1), target=target(d, 0, R * C))
    if is_large(R, C):
        g = grid(R, C)
        sp["hint"] = hints(d, g, sp["color"] not in ("black", "gray"), [sp], lambda s, m: bin(flood(adjm(g, s["adj"]), 1 << s["at"], m)).count("1"))
    return sp


def build_branch(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    r, c = g.rc(sp["at"])
    text = nq.grid_branch_color_connected(color=sp["color"], adj_type=sp["adj"])
    tag = nq.tag_encode("reachable", "grid", "branch", "adj", sp["adj"], sp["color"])
    if tag + "(" not in text:
        from .rules import Missing
        raise Missing("branch tag")
    op, n = nq.target_encode(tgt(sp["target"]))
    p = base(nq, g.R, g.C) + rule + "\n" + nq.adjacent(_type=sp["adj"]) + "\n" + text + f"\n:- #count {{ R, C: {tag}({r}, {c}, R, C) }} {op} {n}.\n"
    adj = adjm(g, sp["adj"])

    def ok(m):
        k = flood(adj, 1 << sp["at"], m) if m >> sp["at"] & 1 else 0
        return holds(sp["target"], bin(k).count("1"))
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


# -- visible from a source

def gen_bulb(d):
    R, C = size_or_large(d, 12)
    sp = dict(R=R, C=C, color=color(d), what=d.choice(["count", "count", "rect"]),
              srcs=[dict(at=s, target=target(d, 1, R + C)) for s in d.sample(range(R * C), d.int(1, 2))])
    if is_large(R, C):
        def value(s, m):
            seen = rays(R, C, s["at"], lambda a, b: m >> b & 1)
            return bin(seen).count("1") if sp["what"] == "count" else spans(R, C, seen)
        sp["hint"] = hints(d, grid(R, C), sp["color"] not in ("black", "gray"), sp["srcs"], value)
    return sp


def rays(R, C, at, passes):
    """Cells seen from `at` in straight lines; passes(a, b): may one step from a to b."""
    r0, c0 = divmod(at, C)
    out = 1 << at
    for dr, dc in ((-1, 0), (1, 0), (0, -1), (0, 1)):
        r, c = r0, c0
        while 0 <= r + dr < R and 0 <= c + dc < C and passes(r * C + c, (r + dr) * C + c + dc):
            r, c = r + dr, c + dc
            out |= 1 << (r * C + c)
    return out


def spans(R, C, seen):
    rows = {i // C for i in range(R * C) if seen >> i & 1}
    cols = {i % C for i in range(R * C) if seen >> i & 1}
    return len(rows) * len(cols)


def build_bulb(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, comp = shading(sp["color"], nq)
    p = base(nq, g.R, g.C) + rule + "\n" + nq.adjacent() + "\n"
    for s in sp["srcs"]:
        p += nq.bulb_src_color_connected(g.rc(s["at"]), color=sp["color"], adj_type=4) + "\n"
        if sp["what"] == "count":
            p += nq.count_reachable_src(tgt(s["target"]), g.rc(s["at"]), main_type="bulb", color=sp["color"]) + "\n"
        else:
            p += nq.count_rect_src(tgt(s["target"]), g.rc(s["at"]), color=sp["color"]) + "\n"

    def ok(m):
        for s in sp["srcs"]:
            seen = rays(g.R, g.C, s["at"], lambda a, b: m >> b & 1)
            v = bin(seen).count("1") if sp["what"] == "count" else spans(g.R, g.C, seen)
            if not holds(s["target"], v):
                return False
        return True
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=lambda m: ok(g.full & ~m if comp else m))


def gen_bulb_edge(d):
    R, C = d.choice(EDGE_SIZES)
    return dict(R=R, C=C, srcs=[dict(at=s, target=target(d, 1, R * C)) for s in d.sample(range(R * C), d.int(1, 2))], what=d.choice(["rect", "count"]))


def build_bulb_edge(sp, nq):
    R, C = sp["R"], sp["C"]
    p = base(nq, R, C) + nq.edge(R, C) + "\n" + nq.adjacent(_type="edge") + "\n"
    for s in sp["srcs"]:
        rc = divmod(s["at"], C)
        p += nq.bulb_src_color_connected(rc, color=None, adj_type="edge") + "\n"
        if sp["what"] == "rect":
            p += nq.count_rect_src(tgt(s["target"]), rc, color=None, adj_type="edge") + "\n"
        else:
            p += nq.count_reachable_src(tgt(s["target"]), rc, main_type="bulb", color=None, adj_type="edge") + "\n"
    exp = set()
    for drawn in side_sets(R, C):
        adj = side_adj(R, C, drawn)
        ok = True
        for s in sp["srcs"]:
            seen = rays(R, C, s["at"], lambda a, b: adj[a] >> b & 1)
            v = spans(R, C, seen) if sp["what"] == "rect" else bin(seen).count("1")
            ok = ok and holds(s["target"], v)
        if ok:
            exp.add(as_model(R, C, drawn))
    return Prob(p, shows=EDGE_SHOW, expected=exp)


# -- group identifiers in bits

def gen_bits(d):
    kind = d.choice([4, 8, "x", "loop", "loop_directed"])
    R, C = size_or_large(d, 9)
    g = grid(R, C)
    k = d.int(1, 40 if is_large(R, C) else 5)
    cells = d.sample(range(g.n), d.int(1, min(g.n, 2 * k, 10)))
    sp = dict(R=R, C=C, adj=kind, color=color(d, ("black", "gray")), k=k, clues=[[i, d.int(1, k)] for i in cells], unknown=d.chance(1, 2))
    if kind in ("loop", "loop_directed"):
        segs = [["H", r, c] for r in range(R) for c in range(C - 1)] + [["V", r, c] for r in range(R - 1) for c in range(C)]
        sp["segs"] = [s + [d.int(0, 1)] for s in segs if d.chance(2, 3)]
        sp["directed"] = kind == "loop_directed"
    elif is_large(R, C):       # two groups grown from clues with the same or different numbers
        sp["hint"] = []
        for i, v in sp["clues"]:
            m = sum(1 << j for j, _ in sp["clues"])
            for _ in range(d.int(1, g.n)):
                front = [j for j in range(g.n) if not m >> j & 1 and g.m4[j] & m]
                if not front:
                    break
                m |= 1 << d.choice(front)
            sp["hint"].append(m)
        if d.chance(1, 2):
            v = sp["clues"][0][1]
            sp["clues"] = [[i, v] for i, _ in sp["clues"]]
    return sp


def build_bits(sp, nq):
    g = grid(sp["R"], sp["C"])
    rule, shown, _ = shading(sp["color"], nq)
    rng, nbit = nq.num_binary_range(sp["k"])
    p = base(nq, g.R, g.C) + rule + "\n" + rng + "\n"
    if "segs" in sp:
        drawn, adj = line_facts(sp)
        p += drawn
    else:
        adj = adjm(g, sp["adj"])
    p += nq.adjacent(_type=sp["adj"]) + "\n#defined clue_bit/3.\n"
    must = 0
    for i, v in sp["clues"]:
        r, c = g.rc(i)
        p += nq.clue_bit(r, c, v, nbit) + f"\n{shown}({r}, {c}).\n"
        must |= 1 << i
    p += nq.grid_bit_color_connected(color=sp["color"], adj_type=sp["adj"]) + "\n"
    if sp["unknown"]:
        p += nq.avoid_unknown_src_bit(color=sp["color"], adj_type=sp["adj"])

    def ok(m):
        if must & ~m:
            return False
        rest = m
        while rest:
            comp = flood(adj, rest & -rest, m)
            rest &= ~comp
            ids = {v for i, v in sp["clues"] if comp >> i & 1}
            if len(ids) > 1 or (sp["unknown"] and not ids):
                return False
        return True
    return Prob(p, name=shown, C=g.C, cells=g.full, ref=ok)


KINDS = {
    "one group": (gen_grid, build_grid, 2),
    "one group on a line": (gen_line, build_line),
    "to the border": (gen_border, build_border),
    "inside areas": (gen_area, build_area),
    "from a source": (gen_src, build_src, 2),
    "from a source without crossing borders": (gen_src_edge, build_src_edge, 0.5),
    "pieces left by borders": (gen_branch_edge, build_branch_edge, 0.3),
    "size of the group": (gen_branch, build_branch),
    "visible from a source": (gen_bulb, build_bulb, 1.5),
    "visible without crossing borders": (gen_bulb_edge, build_bulb_edge, 0.5),
    "group ids": (gen_bits, build_bits),
}
R_ = Rules(KINDS)
body, replay = R_.body, R_.replay


def units(tier):
    return R_.units(tier, 200, 3000)



