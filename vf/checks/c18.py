"""C18: the loop and path rules accept exactly the drawings they describe."""
from itertools import product

from .. import env
from ..grid import grid, random_partition
from .c15 import area_text, base, line_facts
from .rules import Prob, Rules

PROPERTY = "C18"
RULE = ("For each loop rule, generated parameters (board size, coloured cells given or free, end points, inside and outside items, areas and "
        "drawn borders, drawings); every drawing of a small board the rule accepts against a backtracking enumeration of the described "
        "drawings; facts derived from generated drawings against direct measurement (boards up to 16x16); single drawings (outlines, walks, overlaid, a link or one half of a link changed) on boards up to 11x11. Non-trivial: some but not all are accepted.")

DIRS = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}
BACK = {"u": "d", "d": "u", "l": "r", "r": "l"}


def links(R, C):
    """(cell a, cell b, direction from a to b)"""
    return [((r, c), (r, c + 1), "r") for r in range(R) for c in range(C - 1)] + [((r, c), (r + 1, c), "d") for r in range(R - 1) for c in range(C)]


def drawings(R, C, states, good):
    """All assignments of states to links such that good(cell, [(state, end index)]) at every cell."""
    ls = sorted(links(R, C))
    at = {(r, c): [] for r in range(R) for c in range(C)}
    for i, (a, b, _) in enumerate(ls):
        at[a].append((i, 0))
        at[b].append((i, 1))
    done = [[] for _ in ls]          # cells decided once link i is
    for x, v in at.items():
        if v:
            done[max(i for i, _ in v)].append(x)
        elif not good(x, []):
            return []
    out, cur = [], [0] * len(ls)

    def go(i):
        if i == len(ls):
            out.append(tuple(cur))
            return
        for s in states:
            cur[i] = s
            if all(good(x, [(cur[j], e) for j, e in at[x]]) for x in done[i]):
                go(i + 1)
    go(0)
    return out


def joined(R, C, used, cells):
    """Are the cells one group along the used links?"""
    cells = set(cells)
    if not cells:
        return True
    near = {}
    for (a, b, _), s in zip(sorted(links(R, C)), used):
        if s:
            near.setdefault(a, []).append(b)
            near.setdefault(b, []).append(a)
    todo = [min(cells)]
    seen = set(todo)
    while todo:
        for y in near.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return cells <= seen


def model(R, C, used, directed=False):
    out = set()
    for (a, b, d), s in zip(sorted(links(R, C)), used):
        if not s:
            continue
        if directed:
            x, y = ("grid_out", "grid_in") if s == 1 else ("grid_in", "grid_out")
            if s == 3:
                out |= {("grid_out", *a, d), ("grid_in", *b, BACK[d]), ("grid_in", *a, d), ("grid_out", *b, BACK[d])}
            else:
                out |= {(x, *a, d), (y, *b, BACK[d])}
        else:
            out |= {("grid_direction", *a, d), ("grid_direction", *b, BACK[d])}
    return out


def sizes(d, links_):
    R = d.int(1, 4)
    cs = [c for c in range(1, 6) if R * (c - 1) + (R - 1) * c <= links_]
    return R, d.choice(cs)


# -- loops and paths

def gen_loop(d, kind):
    R, C = sizes(d, 12 if kind == "directed" else 17)
    cells = [[r, c] for r in range(R) for c in range(C)]
    free = d.chance(2, 3)
    path = d.chance(1, 2)
    sp = dict(R=R, C=C, kind=kind, free=free, path=path, color=d.choice(["white", "black"]), joined=d.chance(1, 2), ends=[], must=[], out=[])
    if not free:
        sp["cells"] = [x for x in cells if d.chance(4, 5)]
    if path:
        k = d.choice([0, 1, 2, 2, 2, 3, 4])
        sp["ends"] = d.sample(cells, k)
        sp["starts"] = d.int(0, k) if d.chance(1, 3) else k // 2
    if free:
        sp["must"] = [x for x in cells if d.chance(1, 8)]
    return sp


def loop_rules(sp, nq):
    """The rule text, and what is right at a cell."""
    R, C, col, kind = sp["R"], sp["C"], sp["color"], sp["kind"]
    directed = kind == "directed"
    p = base(nq, R, C) + nq.direction("lurd") + "\n"
    if sp["free"]:
        p += nq.shade_c(color=col) + "\n" + "".join(f":- not {col}({r}, {c}).\n" for r, c in sp["must"])
    else:
        p += "".join(f"{col}({r}, {c}).\n" for r, c in sp["cells"]) + f"#defined {col}/2.\n"
    p += nq.fill_path(color=col, directed=directed) + "\n"
    ends = [tuple(x) for x in sp["ends"]]
    if directed:
        starts, stops = ends[:sp.get("starts", 0)], ends[sp.get("starts", 0):]
        p += "#defined path_start/2. #defined path_end/2.\n" + "".join(f"path_start({r}, {c}).\n" for r, c in starts) + "".join(f"path_end({r}, {c}).\n" for r, c in stops)
        p += nq.directed_loop(color=col, path=sp["path"]) + "\n"
    else:
        p += "#defined dead_end/2.\n" + "".join(f"dead_end({r}, {c}).\n" for r, c in ends)
        p += (nq.intersect_loop if kind == "crossing" else nq.single_loop)(color=col, path=sp["path"]) + "\n"
    if sp["joined"]:
        t = "loop_directed" if directed else "loop"
        p += nq.adjacent(_type=t) + "\n" + nq.grid_color_connected(color=col, adj_type=t) + "\n"
    given = None if sp["free"] else {tuple(x) for x in sp["cells"]}
    must = {tuple(x) for x in sp["must"]}

    def good(x, st):
        used = [(s, e) for s, e in st if s]
        if directed:
            o = sum((s == 1 and e == 0) or (s == 2 and e == 1) for s, e in used)
            i = len(used) - o
            if x in starts or x in stops:
                ok = (x not in starts or (o, i) == (1, 0)) and (x not in stops or (o, i) == (0, 1))
            else:
                ok = (o, i) in ((0, 0), (1, 1))
        elif x in ends:
            ok = len(used) == 1
        else:
            ok = len(used) in ((0, 2, 4) if kind == "crossing" else (0, 2))
        if not ok:
            return False
        on = bool(used)
        return (on or x not in must) if given is None else on == (x in given)
    return p, good


def build_loop(sp, nq):
    R, C, col, kind = sp["R"], sp["C"], sp["color"], sp["kind"]
    directed = kind == "directed"
    p, good = loop_rules(sp, nq)
    states = (0, 1, 2) if directed else (0, 1)
    ls = sorted(links(R, C))
    exp = set()
    for used in drawings(R, C, states, good):
        on = {x for (a, b, _), s in zip(ls, used) if s for x in (a, b)}
        if not sp["joined"] or joined(R, C, used, on):
            exp.add(frozenset(model(R, C, used, directed) | {(col, *x) for x in on}))
    shows = [(col, 2)] + ([("grid_in", 3), ("grid_out", 3)] if directed else [("grid_direction", 3)])
    return Prob(p, shows=shows, expected=exp)


# -- free drawing

def gen_fill(d):
    return dict(R=1, C=d.int(1, 2), dirs=d.sample(["l", "u", "r", "d", "ul", "dr", "ur", "dl"], d.int(1, 4)), directed=d.chance(1, 2), off=d.chance(1, 4))


def build_fill(sp, nq):
    cells = [(0, c) for c in range(sp["C"])]
    on = cells[1:] if sp["off"] else cells
    p = base(nq, 1, sp["C"]) + "#defined black/2.\n" + "".join(f"black({r}, {c}).\n" for r, c in on) + nq.direction(sp["dirs"]) + "\n" + nq.fill_path(color="black", directed=sp["directed"])
    per = []
    for x in on:
        if sp["directed"]:
            one = [set()] + [{(("*"), *x, k)} for k in sp["dirs"]]
            per.append([{("grid_in", *y[1:]) for y in a} | {("grid_out", *y[1:]) for y in b} for a in one for b in one])
        else:
            per.append([{("grid_direction", *x, k) for k, t in zip(sp["dirs"], bits) if t} for bits in product((0, 1), repeat=len(sp["dirs"]))])
    exp = {frozenset().union(*pick) for pick in product(*per)}
    return Prob(p, shows=[("grid_in", 3), ("grid_out", 3), ("grid_direction", 3)], expected=exp)


# -- inside and outside

def loop_program(nq, R, C):
    p = base(nq, R, C) + nq.direction("lurd") + "\n" + nq.shade_c(color="white") + "\n" + nq.fill_path(color="white") + "\n"
    return p + nq.single_loop(color="white") + "\n" + nq.adjacent(_type="loop") + "\n" + nq.grid_color_connected(color="white", adj_type="loop") + "\n"


_loops = {}


def single_loops(R, C):
    if (R, C) not in _loops:
        _loops[R, C] = [u for u in drawings(R, C, (0, 1), lambda x, st: sum(s for s, _ in st) in (0, 2))
                        if joined(R, C, u, {x for (a, b, _), s in zip(sorted(links(R, C)), u) if s for x in (a, b)})]
    return _loops[R, C]


LOOP_SIZES = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 2), (3, 5), (5, 3), (4, 5), (5, 4)]


def gen_inside(d):
    R, C = d.choice(LOOP_SIZES)
    cells = [[r, c] for r in range(R) for c in range(C)]
    k = d.int(1, 4)
    pick = d.sample(cells, k)
    cut = d.int(0, k)
    return dict(R=R, C=C, inn=pick[:cut], out=pick[cut:], names=d.choice([["sheep", "wolf"], ["sheep", ""], ["", "wolf"]]))


def build_inside(sp, nq):
    R, C = sp["R"], sp["C"]
    a, b = sp["names"]
    inn = [tuple(x) for x in sp["inn"]]
    out = [tuple(x) for x in sp["out"]]
    p = inside_rules(sp, nq)
    ls = sorted(links(R, C))
    exp = set()
    for u in single_loops(R, C):
        on = {x for (p1, p2, _), s in zip(ls, u) if s for x in (p1, p2)}
        if on & set(inn) or on & set(out):
            continue
        use = {(p1, p2) for (p1, p2, _), s in zip(ls, u) if s}

        def inside(x):       # walk left, half a cell down: count upright lines crossed
            r, c = x
            return sum(((r, y), (r + 1, y)) in use for y in range(c)) % 2 == 1
        if (not a or all(inside(x) for x in inn)) and (not b or not any(inside(x) for x in out)):
            exp.add(frozenset(model(R, C, u)))
    return Prob(p, shows=[("grid_direction", 3)], expected=exp)


# -- single drawings on large boards

LARGE = [(2, 9), (9, 2), (2, 15), (3, 11), (12, 3), (5, 5), (6, 6), (5, 9), (9, 6), (8, 8), (11, 11), (1, 12), (12, 1)]


def outline(d, R, C, k):
    """Boundary of k grown groups of squares between the cells: the links used and, per link, which way round."""
    faces = set()
    for _ in range(k):
        if R < 2 or C < 2:
            break
        g = {(d.int(0, R - 2), d.int(0, C - 2))}
        for _ in range(d.int(0, d.choice([3, 10, (R - 1) * (C - 1) // 2]))):
            front = sorted({(r + x, c + y) for r, c in g for x, y in DIRS.values() if 0 <= r + x < R - 1 and 0 <= c + y < C - 1} - g)
            if not front:
                break
            g.add(d.choice(front))
        faces |= g
    out = []
    for (r, c), b, dd in sorted(links(R, C)):
        one, two = ((r - 1, c), (r, c)) if dd == "r" else ((r, c - 1), (r, c))
        a, b = one in faces, two in faces
        out.append(0 if a == b else 1 if b == (dd == "r") else 2)
    return out


def walk(d, R, C):
    """A path that does not meet itself."""
    x = (d.int(0, R - 1), d.int(0, C - 1))
    seen = [x]
    dd = d.choice(sorted(DIRS))
    for _ in range(d.int(1, R + 2 * C)):
        nxt = [(k, (x[0] + a, x[1] + b)) for k, (a, b) in sorted(DIRS.items())]
        nxt = [(k, y) for k, y in nxt if 0 <= y[0] < R and 0 <= y[1] < C and y not in seen]
        if not nxt:
            break
        keep = [v for v in nxt if v[0] == dd]
        dd, x = keep[0] if keep and d.chance(2, 3) else d.choice(nxt)
        seen.append(x)
    step = list(zip(seen, seen[1:]))
    return [1 if (a, b) in step else 2 if (b, a) in step else 0 for a, b, _ in sorted(links(R, C))], [seen[0], seen[-1]]


def change(d, u, directed):
    u = list(u)
    for _ in range(d.choice([0, 0, 1, 1, 2])):
        i = d.choice([j for j, v in enumerate(u) if v] or [0]) if d.chance(1, 2) else d.int(0, len(u) - 1)
        u[i] = d.choice([v for v in ((0, 1, 2) if directed else (0, 1)) if v != u[i]])
    return u


def gen_large_loop(d):
    R, C = d.choice(LARGE)
    kind = d.choice(["single", "single", "crossing", "directed"])
    directed = kind == "directed"
    draws, ends = [], []
    path = d.chance(1, 2)
    base_ = []
    for _ in range(3):
        u = outline(d, R, C, d.choice([1, 1, 1, 2, 3]))
        base_.append(u)
    if path:
        for _ in range(2):
            u, e = walk(d, R, C)
            w = d.choice(base_)
            touched = lambda v: {x for (a, b, _), s in zip(sorted(links(R, C)), v) if s for x in (a, b)}
            if not touched(u) & touched(w) and d.chance(1, 2):
                u = [a or b for a, b in zip(u, w)]
            base_.append(u)
            ends = e if e[0] != e[1] else ends
    if kind == "crossing" and d.chance(2, 3):      # two outlines on top of each other
        base_.append([a or b for a, b in zip(base_[0], base_[1])])
    for _ in range(12):
        u = d.choice(base_)
        draws.append(change(d, u if directed else [min(x, 1) for x in u], directed))
    cells = [[r, c] for r in range(R) for c in range(C)]
    last = base_[-1]
    draws.append(last if directed else [min(x, 1) for x in last])
    sp = dict(R=R, C=C, kind=kind, free=d.chance(2, 3), path=path, color=d.choice(["white", "black"]), joined=d.chance(2, 3), ends=[list(x) for x in ends], must=[], draws=draws,
              starts=1, odd=[d.choice(cells) + [d.choice(sorted(DIRS))] for _ in range(2)])
    if not sp["free"]:
        on = {x for (a, b, _), s in zip(sorted(links(R, C)), last) if s for x in (a, b)}
        sp["cells"] = [x for x in cells if tuple(x) in on]
    elif d.chance(1, 3):
        sp["must"] = d.sample(cells, 1)
    return sp


def drawn_facts(R, C, u, directed, col, odd=()):
    """What is true of a drawing (odd: atoms turned round, so that the two cells of a link disagree)."""
    names = ("grid_in", "grid_out") if directed else ("grid_direction",)
    m = set(model(R, C, u, directed))
    on = {x[1:3] for x in m}
    for x in odd:
        m ^= {x}
    out = [(n, (r, c, k), (n, r, c, k) in m) for n in names for r in range(R) for c in range(C) for k, (a, b) in DIRS.items() if 0 <= r + a < R and 0 <= c + b < C]
    return out + ([(col, (r, c), (r, c) in on) for r in range(R) for c in range(C)] if col else []), on


def build_large_loop(sp, nq):
    R, C, col, directed = sp["R"], sp["C"], sp["color"], sp["kind"] == "directed"
    p, good = loop_rules(sp, nq)
    ls = sorted(links(R, C))
    ask = []
    for u in sp["draws"]:
        at = {(r, c): [] for r in range(R) for c in range(C)}
        for (a, b, _), s in zip(ls, u):
            at[a].append((s, 0))
            at[b].append((s, 1))
        f, on = drawn_facts(R, C, u, directed, col if sp["free"] else None)
        ask.append((f, all(good(x, v) for x, v in at.items()) and (not sp["joined"] or joined(R, C, u, on if sp["free"] else {tuple(x) for x in sp["cells"]}))))
    u = sp["draws"][-1]
    for r, c, k in sp["odd"]:
        a, b = DIRS[k]
        if 0 <= r + a < R and 0 <= c + b < C:
            ask.append((drawn_facts(R, C, u, directed, None, [("grid_out" if directed else "grid_direction", r, c, k)])[0], False))
    return Prob(p, ask=ask)


def gen_large_inside(d):
    R, C = d.choice([x for x in LARGE if min(x) > 1])
    draws = [[min(x, 1) for x in outline(d, R, C, 1)] for _ in range(4)]
    on = {x for (a, b, _), s in zip(sorted(links(R, C)), draws[0]) if s for x in (a, b)}
    cells = [[r, c] for r in range(R) for c in range(C) if (r, c) not in on]
    pick = d.sample(cells, d.int(1, min(8, len(cells)))) if cells else []
    use = {(a, b) for (a, b, _), s in zip(sorted(links(R, C)), draws[0]) if s}
    ins = [x for x in pick if sum(((x[0], y), (x[0] + 1, y)) in use for y in range(x[1])) % 2]
    out = [x for x in pick if x not in ins]
    if pick and d.chance(1, 4):
        x = d.choice(pick)
        a, b = (ins, out) if x in ins else (out, ins)
        a.remove(x)
        b.append(x)
    return dict(R=R, C=C, inn=ins, out=out, names=d.choice([["sheep", "wolf"], ["sheep", "wolf"], ["sheep", ""], ["", "wolf"]]), draws=draws + [change(d, draws[0], False)])


def inside_rules(sp, nq):
    a, b = sp["names"]
    p = loop_program(nq, sp["R"], sp["C"]) + nq.separate_item_from_loop(inside_item=a, outside_item=b) + "\n#defined sheep/2. #defined wolf/2.\n"
    return p + "".join(f"sheep({r}, {c}). :- white({r}, {c}).\n" for r, c in sp["inn"]) + "".join(f"wolf({r}, {c}). :- white({r}, {c}).\n" for r, c in sp["out"])


def one_loop(R, C, u):
    n = {}
    for (a, b, _), s in zip(sorted(links(R, C)), u):
        if s:
            n[a], n[b] = n.get(a, 0) + 1, n.get(b, 0) + 1
    return all(v == 2 for v in n.values()) and joined(R, C, u, n)


def build_large_inside(sp, nq):
    R, C = sp["R"], sp["C"]
    a, b = sp["names"]
    inn, out = [tuple(x) for x in sp["inn"]], [tuple(x) for x in sp["out"]]
    ask = []
    for u in sp["draws"]:
        f, on = drawn_facts(R, C, u, False, "white")
        use = {(p1, p2) for (p1, p2, _), s in zip(sorted(links(R, C)), u) if s}
        odd = {x: sum(((x[0], y), (x[0] + 1, y)) in use for y in range(x[1])) % 2 == 1 for x in inn + out}
        ask.append((f, one_loop(R, C, u) and not on & set(inn + out) and (not a or all(odd[x] for x in inn)) and (not b or not any(odd[x] for x in out))))
    return Prob(inside_rules(sp, nq), ask=ask)


def gen_large_pass(d):
    R, C = d.choice([x for x in LARGE if min(x) > 1])
    lab = random_partition(d, grid(R, C), max_rooms=12)
    draws = [[min(x, 1) for x in outline(d, R, C, 1)] for _ in range(4)]
    n = passes(R, C, lab, draws[0])
    want = [[i, n[i] // 2 + (d.chance(1, 8) and d.choice([-1, 1]))] for i in sorted(n) if d.chance(1, 3)]
    return dict(R=R, C=C, label=lab, want=[[i, max(0, t)] for i, t in want], outer=d.chance(1, 2), draws=draws + [change(d, draws[0], False)])


def passes(R, C, lab, u):
    n = dict.fromkeys(sorted(set(lab)), 0)
    for (a, b, _), s in zip(sorted(links(R, C)), u):
        x, y = lab[a[0] * C + a[1]], lab[b[0] * C + b[1]]
        if s and x != y:
            n[x] += 1
            n[y] += 1
    return n


def pass_rules(sp, nq):
    R, C, lab = sp["R"], sp["C"], sp["label"]
    p = loop_program(nq, R, C)
    e = edge_dict(R, C, lab, sp["outer"])
    rooms = sorted(set(lab))
    for i in rooms:
        p += nq.area_border(_id=i, src_cells=[divmod(x, C) for x in range(R * C) if lab[x] == i], edge=e) + "\n"
    p += "#defined area_border/4.\n"
    want = [(i, t) for i, t in sp["want"] if i in rooms]
    for i, t in want:
        p += nq.count_area_pass(t, i) + "\n"
    return p, want


def build_large_pass(sp, nq):
    R, C = sp["R"], sp["C"]
    p, want = pass_rules(sp, nq)
    ask = []
    for u in sp["draws"]:
        n = passes(R, C, sp["label"], u)
        ask.append((drawn_facts(R, C, u, False, "white")[0], one_loop(R, C, u) and all(n[i] == 2 * t for i, t in want)))
    return Prob(p, ask=ask)


# -- passes through areas

def gen_pass(d):
    R, C = d.choice(LOOP_SIZES)
    return dict(R=R, C=C, label=random_partition(d, grid(R, C), max_rooms=4), want=[[i, d.int(0, 2)] for i in range(4) if d.chance(1, 2)], outer=d.chance(1, 2),
                clear=[d.int(0, 1) for _ in range(4)])


def edge_dict(R, C, label, outer, extra=(), clear=()):
    env.load()
    from noqx.puzzle import Direction, Point
    e = {}
    for r in range(R + 1):
        for c in range(C + 1):
            if c < C and (r in (0, R) and outer or 0 < r < R and label[(r - 1) * C + c] != label[r * C + c]):
                e[Point(r, c, Direction.TOP)] = True
            if r < R and (c in (0, C) and outer or 0 < c < C and label[r * C + c - 1] != label[r * C + c]):
                e[Point(r, c, Direction.LEFT)] = True
    for k, r, c, v in extra:
        pt = Point(r, c, Direction.TOP if k == "top" else Direction.LEFT)
        if pt not in e:
            e[pt] = bool(v)
    return e


def build_pass(sp, nq):
    R, C, lab = sp["R"], sp["C"], sp["label"]
    p, want = pass_rules(sp, nq)
    rooms = sorted(set(lab))
    ls = sorted(links(R, C))
    exp = set()
    for u in single_loops(R, C):
        n = dict.fromkeys(rooms, 0)
        for (a, b, _), s in zip(ls, u):
            x, y = lab[a[0] * C + a[1]], lab[b[0] * C + b[1]]
            if s and x != y:
                n[x] += 1
                n[y] += 1
        if all(n[i] == 2 * t for i, t in want):
            exp.add(frozenset(model(R, C, u)))
    return Prob(p, shows=[("grid_direction", 3)], expected=exp)


def gen_borders(d):
    R, C = (d.int(1, 5), d.int(1, 5)) if d.chance(3, 4) else (d.int(1, 13), d.int(1, 13))
    return dict(R=R, C=C, label=random_partition(d, grid(R, C), max_rooms=4 if R * C <= 25 else 30), outer=d.chance(1, 2),
                extra=[[d.choice(["top", "left"]), d.int(0, R), d.int(0, C), d.int(0, 2)] for _ in range(d.int(0, 6))])


def build_borders(sp, nq):
    R, C, lab = sp["R"], sp["C"], sp["label"]
    extra = [x for x in sp["extra"] if (x[2] < C if x[0] == "top" else x[1] < R)]
    e = edge_dict(R, C, lab, sp["outer"], extra)
    drawn = {(k.d.value if hasattr(k.d, "value") else str(k.d), k.r, k.c) for k, v in e.items() if v}
    p = "#defined area_border/4.\n"
    exp = set()
    for i in sorted(set(lab)):
        cells = [divmod(x, C) for x in range(R * C) if lab[x] == i]
        p += nq.area_border(_id=i, src_cells=cells, edge=e) + "\n"
        for r, c in cells:
            for dd, side in (("u", ("top", r, c)), ("d", ("top", r + 1, c)), ("l", ("left", r, c)), ("r", ("left", r, c + 1))):
                if side in drawn:
                    exp.add(("area_border", i, r, c, dd))
    return Prob(p, shows=[("area_border", 4)], expected={frozenset(exp)})


# -- facts about a drawing

def gen_facts(d):
    R, C = (d.int(1, 6), d.int(1, 6)) if d.chance(3, 4) else (d.int(1, 16), d.int(1, 16))
    deg = {}
    segs = []
    straight = d.chance(1, 2)
    most = d.choice([2, 2, 4])
    todo = d.shuffle([["H", r, c] for r in range(R) for c in range(C - 1)] + [["V", r, c] for r in range(R - 1) for c in range(C)]) if not straight else (
        [["H", r, c] for r in range(R) if d.chance(2, 3) for c in range(C - 1)] + [["V", r, c] for c in range(C) if d.chance(2, 3) for r in range(R - 1)])
    for k, r, c in todo:
        b = (r, c + 1) if k == "H" else (r + 1, c)
        if deg.get((r, c), 0) < most and deg.get(b, 0) < most and d.chance(7, 8):
            segs.append([k, r, c, d.int(0, 1)])
            deg[r, c] = deg.get((r, c), 0) + 1
            deg[b] = deg.get(b, 0) + 1
    cells = [[r, c] for r in range(R) for c in range(C)]
    return dict(R=R, C=C, segs=segs, most=most, directed=False, white=[x for x in cells if d.chance(4, 5)], what=d.choice(["sign", "straight", "turning", "segment"]), src=d.sample(cells, d.int(1, 4)))


def build_facts(sp, nq):
    R, C = sp["R"], sp["C"]
    g = grid(R, C)
    drawn, _ = line_facts(sp)
    p = base(nq, R, C) + drawn + "#defined white/2.\n" + "".join(f"white({r}, {c}).\n" for r, c in sp["white"])
    arms = {x: set() for x in g.cells}
    for k, r, c, _ in sp["segs"]:
        b = (r, c + 1) if k == "H" else (r + 1, c)
        arms[r, c].add("r" if k == "H" else "d")
        arms[b].add("l" if k == "H" else "u")
    white = {tuple(x) for x in sp["white"]}
    exp = set()
    bends = {frozenset(x): x for x in ("lu", "ld", "ru", "rd")}
    lines = {frozenset("lr"): "lr", frozenset("ud"): "ud"}
    if sp["what"] == "segment" and sp["most"] == 2:
        p += nq.loop_sign(color="grid") + "\n"

        def far(x, dd):
            """Where the straight run leaving x in direction dd ends."""
            while True:
                x = (x[0] + DIRS[dd][0], x[1] + DIRS[dd][1])
                if arms[x] != {dd, BACK[dd]}:
                    return x
        for x in map(tuple, sp["src"]):
            p += nq.loop_segment(x) + "\n"
            a = frozenset(arms[x])
            if len(a) != 2:
                continue
            if a == frozenset("ud"):
                exp.add(("segment", *x, far(x, "u")[0], far(x, "d")[0], "V"))
            elif a == frozenset("lr"):
                exp.add(("segment", *x, far(x, "l")[1], far(x, "r")[1], "H"))
            else:
                v = "u" if "u" in a else "d"
                h = "l" if "l" in a else "r"
                exp.add(("segment", *x, far(x, v)[0], far(x, h)[1], "T"))
        return Prob(p, shows=[("segment", 5)], expected={frozenset(exp)})
    if sp["what"] in ("sign", "segment"):
        p += nq.loop_sign(color="white")
        for x in white:
            for s, name in list(bends.items()) + list(lines.items()):
                if s <= arms[x]:
                    exp.add(("loop_sign", *x, name))
        return Prob(p, shows=[("loop_sign", 3)], expected={frozenset(exp)})
    kind = lines if sp["what"] == "straight" else bends
    p += nq.loop_straight(color="white") if sp["what"] == "straight" else nq.loop_turning(color="white")
    for x in white:
        if any(s <= arms[x] for s in kind):
            exp.add((sp["what"], *x))
    return Prob(p, shows=[(sp["what"], 2)], expected={frozenset(exp)})


def gen_convert(d):
    R, C = (d.int(1, 5), d.int(1, 5)) if d.chance(3, 4) else (d.int(1, 13), d.int(1, 13))
    diag = d.chance(1, 2)
    ks = ["dr", "ur", "dl", "ul"] if diag else ["l", "u", "r", "d"]
    facts = [[d.choice(["in", "out"]), r, c, d.choice(ks)] for r in range(R) for c in range(C) for _ in range(d.int(0, 2))]
    return dict(R=R, C=C, diag=diag, directed=d.chance(1, 2), facts=facts)


def build_convert(sp, nq):
    p = "#defined grid_in/3. #defined grid_out/3. #defined grid_direction/3.\n"
    exp = set()
    for k, r, c, dd in sp["facts"]:
        # a path between the corners of the cells: corner (r, c) is the top left corner of cell (r, c); only one end of each piece is read
        p += f'{"grid_" + k if sp["directed"] else "grid_direction"}({r}, {c}, "{dd}").\n'
        if dd == "r":
            exp.add(("edge_top", r, c))
        elif dd == "d":
            exp.add(("edge_left", r, c))
        elif dd == "dr":
            exp.add(("edge_diag_down", r, c))
        elif dd == "ur":
            exp.add(("edge_diag_up", r - 1, c))
    p += nq.convert_direction_to_edge(directed=sp["directed"], diagonal=sp["diag"])
    return Prob(p, shows=[("edge_top", 2), ("edge_left", 2), ("edge_diag_down", 2), ("edge_diag_up", 2)], expected={frozenset(exp)})


KINDS = {
    "loops": (lambda d: gen_loop(d, "single"), build_loop, 2),
    "crossing loops": (lambda d: gen_loop(d, "crossing"), build_loop, 1.5),
    "directed loops": (lambda d: gen_loop(d, "directed"), build_loop, 1.5),
    "free drawing": (gen_fill, build_fill, 0.5),
    "inside and outside": (gen_inside, build_inside),
    "area passes": (gen_pass, build_pass),
    "single drawings on large boards": (gen_large_loop, build_large_loop, 0.6),
    "inside and outside on large boards": (gen_large_inside, build_large_inside, 0.4),
    "area passes on large boards": (gen_large_pass, build_large_pass, 0.4),
    "area borders": (gen_borders, build_borders, 2),
    "loop facts": (gen_facts, build_facts, 6),
    "loop to borders": (gen_convert, build_convert, 1.5),
}
R_ = Rules(KINDS)
body, replay = R_.body, R_.replay


def units(tier):
    return R_.units(tier, 500, 24000)
