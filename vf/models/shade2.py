"""Shading puzzles, second half (martini .. yinyang)."""
from .base import *
from .shade import comp_of, maxrun, outside_lines, line_mask, inside_bits, diag_flood, x_edges
from ..grid import labels_from_masks, omino_name, partitions


def unclued_ok(b, g):
    """For one-clue-per-component puzzles: [(bit, clue)]."""
    return [(g.bit(r, c), v) for (r, c), v in texts(b).items()]


def one_clue_each(g, comps, cl):
    """Every component holds exactly one clue; an int clue is the component's size."""
    for k in comps:
        here = [v for x, v in cl if x & k]
        if len(here) != 1 or isinstance(here[0], int) and here[0] != pc(k):
            return False
    return True


def clue_per_comp(d, b, g, comps, drop=(1, 40), extra=(1, 60), qp=(1, 4)):
    for k in comps:
        if d.chance(*drop):
            continue
        cs = d.sample(g.coords(k), 2 if d.chance(*extra) and pc(k) > 1 else 1)
        for r, c in cs:
            num(b, r, c, "?" if d.chance(*qp) else noisy(d, pc(k), 1, 40, (1, 30)))


@register
class Martini(Shade):
    name, out, rooms = "martini", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 4)]

    def static(self, g, m):
        return g.connected(m, True)

    def gen(self, d):
        case = super().gen(d)
        for k in list(case.board.q.surface):
            if isinstance(texts(case.board).get(k), int) and case.board.q.surface[k] != 2:
                case.board.q.surface[k] = 2     # what a number on a shaded cell counts is not said
        return case

    def value(self, g, m, r, c, circles):
        return pc(comp_of(g, g.full & ~m, r, c) & circles)

    def clues(self, d, b, g, m, param):
        circles = 0
        for r, c in g.cells:
            if d.chance(1, 3):
                s = 2 if inside_bits(g, m, r, c) else 1
                if s == 1:
                    circles |= g.bit(r, c)
                b.q.symbol[(r, c, "C")] = [s, "circle_L", 1]
        for r, c in g.cells:
            if not inside_bits(g, m, r, c) and d.chance(1, 3):
                if d.chance(1, 8):
                    num(b, r, c, "?")
                    continue
                num(b, r, c, noisy(d, self.value(g, m, r, c, circles), 0, 9))
                if not circles & g.bit(r, c):
                    b.q.surface[(r, c)] = 2     # clue cells are known to stay clear

    def rule(self, b, g, param):
        lab = labels(b, g)
        rooms = rooms_of(g, lab)
        cross = [(1 << i) | (1 << j) for i, j in g.pairs4 if lab[i] != lab[j]]
        on = off = 0
        for (r, c), s in symbols(b).items():
            if s == "circle_L__1":
                off |= g.bit(r, c)
            elif s == "circle_L__2":
                on |= g.bit(r, c)
        t = {k: v for k, v in texts(b).items() if isinstance(v, int)}
        return lambda m: m & on == on and not m & off and not any(m & x == x for x in cross) and \
            all(g.connected(k & m) for k in rooms) and all(self.value(g, m, r, c, off) == v for (r, c), v in t.items())


class Mochi(Shade):
    out = 4
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 4), (5, 3)]

    def static(self, g, m):
        w = g.full & ~m
        return g.no2x2(m) and g.connected(w, True) and all(g.is_rect(k) for k in g.comps(w)) and \
            (self.name == "mochikoro" or not any(g.is_rect(k) for k in g.comps(m)))

    def clues(self, d, b, g, m, param):
        comps = g.comps(g.full & ~m)
        clue_per_comp(d, b, g, comps, drop=(1, 3))
        if not b.q.number:
            r, c = d.choice(g.coords(comps[0])) if comps else (0, 0)
            num(b, r, c, "?")

    def rule(self, b, g, param):
        cl = unclued_ok(b, g)
        allc = sum(x for x, _ in cl)

        def ok(m):
            if m & allc:
                return False
            for k in g.comps(g.full & ~m):
                here = [v for x, v in cl if x & k]
                if len(here) > 1 or here and isinstance(here[0], int) and here[0] != pc(k):
                    return False
            return True
        return ok


@register
class Mochikoro(Mochi):
    name = "mochikoro"


@register
class Mochinyoro(Mochi):
    name = "mochinyoro"


@register
class Nonogram(Shade):
    name, need, clued = "nonogram", (3, 0, 3, 0), True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 4), (5, 2)]

    def margins(self, R, C):
        return (R + 1) // 2, 0, (C + 1) // 2, 0

    def clues(self, d, b, g, m, param):
        for kind, n in (("col", g.C), ("row", g.R)):
            for i in range(n):
                k = runs(col_bits(g, m, i) if kind == "col" else row_bits(g, m, i)) or [0]
                k = ["?" if v and d.chance(1, 7) else noisy(d, v, 1, 6, (1, 60)) if v else v for v in k]
                for j, v in enumerate(k):
                    at = -len(k) + j
                    num(b, *((at, i) if kind == "col" else (i, at)), v)

    def rule(self, b, g, param):
        t = texts(b)
        want = []
        for c in range(g.C):
            want.append((True, c, [v for (r, cc), v in sorted(t.items()) if cc == c and r < 0]))
        for r in range(g.R):
            want.append((False, r, [v for (rr, c), v in sorted(t.items(), key=lambda x: x[0][1]) if rr == r and c < 0]))

        def ok(m):
            for col, i, v in want:
                k = runs(col_bits(g, m, i) if col else row_bits(g, m, i)) or [0]
                if len(k) != len(v) or any(x not in ("?", y) for x, y in zip(v, k)) or (k == [0] and v == ["?"]):
                    return False
            return True
        return ok


def dominoes(g, m):
    return all(pc(g.m4[i] & m) == 1 for i in g.bits(m))


@register
class Norinori(Shade):
    name, out, rooms = "norinori", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (4, 4), (2, 4), (1, 5), (5, 3)]

    def static(self, g, m):
        return dominoes(g, m)

    def setup(self, d, b, g, param):
        lab = random_partition(d, g, max(1, g.n // 3))
        m = None
        if d.chance(5, 6):      # grow rooms from a valid answer: pairs of shaded cells first
            cand = [x for x in (d.choice(self.base(g)) for _ in range(8)) if x]
            if cand:
                m = cand[0]
                cells = d.shuffle(list(g.bits(m)))
                lab2 = [-1] * g.n
                k = 0
                for i in cells:             # each room: two shaded cells joined by a path of free cells
                    if lab2[i] >= 0:
                        continue
                    prev, q, end = {i: None}, [i], None
                    while q and end is None:
                        x = q.pop(0)
                        for y in d.shuffle(g.nb4[x]):
                            if y not in prev and lab2[y] < 0:
                                prev[y] = x
                                if m >> y & 1:
                                    end = y
                                    break
                                q.append(y)
                    x = end if end is not None else i
                    while x is not None:
                        lab2[x] = k
                        x = prev[x]
                    k += 1
                while -1 in lab2:
                    opts = [(i, j) for i in range(g.n) if lab2[i] < 0 for j in g.nb4[i] if lab2[j] >= 0]
                    i, j = d.choice(opts)
                    lab2[i] = lab2[j]
                lab = lab2
        draw_rooms(d, b, g, lab=lab)

    def rule(self, b, g, param):
        rooms = rooms_of(g, labels(b, g))
        return lambda m: all(pc(m & k) == 2 for k in rooms)


@register
class Norinuri(Shade):
    name, clued = "norinuri", True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 5), (5, 3)]

    def static(self, g, m):
        return dominoes(g, m)

    def clues(self, d, b, g, m, param):
        clue_per_comp(d, b, g, g.comps(g.full & ~m))

    def rule(self, b, g, param):
        cl = unclued_ok(b, g)
        allc = sum(x for x, _ in cl)
        return lambda m: not m & allc and one_clue_each(g, g.comps(g.full & ~m), cl)


@register
class NoThree(Shade):
    name = "nothree"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 6), (1, 6), (5, 3), (1, 7), (5, 2)]

    def static(self, g, m):
        if not (g.no_adj(m) and g.connected(g.full & ~m)):
            return False
        for bits in [row_bits(g, m, r) for r in range(g.R)] + [col_bits(g, m, c) for c in range(g.C)]:
            p = [i for i, x in enumerate(bits) if x]
            if any(p[i + 1] - p[i] == p[i + 2] - p[i + 1] for i in range(len(p) - 2)):
                return False
        return True

    def spots(self, g):
        for r, c in g.cells:
            yield (r, c, "C"), g.bit(r, c)
            if r:
                yield (r, c, "T"), g.bit(r, c) | g.bit(r - 1, c)
            if c:
                yield (r, c, "L"), g.bit(r, c) | g.bit(r, c - 1)
            if r and c:
                yield (r, c, "TL"), g.bit(r, c) | g.bit(r - 1, c) | g.bit(r, c - 1) | g.bit(r - 1, c - 1)

    def clues(self, d, b, g, m, param):
        for key, k in self.spots(g):
            if (pc(k & m) == 1 and d.chance(1, 4)) or d.chance(1, 150):
                b.q.symbol[key] = [d.choice([1, 2, 3]), "circle_SS", 1]

    def rule(self, b, g, param):
        need = [k for key, k in self.spots(g) if key in b.q.symbol]
        return lambda m: all(pc(k & m) == 1 for k in need)


def strip(g, k):
    h, w = g.rect_dims(k)
    return g.is_rect(k) and 1 in (h, w)


@register
class Nuribou(Shade):
    name, clued = "nuribou", True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 5), (5, 3)]

    def static(self, g, m):
        cs = g.comps(m)
        if not all(strip(g, k) for k in cs):
            return False
        size = {i: pc(k) for k in cs for i in g.bits(k)}
        return not any(size[i] == size.get(j) for i in g.bits(m) for j in g.nbx[i])

    def clues(self, d, b, g, m, param):
        clue_per_comp(d, b, g, g.comps(g.full & ~m))

    def rule(self, b, g, param):
        cl = unclued_ok(b, g)
        allc = sum(x for x, _ in cl)
        return lambda m: not m & allc and one_clue_each(g, g.comps(g.full & ~m), cl)


@register
class Nurikabe(Shade):
    name, clued = "nurikabe", True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 5), (5, 3)]

    def static(self, g, m):
        return g.connected(m) and g.no2x2(m)

    def clues(self, d, b, g, m, param):
        clue_per_comp(d, b, g, g.comps(g.full & ~m))

    def rule(self, b, g, param):
        cl = unclued_ok(b, g)
        allc = sum(x for x, _ in cl)
        return lambda m: not m & allc and one_clue_each(g, g.comps(g.full & ~m), cl)


@register
class Nurimisaki(Shade):
    name, clued = "nurimisaki", True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (1, 4)]

    def static(self, g, m):
        w = g.full & ~m
        return m != 0 and g.no2x2(m) and g.no2x2(w) and g.connected(w)

    def ends(self, g, m):
        w = g.full & ~m
        return sum(1 << i for i in g.bits(w) if pc(g.m4[i] & w) == 1)

    def clues(self, d, b, g, m, param):
        for i in g.bits(self.ends(g, m)):
            if d.chance(1, 40):
                continue
            r, c = g.rc(i)
            num(b, r, c, "?" if d.chance(1, 3) else noisy(d, g.see(i, g.full & ~m) + 1, 2, 9))

    def rule(self, b, g, param):
        t = texts(b)
        allc = g.mask(t)
        cl = [(g.i(r, c), v) for (r, c), v in t.items() if isinstance(v, int)]
        return lambda m: self.ends(g, m) == allc and all(g.see(i, g.full & ~m) + 1 == v for i, v in cl)


@register
class Nuriuzu(Shade):
    name, clued = "nuriuzu", True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (1, 5)]

    def static(self, g, m):
        w = g.full & ~m
        return g.no2x2(m) and g.no2x2(w) and m != g.full and all(self.centre(g, k) for k in g.comps(w))

    def centre(self, g, k):
        """Doubled coordinates of the centre of symmetry lying on the component, else None."""
        cs = g.coords(k)
        R = min(r for r, c in cs) + max(r for r, c in cs)
        C = min(c for r, c in cs) + max(c for r, c in cs)
        if any(not k & g.bit(R - r, C - c) for r, c in cs):
            return None
        on = {(R // 2, C // 2), ((R + 1) // 2, (C + 1) // 2)}
        if R % 2 and C % 2 or any(not k & g.bit(r, c) for r, c in on):
            return None
        return R, C

    def key(self, RC):
        R, C = RC
        return (R // 2, C // 2, "C") if not R % 2 and not C % 2 else ((R + 1) // 2, C // 2, "T") if R % 2 else (R // 2, (C + 1) // 2, "L")

    def clues(self, d, b, g, m, param):
        for k in g.comps(g.full & ~m):
            RC = self.centre(g, k)
            if RC and not d.chance(1, 40):
                b.q.symbol[self.key(RC)] = [d.choice([1, 2]), "circle_SS", 1]
        if not b.q.symbol or d.chance(1, 30):
            r, c = d.choice(g.cells)
            b.q.symbol[(r, c, d.choice(["C"] + ["T"] * (r > 0) + ["L"] * (c > 0)))] = [1, "circle_SS", 1]

    def rule(self, b, g, param):
        want = set(b.q.symbol)

        def ok(m):
            ks = [self.key(self.centre(g, k)) for k in g.comps(g.full & ~m)]
            return set(ks) == want
        return ok


@register
class Paintarea(Shade):
    name, out, rooms = "paintarea", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (1, 4)]

    def static(self, g, m):
        return g.connected(m) and g.no2x2(m) and g.no2x2(g.full & ~m)

    def setup(self, d, b, g, param):
        base = self.base(g)
        m = d.choice(base)
        lab = random_partition(d, g)
        if d.chance(5, 6):              # rooms that respect one shading
            lab2 = [(lab[i], m >> i & 1) for i in range(g.n)]
            e = {k: True for k in edges_of(g, lab2)}
            lab = rooms_from_edges(g, e)
        draw_rooms(d, b, g, lab=lab)

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: pc(g.m4[g.i(r, c)] & m), 0, 4, p=(1, 4))

    def rule(self, b, g, param):
        rooms = rooms_of(g, labels(b, g))
        t = [(g.m4[g.i(r, c)], v) for (r, c), v in texts(b).items() if isinstance(v, int)]
        return lambda m: all(m & k in (0, k) for k in rooms) and all(pc(m & k) == v for k, v in t)


@register
class Shimaguni(Shade):
    name, out = "shimaguni", 8
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 6), (4, 4)]
    max_rooms = 5
    rooms = True

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: max(1, pc(k & m)), g.n, p=(1, 3), lo=1)

    def rule(self, b, g, param):
        lab = labels(b, g)
        rooms = rooms_of(g, lab)
        rv = room_values(b, g, lab)
        cross = [(1 << i) | (1 << j) for i, j in g.pairs4 if lab[i] != lab[j]]
        adj = [(x, y) for i, x in enumerate(rooms) for y in rooms[:i] if g.grow4(x) & y]
        return lambda m: all(m & k for k in rooms) and not any(m & x == x for x in cross) and \
            all(pc(m & k) == v for k, v in rv) and not any(pc(x & m) == pc(y & m) for x, y in adj) and \
            all(g.connected(m & k) for k in rooms)


@register
class Snake(Shade):
    name, out, need = "snake", 8, (1, 0, 1, 0)
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (1, 5)]

    def ends(self, g, m):
        return sum(1 << i for i in g.bits(m) if pc(g.m4[i] & m) == 1)

    def static(self, g, m):
        # a path of cells that never touches itself, not even at a corner
        if pc(m) < 2 or not g.connected(m) or any(pc(g.m4[i] & m) > 2 for i in g.bits(m)) or pc(self.ends(g, m)) != 2:
            return False
        for i in g.bits(m):
            for j in g.bits(g.mx[i] & m):
                if not g.m4[i] & g.m4[j] & m:
                    return False
        return True

    def clues(self, d, b, g, m, param):
        for kind, n in (("col", g.C), ("row", g.R)):
            for i in range(n):
                if d.chance(1, 2):
                    v = "?" if d.chance(1, 12) else noisy(d, pc(m & line_mask(g, kind, i)), 0, 9)
                    num(b, *((-1, i) if kind == "col" else (i, -1)), v)
        e = self.ends(g, m)
        for i in g.bits(m):
            if d.chance(1, 5):
                end = bool(e >> i & 1) ^ d.chance(1, 30)
                b.q.symbol[(*g.rc(i), "C")] = [2 if end else 1, "circle_L", 1]

    def rule(self, b, g, param):
        oc = outside_lines(b, g)
        mid = g.mask(rc for rc, s in symbols(b).items() if s == "circle_L__1")
        end = g.mask(rc for rc, s in symbols(b).items() if s == "circle_L__2")

        def ok(m):
            e = self.ends(g, m)
            return m & mid == mid and not e & mid and e & end == end and all(pc(m & k) == v for k, v in oc)
        return ok


@register
class Stostone(Shade):
    name, out = "stostone", 8     # an odd number of rows is refused
    sizes = [(2, 3), (2, 4), (4, 3), (4, 2), (2, 6), (4, 1), (6, 2), (4, 4)]
    rooms = True
    max_rooms = 5

    def static(self, g, m):
        return all(pc(m & g.col[c]) == g.R // 2 for c in range(g.C))

    def settled(self, g, m):
        """Let the stones fall as rigid pieces; do they exactly fill the lower half?"""
        pieces = [set(g.coords(k)) for k in g.comps(m)]
        while True:
            moving = list(range(len(pieces)))
            while True:
                still = set().union(*[p for j, p in enumerate(pieces) if j not in moving]) if len(moving) < len(pieces) else set()
                keep = [j for j in moving if all(r + 1 < g.R and (r + 1, c) not in still for r, c in pieces[j])]
                if keep == moving:
                    break
                moving = keep
            if not moving:
                break
            for j in moving:
                pieces[j] = {(r + 1, c) for r, c in pieces[j]}
        return set().union(*pieces) == {(r, c) for r, c in g.cells if r >= g.R // 2} if pieces else g.R == 0

    def setup(self, d, b, g, param):
        super().setup(d, b, g, param)
        if d.chance(3, 4):
            for _ in range(12):     # prefer room layouts with an answer
                p = self.rule(b, g, param)
                if any(p(m) for m in d.sample(self.base(g), min(60, len(self.base(g))))):
                    return
                b.q.edge.clear()
                super().setup(d, b, g, param)

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: max(1, pc(k & m)), g.n, p=(1, 3), lo=1)

    def rule(self, b, g, param):
        lab = labels(b, g)
        rooms = rooms_of(g, lab)
        rv = room_values(b, g, lab)
        cross = [(1 << i) | (1 << j) for i, j in g.pairs4 if lab[i] != lab[j]]
        return lambda m: all(m & k for k in rooms) and not any(m & x == x for x in cross) and \
            all(pc(m & k) == v for k, v in rv) and all(g.connected(m & k) for k in rooms) and self.settled(g, m)


RING = ((-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1))


def ring_runs(g, m, r, c):
    x = [bool(m & g.bit(r + a, c + e)) if g.inside(r + a, c + e) else False for a, e in RING]
    if all(x):
        return [8]
    k = x.index(False)
    return sorted(runs(x[k:] + x[:k])) or [0]


@register
class Tapa(Shade):
    name = "tapa"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (1, 5)]
    weight = 0.6

    def static(self, g, m):
        return g.connected(m) and g.no2x2(m)

    def clues(self, d, b, g, m, param):
        for i in g.bits(g.full & ~m):
            if d.chance(1, 4):
                r, c = g.rc(i)
                v = [x if not d.chance(1, 6) else "?" for x in d.shuffle(ring_runs(g, m, r, c))]
                if d.chance(1, 25) and v[0] != "?":
                    v[0] = max(0 if len(v) == 1 else 1, v[0] - 1)
                num(b, r, c, "".join(map(str, v)), sub="4")

    def rule(self, b, g, param):
        t = tapas(b)

        def fits(v, got):
            if len(v) != len(got):
                return False
            rest = list(got)
            for x in v:
                if x != "?":
                    if x not in rest:
                        return False
                    rest.remove(x)
            return True
        allc = g.mask(t)
        return lambda m: not m & allc and all(fits(v, ring_runs(g, m, r, c)) for (r, c), v in t.items())


@register
class Tasquare(Shade):
    name = "tasquare"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (1, 5)]

    def static(self, g, m):
        return g.connected(g.full & ~m) and all(g.is_rect(k) and len(set(g.rect_dims(k))) == 1 for k in g.comps(m))

    def value(self, g, m, r, c):
        return pc(g.flood(g.m4[g.i(r, c)] & m, m))

    def clues(self, d, b, g, m, param):
        for i in g.bits(g.full & ~m):
            if d.chance(1, 3):
                r, c = g.rc(i)
                v = self.value(g, m, r, c)
                num(b, r, c, "?" if v and d.chance(1, 3) else noisy(d, v, 0, 20))

    def rule(self, b, g, param):
        t = texts(b)
        return lambda m: all(not m & g.bit(r, c) and (self.value(g, m, r, c) == v if isinstance(v, int) else self.value(g, m, r, c) > 0)
                             for (r, c), v in t.items())


DIRS = ((-1, 0), (0, -1), (0, 1), (1, 0))


def arrow_clues(d, b, g, m, cells, p=(1, 3), hi=5):
    for r, c in cells:
        if d.chance(*p):
            k = d.int(0, 3)
            v = sum(m >> j & 1 for j in g.ray(r, c, *DIRS[k]))
            num(b, r, c, f"{noisy(d, v, 0, hi)}_{k}", sub="2")


def arrows(b, g):
    """[(bit of clue cell, mask of cells the arrow points at, value)]."""
    out = []
    for (r, c), v in texts(b).items():
        n, k = str(v).split("_")
        out.append((g.bit(r, c), sum(1 << j for j in g.ray(r, c, *DIRS[int(k)])), int(n)))
    return out


@register
class Tetrochain(Shade):
    name, weight = "tetrochain", 0.4
    sizes = [(3, 4), (4, 3), (4, 4), (3, 3), (2, 6), (5, 3)]

    def enum(self, g):
        return (m for m in range(1 << g.n) if pc(m) % 4 == 0)

    def static(self, g, m):
        cs = g.comps(m)
        if any(pc(k) != 4 for k in cs) or not g.connected(m, True):
            return False
        kind = [(k, omino_name(g.coords(k))) for k in cs]
        return not any(n == n2 and g.grow8(x) & y for i, (x, n) in enumerate(kind) for y, n2 in kind[:i])

    def clues(self, d, b, g, m, param):
        arrow_clues(d, b, g, m, g.coords(g.full & ~m))

    def rule(self, b, g, param):
        a = arrows(b, g)
        return lambda m: all(not m & x and pc(m & k) == v for x, k, v in a)


@register
class Tilepaint(Shade):
    name, out, rooms, need = "tilepaint", 8, True, (1, 0, 1, 0)
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 5)]

    def setup(self, d, b, g, param):
        draw_rooms(d, b, g)

    def gen(self, d):
        return super().gen(d)

    def clues(self, d, b, g, m, param):
        lab = labels(b, g)
        on = {k for k in set(lab) if d.chance(1, 2)}
        m = sum(1 << i for i in range(g.n) if lab[i] in on)
        for c in range(g.C):
            if d.chance(2, 3):
                b.q.sudoku[(-1, c, 2)] = ["?" if d.chance(1, 15) else str(noisy(d, pc(m & g.col[c]), 0, 9)), 1]
        for r in range(g.R):
            if d.chance(2, 3):
                b.q.sudoku[(r, -1, 1)] = ["?" if d.chance(1, 15) else str(noisy(d, pc(m & g.row[r]), 0, 9)), 1]

    def rule(self, b, g, param):
        rooms = rooms_of(g, labels(b, g))
        oc = []
        for (r, c, _), v in sudokus(b).items():
            if isinstance(v, int):
                oc.append((g.col[c] if r < 0 else g.row[r], v))
        return lambda m: all(m & k in (0, k) for k in rooms) and all(pc(m & k) == v for k, v in oc)


@register
class Usoone(Shade):
    name, out, rooms = "usoone", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 5)]

    def static(self, g, m):
        return g.no_adj(m) and g.connected(g.full & ~m)

    def clues(self, d, b, g, m, param):
        for k in rooms_of(g, labels(b, g)):
            cs = d.sample(g.coords(k & ~m), d.int(0, 3))
            for j, (r, c) in enumerate(cs):
                v = pc(g.m4[g.i(r, c)] & m)
                if j == 0:
                    v = d.choice([x for x in range(5) if x != v])
                num(b, r, c, v)
                if d.chance(1, 8):
                    y = hint_layer(d, b)
                    wrong = (j == 0) ^ d.chance(1, 20)
                    y.symbol[(r, c, "C")] = [d.choice([4, 7]) if wrong else 1, "ox_E", 1]

    def wrong(self, g, m, t):
        return {rc for rc, v in t.items() if pc(g.m4[g.i(*rc)] & m) != v}

    def rule(self, b, g, param):
        t = texts(b)
        lab = labels(b, g)
        rooms = {lab[g.i(*rc)] for rc in t}
        s = symbols(b)
        right = {rc for rc, v in s.items() if v == "ox_E__1"}
        bad = {rc for rc, v in s.items() if v in ("ox_E__4", "ox_E__7")}
        allc = g.mask(t)

        def ok(m):
            if m & allc:
                return False
            w = self.wrong(g, m, t)
            return sorted(lab[g.i(*rc)] for rc in w) == sorted(rooms) and bad <= w and not right & w
        return ok

    def drawn(self, case, g, m):
        t = texts(case.board)
        y = self.marks(g, m)
        w = self.wrong(g, m, t)
        for rc in t:
            y.symbol[(*rc, "C")] = [7 if rc in w else 1, "ox_E", 1]
        return y


@register
class Yajikazu(Shade):
    name, out = "yajikazu", 8
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (1, 5)]

    def static(self, g, m):
        return m != 0 and g.no_adj(m) and g.connected(g.full & ~m)

    def clues(self, d, b, g, m, param):
        arrow_clues(d, b, g, m, g.coords(g.full & ~m), (1, 2))
        for r, c in g.coords(m):
            if d.chance(1, 2):
                num(b, r, c, f"{d.int(0, 3)}_{d.int(0, 3)}", sub="2")

    def rule(self, b, g, param):
        a = arrows(b, g)
        return lambda m: all(m & x or pc(m & k) == v for x, k, v in a)


@register
class Yinyang(Shade):
    name = "yinyang"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3), (1, 5)]
    hints = False

    def static(self, g, m):
        w = g.full & ~m
        return g.connected(m) and g.connected(w) and g.no2x2(m) and g.no2x2(w)

    def clues(self, d, b, g, m, param):
        y = b.q
        for r, c in g.cells:
            if d.chance(1, 5):
                v = inside_bits(g, m, r, c) ^ d.chance(1, 40)
                (y if d.chance(3, 4) else b.a).symbol[(r, c, "C")] = [1 if v else 2, "circle_M", 1]

    def rule(self, b, g, param):
        s = symbols(b)
        on = g.mask(rc for rc, v in s.items() if v == "circle_M__1")
        off = g.mask(rc for rc, v in s.items() if v != "circle_M__1")
        return lambda m: m & on == on and not m & off

    def marks(self, g, m):
        y = Layer()
        for i in range(g.n):
            y.symbol[(*g.rc(i), "C")] = [1 if m >> i & 1 else 2, "circle_M", 1]
        return y

    def back(self, g, x):
        return g.mask(k[:2] for k, v in x[2] if v == (1, "circle_M"))

    def pin(self, b, y, g, m):
        for i in range(g.n):
            k = (*g.rc(i), "C")
            if k not in b.q.symbol and k not in b.a.symbol:
                y.symbol[k] = [1 if m >> i & 1 else 2, "circle_M", 1]


@register
class Patchwork(Model):
    """Division into squares plus a two-colouring of the cells that are not gray."""

    name, cat = "patchwork", "shade"
    sizes = [(2, 2), (2, 3), (3, 3), (3, 2), (3, 4), (1, 4)]
    weight = 0.7

    def squares(self, g):
        return partitions(g.R, g.C, ok=lambda k: g.is_rect(k) and len(set(g.rect_dims(k))) == 1)

    def raw(self, b, g):
        s = surfaces(b)
        gray = g.mask(k for k, v in s.items() if v == "G")
        white = g.mask(k for k, v in s.items() if v == "N")
        black = g.mask(k for k, v in s.items() if v == "B")
        e = edges(b)
        t = [(g.bit(r, c), v) for (r, c), v in texts(b).items() if isinstance(v, int)]
        fr = [i for i in range(g.n) if not (gray | white | black) >> i & 1]
        for part in self.squares(g):
            lab = labels_from_masks(g, part)
            drawn = set(edges_of(g, lab)) | set(outer_edges(g.R, g.C))
            if any((k in drawn) != v for k, v in e.items()):
                continue
            cross = [(1 << i) | (1 << j) for i, j in g.pairs4 if lab[i] != lab[j]]
            cl = [(k, v) for x, v in t for k in part if x & k]

            def rec(j, m, w):
                if any(m & x == x or w & x == x for x in cross):
                    return
                if j == len(fr):
                    if all(pc(m & k) == v for k, v in cl):
                        yield m
                    return
                yield from rec(j + 1, m | 1 << fr[j], w)
                yield from rec(j + 1, m, w | 1 << fr[j])
            for m in rec(0, black, white):
                yield drawn, m, part

    def gen(self, d):
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C)
        for rc in g.cells:
            if d.chance(1, 6):
                b.q.surface[rc] = d.choice([8, 1, 3])
        sols = list(self.raw(b, g))
        if sols:
            drawn, m, part = d.choice(sols)
            for k in part:
                if d.chance(1, 2):
                    r, c = d.choice(g.coords(k))
                    num(b, r, c, "?" if d.chance(1, 8) else noisy(d, pc(k & m), 0, 9))
            for rc in g.cells:
                if rc not in b.q.surface and d.chance(1, 8):
                    v = inside_bits(g, m, *rc) ^ d.chance(1, 40)
                    hint_layer(d, b).surface[rc] = 4 if v else 2
            for k in [("T", r, c) for r in range(1, R) for c in range(C)] + [("L", r, c) for r in range(R) for c in range(1, C)]:
                if d.chance(1, 8):
                    hint_layer(d, b).edge[k] = (k in drawn) ^ d.chance(1, 40)
        return Case(self.name, b, {})

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        for drawn, m, _ in self.raw(b, g):
            y = mask_layer(g, m, 4)
            for k in drawn:
                y.edge[k] = True
            yield y
