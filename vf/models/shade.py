"""Shading puzzles."""
from .base import *
from ..grid import POLY_CELLS, omino_name, free, all_partitions, connected_sets


def maxrun(g, m, k):
    """A straight run of at least k cells of m exists."""
    return any(max(runs(row_bits(g, m, r)), default=0) >= k for r in range(g.R)) or \
        any(max(runs(col_bits(g, m, c)), default=0) >= k for c in range(g.C))


def inside_bits(g, m, r, c):
    return bool(m & g.bit(r, c))


def comp_of(g, m, r, c, eight=False):
    return g.flood(g.bit(r, c), m, eight)


def diag_flood(g, seed, m):
    s = seed & m
    while True:
        n = s
        for i in g.bits(s):
            n |= g.mx[i] & m
        if n == s:
            return s
        s = n


def to_border(g, m, eight=False):
    """Every component of m touches the board's border."""
    return g.flood(m & g.border, m, eight) == m


@register
class Aqre(Shade):
    name, out, rooms = "aqre", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (2, 6), (5, 2), (1, 5), (4, 4), (3, 5)]

    def static(self, g, m):
        return g.connected(m) and not maxrun(g, m, 4) and not maxrun(g, g.full & ~m, 4)

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: pc(k & m), g.n)

    def rule(self, b, g, param):
        rv = room_values(b, g)
        return lambda m: all(pc(k & m) == v for k, v in rv)


@register
class Aquapelago(Shade):
    name = "aquapelago"
    sizes = [(3, 3), (3, 4), (4, 4), (5, 3), (2, 6), (1, 4)]

    def static(self, g, m):
        w = g.full & ~m
        return g.no_adj(m) and g.no2x2(w) and g.connected(w)

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: pc(diag_flood(g, g.bit(r, c), m)), 1, 9, [g.rc(i) for i in g.bits(m)], (1, 2))

    def rule(self, b, g, param):
        t = texts(b)

        def ok(m):
            for (r, c), v in t.items():
                if not m & g.bit(r, c):
                    return False
                if isinstance(v, int) and pc(diag_flood(g, g.bit(r, c), m)) != v:
                    return False
            return True
        return ok


def outside_counts(d, b, g, m, val, p=(1, 2), lo=0, hi=9, sides="TL", q=(1, 12)):
    for c in range(g.C):
        for side, r in (("T", -1), ("B", g.R)):
            if side in sides and d.chance(*p):
                num(b, r, c, "?" if q and d.chance(*q) else noisy(d, val("col", c), lo, hi))
    for r in range(g.R):
        for side, c in (("L", -1), ("R", g.C)):
            if side in sides and d.chance(*p):
                num(b, r, c, "?" if q and d.chance(*q) else noisy(d, val("row", r), lo, hi))


def line_mask(g, kind, k):
    return g.col[k] if kind == "col" else g.row[k]


def outside_lines(b, g):
    """[(line mask, int)] for clues above and to the left."""
    out = []
    for (r, c), v in texts(b).items():
        if isinstance(v, int):
            if r == -1 and 0 <= c < g.C:
                out.append((g.col[c], v))
            elif c == -1 and 0 <= r < g.R:
                out.append((g.row[r], v))
    return out


@register
class Aquarium(Shade):
    name, out, rooms, need = "aquarium", 8, True, (1, 0, 1, 0)
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (5, 2), (1, 5)]

    def clues(self, d, b, g, m, param):
        outside_counts(d, b, g, m, lambda k, i: pc(m & line_mask(g, k, i)), hi=6)

    def rule(self, b, g, param):
        rooms = rooms_of(g, labels(b, g))
        oc = outside_lines(b, g)

        def ok(m):
            for k in rooms:
                wet = m & k
                top = min((r for r, c in g.coords(wet)), default=None)
                if top is not None:
                    below = sum(g.row[r] for r in range(top, g.R)) & k
                    if wet != below:
                        return False
            return all(pc(m & k) == v for k, v in oc)
        return ok


@register
class Box(Shade):
    name, need = "box", (1, 1, 1, 1)
    sizes = [(3, 3), (2, 4), (3, 4), (4, 2), (1, 4)]

    def setup(self, d, b, g, param):
        natural = d.chance(1, 2)
        for r in range(g.R):
            num(b, r, g.C, r + 1 if natural else d.int(0, 6))
        for c in range(g.C):
            num(b, g.R, c, c + 1 if natural else d.int(0, 6))

    def weights(self, b, g):
        t = texts(b)
        return [t[(r, g.C)] for r in range(g.R)], [t[(g.R, c)] for c in range(g.C)]

    def clues(self, d, b, g, m, param):
        rw, cw = self.weights(b, g)
        outside_counts(d, b, g, m, lambda k, i: sum(rw[r] for r in range(g.R) if m & g.bit(r, i)) if k == "col" else
                       sum(cw[c] for c in range(g.C) if m & g.bit(i, c)), p=(3, 4), hi=99, q=None)

    def rule(self, b, g, param):
        rw, cw = self.weights(b, g)
        t = texts(b)

        def ok(m):
            for (r, c), v in t.items():
                if r == -1 and sum(rw[i] for i in range(g.R) if m & g.bit(i, c)) != v:
                    return False
                if c == -1 and sum(cw[i] for i in range(g.C) if m & g.bit(r, i)) != v:
                    return False
            return True
        return ok


@register
class Canal(Shade):
    name = "canal"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 4)]

    def static(self, g, m):
        return g.connected(m) and g.no2x2(m)

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: g.see(g.i(r, c), m), 0, 9, [g.rc(i) for i in g.bits(g.full & ~m)], (1, 2))

    def rule(self, b, g, param):
        t = texts(b)
        return lambda m: all(not m & g.bit(r, c) and (not isinstance(v, int) or g.see(g.i(r, c), m) == v) for (r, c), v in t.items())


@register
class Cave(Shade):
    name = "cave"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 4)]

    def static(self, g, m):
        return g.connected(g.full & ~m) and to_border(g, m)

    def param(self, d):
        return {"product": d.chance(1, 3)}

    def value(self, g, m, r, c, prod):
        w = g.full & ~m
        i = g.i(r, c)
        if not prod:
            return g.see(i, w) + 1
        v = h = 1
        for dr, dc in ((1, 0), (-1, 0), (0, 1), (0, -1)):
            for j in g.ray(r, c, dr, dc):
                if not w >> j & 1:
                    break
                if dr:
                    v += 1
                else:
                    h += 1
        return v * h

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: self.value(g, m, r, c, param["product"]), 0, 99, [g.rc(i) for i in g.bits(g.full & ~m)], (1, 3))

    def rule(self, b, g, param):
        t = texts(b)
        return lambda m: all(not m & g.bit(r, c) and (not isinstance(v, int) or self.value(g, m, r, c, param["product"]) == v)
                             for (r, c), v in t.items())


@register
class CBanana(Shade):
    name, out = "cbanana", 8
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (2, 2)]

    def static(self, g, m):
        return all(g.is_rect(k) for k in g.comps(m)) and not any(g.is_rect(k) for k in g.comps(g.full & ~m))

    def value(self, g, m, r, c):
        return pc(comp_of(g, m if m & g.bit(r, c) else g.full & ~m, r, c))

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: self.value(g, m, r, c), 1, 99)

    def rule(self, b, g, param):
        t = texts(b)
        return lambda m: all(not isinstance(v, int) or self.value(g, m, r, c) == v for (r, c), v in t.items())


@register
class Chocona(Shade):
    name, out, rooms = "chocona", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 4), (4, 4)]

    def static(self, g, m):
        return all(g.is_rect(k) for k in g.comps(m))

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: pc(k & m), g.n)

    def rule(self, b, g, param):
        rv = room_values(b, g)
        return lambda m: all(pc(k & m) == v for k, v in rv)


@register
class CircleSquare(Shade):
    name, out = "circlesquare", 8
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3)]

    def static(self, g, m):
        if not (g.connected(m) and g.no2x2(m)):
            return False
        for k in g.comps(g.full & ~m):
            h, w = g.rect_dims(k)
            if h != w or not g.is_rect(k):
                return False
        return True

    def clues(self, d, b, g, m, param):
        for r, c in g.cells:
            if d.chance(1, 5):
                v = inside_bits(g, m, r, c) ^ d.chance(1, 30)
                b.q.symbol[(r, c, "C")] = [2 if v else 1, "circle_M", 1]

    def rule(self, b, g, param):
        on = off = 0
        for (r, c), s in symbols(b).items():
            if s == "circle_M__2":
                on |= g.bit(r, c)
            elif s == "circle_M__1":
                off |= g.bit(r, c)
        return lambda m: m & on == on and not m & off


@register
class Cocktail(Shade):
    name, out, rooms = "cocktail", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (4, 4), (1, 5)]

    def static(self, g, m):
        return g.connected(m, True) and g.no2x2(m)

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: pc(k & m), g.n)

    def rule(self, b, g, param):
        lab = labels(b, g)
        rooms = rooms_of(g, lab)
        rv = room_values(b, g, lab)
        cross = [(1 << i) | (1 << j) for i, j in g.pairs4 if lab[i] != lab[j]]
        return lambda m: all(pc(k & m) == v for k, v in rv) and all(g.connected(k & m) for k in rooms) and \
            not any(m & x == x for x in cross)


@register
class Context(Shade):
    name, out = "context", 8
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 6), (5, 3)]

    def static(self, g, m):
        return g.no_adj(m) and g.connected(g.full & ~m)

    def value(self, g, m, r, c):
        i = g.i(r, c)
        return pc((g.mx if m >> i & 1 else g.m4)[i] & m)

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: self.value(g, m, r, c), 0, 4, q=None)

    def rule(self, b, g, param):
        t = texts(b)
        return lambda m: all(self.value(g, m, r, c) == v for (r, c), v in t.items())


@register
class Coral(Shade):
    name, need = "coral", (3, 0, 3, 0)
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 4)]

    def margins(self, R, C):
        return (R + 1) // 2, 0, (C + 1) // 2, 0

    def static(self, g, m):
        return g.connected(m) and g.no2x2(m) and to_border(g, g.full & ~m)

    def clues(self, d, b, g, m, param):
        for c in range(g.C):
            k = runs(col_bits(g, m, c))
            if k and d.chance(1, 2):
                for i, v in enumerate(d.shuffle(k)):
                    num(b, -1 - i, c, noisy(d, v, 1, 6))
        for r in range(g.R):
            k = runs(row_bits(g, m, r))
            if k and d.chance(1, 2):
                for i, v in enumerate(d.shuffle(k)):
                    num(b, r, -1 - i, noisy(d, v, 1, 6))

    def rule(self, b, g, param):
        top, left = {}, {}
        for (r, c), v in texts(b).items():
            if r < 0:
                top.setdefault(c, []).append(v)
            else:
                left.setdefault(r, []).append(v)
        return lambda m: all(sorted(runs(col_bits(g, m, c))) == sorted(v) for c, v in top.items()) and \
            all(sorted(runs(row_bits(g, m, r))) == sorted(v) for r, v in left.items())


@register
class Creek(Shade):
    name, out = "creek", 8
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 4)]

    def static(self, g, m):
        return g.connected(g.full & ~m)

    def value(self, g, m, r, c):
        return sum(bool(m & g.bit(r - a, c - e)) for a in (0, 1) for e in (0, 1))

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: self.value(g, m, r, c), 0, 4,
                   [(r, c) for r in range(g.R + 1) for c in range(g.C + 1)], dd="TL")

    def rule(self, b, g, param):
        t = texts(b, "TL")
        return lambda m: all(not isinstance(v, int) or self.value(g, m, r, c) == v for (r, c), v in t.items())


@register
class Dominion(Shade):
    name, clued = "dominion", True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 3)]

    def static(self, g, m):
        return all(pc(g.m4[i] & m) == 1 for i in g.bits(m))

    def clues(self, d, b, g, m, param):
        for j, k in enumerate(g.comps(g.full & ~m)):
            for r, c in d.sample(g.coords(k), d.int(1, 2)):
                num(b, r, c, "ABCDEFGHIJKLMNOP"[j if not d.chance(1, 25) else 0])

    def rule(self, b, g, param):
        t = texts(b)
        cells = [(g.bit(r, c), v) for (r, c), v in t.items()]

        def ok(m):
            w = g.full & ~m
            seen = set()
            for k in g.comps(w):
                here = {v for x, v in cells if x & k}
                if len(here) != 1 or here & seen:
                    return False
                seen |= here
            return not any(x & m for x, _ in cells)
        return ok


@register
class Fillpix(Shade):
    name, out = "fillpix", 8
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 4)]

    def value(self, g, m, r, c):
        i = g.i(r, c)
        return pc((g.m8[i] | 1 << i) & m)

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: self.value(g, m, r, c), 0, 9, p=(1, 2))

    def rule(self, b, g, param):
        t = [((g.m8[g.i(r, c)] | g.bit(r, c)), v) for (r, c), v in texts(b).items() if isinstance(v, int)]
        return lambda m: all(pc(k & m) == v for k, v in t)


def borders_crossed_once(g, lab, m):
    """No straight line of cells of m passes through three rooms (two borders)."""
    for cells in [[g.i(r, c) for c in range(g.C)] for r in range(g.R)] + [[g.i(r, c) for r in range(g.R)] for c in range(g.C)]:
        k = 0
        prev = None
        for i in cells:
            if not m >> i & 1:
                prev = None
                k = 0
                continue
            if prev is not None and lab[prev] != lab[i]:
                k += 1
                if k > 1:
                    return False
            prev = i
    return True


def x_edges(d, b, g, lab, p=(1, 6)):
    """Cleared border marks ('x') inside rooms."""
    if not d.chance(*p):
        return
    y = hint_layer(d, b)
    for _ in range(d.int(1, 3)):
        i, j = d.choice(g.pairs4) if g.pairs4 else (0, 0)
        if lab[i] == lab[j] and i != j:
            r, c = g.rc(j)
            y.edge[("L", r, c) if j == i + 1 and c else ("T", r, c)] = False


@register
class Heyablock(Shade):
    name, out, rooms = "heyablock", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 5), (5, 2)]

    def static(self, g, m):
        return g.connected(g.full & ~m)

    def setup(self, d, b, g, param):
        lab = draw_rooms(d, b, g)
        x_edges(d, b, g, lab)

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: pc(k & m), g.n)

    def rule(self, b, g, param):
        lab = labels(b, g)
        rooms = rooms_of(g, lab)
        rv = room_values(b, g, lab)
        clued = {k for k, _ in rv}
        cross = [(1 << i) | (1 << j) for i, j in g.pairs4 if lab[i] != lab[j]]
        return lambda m: all(pc(k & m) == v for k, v in rv) and all(m & k for k in rooms if k not in clued) and \
            not any(m & x == x for x in cross) and all(g.connected(k & m) for k in rooms) and \
            borders_crossed_once(g, lab, g.full & ~m)


@register
class Heyawake(Shade):
    name, out, rooms = "heyawake", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 5), (5, 2)]

    def param(self, d):
        return {"fast_mode": False, "limit_border": d.choice([0, "0", 1]), "limit_2x2": d.choice([0, "0", 2])}

    def static(self, g, m):
        return g.no_adj(m) and g.connected(g.full & ~m)

    def setup(self, d, b, g, param):
        lab = draw_rooms(d, b, g)
        x_edges(d, b, g, lab)

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: pc(k & m), g.n)

    def rule(self, b, g, param):
        lab = labels(b, g)
        rv = room_values(b, g, lab)
        return lambda m: all(pc(k & m) == v for k, v in rv) and borders_crossed_once(g, lab, g.full & ~m)


@register
class Hinge(Shade):
    name, out, rooms = "hinge", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 4), (5, 2)]

    def setup(self, d, b, g, param):
        lab = draw_rooms(d, b, g)
        x_edges(d, b, g, lab)

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: pc(k & m), g.n, p=(1, 3))

    def rule(self, b, g, param):
        lab = labels(b, g)
        rv = room_values(b, g, lab)
        e = edges(b)
        axes = []      # (bit pairs across, mirror function)
        for r in range(1, g.R):
            c = 0
            while c < g.C:
                if e.get(("T", r, c)) is True:
                    pairs = []
                    while c < g.C and e.get(("T", r, c)) is True:
                        pairs.append(g.bit(r, c) | g.bit(r - 1, c))
                        c += 1
                    axes.append((pairs, "H", r))
                c += 1
        for c in range(1, g.C):
            r = 0
            while r < g.R:
                if e.get(("L", r, c)) is True:
                    pairs = []
                    while r < g.R and e.get(("L", r, c)) is True:
                        pairs.append(g.bit(r, c) | g.bit(r, c - 1))
                        r += 1
                    axes.append((pairs, "V", c))
                r += 1

        def sym(k):
            used = [(kind, p) for pairs, kind, p in axes if any(k & x == x for x in pairs)]
            if len(used) != 1:
                return False
            kind, p = used[0]
            for r, c in g.coords(k):
                r2, c2 = (2 * p - 1 - r, c) if kind == "H" else (r, 2 * p - 1 - c)
                if not k & g.bit(r2, c2):
                    return False
            return True
        memo = {}

        def okc(k):
            if k not in memo:
                memo[k] = sym(k)
            return memo[k]
        return lambda m: all(pc(k & m) == v for k, v in rv) and all(okc(k) for k in g.comps(m))


@register
class Hitori(Shade):
    name = "hitori"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 4)]

    def static(self, g, m):
        return g.no_adj(m) and g.connected(g.full & ~m)

    def clues(self, d, b, g, m, param):
        n = max(g.R, g.C)
        rows, cols = [set() for _ in range(g.R)], [set() for _ in range(g.C)]
        for r, c in g.cells:
            if not m & g.bit(r, c):
                free = [v for v in range(1, n + 1) if v not in rows[r] and v not in cols[c]]
                if free and d.chance(5, 6):
                    v = d.choice(free)
                    rows[r].add(v)
                    cols[c].add(v)
                    num(b, r, c, v)
                elif d.chance(1, 8):
                    num(b, r, c, "?")
        for r, c in g.cells:
            if m & g.bit(r, c):
                num(b, r, c, d.int(1, n))

    def rule(self, b, g, param):
        same = []
        t = {k: v for k, v in texts(b).items() if isinstance(v, int)}
        for (r, c), v in t.items():
            for (r2, c2), v2 in t.items():
                if (r, c) < (r2, c2) and v == v2 and (r == r2 or c == c2):
                    same.append(g.bit(r, c) | g.bit(r2, c2))
        return lambda m: all(m & x for x in same)


@register
class Kurochute(Shade):
    name = "kurochute"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 5)]

    def static(self, g, m):
        return g.no_adj(m) and g.connected(g.full & ~m)

    def at(self, g, m, r, c, n):
        return sum(bool(m & g.bit(r + a, c + e)) for a, e in ((n, 0), (-n, 0), (0, n), (0, -n)))

    def clues(self, d, b, g, m, param):
        def value(r, c):
            good = [n for n in range(1, 6) if self.at(g, m, r, c, n) == 1]
            return d.choice(good) if good else None
        cell_clues(d, b, g, value, 1, 6, [g.rc(i) for i in g.bits(g.full & ~m)], (1, 2))

    def rule(self, b, g, param):
        t = texts(b)
        return lambda m: all(not m & g.bit(r, c) and (not isinstance(v, int) or self.at(g, m, r, c, v) == 1) for (r, c), v in t.items())


@register
class Kurodoko(Shade):
    name = "kurodoko"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 5)]

    def static(self, g, m):
        return g.no_adj(m) and g.connected(g.full & ~m)

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: g.see(g.i(r, c), g.full & ~m) + 1, 1, 9, [g.rc(i) for i in g.bits(g.full & ~m)], (1, 3))

    def rule(self, b, g, param):
        t = texts(b)
        return lambda m: all(not m & g.bit(r, c) and (not isinstance(v, int) or g.see(g.i(r, c), g.full & ~m) + 1 == v)
                             for (r, c), v in t.items())


@register
class Kurotto(Shade):
    name = "kurotto"
    sizes = [(3, 3), (3, 4), (4, 3), (2, 4), (1, 4), (2, 2)]

    def value(self, g, m, r, c):
        return pc(g.flood(g.m4[g.i(r, c)] & m, m))

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: self.value(g, m, r, c), 0, 12, [g.rc(i) for i in g.bits(g.full & ~m)], (2, 3))

    def rule(self, b, g, param):
        t = texts(b)
        return lambda m: all(not m & g.bit(r, c) and (not isinstance(v, int) or self.value(g, m, r, c) == v) for (r, c), v in t.items())


@register
class LightShadow(Shade):
    name = "lightshadow"
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 4)]

    def clues(self, d, b, g, m, param):
        for mm, colour in ((m, 4), (g.full & ~m, None)):
            for k in g.comps(mm):
                if d.chance(1, 40):
                    continue
                r, c = d.choice(g.coords(k))
                num(b, r, c, "?" if d.chance(1, 4) else noisy(d, pc(k), 1, 9, (1, 30)))
                if colour:
                    b.q.surface[(r, c)] = colour
                elif d.chance(1, 8):
                    b.q.surface[(r, c)] = 2
        if not b.q.number:
            num(b, 0, 0, "?")

    def gen(self, d):
        self.hints = False
        case = super().gen(d)
        b = case.board
        g = grid(b.rows, b.cols)
        m = next(iter(self.raw(case)), None)
        if m is not None:
            surface_hints(d, b, g, m, skip=set(texts(b)))
        return case

    def raw(self, case):
        g = grid(case.board.rows, case.board.cols)
        p = self.pred(case.board, g, case.param)
        return (m for m in self.base(g) if p(m))

    def rule(self, b, g, param):
        s = surfaces(b)
        cl = [(g.bit(r, c), s.get((r, c)) == "B", v) for (r, c), v in texts(b).items()]

        def ok(m):
            if not cl:
                return True
            for x, black, v in cl:
                if bool(m & x) != black:
                    return False
            for mm in (m, g.full & ~m):
                for k in g.comps(mm):
                    here = [v for x, _, v in cl if x & k]
                    if len(here) != 1 or isinstance(here[0], int) and here[0] != pc(k):
                        return False
            return True
        return ok


@register
class Lits(Shade):
    name, out, rooms = "lits", 8, True
    sizes = [(3, 4), (4, 3), (2, 5), (4, 4), (5, 3), (2, 4)]
    weight = 1.5

    def static(self, g, m):
        return g.no2x2(m) and g.connected(m)

    def param(self, d):
        return {"invlitso": d.chance(1, 3)}

    def setup(self, d, b, g, param):
        lab = random_partition(d, g, max(1, g.n // 4))
        for _ in range(4):
            if min(lab.count(k) for k in set(lab)) >= 4:
                break
            lab = random_partition(d, g, max(1, g.n // 5))
        draw_rooms(d, b, g, lab=lab)

    def rule(self, b, g, param):
        lab = labels(b, g)
        rooms = rooms_of(g, lab)
        inv = param["invlitso"]
        names = ("L4", "I4", "T4", "S4") + (("O4",) if inv else ())

        def ok(m):
            if inv:
                m = g.full & ~m
            kind = []
            for k in rooms:
                x = k & m
                if pc(x) != 4 or not g.connected(x):
                    return False
                n = omino_name(g.coords(x))
                if n not in names:
                    return False
                kind.append((x, n))
            for i, (x, n) in enumerate(kind):
                for y, n2 in kind[:i]:
                    if n == n2 and g.grow4(x) & y:
                        return False
            return True
        return ok


@register
class LookAir(Shade):
    name, out = "lookair", 8
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (1, 5), (5, 3), (2, 7)]

    def static(self, g, m):
        side = {}
        for k in g.comps(m):
            h, w = g.rect_dims(k)
            if h != w or pc(k) != h * w:
                return False
            for i in g.bits(k):
                side[i] = (h, k)
        for cells in [[g.i(r, c) for c in range(g.C)] for r in range(g.R)] + [[g.i(r, c) for r in range(g.R)] for c in range(g.C)]:
            last = None
            for i in cells:
                if i in side:
                    if last and last[0] == side[i][0] and last[1] != side[i][1]:
                        return False
                    last = side[i]
        return True

    def clues(self, d, b, g, m, param):
        cell_clues(d, b, g, lambda r, c: pc((g.m4[g.i(r, c)] | g.bit(r, c)) & m), 0, 5)

    def rule(self, b, g, param):
        t = [((g.m4[g.i(r, c)] | g.bit(r, c)), v) for (r, c), v in texts(b).items() if isinstance(v, int)]
        return lambda m: all(pc(k & m) == v for k, v in t)


@register
class Mannequin(Shade):
    name, out, rooms = "mannequin", 8, True
    sizes = [(3, 3), (3, 4), (4, 3), (2, 5), (1, 5), (3, 5), (4, 4)]
    max_rooms = 4

    def enum(self, g):
        return (m for m in range(1 << g.n) if pc(m) <= 8 and pc(m) % 2 == 0)

    def static(self, g, m):
        return g.connected(g.full & ~m)

    def setup(self, d, b, g, param):
        if d.chance(1, 4) and g.n >= 9 and g.R > 1:     # winding rooms
            lab = [0] * g.n
            for c in range(g.C - 1) if d.chance(1, 2) else range(1, g.C):
                lab[g.i(1, c)] = 1
            if d.chance(1, 2):
                lab = [1 - x for x in lab]
            draw_rooms(d, b, g, lab=lab)
        else:
            draw_rooms(d, b, g, self.max_rooms)

    def dist(self, g, k, x):
        i, j = g.bits(x)
        s, n = 1 << i, 0
        while not s >> j & 1:
            s = g.grow4(s) & k
            n += 1
        return n - 1

    def clues(self, d, b, g, m, param):
        room_clues(d, b, g, labels(b, g), lambda k: self.dist(g, k, k & m) if pc(k & m) == 2 else 1, g.n)

    def rule(self, b, g, param):
        lab = labels(b, g)
        rooms = rooms_of(g, lab)
        rv = dict(room_values(b, g, lab))
        adj = [(i, j) for i in range(len(rooms)) for j in range(i) if g.grow4(rooms[i]) & rooms[j]]

        def ok(m):
            if any(pc(m & k) != 2 for k in rooms):
                return False
            n = [self.dist(g, k, m & k) for k in rooms]
            return all(k not in rv or rv[k] == n[i] for i, k in enumerate(rooms)) and not any(n[i] == n[j] for i, j in adj)
        return ok
