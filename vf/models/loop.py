"""Loop and path puzzles."""
from functools import lru_cache

from .base import *
from .shade2 import arrows  # noqa: F401
from ..grid import DN, LF, RT, STRAIGHT, TURN, U, all_loops, degree_drawings, rooms_of, seg_components, segs

DIRS = ((U, -1, 0, "u"), (RT, 0, 1, "r"), (DN, 1, 0, "d"), (LF, 0, -1, "l"))
CODE = {"u": U, "r": RT, "d": DN, "l": LF}


class Dr:
    """One drawing: segment mask m, visited cells, direction code per cell."""

    __slots__ = ("m", "cells", "dirs", "_x")

    def __init__(self, m, cells, dirs):
        self.m, self.cells, self.dirs = m, cells, dirs
        self._x = None

    def turns(self, g):
        """(turning mask, straight mask)."""
        if self._x is None:
            t = s = 0
            for i, k in enumerate(self.dirs):
                if k in TURN:
                    t |= 1 << i
                elif k in STRAIGHT:
                    s |= 1 << i
            self._x = t, s
        return self._x

    def arms(self, g, i):
        """Lengths of the straight lines leaving cell i, one per drawn direction."""
        out = []
        for k, dr, dc, _ in DIRS:
            if self.dirs[i] & k:
                j, n = i, 0
                while self.dirs[j] & k:
                    j += dr * g.C + dc
                    n += 1
                out.append((k, n))
        return out


@lru_cache(None)
def loops(R, C):
    """Every single loop, and the empty drawing first."""
    sg = segs(R, C)
    return (Dr(0, 0, (0,) * (R * C)),) + tuple(Dr(m, v, tuple(sg.dirs(m))) for m, v in all_loops(R, C))


@lru_cache(None)
def hamiltonian(R, C):
    g, sg = grid(R, C), segs(R, C)
    al = [frozenset(TURN + STRAIGHT)] * g.n
    return tuple(Dr(m, g.full, tuple(sg.dirs(m))) for m in degree_drawings(R, C, al) if len(seg_components(sg, m)) == 1)


def crossings(g, sg, lab):
    """Segments crossing each room's border: {room label: segment mask}."""
    out = {k: 0 for k in set(lab)}
    for s, (a, c) in enumerate(sg.ends):
        if lab[a] != lab[c]:
            out[lab[a]] |= 1 << s
            out[lab[c]] |= 1 << s
    return out


def line_hints(d, b, g, sg, m, p=(1, 3), wrong=(1, 25), x=True):
    """A few drawn lines / x marks, mostly agreeing with drawing m."""
    if not d.chance(*p) or not sg.keys:
        return
    y = hint_layer(d, b)
    for s in d.sample(range(len(sg.keys)), d.int(1, 3)):
        v = bool(m >> s & 1) ^ d.chance(*wrong)
        o, r, c = sg.keys[s]
        if v and d.chance(1, 3):
            h = ((r, c, "r"), (r, c + 1, "l")) if o == "H" else ((r, c, "d"), (r + 1, c, "u"))
            y.line[("h", *h[d.int(0, 1)])] = True
        elif v or x:
            y.line[(o, r, c)] = v


def line_pred(b, g, sg):
    """Segments that must / must not be drawn; None when a hint can never hold."""
    on = off = 0
    for (r, c, dd), v in halflines(b).items():
        key = {"r": ("H", r, c), "l": ("H", r, c - 1), "d": ("V", r, c), "u": ("V", r - 1, c)}[dd]
        s = sg.id.get(key)
        if s is None:
            if v:
                return None
            continue
        if v:
            on |= 1 << s
        else:
            off |= 1 << s
    return on, off


class Loop(Model):
    cat = "loop"
    sizes = [(2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (4, 5), (5, 3)]
    need = (0, 0, 0, 0)
    rooms = False
    minrooms = 2
    vertex = False             # the loop runs along grid lines
    marks_black = False
    linehints = True
    retry = False
    free = True                # a board without clues has an answer

    def geo(self, b):
        R, C = (b.rows + 1, b.cols + 1) if self.vertex else (b.rows, b.cols)
        return grid(R, C), segs(R, C)

    def base(self, g):
        return loops(g.R, g.C)

    def setup(self, d, b, g, param):
        if self.rooms:
            for _ in range(4):
                lab = random_partition(d, g)
                if len(set(lab)) >= self.minrooms:
                    break
            else:
                lab = [0] * g.C + [1] * (g.n - g.C)
            draw_rooms(d, b, g, lab=lab)

    def clues(self, d, b, g, x, param):
        pass

    def rule(self, b, g, param):
        return lambda x: True

    def param(self, d):
        return {}

    def prefer(self, b, g, param):
        """Which drawings are interesting to plant."""
        return lambda x: True

    def pick(self, d, b, g, param):
        base = self.base(g)
        p = self.prefer(b, g, param)
        if not base:
            return Dr(0, 0, (0,) * g.n)
        if d.chance(1, 15):
            return base[0]
        x = scan(d, base, p)
        return x if x is not None else base[d.int(0, len(base) - 1)]

    def gen(self, d):
        R, C = d.choice(self.sizes)
        if self.vertex:
            R, C = max(1, R - 1), max(1, C - 1)
        b = new_board(d, R, C, self.need)
        g, sg = self.geo(b)
        param = self.param(d)
        for _ in range(6 if self.retry else 1):
            b.q.edge.clear()
            self.setup(d, b, g, param)
            x = self.pick(d, b, g, param)
            if self.prefer(b, g, param)(x):
                break
        self.clues(d, b, g, x, param)
        if self.vertex:
            self.edge_hints(d, b, g, sg, x)
        elif self.linehints:
            line_hints(d, b, g, sg, x.m)
        return Case(self.name, b, param)

    def edge_hints(self, d, b, g, sg, x):
        if not d.chance(1, 3):
            return
        y = hint_layer(d, b)
        for s in d.sample(range(len(sg.keys)), d.int(1, 3)):
            o, r, c = sg.keys[s]
            y.edge[("T" if o == "H" else "L", r, c)] = bool(x.m >> s & 1) ^ d.chance(1, 25)

    def given(self, b, g, sg):
        """Segments given as drawn / not drawn; None when a given one can never hold."""
        if self.vertex:
            on = off = 0
            for (k, r, c), v in edges(b).items():
                s = 1 << sg.id[("H" if k == "T" else "V", r, c)]
                on, off = (on | s, off) if v else (on, off | s)
            return on, off
        return line_pred(b, g, sg) if self.linehints else (0, 0)

    def whole(self, g, sg, x):
        """Membership in base, on any board: nothing drawn, or a single loop."""
        if not x.m:
            return True
        if any(k and k not in TURN and k not in STRAIGHT for k in x.dirs):
            return False
        i = start = (x.cells & -x.cells).bit_length() - 1
        k, n = next(z for z in DIRS if x.dirs[i] & z[0]), 0
        while True:
            i += k[1] * g.C + k[2]
            n += 1
            if i == start:
                return n == pc(x.cells)
            out = x.dirs[i] & ~{U: DN, DN: U, LF: RT, RT: LF}[k[0]]
            k = next(z for z in DIRS if z[0] == out)

    def legal(self, case):
        b = case.board
        g, sg = self.geo(b)
        h = self.given(b, g, sg)
        if h is None:
            return
        on, off = h
        rule = self.rule(b, g, case.param)
        for x in self.candidates(b, g, case.param):
            if x.m & on == on and not x.m & off and rule(x):
                yield x

    def candidates(self, b, g, param):
        return self.base(g)

    def black(self, b, g, x):
        return 0

    def solutions(self, case):
        b = case.board
        g, sg = self.geo(b)
        for x in self.legal(case):
            yield self.drawn(b, g, sg, x)

    def drawn(self, b, g, sg, x):
        y = mask_layer(g, self.black(b, g, x), 4)
        if self.vertex:
            for s in g.bits(x.m):
                o, r, c = sg.keys[s]
                y.edge[("T" if o == "H" else "L", r, c)] = True
        else:
            for s in g.bits(x.m):
                y.line[sg.keys[s]] = True
        return y


def circle(b, r, c, style, shape="circle_L"):
    b.q.symbol[(r, c, "C")] = [style, shape, 1]


def sym_mask(b, g, name):
    return g.mask(k for k, v in symbols(b).items() if v == name)


def dark_others(d, b, g, x, p=(19, 20)):
    """Shade the cells the planted loop does not visit (sometimes wrongly)."""
    for i in range(g.n):
        if not x.cells >> i & 1 and d.chance(*p):
            b.q.surface[g.rc(i)] = d.choice([4, 8, 1, 3])
        elif x.cells >> i & 1 and d.chance(1, 250):
            b.q.surface[g.rc(i)] = 4


def dark_mask(b, g):
    return g.mask(k for k, v in surfaces(b).items() if v in "BG" and g.inside(*k))


@register
class Simpleloop(Loop):
    name = "simpleloop"
    sizes = Loop.sizes + [(5, 5), (3, 6)]

    def clues(self, d, b, g, x, param):
        dark_others(d, b, g, x)

    def rule(self, b, g, param):
        white = g.full & ~dark_mask(b, g)
        return lambda x: x.cells == white


@register
class Balance(Loop):
    name = "balance"

    def clues(self, d, b, g, x, param):
        for i in g.bits(x.cells):
            if d.chance(1, 3):
                (_, p), (_, q) = x.arms(g, i)
                rc = g.rc(i)
                circle(b, *rc, (1 if p == q else 2) if not d.chance(1, 40) else 1)
                if d.chance(1, 2):
                    num(b, *rc, "?" if d.chance(1, 10) else noisy(d, p + q, 1, 9))

    def rule(self, b, g, param):
        t = texts(b)
        cl = [(g.i(*k), v, t.get(k)) for k, v in symbols(b).items()]

        def ok(x):
            for i, v, n in cl:
                if not x.cells >> i & 1:
                    return False
                (_, p), (_, q) = x.arms(g, i)
                if (p == q) != (v == "circle_L__1") or isinstance(n, int) and p + q != n:
                    return False
            return True
        return ok


def inside_faces(g, sg, x):
    """Mask of cells strictly inside the loop (cells not on it), by flooding from outside on the doubled grid."""
    H, W = 2 * g.R + 1, 2 * g.C + 1
    wall = set()
    for i in g.bits(x.cells):
        r, c = g.rc(i)
        wall.add((2 * r + 1, 2 * c + 1))
    for s in g.bits(x.m):
        o, r, c = sg.keys[s]
        wall.add((2 * r + 1, 2 * c + 2) if o == "H" else (2 * r + 2, 2 * c + 1))
    seen, stack = {(0, 0)}, [(0, 0)]
    while stack:
        r, c = stack.pop()
        for a, e in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)):
            if 0 <= a < H and 0 <= e < W and (a, e) not in seen and (a, e) not in wall:
                seen.add((a, e))
                stack.append((a, e))
    m = 0
    for r, c in g.cells:
        if (2 * r + 1, 2 * c + 1) not in seen and not x.cells & g.bit(r, c):
            m |= g.bit(r, c)
    return m


@register
class Castle(Loop):
    name = "castle"

    def count(self, g, x, r, c, k):
        n = 0
        for dr, dc, dd in (((-1, 0, DN), (0, -1, RT), (0, 1, RT), (1, 0, DN))[k],):
            a, e = r + dr, c + dc
            while g.inside(a, e):
                n += bool(x.dirs[g.i(a, e)] & dd)
                a, e = a + dr, e + dc
        return n

    def clues(self, d, b, g, x, param):
        ins = inside_faces(g, segs(g.R, g.C), x)
        for i in range(g.n):
            if x.cells >> i & 1 or not d.chance(2, 3):
                continue
            r, c = g.rc(i)
            kind = d.int(0, 2)
            v = ins >> i & 1
            if d.chance(1, 40):
                v = not v
            if kind == 0:
                b.q.surface[(r, c)] = d.choice([1, 3, 8])
            elif not v:
                b.q.surface[(r, c)] = 4
            k = d.int(0, 3)
            if d.chance(3, 4) or (v and kind):
                t = f"{noisy(d, self.count(g, x, r, c, k), 0, 9)}_{k}" if d.chance(3, 4) else d.choice(["", " "])
                b.q.number[(r, c, "C")] = [t, 1, "2"]

    def rule(self, b, g, param):
        sg = segs(g.R, g.C)
        s = surfaces(b)
        t = texts(b)
        off = g.mask(set(s) | set(t))
        white = g.mask(k for k in t if k not in s)
        black = g.mask(k for k, v in s.items() if v == "B")
        cl = [(r, c, int(v.split("_")[1]), int(v.split("_")[0])) for (r, c), v in t.items() if str(v).strip()]

        def ok(x):
            if x.cells & off:
                return False
            if any(self.count(g, x, r, c, k) != n for r, c, k, n in cl):
                return False
            ins = inside_faces(g, sg, x)
            return white & ins == white and not black & ins
        return ok


class RoomLoop(Loop):
    rooms = True

    def geometry(self, b, g):
        lab = labels(b, g)
        sg = segs(g.R, g.C)
        cr = crossings(g, sg, lab)
        return [(room, cr[lab[(room & -room).bit_length() - 1]]) for room in rooms_of(g, lab)]


@register
class Country(RoomLoop):
    name, retry = "country", True
    sizes = Loop.sizes + [(5, 4), (2, 3)]

    def adj(self, b, g):
        e = edges(b)
        out = []
        for (k, r, c), v in e.items():
            if v and k == "T" and 0 < r < g.R:
                out.append(g.bit(r, c) | g.bit(r - 1, c))
            elif v and k == "L" and 0 < c < g.C:
                out.append(g.bit(r, c) | g.bit(r, c - 1))
        return out

    def core(self, b, g):
        ro, adj = self.geometry(b, g), self.adj(b, g)
        return lambda x: (all(pc(x.m & s) == 2 for _, s in ro) and all(x.cells & k for k in adj))

    def prefer(self, b, g, param):
        return self.core(b, g)

    def clues(self, d, b, g, x, param):
        room_clues(d, b, g, labels(b, g), lambda k: pc(k & x.cells), g.n)

    def rule(self, b, g, param):
        rv, core = room_values(b, g), self.core(b, g)
        return lambda x: all(pc(k & x.cells) == v for k, v in rv) and core(x)


def sudoku_clues(d, b, g, value, hi=9, p=(1, 2)):
    for room in rooms_of(g, labels(b, g)):
        if d.chance(*p):
            r, c = d.choice(g.coords(room))
            b.q.sudoku[(r, c, 0)] = [str("?" if d.chance(1, 10) else noisy(d, value(room), 0, hi)), 1]


def sudoku_values(b, g):
    rs = rooms_of(g, labels(b, g))
    return [(k, v) for (r, c, _), v in sudokus(b).items() if isinstance(v, int) for k in rs if k & g.bit(r, c)]


@register
class Detour(Loop):
    name, rooms = "detour", True
    minrooms = 1
    sizes = [(2, 2), (2, 3), (3, 4), (4, 4), (4, 5), (5, 4), (4, 6), (6, 4), (6, 5), (3, 3)]

    def base(self, g):
        return hamiltonian(g.R, g.C)

    def whole(self, g, sg, x):
        return x.cells == g.full and super().whole(g, sg, x)

    def clues(self, d, b, g, x, param):
        sudoku_clues(d, b, g, lambda k: pc(k & x.turns(g)[0]), g.n)

    def rule(self, b, g, param):
        rv = sudoku_values(b, g)
        return lambda x: all(pc(k & x.turns(g)[0]) == v for k, v in rv)


@register
class Dotchi(Loop):
    name, rooms = "dotchi", True
    minrooms = 1

    def clues(self, d, b, g, x, param):
        t, _ = x.turns(g)
        for room in rooms_of(g, labels(b, g)):
            kind = t if d.chance(1, 2) else g.full & ~t
            for r, c in g.coords(room):
                i = g.i(r, c)
                if x.cells >> i & 1:
                    if (kind >> i & 1 and d.chance(1, 2)) or d.chance(1, 60):
                        circle(b, r, c, 1)
                elif d.chance(1, 2):
                    circle(b, r, c, 2)

    def rule(self, b, g, param):
        white, black = sym_mask(b, g, "circle_L__1"), sym_mask(b, g, "circle_L__2")
        rs = [k & white for k in rooms_of(g, labels(b, g))]

        def ok(x):
            if x.cells & white != white or x.cells & black:
                return False
            t, s = x.turns(g)
            return all(not (k & t and k & s) for k in rs)
        return ok


@register
class Doubleback(RoomLoop):
    name = "doubleback"
    sizes = [(4, 4), (3, 4), (4, 5), (5, 4), (4, 6), (6, 4), (3, 6), (2, 4)]

    def setup(self, d, b, g, param):
        pass

    def base(self, g):
        return loops(g.R, g.C)

    def clues(self, d, b, g, x, param):
        sg = segs(g.R, g.C)
        for i in range(g.n):
            if not x.cells >> i & 1:
                b.q.surface[g.rc(i)] = d.choice([4, 8, 1, 3])
        # look for a division whose rooms are passed twice
        best = None
        for _ in range(30):
            lab = random_partition(d, g, 3)
            cr = crossings(g, sg, lab)
            if len(set(lab)) < 2:
                continue
            best = best or lab
            black = g.full & ~x.cells
            full = g.full
            rs = {k: g.mask(g.rc(i) for i in range(g.n) if lab[i] == k and not black >> i & 1) for k in set(lab)}
            if all(not m or (pc(x.m & cr[k]) == 4 and g.connected(m)) for k, m in rs.items()):
                best = lab
                break
        if best:
            draw_rooms(d, b, g, lab=best)

    def pick(self, d, b, g, param):
        ham = hamiltonian(g.R, g.C)
        if ham and d.chance(2, 3):
            return d.big(ham)
        return super().pick(d, b, g, param)

    def walls(self, b, g):
        e = {k: v for k, v in edges(b).items() if k[0] in "TL"}
        dark = dark_mask(b, g)
        for r, c in g.coords(dark):
            e.update({("T", r, c): True, ("L", r, c): True, ("T", r + 1, c): True, ("L", r, c + 1): True})
        return rooms_from_edges(g, e), dark

    def rule(self, b, g, param):
        lab, dark = self.walls(b, g)
        sg = segs(g.R, g.C)
        cr = crossings(g, sg, lab)
        need = [s for k, s in cr.items() if not dark >> lab.index(k) & 1]
        white = g.full & ~dark
        return lambda x: x.cells == white and all(pc(x.m & s) == 4 for s in need)


@register
class Geradeweg(Loop):
    name = "geradeweg"

    def fits(self, g, x, i, v):
        if v == 0:
            return not x.cells >> i & 1
        if not x.cells >> i & 1:
            return False
        (p, a), (q, e) = x.arms(g, i)
        if p | q in STRAIGHT:
            return not isinstance(v, int) or a + e == v
        return a == e and (not isinstance(v, int) or a == v)

    def clues(self, d, b, g, x, param):
        for i in range(g.n):
            if not d.chance(1, 3):
                continue
            r, c = g.rc(i)
            if not x.cells >> i & 1:
                if d.chance(1, 3):
                    num(b, r, c, 0)
                continue
            (p, a), (q, e) = x.arms(g, i)
            if p | q in STRAIGHT:
                v = a + e
            elif a == e:
                v = a
            elif d.chance(1, 20):
                v = a
            else:
                continue
            num(b, r, c, "?" if d.chance(1, 6) else noisy(d, v, 0, 9))

    def rule(self, b, g, param):
        t = [(g.i(*k), v) for k, v in texts(b).items()]
        return lambda x: all(self.fits(g, x, i, v) for i, v in t)


@register
class Masyu(Loop):
    name = "masyu"

    def colours(self, g, x):
        t, s = x.turns(g)
        w = k = 0
        for i in g.bits(x.cells):
            nb = [j for k_, dr, dc, _ in DIRS if x.dirs[i] & k_ for j in (i + dr * g.C + dc,)]
            if t >> i & 1:
                if all(s >> j & 1 for j in nb):
                    k |= 1 << i
            elif any(t >> j & 1 for j in nb):
                w |= 1 << i
        return w, k

    def clues(self, d, b, g, x, param):
        w, k = self.colours(g, x)
        for i in range(g.n):
            if (w >> i & 1 and d.chance(1, 3)) or (x.cells >> i & 1 and d.chance(1, 80)):
                circle(b, *g.rc(i), 1)
            elif k >> i & 1 and d.chance(1, 2):
                circle(b, *g.rc(i), 2)

    def rule(self, b, g, param):
        w, k = sym_mask(b, g, "circle_L__1"), sym_mask(b, g, "circle_L__2")

        def ok(x):
            if x.cells & (w | k) != w | k:
                return False
            p, q = self.colours(g, x)
            return p & w == w and q & k == k
        return ok


@register
class Moonsun(RoomLoop):
    name, retry = "moonsun", True

    def setup(self, d, b, g, param):
        for _ in range(8):
            lab = random_partition(d, g, 6)
            if len(set(lab)) % 2 == 0:
                break
        else:
            lab = [0] * g.C + [1] * (g.n - g.C)
        draw_rooms(d, b, g, lab=lab)

    def core(self, b, g):
        ro = self.geometry(b, g)
        return lambda x: all(pc(x.m & s) == 2 for _, s in ro)

    def alternates(self, b, g):
        """Loop passes the rooms in a cyclic order of even length."""
        core = self.core(b, g)
        lab = labels(b, g)
        sg = segs(g.R, g.C)
        cross = [(1 << s, lab[p], lab[q]) for s, (p, q) in enumerate(sg.ends) if lab[p] != lab[q]]
        return core, cross, lab

    def prefer(self, b, g, param):
        return self.core(b, g)

    def clues(self, d, b, g, x, param):
        core, cross, lab = self.alternates(b, g)
        col = {lab[0]: d.int(0, 1)}
        for _ in range(len(set(lab))):
            for s, p, q in cross:
                if x.m & s:
                    if p in col:
                        col.setdefault(q, 1 - col[p])
                    elif q in col:
                        col[p] = 1 - col[q]
        for i in range(g.n):
            if not d.chance(3, 4):
                continue
            k = col.get(lab[i], 0)          # kind visited in this room: 0 moon (1), 1 sun (2)
            on = x.cells >> i & 1
            style = (1 + k) if on else (2 - k)
            circle(b, *g.rc(i), style if not d.chance(1, 60) else 3 - style, "sun_moon")

    def rule(self, b, g, param):
        core, cross, lab = self.alternates(b, g)
        moon, sun = sym_mask(b, g, "sun_moon__1"), sym_mask(b, g, "sun_moon__2")
        rs = [(lab[(k & -k).bit_length() - 1], k) for k in rooms_of(g, lab)]

        def ok(x):
            if not core(x):
                return False
            kind = {}
            for lb, k in rs:
                m, s = k & moon, k & sun
                if m and x.cells & m == m and not x.cells & s:
                    kind[lb] = 0
                elif s and x.cells & s == s and not x.cells & m:
                    kind[lb] = 1
                else:
                    return False
            return all(kind[p] != kind[q] for s, p, q in cross if x.m & s)
        return ok


@register
class Myopia(Loop):
    name, vertex = "myopia", True

    def near(self, b, x, sg, r, c):
        """Set of directions (t, l, b, r) of the nearest loop edges; None when none is seen."""
        R, C = b.rows, b.cols
        on = lambda k: k in sg.id and x.m >> sg.id[k] & 1  # noqa: E731
        dist = []
        dist.append(next((r - k for k in range(r, -1, -1) if on(("H", k, c))), None))
        dist.append(next((c - k for k in range(c, -1, -1) if on(("V", r, k))), None))
        dist.append(next((k - r for k in range(r, R) if on(("H", k + 1, c))), None))
        dist.append(next((k - c for k in range(c, C) if on(("V", r, k + 1))), None))
        real = [v for v in dist if v is not None]
        if not real:
            return None
        return [v is not None and v == min(real) for v in dist]

    def clues(self, d, b, g, x, param):
        sg = segs(g.R, g.C)
        for r in range(b.rows):
            for c in range(b.cols):
                if d.chance(1, 2):
                    v = self.near(b, x, sg, r, c) or [True] * 4
                    if d.chance(1, 40):
                        v = [d.chance(1, 2), d.chance(1, 2), True, False]
                    t, lf, bo, ri = map(int, v)
                    b.q.symbol[(r, c, "C")] = [[lf, t, ri, bo, 0, 0, 0, 0], "arrow_cross", 1]

    def rule(self, b, g, param):
        sg = segs(g.R, g.C)
        cl = []
        for (r, c), (_, bits) in symbols(b).items():
            lf, t, ri, bo = bits[:4]
            cl.append((r, c, [bool(t), bool(lf), bool(bo), bool(ri)]))
        return lambda x: all(self.near(b, x, sg, r, c) == v for r, c, v in cl)


@register
class Nothing(RoomLoop):
    name, retry = "nothing", True

    def core(self, b, g):
        ro = self.geometry(b, g)
        lab = labels(b, g)
        adj = [(1 << i) | (1 << j) for i, j in g.pairs4 if lab[i] != lab[j]]

        def ok(x):
            for k, s in ro:
                if x.cells & k and (x.cells & k != k or pc(x.m & s) > 2):
                    return False
            return all(x.cells & k for k in adj)
        return ok

    def prefer(self, b, g, param):
        core = self.core(b, g)
        return lambda x: x.m and core(x)

    def pick(self, d, b, g, param):
        x = super().pick(d, b, g, param)
        if d.chance(4, 5):           # a division that suits a random loop: unvisited cells are rooms of their own
            sg = segs(g.R, g.C)
            for _ in range(12):
                lab = random_partition(d, g, d.choice([None, 3]))
                lab = [k if x.cells >> i & 1 else -1 - i for i, k in enumerate(lab)]
                b2 = Board(b.rows, b.cols, b.margin)
                for k in edges_of(g, lab):
                    b2.q.edge[k] = True
                if self.core(b2, g)(x) and len(set(lab)) > 1:
                    b.q.edge = b2.q.edge
                    break
        return x

    def rule(self, b, g, param):
        return self.core(b, g)


@register
class Slitherlink(Loop):
    name, vertex = "slitherlink", True
    sizes = Loop.sizes + [(3, 2), (5, 4)]

    def param(self, d):
        return d.choice([dict(swslither=False, tslither=False, vslither=False)] * 3 + [
            dict(swslither=False, tslither=True, vslither=False), dict(swslither=False, tslither=False, vslither=True),
            dict(swslither=True, tslither=False, vslither=False), dict(swslither=True, tslither=True, vslither=False),
            dict(swslither=True, tslither=False, vslither=True)])

    def value(self, sg, x, r, c, param):
        es = sum(x.m >> sg.id[k] & 1 for k in (("H", r, c), ("H", r + 1, c), ("V", r, c), ("V", r, c + 1)))
        vs = sum(x.cells >> sg.g.i(a, e) & 1 for a in (r, r + 1) for e in (c, c + 1))
        return vs if param.get("vslither") else vs - es if param.get("tslither") else es

    def inside(self, g, sg, x, r, c):
        return sum(x.m >> sg.id[("H", k, c)] & 1 for k in range(r + 1)) % 2 == 1

    def clues(self, d, b, g, x, param):
        sg = segs(g.R, g.C)
        for r in range(b.rows):
            for c in range(b.cols):
                if not d.chance(1, 2):
                    continue
                if param["swslither"] and d.chance(1, 2):
                    num(b, r, c, "S" if self.inside(g, sg, x, r, c) ^ d.chance(1, 40) else "W")
                else:
                    num(b, r, c, noisy(d, self.value(sg, x, r, c, param), 0, 4))

    def rule(self, b, g, param):
        sg = segs(g.R, g.C)
        t = texts(b)

        def ok(x):
            for (r, c), v in t.items():
                if isinstance(v, int):
                    if self.value(sg, x, r, c, param) != v:
                        return False
                elif self.inside(g, sg, x, r, c) != (v == "S"):
                    return False
            return True
        return ok


RING = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1)]


def ring_visits(g, x, r, c):
    """Sorted lengths of the loop's visits to the eight cells around (r, c)."""
    idx = [g.i(r + a, c + e) if g.inside(r + a, c + e) else None for a, e in RING]
    link = []
    for k in range(8):
        p, q = idx[k], idx[(k + 1) % 8]
        ok = False
        if p is not None and q is not None:
            for kk, dr, dc, _ in DIRS:
                if p + dr * g.C + dc == q and x.dirs[p] & kk and abs(p % g.C - q % g.C) == abs(dc):
                    ok = True
        link.append(ok)
    if all(link):
        return (8,)
    on = [i is not None and x.cells >> i & 1 for i in idx]
    start = link.index(False) + 1
    out, cur = [], 0
    for k in range(8):
        j = (start + k) % 8
        if on[j]:
            cur += 1
        if not link[j]:
            if cur:
                out.append(cur)
            cur = 0
    return tuple(sorted(out)) or (0,)


def fits_multiset(clue, vals):
    """clue: ints and '?', as many as vals."""
    if len(clue) != len(vals):
        return False
    rest = list(vals)
    for v in clue:
        if v != "?":
            if v not in rest:
                return False
            rest.remove(v)
    return True


@register
class Tapaloop(Loop):
    name = "tapaloop"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (4, 5), (5, 4), (2, 3)]
    weight = 0.5

    def param(self, d):
        return dict(visit_all=d.chance(1, 3))

    def clues(self, d, b, g, x, param):
        for i in range(g.n):
            if x.cells >> i & 1:
                continue
            if not d.chance(1, 2 if not param["visit_all"] else 1):
                continue
            r, c = g.rc(i)
            v = list(ring_visits(g, x, r, c))
            v = [noisy(d, k, 0, 8, (1, 30)) for k in v]
            v = ["?" if d.chance(1, 6) else k for k in v]
            v = d.shuffle(v)
            b.q.number[(r, c, "C")] = ["".join(map(str, v)), 1, "4"]

    def rule(self, b, g, param):
        t = tapas(b)
        off = g.mask(t)

        def ok(x):
            if x.cells & off or param["visit_all"] and x.cells != g.full & ~off:
                return False
            return all(fits_multiset(v, ring_visits(g, x, r, c)) for (r, c), v in t.items())
        return ok


@register
class Yajilin(Loop):
    name = "yajilin"
    sizes = [(3, 3), (3, 4), (4, 3), (4, 4), (2, 3), (4, 5), (5, 4), (1, 3)]

    def gray(self, b, g):
        return g.mask(k for k in texts(b) if g.inside(*k))

    def black(self, b, g, x):
        return g.full & ~self.gray(b, g) & ~x.cells

    def value(self, g, black, r, c, k):
        return pc(black & sum(1 << j for j in g.ray(r, c, *((-1, 0), (0, -1), (0, 1), (1, 0))[k])))

    def clue(self, d, b, g, black, i):
        r, c = g.rc(i)
        k = d.int(0, 3)
        t = f"{noisy(d, self.value(g, black, r, c, k), 0, 9)}_{k}"
        b.q.number[(r, c, "C")] = [t if d.chance(5, 6) else d.choice(["", " ", "?"]), 1, "2"]

    def clues(self, d, b, g, x, param):
        black = 0
        gray = []
        for i in d.shuffle([i for i in range(g.n) if not x.cells >> i & 1]):
            if not g.m4[i] & black and d.chance(3, 4):
                black |= 1 << i
            else:
                gray.append(i)
        for i in gray:
            self.clue(d, b, g, black, i)
        if d.chance(1, 5) and black:
            r, c = d.choice(g.coords(black))
            b.q.surface[(r, c)] = d.choice([4, 8, 1, 3])

    def rule(self, b, g, param):
        gray = self.gray(b, g)
        dark = dark_mask(b, g)
        cl = [(r, c, *map(int, str(v).split("_"))) for (r, c), v in texts(b).items() if "_" in str(v)]

        def ok(x):
            if x.cells & gray:
                return False
            black = g.full & ~gray & ~x.cells
            if black & dark != dark or not g.no_adj(black):
                return False
            return all(self.value(g, black, r, c, k) == n for r, c, n, k in cl)
        return ok


@register
class Koburin(Yajilin):
    name = "koburin"

    def clue(self, d, b, g, black, i):
        r, c = g.rc(i)
        num(b, r, c, "?" if d.chance(1, 6) else noisy(d, pc(g.m4[i] & black), 0, 4))

    def rule(self, b, g, param):
        gray, dark = self.gray(b, g), dark_mask(b, g)
        cl = [(g.i(*k), v) for k, v in texts(b).items() if isinstance(v, int)]

        def ok(x):
            if x.cells & gray:
                return False
            black = g.full & ~gray & ~x.cells
            return black & dark == dark and g.no_adj(black) and all(pc(g.m4[i] & black) == v for i, v in cl)
        return ok


@register
class YajilinRegions(Loop):
    name, rooms = "yajilin_regions", True
    minrooms = 1

    def base(self, g):
        return _yr_base(g.R, g.C)

    def whole(self, g, sg, x):
        return g.no_adj(g.full & ~x.cells) and super().whole(g, sg, x)

    def black(self, b, g, x):
        return g.full & ~x.cells

    def clues(self, d, b, g, x, param):
        sudoku_clues(d, b, g, lambda k: pc(k & ~x.cells), g.n)
        if d.chance(1, 5):
            r, c = d.choice(g.cells)
            if not x.cells & g.bit(r, c) or d.chance(1, 20):
                b.q.surface[(r, c)] = d.choice([4, 8, 1, 3])

    def rule(self, b, g, param):
        rv, dark = sudoku_values(b, g), dark_mask(b, g)
        return lambda x: not x.cells & dark and all(pc(k & ~x.cells) == v for k, v in rv)


@lru_cache(None)
def _yr_base(R, C):
    g = grid(R, C)
    return tuple(x for x in loops(R, C) if g.no_adj(g.full & ~x.cells))


@register
class Railpool(Loop):
    name, rooms = "railpool", True
    minrooms = 1
    sizes = [(2, 2), (3, 3), (3, 4), (4, 4), (2, 5), (4, 5), (5, 4), (5, 3)]

    def lens(self, g, x, room):
        out = set()
        for i in g.bits(room & x.cells):
            arms = x.arms(g, i)
            for k, n in arms:
                other = [e for p, e in arms if p | k in STRAIGHT and p != k]
                out.add(n + (other[0] if other else 0))
        return out

    def clues(self, d, b, g, x, param):
        dark_others(d, b, g, x, (60, 61))
        for room in rooms_of(g, labels(b, g)):
            v = sorted(self.lens(g, x, room))
            if not d.chance(1, 2) or not 1 <= len(v) <= 4 or max(v) > 9:
                continue
            v = [noisy(d, k, 1, 9, (1, 40)) for k in v]
            v = ["?" if d.chance(1, 5) else k for k in v]
            r, c = d.choice(g.coords(room))
            b.q.number[(r, c, "C")] = ["".join(map(str, d.shuffle(v))), 1, "4"]

    def rule(self, b, g, param):
        white = g.full & ~dark_mask(b, g)
        cl = [(k, v) for (r, c), v in tapas(b).items() for k in rooms_of(g, labels(b, g)) if k & g.bit(r, c)]

        def ok(x):
            if x.cells != white:
                return False
            for k, v in cl:
                s = self.lens(g, x, k)
                if len(s) != len(v) or any(n != "?" and n not in s for n in v):
                    return False
            return True
        return ok


# --------------------------------------------------------------------------- several loops, crossings, paths
@lru_cache(None)
def two_regular(R, C):
    g, sg = grid(R, C), segs(R, C)
    al = [frozenset(TURN + STRAIGHT + (0,))] * g.n
    out = []
    for m in degree_drawings(R, C, al):
        dirs = tuple(sg.dirs(m))
        x = Dr(m, sum(1 << i for i, k in enumerate(dirs) if k), dirs)
        out.append((x, seg_components(sg, m)))
    return tuple(out)


@register
class Onsen(Loop):
    name, rooms = "onsen", True
    minrooms = 1
    sizes = [(2, 2), (2, 4), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (4, 5)]

    def base(self, g):
        return two_regular(g.R, g.C)

    def shape(self, b, g):
        lab = labels(b, g)
        sg = segs(g.R, g.C)
        cr = crossings(g, sg, lab)
        return [(k, cr[lab[(k & -k).bit_length() - 1]]) for k in rooms_of(g, lab)], sg

    def core(self, b, g):
        ro, sg = self.shape(b, g)
        ends = [(1 << p) | (1 << q) for p, q in sg.ends]

        def ok(y):
            x, comps = y
            if any(not x.cells & k for k, _ in ro):
                return False
            for c in comps:
                for k, s in ro:
                    if pc(s & x.m) > 2 and sum(1 for j in g.bits(s & x.m) if ends[j] & c) > 2:
                        return False
            return True
        return ok

    def gen(self, d):
        R, C = d.choice(self.sizes)
        b = new_board(d, R, C)
        g, sg = self.geo(b)
        base = self.base(g)
        for _ in range(6):
            b.q.edge.clear()
            draw_rooms(d, b, g, max_rooms=d.choice([None, 3, 4]))
            core = self.core(b, g)
            y = scan(d, [z for z in base if len(z[1]) > 1] if d.chance(1, 2) else base[1:], core)
            if y is not None:
                break
        else:
            y = d.big(base)
        x, comps = y
        ro, _ = self.shape(b, g)
        for c in comps:
            r, cc = d.choice(g.coords(c))
            vals = {pc(c & k) for k, _ in ro if c & k}
            num(b, r, cc, noisy(d, min(vals), 1, 9, (1, 20)) if len(vals) == 1 and d.chance(2, 3) else "?")
        if not comps:
            num(b, *d.choice(g.cells), d.choice([2, 4, "?"]))
        elif d.chance(1, 25):
            num(b, *d.choice(g.cells), "?")
        line_hints(d, b, g, sg, x.m)
        return Case(self.name, b, {})

    def legal(self, case):
        b = case.board
        g, sg = self.geo(b)
        on, off = line_pred(b, g, sg)
        core = self.core(b, g)
        ro, _ = self.shape(b, g)
        t = {g.i(*k): v for k, v in texts(b).items()}
        tm = sum(1 << i for i in t)
        for y in self.base(g):
            x, comps = y
            if x.m & on != on or x.m & off or x.cells & tm != tm or any(pc(c & tm) != 1 for c in comps) or not core(y):
                continue
            ok = True
            for c in comps:
                i = (c & tm).bit_length() - 1
                vals = {pc(c & k) for k, _ in ro if c & k}
                if len(vals) != 1 or isinstance(t[i], int) and vals != {t[i]}:
                    ok = False
                    break
            if ok:
                yield x


@lru_cache(None)
def crossing_loops(R, C):
    """Drawings visiting every cell, crossings allowed, forming one closed curve."""
    g, sg = grid(R, C), segs(R, C)
    al = [frozenset(TURN + STRAIGHT + (15,))] * g.n
    out = []
    for m in degree_drawings(R, C, al):
        dirs = tuple(sg.dirs(m))
        # walk the curve
        d0 = next(k for k in DIRS if dirs[0] & k[0])
        i, k = 0, d0
        n = 0
        while True:
            i += k[1] * C + k[2]
            n += 1
            back = {U: DN, DN: U, LF: RT, RT: LF}[k[0]]
            if dirs[i] != 15:
                nxt = dirs[i] & ~back
                k = next(z for z in DIRS if z[0] == nxt)
            if i == 0:
                break
        if n == pc(m):
            out.append(Dr(m, g.full, dirs))
    return tuple(out)


@register
class Pipelink(Loop):
    name = "pipelink"
    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (4, 5), (5, 4)]
    linehints = False

    def base(self, g):
        return crossing_loops(g.R, g.C)

    def clues(self, d, b, g, x, param):
        for i in range(g.n):
            if d.chance(1, 4):
                code = x.dirs[i] if not d.chance(1, 40) else d.choice(TURN + STRAIGHT)
                r, c = g.rc(i)
                for k, _, _, dd in DIRS:
                    if code & k:
                        b.q.line[("h", r, c, dd)] = True

    def rule(self, b, g, param):
        fix = {}
        for (r, c, dd), v in halflines(b).items():
            if v:
                fix[g.i(r, c)] = fix.get(g.i(r, c), 0) | CODE[dd]
        return lambda x: all(x.dirs[i] == k for i, k in fix.items())


def path_ends(g, sg, m):
    """Components of a drawing as (cell mask, list of end cells)."""
    dirs = sg.dirs(m)
    return [(c, [i for i in g.bits(c) if pc(dirs[i]) == 1]) for c in seg_components(sg, m)], dirs


@register
class Numlin(Loop):
    name = "numlin"
    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (1, 4), (2, 5)]

    def param(self, d):
        return dict(visit_all=d.chance(2, 3), no_2x2=d.chance(2, 3))

    def gen(self, d):
        R, C = d.choice(self.sizes)
        b = new_board(d, R, C)
        g, sg = self.geo(b)
        param = self.param(d)
        # random disjoint simple paths covering much of the board
        free, paths = g.full, []
        for _ in range(d.int(1, 5)):
            opts = list(g.bits(free))
            if not opts:
                break
            i = d.choice(opts)
            p = [i]
            free &= ~(1 << i)
            lim = d.int(2, 9)
            while len(p) < lim:
                nx = [j for j in g.nb4[p[-1]] if free >> j & 1]
                if not nx:
                    nx = [j for j in g.nb4[p[0]] if free >> j & 1]
                    if not nx:
                        break
                    p.reverse()
                j = d.choice(nx)
                p.append(j)
                free &= ~(1 << j)
            if len(p) > 1:
                paths.append(p)
        if not paths:
            paths = [[0, 1]]
        if d.chance(2, 3):
            param["visit_all"] = not g.full & ~sum(1 << i for p in paths for i in p)
        names = d.shuffle(["1", "2", "3", "A", "B", "?", "12", "7"])
        m = 0
        for p, n in zip(paths, names):
            for i in (p[0], p[-1]):
                num(b, *g.rc(i), n)
            for a, e in zip(p, p[1:]):
                m |= 1 << next(s for s in sg.at[a] if e in sg.ends[s])
        line_hints(d, b, g, sg, m)
        return Case(self.name, b, param)

    def legal(self, case):
        b, param = case.board, case.param
        g, sg = self.geo(b)
        on, off = line_pred(b, g, sg)
        t = {g.i(*k): v for k, v in texts(b).items()}
        two = TURN + STRAIGHT if param["visit_all"] else TURN + STRAIGHT + (0,)
        al = [(U, DN, LF, RT) if i in t else two for i in range(g.n)]
        for m in degree_drawings(g.R, g.C, [frozenset(a) for a in al]):
            if m & on != on or m & off:
                continue
            comps, _ = path_ends(g, sg, m)
            if any(len(e) != 2 or t[e[0]] != t[e[1]] for _, e in comps):
                continue
            if param["no_2x2"] and any(not g.no2x2(c) for c, _ in comps):
                continue
            yield Dr(m, 0, None)


@register
class Anglers(Loop):
    name = "anglers"
    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (1, 4), (2, 5)]
    need = (1, 1, 1, 1)

    def ext(self, b):
        return grid(b.rows + 2, b.cols + 2), segs(b.rows + 2, b.cols + 2)

    def gen(self, d):
        R, C = d.choice(self.sizes)
        b = new_board(d, R, C, self.need)
        g = grid(R, C)
        e, sg = self.ext(b)
        free, paths, m = g.full, [], 0
        for _ in range(d.int(1, 4)):
            if d.chance(2, 3):
                k, r, c = d.choice([("T", -1, c) for c in range(C)] + [("B", R, c) for c in range(C)] +
                                   [("L", r, -1) for r in range(R)] + [("R", r, C) for r in range(R)])
                nx = min(max(r, 0), R - 1), min(max(c, 0), C - 1)
                if (r, c) in [p[0] for p in paths] or not free & g.bit(*nx):
                    continue
                p = [(r, c), nx]
                free &= ~g.bit(*nx)
            else:
                i = scan(d, list(range(g.n)), lambda i: free >> i & 1)
                if i is None:
                    continue
                p = [g.rc(i)]
                free &= ~(1 << i)
            lim = d.int(2, 8)
            while len(p) < lim:
                nx = [j for j in g.nb4[g.i(*p[-1])] if free >> j & 1]
                if not nx:
                    break
                j = d.choice(nx)
                p.append(g.rc(j))
                free &= ~(1 << j)
            if len(p) > 1:
                paths.append(p)
            elif g.inside(*p[0]):
                free |= g.bit(*p[0])
        if not paths:
            paths = [[(0, -1), (0, 0)]]
        for p in paths:
            num(b, *p[0], "?" if d.chance(1, 5) else noisy(d, len(p) - 1, 1, 9, (1, 20)))
            b.q.symbol[(*p[-1], "C")] = [3, "tents", 1]
            for (a, c), (a2, c2) in zip(p, p[1:]):
                m |= 1 << next(s for s in sg.at[e.i(a + 1, c + 1)] if e.i(a2 + 1, c2 + 1) in sg.ends[s])
        for i in g.bits(free):
            if d.chance(14, 15):
                b.q.surface[g.rc(i)] = d.choice([4, 8, 1, 3])
        if d.chance(1, 3):
            y = hint_layer(d, b)
            sg2 = segs(R, C)
            for s in d.sample(range(len(sg2.keys)), min(2, len(sg2.keys))):
                o, r, c = sg2.keys[s]
                y.line[(o, r, c)] = bool(m >> sg.id[(o, r + 1, c + 1)] & 1) ^ d.chance(1, 25)
        return Case(self.name, b, {})

    def legal(self, case):
        b = case.board
        e, sg = self.ext(b)
        R, C = b.rows, b.cols
        dark = {k for k, v in surfaces(b).items() if v in "BG"}
        t = {e.i(r + 1, c + 1): v for (r, c), v in texts(b).items()}
        fish = {e.i(r + 1, c + 1) for r, c in symbols(b)}
        al = []
        for i in range(e.n):
            r, c = e.rc(i)
            ins = 0 < r <= R and 0 < c <= C
            if i in t or i in fish:
                al.append(frozenset((U, DN, LF, RT)) if (r - 1, c - 1) not in dark else frozenset())
            elif ins and (r - 1, c - 1) not in dark:
                al.append(frozenset(TURN + STRAIGHT))
            else:
                al.append(frozenset((0,)))
        on = off = 0
        for (r, c, dd), v in halflines(b).items():
            s = 1 << sg.id[{"r": ("H", r + 1, c + 1), "l": ("H", r + 1, c), "d": ("V", r + 1, c + 1), "u": ("V", r, c + 1)}[dd]]
            on, off = (on | s, off) if v else (on, off | s)
        for m in degree_drawings(e.R, e.C, al):
            if m & on != on or m & off:
                continue
            comps, _ = path_ends(e, sg, m)
            ok = True
            for c, ends in comps:
                ts = [i for i in ends if i in t]
                if len(ends) != 2 or len(ts) != 1 or isinstance(t[ts[0]], int) and pc(c) != t[ts[0]] + 1:
                    ok = False
                    break
            if ok:
                yield Dr(m, 0, None)

    def solutions(self, case):
        _, sg = self.ext(case.board)
        for x in self.legal(case):
            y = Layer()
            for s in sg.g.bits(x.m):
                o, r, c = sg.keys[s]
                y.line[(o, r - 1, c - 1)] = True
            yield y


@register
class Haisu(Model):
    name, cat = "haisu", "loop"
    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 3), (4, 4), (1, 4), (2, 5), (5, 3)]

    @staticmethod
    def paths(g, s, t):
        out = []

        def rec(i, seen, p):
            if i == t:
                if seen == g.full:
                    out.append(tuple(p))
                return
            for j in g.nb4[i]:
                if not seen >> j & 1:
                    p.append(j)
                    rec(j, seen | 1 << j, p)
                    p.pop()
        rec(s, 1 << s, [s])
        return out

    def visits(self, lab, p):
        cnt, out, prev = {}, {}, None
        for i in p:
            if lab[i] != prev:
                cnt[lab[i]] = cnt.get(lab[i], 0) + 1
            prev = lab[i]
            out[i] = cnt[lab[i]]
        return out

    def gen(self, d):
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C)
        draw_rooms(d, b, g)
        lab = labels(b, g)
        s = d.int(0, g.n - 1)
        ts = [i for i in range(g.n) if i != s]
        t = scan(d, ts, lambda t: self.paths(g, s, t)) if d.chance(14, 15) else d.choice(ts)
        t = ts[0] if t is None else t
        ps = self.paths(g, s, t)
        num(b, *g.rc(s), "S")
        num(b, *g.rc(t), "G")
        if ps:
            v = self.visits(lab, d.choice(ps))
            for i in range(g.n):
                if i not in (s, t) and d.chance(1, 4):
                    num(b, *g.rc(i), "?" if d.chance(1, 10) else noisy(d, v[i], 1, 9))
        return Case(self.name, b, {})

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        sg = segs(b.rows, b.cols)
        lab = labels(b, g)
        tx = {g.i(*k): v for k, v in texts(b).items()}
        s = next(i for i, v in tx.items() if v == "S")
        t = next(i for i, v in tx.items() if v == "G")
        for p in self.paths(g, s, t):
            v = self.visits(lab, p)
            if all(v[i] == n for i, n in tx.items() if isinstance(n, int)):
                y = Layer()
                for a, e in zip(p, p[1:]):
                    y.line[sg.keys[next(k for k in sg.at[a] if e in sg.ends[k])]] = True
                yield y


@register
class Hashi(Model):
    name, cat = "hashi", "loop"
    sizes = [(3, 3), (3, 4), (4, 4), (3, 5), (5, 3), (1, 5), (5, 5), (4, 6)]

    def links(self, b, g):
        """Candidate bridges: (island, island, cells between, segments)."""
        t = {g.i(*k) for k in texts(b)}
        out = []
        for i in sorted(t):
            r, c = g.rc(i)
            for dr, dc in ((0, 1), (1, 0)):
                mid, segl = 0, []
                a, e = r, c
                while True:
                    segl.append(("H" if dc else "V", a, e))
                    a, e = a + dr, e + dc
                    if not g.inside(a, e):
                        break
                    j = g.i(a, e)
                    if j in t:
                        out.append((i, j, mid, segl))
                        break
                    mid |= 1 << j
        return sorted(t), out

    def enum(self, b, g):
        isl, lk = self.links(b, g)
        want = {g.i(*k): v for k, v in texts(b).items()}
        hint = {}
        for k, v in {**b.a.line, **b.q.line}.items():
            if v:
                hint[k] = v
        deg = {i: 0 for i in isl}
        val = [0] * len(lk)
        left = {i: sum(1 for x in lk if i in x[:2]) for i in isl}

        def rec(n, used):
            if n == len(lk):
                if any(isinstance(v, int) and deg[i] != v for i, v in want.items()):
                    return
                par = {i: i for i in isl}

                def find(x):
                    while par[x] != x:
                        x = par[x]
                    return x
                for (i, j, _, _), v in zip(lk, val):
                    if v:
                        par[find(i)] = find(j)
                if len({find(i) for i in isl}) > 1:
                    return
                drawn = {s: v for (_, _, _, ss), v in zip(lk, val) if v for s in ss}
                if all(drawn.get(k) == v for k, v in hint.items()):
                    yield tuple(val)
                return
            i, j, mid, _ = lk[n]
            for v in (0, 1, 2):
                if v and used & mid:
                    continue
                val[n] = v
                deg[i] += v
                deg[j] += v
                if all(not isinstance(want[k], int) or deg[k] <= want[k] for k in (i, j)):
                    yield from rec(n + 1, used | mid if v else used)
                deg[i] -= v
                deg[j] -= v
            val[n] = 0

        yield from ((v, lk) for v in rec(0, 0))

    def gen(self, d):
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C)
        # grow a connected set of islands by walking
        isl = [d.int(0, g.n - 1)]
        for _ in range(d.int(0, 7)):
            r, c = g.rc(d.choice(isl))
            ray = g.ray(r, c, *d.choice([(0, 1), (1, 0), (0, -1), (-1, 0)]))
            if ray:
                j = d.choice(ray)
                if j not in isl:
                    isl.append(j)
        for i in isl:
            num(b, *g.rc(i), "?")
        sols = []
        for s in self.enum(b, g):
            sols.append(s)
            if len(sols) > 200:
                break
        if sols:
            val, lk = d.choice(sols)
            for i in isl:
                v = sum(x for x, y in zip(val, lk) if i in y[:2])
                if d.chance(3, 4):
                    num(b, *g.rc(i), noisy(d, v, 0, 8))
            if d.chance(1, 3) and any(val):
                y = hint_layer(d, b)
                for v, (_, _, _, ss) in zip(val, lk):
                    if v and d.chance(1, 3):
                        for s in ss if d.chance(1, 2) else ss[:1]:
                            y.line[s] = v if not d.chance(1, 30) else 3 - v
        return Case(self.name, b, {})

    def solutions(self, case):
        b = case.board
        g = grid(b.rows, b.cols)
        for val, lk in self.enum(b, g):
            y = Layer()
            for v, (_, _, _, ss) in zip(val, lk):
                if v:
                    for s in ss:
                        y.line[s] = v
            yield y


@register
class Nagare(Loop):
    name = "nagare"
    sizes = [(2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (4, 5)]
    ARW = {"1": (0, -1), "3": (-1, 0), "5": (0, 1), "7": (1, 0)}
    linehints = False

    def orient(self, g, x):
        """The two directed versions: cell -> (in step, out step)."""
        if not x.m:
            return [{}]
        start = (x.cells & -x.cells).bit_length() - 1
        res = []
        for k0 in DIRS:
            if not x.dirs[start] & k0[0]:
                continue
            seq, i, k = [], start, k0
            while True:
                seq.append((i, (k[1], k[2])))
                i += k[1] * g.C + k[2]
                if i == start:
                    break
                back = {U: DN, DN: U, LF: RT, RT: LF}[k[0]]
                k = next(z for z in DIRS if z[0] == x.dirs[i] & ~back)
            res.append({i: (seq[n - 1][1], o) for n, (i, o) in enumerate(seq)})
        return res

    def clues(self, d, b, g, x, param):
        o = d.choice(self.orient(g, x))
        code = {v: k for k, v in self.ARW.items()}
        for i in range(g.n):
            r, c = g.rc(i)
            if i in o:
                if o[i][0] == o[i][1] and d.chance(1, 8):
                    b.q.symbol[(r, c, "C")] = [int(code[o[i][1]]), "arrow_B_B", 1]
            elif d.chance(1, 4):
                b.q.surface[(r, c)] = d.choice([4, 8, 1, 3])
        for i in range(g.n):
            r, c = g.rc(i)
            if i in o or (r, c) in b.q.surface or not d.chance(1, 2):
                continue
            for k, st in d.shuffle(list(self.ARW.items())):
                beam = g.ray(r, c, *st)
                if any((*g.rc(j), "C") in b.q.symbol and b.q.symbol[(*g.rc(j), "C")][1] == "arrow_B_B" for j in beam):
                    continue
                b.q.symbol[(r, c, "C")] = [int(k), "arrow_B_W", 1]
                if self.feasible(b, g, o) or d.chance(1, 12):
                    break
                del b.q.symbol[(r, c, "C")]
        # an arrow on the loop inside a beam is read differently by different sources: avoid
        for k in [k for k, v in b.q.symbol.items() if v[1] == "arrow_B_B"]:
            if any(v[1] == "arrow_B_W" and g.i(k[0], k[1]) in g.ray(kk[0], kk[1], *self.ARW[str(v[0])])
                   for kk, v in b.q.symbol.items()):
                del b.q.symbol[k]

    def winds(self, b, g):
        s = symbols(b)
        block = set(s) | set(surfaces(b))
        out = []
        for (r, c), v in s.items():
            shape, st = v.split("__")
            if shape == "arrow_B_W":
                step = self.ARW[st]
                for j in g.ray(r, c, *step):
                    if g.rc(j) in block:
                        break
                    out.append((j, step))
        return out

    def feasible(self, b, g, o):
        for j, st in self.winds(b, g):
            if j in o and st not in o[j]:
                return False
        return True

    def rule(self, b, g, param):
        s = symbols(b)
        fixed = {g.i(*k): self.ARW[v.split("__")[1]] for k, v in s.items() if v.startswith("arrow_B_B")}
        off = dark_mask(b, g) | g.mask(k for k, v in s.items() if v.startswith("arrow_B_W"))

        def ok(x):
            if x.cells & off or any(not x.cells >> i & 1 for i in fixed):
                return False
            return any(all(o[i] == (st, st) for i, st in fixed.items()) and self.feasible(b, g, o) for o in self.orient(g, x))
        return ok


@register
class Firefly(Model):
    name, cat = "firefly", "loop"
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4)]
    STEP = {"1": (0, 1), "2": (1, 0), "3": (0, -1), "4": (-1, 0)}

    def enum(self, b, g, sg, flies, cap=10 ** 9):
        """Every drawing: {firefly: (vertex path)}; each beam ends at a firefly, not at its own dot side."""
        order = sorted(flies)
        seg = {}
        for s, (p, q) in enumerate(sg.ends):
            seg[(p, q)] = seg[(q, p)] = s
        dots = {}
        for i in order:
            r, c = g.rc(i)
            dr, dc = self.STEP[flies[i]]
            if not g.inside(r + dr, c + dc):
                return
            dots[i] = g.i(r + dr, c + dc)
        count = 0

        def rec(n, used, segm, beams):
            nonlocal count
            if count >= cap:
                return
            if n == len(order):
                if g_connected(beams, order):
                    count += 1
                    yield segm, list(beams)
                return
            f = order[n]

            def walk(prev, cur, used, segm, path):
                s = seg[(prev, cur)]
                if segm >> s & 1:
                    return
                segm |= 1 << s
                path = path + [cur]
                if cur in flies:
                    if dots[cur] != prev:
                        yield used, segm, path
                    return
                if used >> cur & 1:
                    return
                used |= 1 << cur
                for nx in g.nb4[cur]:
                    if nx != prev:
                        yield from walk(cur, nx, used, segm, path)

            for u2, s2, path in walk(f, dots[f], used, segm, [f]):
                beams.append(path)
                yield from rec(n + 1, u2, s2, beams)
                beams.pop()

        def g_connected(beams, order):
            par = {i: i for i in order}

            def find(x):
                while par[x] != x:
                    x = par[x]
                return x
            for p in beams:
                par[find(p[0])] = find(p[-1])
            return len({find(i) for i in order}) == 1

        yield from rec(0, 0, 0, [])

    @staticmethod
    def bends(g, p):
        return sum(p[k + 1] - p[k] != p[k] - p[k - 1] for k in range(1, len(p) - 1))

    def gen(self, d):
        R, C = d.choice(self.sizes)
        b = new_board(d, R, C)
        g, sg = grid(R + 1, C + 1), segs(R + 1, C + 1)
        for _ in range(10):
            flies = {i: d.choice(list(self.STEP)) for i in d.sample(range(g.n), d.int(1, 4))}
            sols = list(self.enum(b, g, sg, flies, 40))
            if sols:
                break
        m = 0
        if sols:
            m, beams = d.choice(sols)
        for n, i in enumerate(sorted(flies)):
            r, c = g.rc(i)
            b.q.symbol[(r, c, "TL")] = [int(flies[i]), "firefly", 1]
            if sols and d.chance(1, 2):
                num(b, r, c, "?" if d.chance(1, 8) else noisy(d, self.bends(g, beams[n]), 0, 6), "TL")
        if d.chance(1, 3):
            y = hint_layer(d, b)
            for s in d.sample(range(len(sg.keys)), d.int(1, 2)):
                o, r, c = sg.keys[s]
                y.edge[("T" if o == "H" else "L", r, c)] = bool(m >> s & 1) ^ d.chance(1, 25)
        return Case(self.name, b, {})

    def solutions(self, case):
        b = case.board
        g, sg = grid(b.rows + 1, b.cols + 1), segs(b.rows + 1, b.cols + 1)
        flies = {g.i(*k): v.split("__")[1] for k, v in symbols(b, "TL").items()}
        t = {g.i(*k): v for k, v in texts(b, "TL").items() if isinstance(v, int)}
        on = off = 0
        for (k, r, c), v in edges(b).items():
            s = 1 << sg.id[("H" if k == "T" else "V", r, c)]
            on, off = (on | s, off) if v else (on, off | s)
        for m, beams in self.enum(b, g, sg, flies):
            if m & on != on or m & off:
                continue
            if all(self.bends(g, p) == t[p[0]] for p in beams if p[0] in t):
                y = Layer()
                for s in g.bits(m):
                    o, r, c = sg.keys[s]
                    y.edge[("T" if o == "H" else "L", r, c)] = True
                yield y
