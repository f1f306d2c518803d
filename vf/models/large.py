"""Large boards: single answers judged by the reference rules instead of a full enumeration.

A legal drawing is grown with the reference rules by a random walk (or taken from the code under test and judged), clues are
derived from it, and then
 - the open board: every answer obeys the rules, and there is one if the drawing obeys them;
 - the pinned board, every cell or line given, for the drawing and for drawings a few cells away: the answer comes back exactly
   when the reference rules accept it.
"""
import json
import random

from .base import *
from .csp import BLANK, upto
from .loop import DIRS, DN, Dr, Hashi, LF, Loop, RT, STRAIGHT, TURN, U, line_pred, path_ends, seg_components
from .num import Fillomino, MaskNum, Num
from .region import Region, all_edges
from .var import Fillmat, Place, Spots, StarBattle, star_rooms
from ..core import answers, darkness, expected, observed, show

SIZES = [(6, 6), (5, 9), (9, 5), (7, 8), (8, 8), (3, 14), (12, 3), (10, 10), (11, 7), (7, 12), (2, 16), (1, 22), (6, 11)]

SHARE = dict({n: 0.5 for n in "pentominous tetrochain cbanana fivecells tapaloop simplegako ncells hinge".split()}, pentopia=0.15, araf=0.25, fillomino=0.5, symmarea=0.1)


class Large:
    """One family of models.  An answer is a number: a mask of cells or of line segments."""

    sizes = SIZES
    seconds = 3

    def __init__(self, model):
        self.model = model
        self.share = SHARE.get(model.name, 1.5)        # of the usual number of cases
        self.cost = 1.0

    # to override
    def geo(self, b):
        """Whatever describes the board."""

    def legal(self, case):
        """Predicate: does an answer obey every rule and every given mark?"""

    def back(self, case, marks):
        """The answer canonical marks show; None when they are no drawing at all."""

    def drawn(self, case, x):
        """Layer of the marks the answer x shows."""

    def pin(self, d, case, x):
        """A copy of the case with every cell or line given as in x, or None."""

    def near(self, d, case, x):
        """An answer close to x."""

    def load(self, text_):
        """The answer written by save."""
        return int(text_)

    def save(self, x):
        return str(x)

    def plan(self, d, rec):
        """(case, planted answer or None)."""

    # generic
    def ask(self, case, x, what, limit, seconds, rec=None):
        """Ask, judge every answer, and look for x if it is legal. Result: the answers; None without any verdict."""
        if rec:
            rec.set(dict(case.to_json(), large=None if x is None else self.save(x), limit=limit, what=what))
        try:
            got = [observed(case, u)[0] for u in answers(case, limit, seconds)]
        except TimeoutError:
            return None
        legal = self.legal(case)
        size = f"{what}, {case.board.rows}x{case.board.cols}"
        ms = []
        for marks in got:
            y = self.back(case, marks)
            if y is None or not legal(y):
                raise Violation(f"{case.name}: an answer breaks the rules ({size})", answer=show(marks))
            want = expected(case, self.drawn(case, y))
            if marks != want:
                raise Violation(f"{case.name}: an answer lacks marks or has others ({size})", answer=show(marks), expected=show(want))
            ms.append(y)
        if len(ms) < limit and x is not None and x not in ms and legal(x):
            raise Violation(f"{case.name}: a legal answer is missing ({size})", missing=show(expected(case, self.drawn(case, x))))
        return ms

    def run(self, d, rec):
        d.wild = False
        case, x = self.plan(d, rec)
        if case is None:
            rec.done(False, label="large, no start")
            return
        key = case.key()
        ms = self.ask(case, x, "open board", 3, self.seconds, rec)
        if ms and (x is None or not self.legal(case)(x)):
            x = d.choice(ms)
        n = len(ms or ())
        for k in range(4) if x is not None else ():
            y = self.near(d, case, x) if k else x
            full = self.pin(d, case, y)
            if full is None:
                break
            n += bool(self.ask(full, y, "everything given", 3, 10, rec))
        rec.done(n > 0, key=key, label="large" if n else "large, nothing legal")


class LargeShade(Large):
    def geo(self, b):
        return grid(b.rows, b.cols)

    def legal(self, case):
        mo, g = self.model, self.geo(case.board)
        p = mo.pred(case.board, g, case.param)
        return lambda m: mo.whole(g, m) and p(m)

    def back(self, case, marks):
        return self.model.back(self.geo(case.board), marks)

    def drawn(self, case, x):
        return self.model.drawn(case, self.geo(case.board), x)

    def pin(self, d, case, x):
        b = case.board.copy()
        self.model.pin(b, b.a if d.chance(1, 2) else b.q, self.geo(b), x)
        return Case(case.name, b, case.param)

    def near(self, d, case, x):
        g = self.geo(case.board)
        for _ in range(d.int(1, 2)):
            i = d.int(0, g.n - 1)
            x ^= 1 << i
            if d.chance(1, 2):
                x ^= 1 << d.choice(g.nb8[i] or [i])
        return x

    def patterns(self, g):
        fs = (lambda r, c: (r + c) % 2, lambda r, c: r % 2, lambda r, c: c % 2, lambda r, c: r % 2 == 0 or c == 0, lambda r, c: r == 0,
              lambda r, c: c % 2 == 0 or r == 0, lambda r, c: c == 0, lambda r, c: r in (0, g.R - 1) or c in (0, g.C - 1),
              lambda r, c: r >= g.R // 2, lambda r, c: r < g.R // 2, lambda r, c: r == 0 and c < 2, lambda r, c: r % 3 == 0 and c % 3 < 2,
              lambda r, c: r == 0 and c == 0, lambda r, c: c < 4 and r == 0, lambda r, c: c < 5 and r == 0,
              lambda r, c: r % 2 and c, lambda r, c: c % 2 and r)
        return [0, g.full] + [sum(1 << i for i in range(g.n) if f(*g.rc(i))) for f in fs]

    def walk(self, rnd, g, m, ok, steps):
        for _ in range(steps):
            i = rnd.randrange(g.n)
            k = rnd.random()
            if k < 0.35:
                x = 1 << i
            elif k < 0.7:
                x = (1 << i) | (1 << rnd.choice(g.nb8[i] or [i]))
            else:
                cells = [i]
                for _ in range(rnd.randint(1, 4)):
                    cells.append(rnd.choice(g.nb4[rnd.choice(cells)] or [i]))
                x = sum(1 << j for j in set(cells))
                if k > 0.85:            # a piece comes or goes as a whole
                    x = m & x or x
            if ok(m ^ x):
                m ^= x
        return m

    def plan(self, d, rec):
        mo = self.model
        R, C = d.choice([s for s in SIZES if mo.name != "stostone" or s[0] % 2 == 0])
        g = grid(R, C)
        rnd = random.Random(d.int(0, 10 ** 6))
        static = lambda k: mo.whole(g, k)  # noqa: E731
        seeds = [m for m in self.patterns(g) if static(m)]
        rnd.shuffle(seeds)
        pool = seeds + [self.walk(rnd, g, m, static, rnd.choice([30, 100, 300])) for m in seeds[:4]]
        mo._base[(R, C)] = pool             # what set-ups choose from
        try:
            b = new_board(d, R, C, mo.margins(R, C))
            param = mo.param(d)
            mo.setup(d, b, g, param)
        finally:
            del mo._base[(R, C)]
        bare = Case(mo.name, b.copy(), param)
        free = mo.pred(bare.board, g, param)
        ok = static if mo.clued else lambda k: static(k) and free(k)
        pool = [m for m in pool if ok(m)]
        m = rnd.choice(pool) if pool else None
        if m is None and not mo.clued:
            ms = self.ask(bare, None, "no clues", 1, 3, rec)
            m = ms[0] if ms else None
        if m is None:
            return None, None
        m = self.walk(rnd, g, m, ok, rnd.choice([60, 200, 500]))
        d.calm = d.chance(3, 5)
        mo.clues(d, b, g, m, param)
        return Case(mo.name, b, param), m


class LargeLoop(Large):
    sizes = [(6, 6), (5, 9), (9, 5), (7, 8), (8, 8), (3, 14), (12, 3), (10, 10), (11, 7), (6, 11), (2, 16)]

    def geo(self, b):
        return self.model.geo(b)

    def dr(self, g, sg, m):
        dirs = tuple(sg.dirs(m))
        return Dr(m, sum(1 << i for i, k in enumerate(dirs) if k), dirs)

    def legal(self, case):
        mo, b = self.model, case.board
        g, sg = self.geo(b)
        h = mo.given(b, g, sg)
        if h is None:
            return lambda m: False
        on, off = h
        rule = mo.rule(b, g, case.param)

        def ok(m):
            if m & on != on or m & off:
                return False
            x = self.dr(g, sg, m)
            return mo.whole(g, sg, x) and bool(rule(x))
        return ok

    def back(self, case, marks):
        g, sg = self.geo(case.board)
        m = 0
        if self.model.vertex:
            for o, r, c in marks[3]:
                s = sg.id.get(("H" if o == "T" else "V", r, c))
                if s is None:
                    return None
                m |= 1 << s
            return m
        have = set(marks[4])
        for r, c, dd in have:
            key = {"r": ("H", r, c), "l": ("H", r, c - 1), "d": ("V", r, c), "u": ("V", r - 1, c)}[dd]
            s = sg.id.get(key)
            if s is None:
                return None
            m |= 1 << s
        return m if have == set(sg.halves(m)) else None

    def drawn(self, case, x):
        g, sg = self.geo(case.board)
        return self.model.drawn(case.board, g, sg, self.dr(g, sg, x))

    def pin(self, d, case, x):
        mo = self.model
        if not mo.vertex and not mo.linehints:
            return None
        b = case.board.copy()
        g, sg = self.geo(b)
        y = b.a if d.chance(1, 2) else b.q
        z = b.q if y is b.a else b.a
        for s, (o, r, c) in enumerate(sg.keys):
            v = bool(x >> s & 1)
            if mo.vertex:
                k = ("T" if o == "H" else "L", r, c)
                if k not in z.edge and k not in y.edge:
                    y.edge[k] = v
            elif (o, r, c) not in z.line and (o, r, c) not in y.line:
                y.line[(o, r, c)] = v
        return Case(case.name, b, case.param)

    def faces(self, sg):
        return [sum(1 << sg.id[k] for k in (("H", r, c), ("H", r + 1, c), ("V", r, c), ("V", r, c + 1)))
                for r in range(sg.R - 1) for c in range(sg.C - 1)]

    def near(self, d, case, x):
        g, sg = self.geo(case.board)
        fs = self.faces(sg)
        for _ in range(d.int(1, 2)):
            k = d.int(0, 5)
            if k == 0 or not fs:
                x ^= 1 << d.int(0, len(sg.keys) - 1)
            else:
                x ^= d.choice(fs)
        return x

    def walk(self, rnd, g, sg, m, ok, steps):
        fs = self.faces(sg)
        W = sg.C - 1
        for _ in range(steps if fs else 0):
            j = rnd.randrange(len(fs))
            x = fs[j]
            for _ in range(rnd.choice([0, 0, 0, 1, 1, 2, 3])):
                j = j + rnd.choice([1, -1, W, -W, W + 1, W - 1, 1 - W, -W - 1])
                if 0 <= j < len(fs):
                    x ^= fs[j]
            if ok(m ^ x):
                m ^= x
        return m

    def starts(self, sg):
        """Drawings round simple sets of faces: all, a comb, a bar."""
        R, C = sg.R - 1, sg.C - 1
        fs = self.faces(sg)
        fl = (lambda r, c: True, lambda r, c: r == 0 or c % 2 == 0, lambda r, c: c == 0 or r % 2 == 0, lambda r, c: r == R // 2,
              lambda r, c: c == C // 2, lambda r, c: r == 0 and c == 0)
        out = []
        for f in fl:
            m = 0
            for r in range(R):
                for c in range(C):
                    if f(r, c):
                        m ^= fs[r * C + c]
            out.append(m)
        return [m for m in out if m] or [0]

    def plan(self, d, rec):
        mo = self.model
        R, C = d.choice(self.sizes)
        if mo.vertex:
            R, C = max(1, R - 1), max(1, C - 1)
        rnd = random.Random(d.int(0, 10 ** 6))
        b = new_board(d, R, C, mo.need)
        g, sg = self.geo(b)
        param = mo.param(d)
        static = lambda m: mo.whole(g, sg, self.dr(g, sg, m))  # noqa: E731
        mo.setup(d, b, g, param)
        like = mo.prefer(b, g, param)
        ok = lambda m: static(m) and like(self.dr(g, sg, m))  # noqa: E731
        pool = [m for m in self.starts(sg) if static(m)]
        if not pool:
            return None, None
        pool += [self.walk(rnd, g, sg, rnd.choice(pool), static, rnd.choice([60, 200, 400])) for _ in range(3)]
        good = [m for m in pool if ok(m)]
        if good:
            m = self.walk(rnd, g, sg, rnd.choice(good), ok, rnd.choice([60, 200, 400]))
        else:
            ms = self.ask(Case(mo.name, b.copy(), param), None, "no clues", 1, 3, rec) if mo.rooms and mo.free else None
            m = self.walk(rnd, g, sg, ms[0], ok, 200) if ms and ms[0] else rnd.choice(pool)
        d.calm = d.chance(3, 5)
        mo.clues(d, b, g, self.dr(g, sg, m), param)
        return Case(mo.name, b, param), m


def snakes(d, R, C, free, k, heads=()):
    """Up to k paths that do not touch one another's cells: lists of cells.  heads: cells outside to begin at."""
    out = []
    for _ in range(k):
        heads = [x for x in heads if not any(x == p[0] for p in out)]
        if heads and d.chance(2, 3):
            x = d.choice(heads)
            p = [x, (min(max(x[0], 0), R - 1), min(max(x[1], 0), C - 1))]
            if p[1] not in free:
                continue
        elif free:
            p = [d.choice(sorted(free))]
        else:
            break
        seen = {p[-1]}
        lim = d.int(2, d.choice([4, 9, 20, 40]))
        go = None
        while len(p) < lim:
            nx = [(p[-1][0] + a, p[-1][1] + c) for a, c in ((0, 1), (1, 0), (0, -1), (-1, 0))]
            nx = [y for y in nx if y in free and y not in seen]
            if not nx:
                break
            y = d.choice(nx)
            if go in nx and d.chance(2, 3):
                y = go
            go = (2 * y[0] - p[-1][0], 2 * y[1] - p[-1][1])
            p.append(y)
            seen.add(y)
        if len(p) > 1:
            out.append(p)
            free -= seen
    return out


def path_mask(sg, p, off=0):
    m = 0
    for (r, c), (r2, c2) in zip(p, p[1:]):
        k = ("H", r + off, min(c, c2) + off) if r == r2 else ("V", min(r, r2) + off, c + off)
        m |= 1 << sg.id[k]
    return m


class LargeNumlin(LargeLoop):
    def legal(self, case):
        b, param = case.board, case.param
        g, sg = self.geo(b)
        on, off = line_pred(b, g, sg)
        t = {g.i(*k): v for k, v in texts(b).items()}

        def ok(m):
            if m & on != on or m & off:
                return False
            comps, dirs = path_ends(g, sg, m)
            deg = [bin(k).count("1") for k in dirs]
            if any(k != 1 if i in t else k not in ((2,) if param["visit_all"] else (0, 2)) for i, k in enumerate(deg)):
                return False
            return all(len(e) == 2 and t[e[0]] == t[e[1]] and (not param["no_2x2"] or g.no2x2(c)) for c, e in comps)
        return ok

    def plan(self, d, rec):
        R, C = d.choice(self.sizes)
        b = new_board(d, R, C)
        g, sg = self.geo(b)
        paths = snakes(d, R, C, set(g.cells), d.int(1, 12))
        names = d.shuffle([str(i) for i in range(1, 21)] + list("ABCDE") + ["?"])
        m = 0
        for p, n in zip(paths, names):
            num(b, *p[0], n)
            num(b, *p[-1], n)
            m |= path_mask(sg, p)
        free = g.full & ~sum(1 << g.i(*x) for p in paths for x in p)
        param = dict(visit_all=not free, no_2x2=all(g.no2x2(sum(1 << g.i(*x) for x in p)) for p in paths) if d.chance(7, 8) else True)
        case = Case("numlin", b, param)
        if not paths:
            return None, None
        return case, m

    def near(self, d, case, x):
        return super().near(d, case, x) if d.chance(1, 2) else x


class LargeAnglers(LargeLoop):
    sizes = [(5, 5), (5, 8), (8, 5), (7, 7), (3, 11), (11, 3), (10, 10), (1, 12)]

    def geo(self, b):
        return self.model.ext(b)

    def legal(self, case):
        b = case.board
        e, sg = self.geo(b)
        dark = {k for k, v in surfaces(b).items() if v in "BG"}
        t = {e.i(r + 1, c + 1): v for (r, c), v in texts(b).items()}
        fish = {e.i(r + 1, c + 1) for r, c in symbols(b)}
        on = off = 0
        for (r, c, dd), v in halflines(b).items():
            s = 1 << sg.id[{"r": ("H", r + 1, c + 1), "l": ("H", r + 1, c), "d": ("V", r + 1, c + 1), "u": ("V", r, c + 1)}[dd]]
            on, off = (on | s, off) if v else (on, off | s)

        def ok(m):
            if m & on != on or m & off:
                return False
            comps, dirs = path_ends(e, sg, m)
            for i, k in enumerate(dirs):
                r, c = e.rc(i)
                n = bin(k).count("1")
                light = (r - 1, c - 1) not in dark
                if i in t or i in fish:
                    if n != 1 or not light:
                        return False
                elif n != (2 if light and 0 < r <= b.rows and 0 < c <= b.cols else 0):
                    return False
            for c, ends in comps:
                ts = [i for i in ends if i in t]
                if len(ends) != 2 or len(ts) != 1 or isinstance(t[ts[0]], int) and bin(c).count("1") != t[ts[0]] + 1:
                    return False
            return True
        return ok

    def back(self, case, marks):
        _, sg = self.geo(case.board)
        m = 0
        for r, c, dd in set(marks[4]):
            s = sg.id.get({"r": ("H", r + 1, c + 1), "l": ("H", r + 1, c), "d": ("V", r + 1, c + 1), "u": ("V", r, c + 1)}[dd])
            if s is None:
                return None
            m |= 1 << s
        return m

    def drawn(self, case, x):
        _, sg = self.geo(case.board)
        y = Layer()
        for s in sg.g.bits(x):
            o, r, c = sg.keys[s]
            y.line[(o, r - 1, c - 1)] = True
        return y

    def pin(self, d, case, x):
        b = case.board.copy()
        _, sg = self.geo(b)
        y = b.a if d.chance(1, 2) else b.q
        for s, (o, r, c) in enumerate(sg.keys):
            r2, c2 = (r, c + 1) if o == "H" else (r + 1, c)
            if 0 < r <= b.rows and 0 < c <= b.cols and r2 <= b.rows and c2 <= b.cols:
                y.line[(o, r - 1, c - 1)] = bool(x >> s & 1)
        return Case(case.name, b, case.param)

    def plan(self, d, rec):
        R, C = d.choice(self.sizes)
        b = new_board(d, R, C, self.model.need)
        _, sg = self.geo(b)
        heads = [(-1, c) for c in range(C)] + [(R, c) for c in range(C)] + [(r, -1) for r in range(R)] + [(r, C) for r in range(R)]
        free = {(r, c) for r in range(R) for c in range(C)}
        paths = snakes(d, R, C, free, d.int(1, 8), heads)
        m = 0
        for p in paths:
            if 0 <= p[-1][0] < R and 0 <= p[-1][1] < C:
                num(b, *p[0], "?" if d.chance(1, 5) else noisy(d, len(p) - 1, 1, 40, (1, 30)))
                b.q.symbol[(*p[-1], "C")] = [3, "tents", 1]
                m |= path_mask(sg, p, 1)
        for x in sorted(free - {x for p in paths for x in p}):
            if d.chance(40, 41):
                b.q.surface[x] = d.choice([4, 8, 1, 3])
        return (Case("anglers", b, {}), m) if paths else (None, None)


class LargePipelink(LargeLoop):
    sizes = [(5, 6), (6, 6), (4, 9), (8, 4), (7, 8), (8, 8), (2, 12), (10, 9)]

    def whole(self, g, dirs):
        """One closed curve through every cell, straight on at crossings."""
        ends = {k[0]: k for k in DIRS}
        opp = {U: DN, DN: U, LF: RT, RT: LF}
        if any(k not in TURN + STRAIGHT + (15,) for k in dirs):
            return False
        i, n = 0, 0
        k = next(z for z in DIRS if dirs[0] & z[0])
        while True:
            i += k[1] * g.C + k[2]
            n += 1
            if dirs[i] != 15:
                k = ends[dirs[i] & ~opp[k[0]]]
            if i == 0:
                break
        return 2 * n == sum(bin(x).count("1") for x in dirs)

    def legal(self, case):
        b = case.board
        g, sg = self.geo(b)
        rule = self.model.rule(b, g, case.param)

        def ok(m):
            x = self.dr(g, sg, m)
            return self.whole(g, x.dirs) and bool(rule(x))
        return ok

    def pin(self, d, case, x):
        b = case.board.copy()
        g, sg = self.geo(b)
        for i, code in enumerate(sg.dirs(x)):
            r, c = g.rc(i)
            if not any((("h", r, c, dd) in b.q.line) for _, _, _, dd in DIRS):
                for k, _, _, dd in DIRS:
                    if code & k:
                        b.q.line[("h", r, c, dd)] = True
        return Case(case.name, b, case.param)

    def near(self, d, case, x):
        g, sg = self.geo(case.board)
        for _ in range(d.int(1, 2)):
            x ^= d.choice(self.faces(sg))
        return x

    def plan(self, d, rec):
        mo = self.model
        R, C = d.choice(self.sizes)
        b = new_board(d, R, C)
        g, sg = self.geo(b)
        for _ in range(d.int(1, 4)):        # a few pieces that any drawing could have
            r, c = d.int(1, R - 2) if R > 2 else d.int(0, R - 1), d.int(1, C - 2)
            code = d.choice([15, 15] + list(STRAIGHT)) if 0 < r < R - 1 else LF | RT
            for k, _, _, dd in DIRS:
                if code & k:
                    b.q.line[("h", r, c, dd)] = True
                elif ("h", r, c, dd) in b.q.line:
                    del b.q.line[("h", r, c, dd)]
        ms = self.ask(Case("pipelink", b, {}), None, "a few clues", 1, 4, rec)
        if not ms:
            return Case("pipelink", b, {}), None
        m = ms[0]
        rnd = random.Random(d.int(0, 10 ** 6))
        m = self.walk(rnd, g, sg, m, lambda y: self.whole(g, sg.dirs(y)), 200)
        b2 = new_board(d, R, C)
        mo.clues(d, b2, g, self.dr(g, sg, m), {})
        return Case("pipelink", b2, {}), m


class LargeOnsen(LargeLoop):
    sizes = [(5, 5), (4, 7), (7, 4), (6, 6), (3, 9), (8, 3), (7, 8)]

    def legal(self, case):
        mo, b = self.model, case.board
        g, sg = self.geo(b)
        on, off = line_pred(b, g, sg)
        core = mo.core(b, g)
        ro, _ = mo.shape(b, g)
        t = {g.i(*k): v for k, v in texts(b).items()}
        tm = sum(1 << i for i in t)

        def ok(m):
            if m & on != on or m & off:
                return False
            x = self.dr(g, sg, m)
            if any(k and k not in TURN + STRAIGHT for k in x.dirs):
                return False
            comps = [c for c in seg_components(sg, m) if c & x.cells]
            if x.cells & tm != tm or any(bin(c & tm).count("1") != 1 for c in comps) or not core((x, comps)):
                return False
            for c in comps:
                vals = {bin(c & k).count("1") for k, _ in ro if c & k}
                v = t[(c & tm).bit_length() - 1]
                if len(vals) != 1 or isinstance(v, int) and vals != {v}:
                    return False
            return True
        return ok

    def plan(self, d, rec):
        mo = self.model
        R, C = d.choice(self.sizes)
        b = new_board(d, R, C)
        g, sg = self.geo(b)
        draw_rooms(d, b, g, max_rooms=d.choice([3, 5, 8]))
        for x in d.sample(g.cells, d.int(1, 5)):
            num(b, *x, "?")
        ms = self.ask(Case("onsen", b.copy(), {}), None, "circles without numbers", 2, 4, rec)
        if not ms:
            return Case("onsen", b, {}), None
        m = d.choice(ms)
        ro, _ = mo.shape(b, g)
        at = [g.i(*k) for k in sorted(texts(b))]
        for c in seg_components(sg, m):
            for i in at:
                if c >> i & 1 and d.chance(2, 3):
                    num(b, *g.rc(i), noisy(d, min(bin(c & k).count("1") for k, _ in ro if c & k), 1, 12, (1, 20)))
        return Case("onsen", b, {}), m


class LargeRegion(Large):
    """Answers are sets of borders (mask over all_edges)."""

    sizes = [(6, 6), (5, 8), (8, 5), (7, 8), (8, 8), (3, 12), (12, 3), (10, 10), (2, 16), (1, 20)]

    def geo(self, b):
        g = grid(b.rows, b.cols)
        ks = all_edges(g)
        return g, ks, {k: 1 << i for i, k in enumerate(ks)}

    def number(self, b, part):
        g, _, at = self.geo(b)
        return sum(at[k] for k in self.model.drawn(g, part))

    def parts(self, b, x):
        g, ks, _ = self.geo(b)
        lab = rooms_from_edges(g, {k: True for i, k in enumerate(ks) if x >> i & 1})
        hole = self.model.hole_mask(b, g)
        return [m for m in rooms_of(g, lab) if not m & hole]

    def legal(self, case):
        mo, b = self.model, case.board
        g, _, at = self.geo(b)
        hints = {at[k]: v for k, v in edges(b).items()}
        rules = mo.legal_division(b, g, case.param)
        free = g.full & ~mo.hole_mask(b, g)

        def ok(x):
            if any(bool(x & k) != v for k, v in hints.items()):
                return False
            part = self.parts(b, x)
            return sum(part) == free and self.number(b, part) == x and rules(part)
        return ok

    def back(self, case, marks):
        _, _, at = self.geo(case.board)
        return sum(at[k] for k in marks[3]) if all(k in at for k in marks[3]) else None

    def drawn(self, case, x):
        _, ks, _ = self.geo(case.board)
        y = Layer()
        for i, k in enumerate(ks):
            if x >> i & 1:
                y.edge[k] = True
        return y

    def pin(self, d, case, x):
        b = case.board.copy()
        _, ks, _ = self.geo(b)
        y = b.a if d.chance(1, 2) else b.q
        z = b.q if y is b.a else b.a
        for i, k in enumerate(ks):
            if k not in z.edge and k not in y.edge:
                y.edge[k] = bool(x >> i & 1)
        return Case(case.name, b, case.param)

    def near(self, d, case, x):
        b = case.board
        g, ks, _ = self.geo(b)
        if d.chance(1, 4):
            return x ^ 1 << d.int(0, len(ks) - 1)
        part = self.parts(b, x)
        for _ in range(d.int(1, 2)):            # a cell changes sides, or two regions become one
            i = d.int(0, g.n - 1)
            mine = [k for k, m in enumerate(part) if m >> i & 1]
            other = [k for k, m in enumerate(part) if m & g.m4[i] and not m >> i & 1]
            if not mine or not other:
                continue
            k = d.choice(other)
            part[k] |= 1 << i
            part[mine[0]] &= ~(1 << i)
            if d.chance(1, 3):
                part[k] |= part[mine[0]]
                part[mine[0]] = 0
            part = [c for m in part for c in g.comps(m)]
        return self.number(b, part)

    def plan(self, d, rec):
        mo = self.model
        R, C = d.choice([s for s in self.sizes if mo.bigfit(*s)])
        g = grid(R, C)
        b = new_board(d, R, C, mo.need)
        param = mo.bigparam(d, g)
        mo.setup(d, b, g, param)
        part = mo.plant(d, b, g, param)
        free = g.full & ~mo.hole_mask(b, g)
        d.calm = d.chance(3, 5)
        if mo.free and (sum(part) != free or not mo.legal_division(b, g, param)(part)):
            ms = self.ask(Case(mo.name, b.copy(), param), None, "no clues", 1, self.seconds, rec)
            if ms:
                part = self.parts(b, ms[0])
        mo.clues(d, b, g, part, param)
        mo.after(d, b, g)
        return Case(mo.name, b, param), self.number(b, part) if sum(part) == free else None


class LargeNum(Large):
    """Answers are tuples of one value per cell."""

    def geo(self, b):
        return grid(b.rows, b.cols)

    def load(self, text_):
        return tuple(json.loads(text_))

    def save(self, x):
        return json.dumps(list(x))

    def legal(self, case):
        mo, g = self.model, self.geo(case.board)
        mo.n = g.R
        dom, neq, cons, exempt = mo.csp(case.board, g, case.param)

        def ok(x):
            return all(v in dom[i] for i, v in enumerate(x)) and \
                all(v in exempt or all(x[j] != v for j in neq[i]) for i, v in enumerate(x)) and \
                all(fn([x[i] for i in cells]) for cells, fn in cons)
        return ok

    def cell(self, layer, rc):
        out = {("n", str(v[0])) for k, v in layer.number.items() if k == (*rc, "C")}
        out |= {("s", v[0], v[1]) for k, v in layer.symbol.items() if k == (*rc, "C")}
        return out | {("d", darkness(v)) for k, v in layer.surface.items() if k == rc}

    def back(self, case, marks):
        mo, g = self.model, self.geo(case.board)
        have = {}
        for k, v in marks[0]:
            have.setdefault(k, set()).add(("d", v))
        for k, v in marks[1]:
            if k[2] == "C":
                have.setdefault(k[:2], set()).add(("n", v))
        for k, v in marks[2]:
            if k[2] == "C":
                have.setdefault(k[:2], set()).add(("s", *v))
        dom = mo.dom(case.board, g, case.param)
        seen = {v: mo.layer(g, [v] * g.n) for x in dom for v in x}
        told = mo.given(case.board, g)
        out = []
        for i, x in enumerate(dom):
            if i in told:
                out.append(told[i])
                continue
            rc = g.rc(i)
            fit = [(len(c), -k, v) for k, v in enumerate(x) for c in [self.cell(seen[v], rc)] if c <= have.get(rc, set())]
            if not fit:
                return None
            out.append(max(fit, key=lambda t: t[:2])[2])
        return tuple(out)

    def drawn(self, case, x):
        return self.model.layer(self.geo(case.board), list(x))

    def pin(self, d, case, x):
        mo = self.model
        if not mo.pins:
            return None
        b = case.board.copy()
        g = self.geo(b)
        mo.where = d.int(0, 1)
        have, dom = mo.given(b, g), mo.dom(b, g, case.param)
        for i, v in enumerate(x):
            if i not in have and len(dom[i]) > 1:
                mo.put(b, *g.rc(i), v)
        return Case(case.name, b, case.param)

    def near(self, d, case, x):
        g = self.geo(case.board)
        dom = self.model.dom(case.board, g, case.param)
        x = list(x)
        for _ in range(d.int(1, 2)):
            i, j = d.int(0, g.n - 1), d.int(0, g.n - 1)
            if d.chance(1, 2) and x[i] in dom[j] and x[j] in dom[i]:
                x[i], x[j] = x[j], x[i]
            else:
                x[i] = d.choice(dom[i])
        return tuple(x)

    def plan(self, d, rec):
        mo = self.model
        for _ in range(4):
            R, C = d.choice(mo.bigsizes())
            g = grid(R, C)
            b = new_board(d, R, C, mo.need)
            mo.n, mo.where = R, d.int(0, 1)
            param = mo.param(d)
            if mo.rooms and mo.maxroom == 5 and d.chance(1, 3):
                mo.maxroom = d.choice([9, 10, 12, 16])
            try:
                mo.setup(d, b, g, param)
            finally:
                mo.__dict__.pop("maxroom", None)
            got = upto(0, 1000, *mo.csp(b, g, param, False), rnd=random.Random(d.int(0, 1 << 20)))
            sol = got[0] if got else None
            if sol is None and got is None and mo.free:
                ms = self.ask(Case(mo.name, b.copy(), param), None, "no clues", 1, self.seconds, rec)
                sol = list(ms[0]) if ms else None
            if sol is not None:
                break
        if sol is None:
            if d.chance(2, 3):
                return None, None
            sol = [d.choice(x) if x else BLANK for x in mo.dom(b, g, param)]
        d.calm = d.chance(3, 5)
        mo.clues(d, b, g, sol, param)
        k = d.choice([0, 1, 2, 4])
        for i, x in enumerate(mo.dom(b, g, param)):
            if mo.pins and len(x) > 1 and d.chance(k, 8):
                mo.put(b, *g.rc(i), sol[i] if d.calm or not d.chance(1, 40) else d.choice(x))
        return Case(mo.name, b, param), tuple(sol)


class LargeSpots(Large):
    """Answers are masks of cells."""

    sizes = [(6, 6), (5, 8), (8, 5), (7, 8), (8, 8), (3, 12), (12, 3), (10, 10), (11, 12), (2, 16), (1, 20)]

    def geo(self, b):
        return grid(b.rows, b.cols)

    def rules(self, b, g, param, clued):
        mo = self.model
        on, off = mo.bounds(b, g, param, clued)
        p = mo.rule(b, g, param, clued)
        return lambda m: m & on == on and not m & off and p(m)

    def legal(self, case):
        return self.rules(case.board, self.geo(case.board), case.param, True)

    def back(self, case, marks):
        mo, g = self.model, self.geo(case.board)
        m = mo.hint_masks(case.board, g)[0]
        none = expected(case, mo.marks(case.board, g, 0))
        for i in range(g.n):                    # the mark of this cell alone
            mine = expected(case, mo.marks(case.board, g, 1 << i))
            if any(set(a) - set(z) and set(a) - set(z) <= set(x) for a, z, x in zip(mine, none, marks)):
                m |= 1 << i
        return m

    def drawn(self, case, x):
        return self.model.marks(case.board, self.geo(case.board), x)

    def pin(self, d, case, x):
        b = case.board.copy()
        g = self.geo(b)
        y = b.a if d.chance(1, 2) else b.q
        if not self.model.sym:
            return None
        for k, v in self.model.marks(b, g, x).symbol.items():
            if k not in b.a.symbol and k not in b.q.symbol:
                y.symbol[k] = v
        return Case(case.name, b, case.param)

    def near(self, d, case, x):
        g = self.geo(case.board)
        on, off = self.model.prune(case.board, g, case.param)
        free = [i for i in range(g.n) if not (on | off) >> i & 1]
        for _ in range(d.int(1, 2) if free else 0):
            i = d.choice(free)
            x ^= 1 << i
            o = [j for j in g.nb8[i] if j in free]
            if d.chance(1, 2) and o:
                x ^= 1 << d.choice(o)
        return x

    def plan(self, d, rec):
        mo = self.model
        R, C = d.choice(self.sizes)
        g = grid(R, C)
        b = new_board(d, R, C, mo.need)
        rnd = random.Random(d.int(0, 10 ** 6))
        param = {}
        mo.setup(d, b, g, param)
        ok = self.rules(b, g, param, False)
        m = mo.start(rnd, b, g, param)
        if m is None:
            ms = self.ask(Case(mo.name, b.copy(), param), None, "no clues", 1, self.seconds, rec)
            m = ms[0] if ms else None
        if m is None:
            if d.chance(1, 2):
                return None, None
            m = rnd.randrange(g.full + 1)
        for _ in range(rnd.choice([30, 100, 300])):
            i = rnd.randrange(g.n)
            x = 1 << i
            if rnd.random() < .5:
                x |= 1 << rnd.choice(g.nb8[i] or [i])
            if ok(m ^ x):
                m ^= x
        d.calm = d.chance(3, 5)
        mo.clues(d, b, g, m, param)
        return Case(mo.name, b, param), m


class LargeFillomino(LargeRegion):
    """Regions that show their size."""

    def drawn(self, case, x):
        y = LargeRegion.drawn(self, case, x)
        g, _, _ = self.geo(case.board)
        for m in self.parts(case.board, x):
            for i in g.bits(m):
                y.number[(*g.rc(i), "C")] = text(pc(m), 2)
        return y


class LargeMask(LargeShade):
    """The set of numbered cells decides."""

    def rules(self, b, g, param):
        mo = self.model
        x = mo.prep(b, g, param)
        on, off = mo.hints(b, g)
        giv = mo.given(b, g)
        for i in giv:
            on |= 1 << i

        def ok(m):
            if m & on != on or m & off or not mo.static(g, m):
                return False
            v = mo.values(g, m, x)
            return v is not None and all(v[i] == n for i, n in giv.items()) and mo.extra(b, g, m, x)
        return ok

    def legal(self, case):
        return self.rules(case.board, self.geo(case.board), case.param)

    def back(self, case, marks):
        g = self.geo(case.board)
        return g.mask(k[:2] for k, _ in marks[1] if k[2] == "C" and g.inside(*k[:2]))

    def drawn(self, case, x):
        mo, g, y = self.model, self.geo(case.board), Layer()
        v = mo.values(g, x, mo.prep(case.board, g, case.param))
        for i in g.bits(x):
            y.number[(*g.rc(i), "C")] = text(v[i], 2)
        mo.show(g, x, y)
        return y

    def pin(self, d, case, x):
        b = case.board.copy()
        g = self.geo(b)
        on, off = self.model.hints(b, g)
        for i in range(g.n):
            k = (*g.rc(i), "C")
            if not (on | off) >> i & 1 and k not in b.q.number:
                self.model.put_hint(d, b, *g.rc(i), bool(x >> i & 1))
        return Case(case.name, b, case.param)

    def plan(self, d, rec):
        mo = self.model
        R, C = d.choice([s for s in SIZES if s[0] * s[1] < 90])
        g = grid(R, C)
        rnd = random.Random(d.int(0, 10 ** 6))
        b = new_board(d, R, C)
        mo.setup(d, b, g, {})
        x = mo.prep(b, g, {})
        ok = lambda m: mo.static(g, m) and mo.values(g, m, x) is not None  # noqa: E731
        pool = [m for m in [1 << rnd.randrange(g.n) for _ in range(9)] + (x[:9] if isinstance(x, list) else []) if ok(m)]
        if not pool:
            return None, None
        m = self.walk(rnd, g, rnd.choice(pool), ok, rnd.choice([100, 300, 900]))
        v = mo.values(g, m, x)
        d.calm = d.chance(3, 5)
        mo.more(d, b, g, m, x)
        k = d.choice([1, 2, 4])
        for i in range(g.n):
            if m >> i & 1 and d.chance(k, 8):
                num(b, *g.rc(i), noisy(d, v[i], 0, 9, (1, 90)))
            elif d.chance(1, 8):
                mo.put_hint(d, b, *g.rc(i), bool(m >> i & 1) ^ d.chance(1, 200))
        return Case(mo.name, b, {}), m


class LargeHashi(Large):
    """Answers are tuples of 0, 1 or 2 per pair of islands in sight of each other."""

    def load(self, text_):
        return tuple(json.loads(text_))

    def save(self, x):
        return json.dumps(list(x))

    def links(self, case):
        g = grid(case.board.rows, case.board.cols)
        return (g, *self.model.links(case.board, g))

    def legal(self, case):
        b = case.board
        g, isl, lk = self.links(case)
        want = {g.i(*k): v for k, v in texts(b).items()}
        hint = {k: v for k, v in {**b.a.line, **b.q.line}.items() if v}

        def ok(x):
            used, deg, drawn = 0, dict.fromkeys(isl, 0), {}
            par = {i: i for i in isl}

            def find(i):
                while par[i] != i:
                    i = par[i]
                return i
            for (i, j, mid, ss), v in zip(lk, x):
                if v not in (0, 1, 2) or v and used & mid:
                    return False
                if v:
                    used |= mid
                    deg[i] += v
                    deg[j] += v
                    par[find(i)] = find(j)
                    drawn.update(dict.fromkeys(ss, v))
            return len({find(i) for i in isl}) == 1 and all(deg[i] == v for i, v in want.items() if isinstance(v, int)) \
                and all(drawn.get(k) == v for k, v in hint.items())
        return ok

    def back(self, case, marks):
        _, _, lk = self.links(case)
        have = dict(marks[4])
        out = []
        for _, _, _, ss in lk:
            o, r, c = ss[0]
            out.append(have.get((r, c, "r" if o == "H" else "d"), 0))
        return tuple(out)

    def drawn(self, case, x):
        _, _, lk = self.links(case)
        y = Layer()
        for (_, _, _, ss), v in zip(lk, x):
            for s in ss if v in (1, 2) else ():
                y.line[s] = v
        return y

    def pin(self, d, case, x):
        b = case.board.copy()
        y = b.a if d.chance(1, 2) else b.q
        for s, v in self.drawn(case, x).line.items():
            if s not in b.a.line and s not in b.q.line:
                y.line[s] = v
        return Case(case.name, b, case.param)

    def near(self, d, case, x):
        x = list(x)
        for _ in range(d.int(1, 2) if x else 0):
            i = d.int(0, len(x) - 1)
            x[i] = (x[i] + d.int(1, 2)) % 3
        return tuple(x)

    def plan(self, d, rec):
        R, C = d.choice(SIZES)
        g = grid(R, C)
        b = new_board(d, R, C)
        isl, used, val = [d.int(0, g.n - 1)], 0, {}
        for _ in range(d.int(4, 3 * (R + C))):
            i = d.choice(isl)
            path = []
            for j in g.ray(*g.rc(i), *d.choice([(0, 1), (1, 0), (0, -1), (-1, 0)])):
                if j in isl or used >> j & 1:
                    break
                path.append(j)
            if path:
                j = d.choice(path)
                isl.append(j)
                used |= sum(1 << k for k in path[:path.index(j)])
                val[frozenset((i, j))] = d.int(1, 2)
        for i in isl:
            num(b, *g.rc(i), "?")
        case = Case("hashi", b, {})
        _, _, lk = self.links(case)
        over = 0
        for i, j, mid, _ in lk:
            if val.get(frozenset((i, j))):
                over |= mid
        x = []
        for i, j, mid, _ in lk:
            v = val.get(frozenset((i, j)), 0)
            if not v and not mid & over and d.chance(1, 3):
                v = d.int(1, 2)
                over |= mid
            x.append(v)
        d.calm = d.chance(3, 5)
        k = d.choice([1, 2, 4])
        for i in isl:
            if d.chance(k, 4):
                num(b, *g.rc(i), noisy(d, sum(v for v, y in zip(x, lk) if i in y[:2]), 0, 8, (1, 80)))
        return case, tuple(x)


class LargeStar(LargeSpots):
    sizes = [(6, 6), (7, 7), (8, 8), (9, 9), (10, 10), (12, 12), (14, 14), (6, 7)]

    def rules(self, b, g, param, clued):
        mo, k = self.model, int(param["stars"])
        on = off = 0
        for i, v in mo.given(b, g).items() if clued else ():
            on, off = (on | 1 << i, off) if v == 2 else (on, off | 1 << i)
        parts = [*g.row, *g.col, *rooms_of(g, labels(b, g))]
        return lambda m: m & on == on and not m & off and all(pc(m & x) == k for x in parts) and not any(m & g.m8[i] for i in g.bits(m))

    def back(self, case, marks):
        g = self.geo(case.board)
        return g.mask(k[:2] for k, v in marks[2] if v == ((2, "star")) and g.inside(*k[:2]))

    def drawn(self, case, x):
        g, y = self.geo(case.board), Layer()
        for i in g.bits(x):
            y.symbol[(*g.rc(i), "C")] = [2, "star", 1]
        return y

    def pin(self, d, case, x):
        b = case.board.copy()
        g = self.geo(b)
        y = b.a if d.chance(1, 2) else b.q
        for i in range(g.n):
            k = (*g.rc(i), "C")
            if k not in b.a.symbol and k not in b.q.symbol:
                y.symbol[k] = [2 if x >> i & 1 else 0, "star", 1]
        return Case(case.name, b, case.param)

    def near(self, d, case, x):
        g = self.geo(case.board)
        for _ in range(2):
            i = d.choice(list(g.bits(x)) or [0])
            x = (x & ~(1 << i)) | 1 << d.choice(g.nb8[i] or [i])
        return x

    def plan(self, d, rec):
        mo = self.model
        R, C = d.choice(self.sizes)
        k = d.choice([1, 2, 2, 3]) if R >= 12 else d.choice([1, 2]) if R >= 8 else 1
        g = grid(R, C)
        b = new_board(d, R, C)
        rnd = random.Random(d.int(0, 10 ** 6))
        m = self.spread(rnd, g, k)
        draw_rooms(d, b, g, R, lab=star_rooms(d, g, m, k) if m and d.chance(15, 16) else None)
        m = m or rnd.randrange(g.full + 1)
        y = hint_layer(d, b)
        for i in d.sample(range(g.n), d.choice([0, 3, 10, g.n // 2])):
            y.symbol[(*g.rc(i), "C")] = [2 if bool(m >> i & 1) ^ d.chance(1, 300) else 0, "star", 1]
        return Case(mo.name, b, {"stars": str(k)}), m

    def spread(self, rnd, g, k):
        """k stars in every row and column, none touching; None if the search gives up."""
        left, tries = [k] * g.C, [4000]

        def row(r, prev, m):
            if r == g.R:
                return m if not any(left) else None
            tries[0] -= 1
            near = prev | prev << 1 | prev >> 1

            def pick(c, o, n):
                if not n:
                    if max(left) <= g.R - 1 - r:
                        return row(r + 1, o, m | o << r * g.C)
                    return None
                if tries[0] < 0:
                    return None
                opts = [j for j in range(g.C) if j >= c and left[j] and not near >> j & 1]
                opts.sort(key=lambda j: rnd.random() - left[j])
                for j in opts:
                    left[j] -= 1
                    z = pick(j + 2, o | 1 << j, n - 1)
                    if z is not None:
                        return z
                    left[j] += 1
                return None
            return pick(0, 0, k)
        return row(0, 0, 0)


DRAWINGS = dict(onsen=LargeOnsen, pipelink=LargePipelink, numlin=LargeNumlin, anglers=LargeAnglers)


def large(model):
    """The large-board search for a model, or None."""
    if isinstance(model, Fillomino):
        return LargeFillomino(model)
    if isinstance(model, MaskNum):
        return LargeMask(model)
    if isinstance(model, Hashi):
        return LargeHashi(model)
    if isinstance(model, StarBattle):
        return LargeStar(model)
    if isinstance(model, Shade):
        return LargeShade(model)
    if isinstance(model, Loop):
        return DRAWINGS.get(model.name, LargeLoop)(model)
    if isinstance(model, Region) and (model.cat == "region" or isinstance(model, Fillmat)) and model.edgehints:
        return LargeRegion(model)
    if isinstance(model, Num) and type(model).gen in (Num.gen, Place.gen):
        return LargeNum(model)
    if isinstance(model, Spots):
        return LargeSpots(model)
    return None


def replay(model, rc):
    case = Case.from_json(rc)
    x = rc["large"]
    f = large(model)
    f.ask(case, None if x is None else f.load(x), rc["what"], rc["limit"], 60)
