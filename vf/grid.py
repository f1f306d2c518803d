"""Grid geometry on bit masks, and cached enumerations of combinatorial objects."""
from functools import lru_cache
from itertools import permutations, product


class G:
    """R x C grid; cell (r, c) is bit r*C+c."""

    def __init__(self, R, C):
        self.R, self.C, self.n = R, C, R * C
        self.cells = [(r, c) for r in range(R) for c in range(C)]
        self.full = (1 << self.n) - 1
        self.notleft = sum(1 << (r * C + c) for r, c in self.cells if c > 0)
        self.notright = sum(1 << (r * C + c) for r, c in self.cells if c < C - 1)
        self.row = [sum(1 << (r * C + c) for c in range(C)) for r in range(R)]
        self.col = [sum(1 << (r * C + c) for r in range(R)) for c in range(C)]
        self.nb4 = [[self.i(r + a, c + b) for a, b in ((-1, 0), (0, -1), (0, 1), (1, 0)) if self.inside(r + a, c + b)]
                    for r, c in self.cells]
        self.nbx = [[self.i(r + a, c + b) for a in (-1, 1) for b in (-1, 1) if self.inside(r + a, c + b)]
                    for r, c in self.cells]
        self.nb8 = [a + b for a, b in zip(self.nb4, self.nbx)]
        self.m4 = [sum(1 << j for j in x) for x in self.nb4]
        self.mx = [sum(1 << j for j in x) for x in self.nbx]
        self.m8 = [a | b for a, b in zip(self.m4, self.mx)]
        self.pairs4 = [(i, j) for i in range(self.n) for j in self.nb4[i] if i < j]
        self.border = 0
        for r, c in self.cells:
            if r in (0, R - 1) or c in (0, C - 1):
                self.border |= 1 << self.i(r, c)
        self.blocks2 = [sum(1 << self.i(r + a, c + b) for a in (0, 1) for b in (0, 1))
                        for r in range(R - 1) for c in range(C - 1)]

    def i(self, r, c):
        return r * self.C + c

    def rc(self, i):
        return divmod(i, self.C)

    def inside(self, r, c):
        return 0 <= r < self.R and 0 <= c < self.C

    def bit(self, r, c):
        return 1 << (r * self.C + c) if 0 <= r < self.R and 0 <= c < self.C else 0

    def mask(self, cells):
        m = 0
        for r, c in cells:
            m |= 1 << (r * self.C + c)
        return m

    def grow4(self, s):
        return s | (s << self.C) | (s >> self.C) | ((s & self.notright) << 1) | ((s & self.notleft) >> 1)

    def grow8(self, s):
        h = s | ((s & self.notright) << 1) | ((s & self.notleft) >> 1)
        return h | (h << self.C) | (h >> self.C)

    def flood(self, seed, m, eight=False):
        s = seed & m
        while True:
            n = (self.grow8(s) if eight else self.grow4(s)) & m
            if n == s:
                return s
            s = n

    def connected(self, m, eight=False):
        return m == 0 or self.flood(m & -m, m, eight) == m

    def comps(self, m, eight=False):
        out = []
        while m:
            k = self.flood(m & -m, m, eight)
            out.append(k)
            m &= ~k
        return out

    def no_adj(self, m):
        return not (m & (m << self.C)) and not (m & self.notright & (m >> 1))

    def no2x2(self, m):
        return all(m & b != b for b in self.blocks2)

    def is_rect(self, m):
        rs = [r for r in range(self.R) if m & self.row[r]]
        cs = [c for c in range(self.C) if m & self.col[c]]
        return bin(m).count("1") == (rs[-1] - rs[0] + 1) * (cs[-1] - cs[0] + 1)

    def rect_dims(self, m):
        rs = [r for r in range(self.R) if m & self.row[r]]
        cs = [c for c in range(self.C) if m & self.col[c]]
        return rs[-1] - rs[0] + 1, cs[-1] - cs[0] + 1

    def bits(self, m):
        while m:
            b = m & -m
            yield b.bit_length() - 1
            m ^= b

    def coords(self, m):
        return [divmod(i, self.C) for i in self.bits(m)]

    def ray(self, r, c, dr, dc):
        """Cells from (r, c) (excluded) in a direction, nearest first."""
        r, c = r + dr, c + dc
        out = []
        while self.inside(r, c):
            out.append(self.i(r, c))
            r, c = r + dr, c + dc
        return out

    def see(self, i, m):
        """Cells of mask m seen orthogonally from cell i (not counting i)."""
        r, c = self.rc(i)
        k = 0
        for d in ((-1, 0), (1, 0), (0, -1), (0, 1)):
            for j in self.ray(r, c, *d):
                if not m >> j & 1:
                    break
                k += 1
        return k


pc = int.bit_count


@lru_cache(None)
def grid(R, C):
    return G(R, C)


# --------------------------------------------------------------------------- shapes
def canon(cells):
    cells = sorted(cells)
    r0, c0 = min(r for r, c in cells), min(c for r, c in cells)
    return tuple(sorted((r - r0, c - c0) for r, c in cells))


def orientations(cells):
    """All distinct rotations and reflections, each canonical."""
    out = set()
    for flip in (False, True):
        cur = [(r, -c) if flip else (r, c) for r, c in cells]
        for _ in range(4):
            cur = [(c, -r) for r, c in cur]
            out.add(canon(cur))
    return out


def free(cells):
    """Canonical form up to rotation and reflection."""
    return min(orientations(cells))


POLY = {
    "I1": ["X"], "I2": ["XX"], "I3": ["XXX"], "L3": ["XX", "X."],
    "T4": ["XXX", ".X."], "O4": ["XX", "XX"], "I4": ["XXXX"], "L4": ["XXX", "X.."], "S4": [".XX", "XX."],
    "F5": [".XX", "XX.", ".X."], "I5": ["XXXXX"], "L5": ["XXXX", "X..."], "N5": ["XXX.", "..XX"],
    "P5": ["XX", "XX", "X."], "T5": ["XXX", ".X.", ".X."], "U5": ["X.X", "XXX"], "V5": ["X..", "X..", "XXX"],
    "W5": ["X..", "XX.", ".XX"], "X5": [".X.", "XXX", ".X."], "Y5": ["XXXX", ".X.."], "Z5": ["XX.", ".X.", ".XX"],
}
POLY_CELLS = {k: [(r, c) for r, row in enumerate(v) for c, x in enumerate(row) if x == "X"] for k, v in POLY.items()}
FREE_NAME = {free(v): k for k, v in POLY_CELLS.items()}


def omino_name(cells):
    """'T4', 'I3', ... or None."""
    return FREE_NAME.get(free(cells)) if len(cells) <= 5 else None


# --------------------------------------------------------------------------- partitions
def edges_of(g, label):
    """Interior border keys of a labelling (list indexed by cell)."""
    out = []
    for r, c in g.cells:
        if r and label[g.i(r, c)] != label[g.i(r - 1, c)]:
            out.append(("T", r, c))
        if c and label[g.i(r, c)] != label[g.i(r, c - 1)]:
            out.append(("L", r, c))
    return out


def outer_edges(R, C):
    return ([("T", 0, c) for c in range(C)] + [("T", R, c) for c in range(C)] +
            [("L", r, 0) for r in range(R)] + [("L", r, C) for r in range(R)])


def labels_from_masks(g, masks):
    lab = [-1] * g.n
    for k, m in enumerate(masks):
        for i in g.bits(m):
            lab[i] = k
    return lab


@lru_cache(None)
def connected_sets(R, C, cell, allowed_above):
    """Connected sets whose lowest cell is `cell`, using cells >= cell only (mask list)."""
    g = grid(R, C)
    allowed = g.full & ~((1 << cell) - 1)
    seen = {1 << cell}
    stack = [1 << cell]
    while stack:
        s = stack.pop()
        if pc(s) >= allowed_above:
            continue
        f = g.grow4(s) & allowed & ~s
        while f:
            b = f & -f
            f ^= b
            t = s | b
            if t not in seen:
                seen.add(t)
                stack.append(t)
    return tuple(sorted(seen, key=pc))


def partitions(R, C, ok=None, maxsize=None, free_mask=None):
    """All partitions of the cells of free_mask into connected sets accepted by ok(mask), as tuples of masks."""
    g = grid(R, C)
    maxsize = maxsize or g.n
    fm = g.full if free_mask is None else free_mask
    cands = {}

    def sets(i):
        if i not in cands:
            cands[i] = [s for s in connected_sets(R, C, i, maxsize) if not s & ~fm and (ok is None or ok(s))]
        return cands[i]

    def rec(rest, acc):
        if not rest:
            yield tuple(acc)
            return
        low = (rest & -rest).bit_length() - 1
        for s in sets(low):
            if s & rest == s:
                acc.append(s)
                yield from rec(rest & ~s, acc)
                acc.pop()

    yield from rec(fm, [])


@lru_cache(None)
def all_partitions(R, C):
    return tuple(partitions(R, C))


@lru_cache(None)
def rect_masks(R, C):
    g = grid(R, C)
    out = [[] for _ in range(g.n)]
    for r, c in g.cells:
        for r2 in range(r, R):
            for c2 in range(c, C):
                out[g.i(r, c)].append(g.mask((a, b) for a in range(r, r2 + 1) for b in range(c, c2 + 1)))
    return out


@lru_cache(None)
def rect_partitions(R, C):
    g = grid(R, C)
    rm = rect_masks(R, C)
    out = []

    def rec(rest, acc):
        if not rest:
            out.append(tuple(acc))
            return
        low = (rest & -rest).bit_length() - 1
        for s in rm[low]:
            if s & rest == s:
                acc.append(s)
                rec(rest & ~s, acc)
                acc.pop()

    rec(g.full, [])
    return tuple(out)


def random_partition(d, g, max_rooms=None, maxsize=None, within=None):
    """A random partition into connected rooms, as a label list (grown from random seeds)."""
    n = g.n
    k = d.int(1, max_rooms or max(1, (n + 1) // 2))
    lab = [-1] * n
    size = {}
    order = d.sample(range(n), min(k, n))
    for j, i in enumerate(order):
        lab[i] = j
        size[j] = 1
    lim = maxsize or n
    nxt = len(order)
    while True:
        opts = [(i, j) for i in range(n) if lab[i] < 0 for j in g.nb4[i] if lab[j] >= 0 and size[lab[j]] < lim]
        if not opts:
            rest = [i for i in range(n) if lab[i] < 0]
            if not rest:
                return lab
            lab[rest[0]] = nxt
            size[nxt] = 1
            nxt += 1
            continue
        i, j = opts[d.int(0, len(opts) - 1)]
        lab[i] = lab[j]
        size[lab[j]] += 1


def rooms_of(g, label):
    ms = {}
    for i, k in enumerate(label):
        ms[k] = ms.get(k, 0) | 1 << i
    return [ms[k] for k in sorted(ms, key=lambda k: ms[k] & -ms[k])]


def rooms_from_edges(g, edges):
    """Connected pieces left by drawn borders: edges maps ('T'|'L', r, c) -> True/False. Label list."""
    lab = [-1] * g.n
    k = 0
    for s in range(g.n):
        if lab[s] >= 0:
            continue
        lab[s] = k
        stack = [s]
        while stack:
            i = stack.pop()
            r, c = g.rc(i)
            for key, (a, b) in ((("T", r, c), (r - 1, c)), (("L", r, c), (r, c - 1)),
                                (("T", r + 1, c), (r + 1, c)), (("L", r, c + 1), (r, c + 1))):
                if g.inside(a, b) and edges.get(key) is not True and lab[g.i(a, b)] < 0:
                    lab[g.i(a, b)] = k
                    stack.append(g.i(a, b))
        k += 1
    return lab


# --------------------------------------------------------------------------- loops
# segment numbering: H(r,c): r*(C-1)+c for (r,c)-(r,c+1);  V(r,c): R*(C-1)+r*C+c for (r,c)-(r+1,c)
class Segs:
    def __init__(self, R, C):
        self.R, self.C = R, C
        self.g = grid(R, C)
        self.keys = [("H", r, c) for r in range(R) for c in range(C - 1)] + [("V", r, c) for r in range(R - 1) for c in range(C)]
        self.id = {k: i for i, k in enumerate(self.keys)}
        self.ends = [(self.g.i(r, c), self.g.i(r, c + 1)) if o == "H" else (self.g.i(r, c), self.g.i(r + 1, c))
                     for o, r, c in self.keys]
        self.at = [[] for _ in range(R * C)]
        for s, (a, b) in enumerate(self.ends):
            self.at[a].append(s)
            self.at[b].append(s)

    def halves(self, m):
        out = []
        for s in self.g.bits(m):
            o, r, c = self.keys[s]
            if o == "H":
                out += [(r, c, "r"), (r, c + 1, "l")]
            else:
                out += [(r, c, "d"), (r + 1, c, "u")]
        return out

    def dirs(self, m):
        """Per cell string subset of 'udlr' (sorted as given by order u,r,d,l bits 1,2,4,8)."""
        out = [0] * self.g.n
        for s in self.g.bits(m):
            a, b = self.ends[s]
            if self.keys[s][0] == "H":
                out[a] |= 2
                out[b] |= 8
            else:
                out[a] |= 4
                out[b] |= 1
        return out


U, RT, DN, LF = 1, 2, 4, 8
STRAIGHT = (U | DN, LF | RT)
TURN = (U | RT, RT | DN, DN | LF, LF | U)


@lru_cache(None)
def segs(R, C):
    return Segs(R, C)


@lru_cache(None)
def all_loops(R, C):
    """All simple cycles of the cell-centre grid as (segment mask, cell mask), sorted."""
    sg = segs(R, C)
    out = set()
    n = R * C
    for start in range(n):
        # cycles whose smallest cell is start; go first through the smaller-index neighbour of the two to avoid doubles
        def rec(cur, visited, sm):
            for s in sg.at[cur]:
                a, b = sg.ends[s]
                nxt = b if a == cur else a
                if sm >> s & 1:
                    continue
                if nxt == start:
                    if pc(sm) >= 3:
                        out.add((sm | 1 << s, visited))
                elif nxt > start and not visited >> nxt & 1:
                    rec(nxt, visited | 1 << nxt, sm | 1 << s)
        rec(start, 1 << start, 0)
    return tuple(sorted(out))


def degree_drawings(R, C, allowed, extra=None):
    """All segment masks in which every cell i has a direction code in allowed[i] (set of 0..15)."""
    g = grid(R, C)
    sg = segs(R, C)
    code = [0] * g.n

    def rec(i, m):
        if i == g.n:
            yield m
            return
        r, c = g.rc(i)
        up = U if r and code[i - C] & DN else 0
        lf = LF if c and code[i - 1] & RT else 0
        for right in ((0, RT) if c < C - 1 else (0,)):
            for down in ((0, DN) if r < R - 1 else (0,)):
                k = up | lf | right | down
                if k in allowed[i]:
                    code[i] = k
                    mm = m
                    if right:
                        mm |= 1 << sg.id[("H", r, c)]
                    if down:
                        mm |= 1 << sg.id[("V", r, c)]
                    yield from rec(i + 1, mm)
        code[i] = 0

    yield from rec(0, 0)


def seg_components(sg, m):
    """Connected components of a drawing, as cell masks."""
    par = {}

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    for s in sg.g.bits(m):
        a, b = sg.ends[s]
        par.setdefault(a, a)
        par.setdefault(b, b)
        par[find(a)] = find(b)
    comps = {}
    for x in par:
        comps[find(x)] = comps.get(find(x), 0) | 1 << x
    return list(comps.values())


@lru_cache(None)
def latin_squares(n):
    rows = list(permutations(range(1, n + 1)))
    out = []

    def rec(acc):
        if len(acc) == n:
            out.append(tuple(acc))
            return
        for p in rows:
            if all(p[c] != q[c] for q in acc for c in range(n)):
                acc.append(p)
                rec(acc)
                acc.pop()

    rec([])
    return tuple(out)
