"""C01: what PenpaPuzzle.decode sees of a link is what the link contains."""
from .. import env
from ..boards import random_board
from ..core import Violation
from ..penpa import Board

PROPERTY = "C01"
RULE = ("Generated boards of 1..20 rows/columns (now and then up to 120 or 45x45), margins 0..5 on each side, all three lattice headers, random marks of every kind "
        "(shading, numbers of all subtypes, corner/side numbers, symbols with scalar and list styles, drawn/x/diagonal borders, whole/half/x "
        "lines, hashi single/double bridges) in both layers, encoded by an independent codec; plus every board shipped as a solver example. "
        "Non-trivial: at least three marks of at least two kinds are present and every one of them was compared.")
DIRS = {"C": "center", "T": "top", "L": "left", "TL": "top_left", "U": "diag_up", "D": "diag_down"}


def conv(s):
    if isinstance(s, int):
        return s
    return int(s) if s != "" and all("0" <= ch <= "9" for ch in s) else s


def expect(b, name):
    """Marks the solver must see: {kind: {(r, c, direction, pos): value}}; collisions go to the problem layer."""
    out = dict(surface={}, text={}, symbol={}, edge={}, line={})
    for y in (b.a, b.q):
        for (r, c), v in y.surface.items():
            col = {1: "GRAY", 3: "GRAY", 8: "GRAY", 4: "BLACK", 2: "GREEN"}.get(v)
            if col:
                out["surface"][(r, c, "center", "normal")] = col
        for (r, c, d), (txt, _, sub) in y.number.items():
            if sub == "4":
                for i, ch in enumerate(txt):
                    out["text"][(r, c, DIRS[d], f"tapa_{i}")] = conv(ch)
            elif sub != "7":
                out["text"][(r, c, DIRS[d], "normal")] = conv(txt)
        for (r, c, k), (txt, _) in y.sudoku.items():
            out["text"][(r, c, "center", f"sudoku_{k}")] = conv(txt)
        for (r, c, d), (style, shape, _) in y.symbol.items():
            if isinstance(style, list):
                n = 0
                for bit in style:
                    n = 2 * n + bit
                out["symbol"][(r, c, DIRS[d], "multiple")] = f"{shape}__{n}"
            else:
                pos = "nondango_mark" if name == "nondango" and (shape, style) == ("circle_M", 4) else "normal"
                out["symbol"][(r, c, DIRS[d], pos)] = f"{shape}__{style}"
        for (d, r, c), v in y.edge.items():
            out["edge"][(r, c, DIRS[d], "normal")] = v
        for key, v in y.line.items():
            if key[0] == "h":
                hs = [key[1:]]
            elif key[0] == "H":
                hs = [(key[1], key[2], "r"), (key[1], key[2] + 1, "l")]
            else:
                hs = [(key[1], key[2], "d"), (key[1] + 1, key[2], "u")]
            for r, c, d in hs:
                if name == "hashi" and v is not False:
                    out["line"][(r, c, "center", f"{d}_{2 if v == 2 else 1}")] = True
                else:
                    out["line"][(r, c, "center", d)] = bool(v)
    return out


def seen(url, name):
    from noqx.puzzle.penpa import PenpaPuzzle
    p = PenpaPuzzle(name, url, {})
    p.decode()
    out = {}
    for kind in ("surface", "text", "symbol", "edge", "line"):
        out[kind] = {(pt.r, pt.c, pt.d.value, pt.pos): (v.name if kind == "surface" else v) for pt, v in getattr(p, kind).items()}
    return (p.row, p.col, tuple(p.margin)), out


def prune(b, hashi):
    """Drop combinations whose meaning penpa itself leaves open (two marks on one spot inside a layer, collisions of
    multi-character cells or of two line pieces of one segment)."""
    for k in list(b.a.number):
        if k in b.q.number and "4" in (b.a.number[k][2], b.q.number[k][2]) or k in b.q.number and b.q.number[k][2] == "7":
            del b.a.number[k]
    for y, other in ((b.q, None), (b.a, b.q)):
        used = {}
        if other:
            for k in other.line:
                for h in parts(k):
                    used[h] = k
        for k in list(y.line):
            hs = parts(k)
            if any(used.get(h, k) != k or (h in used and hashi) for h in hs):
                del y.line[k]
                continue
            for h in hs:
                used[h] = k


def parts(key):
    if key[0] == "h":
        return [key[1:]]
    if key[0] == "H":
        return [(key[1], key[2], "r"), (key[1], key[2] + 1, "l")]
    return [(key[1], key[2], "d"), (key[1] + 1, key[2], "u")]


def compare(b, name, abbreviate=True):
    url = b.encode(hashi=name == "hashi", abbreviate=abbreviate)
    try:
        geo, got = seen(url, name)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"a well-formed link cannot be read: {type(e).__name__}: {e}") from None
    if geo != (b.rows, b.cols, tuple(b.margin)):
        raise Violation(f"size/margins read as {geo}, the link says {(b.rows, b.cols, b.margin)}")
    want = expect(b, name)
    for kind in want:
        if got[kind] != want[kind]:
            extra = {str(k): v for k, v in got[kind].items() if want[kind].get(k, "∅") != v}
            miss = {str(k): v for k, v in want[kind].items() if got[kind].get(k, "∅") != v}
            raise Violation(f"{kind} marks misread (puzzle name {name!r})", seen_but_not_drawn=extra, drawn_but_not_seen=miss)
    return want


def units(tier):
    n, m = (3000, 10) if tier == "quick" else (12000, 16)
    us = [dict(id=f"random-{i}", examples=n, name=nm) for i, nm in enumerate(["slitherlink", "hashi", "nondango", "akari", "gokigen", "sudoku"] * (m // 5))]
    us.append(dict(id="shipped", plain=True))
    return us


def body(unit):
    name = unit["name"]
    big = unit["id"].endswith(("1", "3"))

    def run(d, rec):
        b = random_board(d, hashi=name == "hashi", maxdim=20 if big else 8, dense=3 if big else 5)
        prune(b, name == "hashi")
        ab = d.chance(4, 5)
        rec.set(dict(name=name, board=b.to_json(), abbreviate=ab))
        want = compare(b, name, ab)
        kinds = sum(1 for k in want if want[k])
        rec.done(kinds >= 2 and sum(map(len, want.values())) >= 3, label=f"kinds{kinds}")
    return run


def examples():
    from noqx.manager import modules
    for name in sorted(modules):
        for i, ex in enumerate(modules[name].examples):
            if ex.get("data"):
                yield name, i, ex["data"]


def run_plain(unit, rec, tier, seed, deadline):
    """Boards shipped with the solvers: read by both codecs."""
    for name, i, url in examples():
        b = Board.decode(url, hashi=name == "hashi")
        rec.set(dict(name=name, shipped=i))
        shipped(name, i, url, b)
        rec.done(True, label="shipped")


def shipped(name, i, url, b):
    if any(u[0] != "surface" for u in b.unknown):
        return
    geo, got = seen(url, name)
    want = expect(b, name)
    if geo != (b.rows, b.cols, tuple(b.margin)) or got != want:
        kind = next((k for k in want if got[k] != want[k]), "size")
        raise Violation(f"shipped example {i} of {name} is misread ({kind})")


def replay(rp):
    c = rp["case"]
    env.load()
    if "shipped" in c:
        for name, i, url in examples():
            if (name, i) == (c["name"], c["shipped"]):
                shipped(name, i, url, Board.decode(url, hashi=name == "hashi"))
        return
    compare(Board.from_json(c["board"]), c["name"], c["abbreviate"])
