"""C09: marks the user pre-draws act as a filter on the answers."""
from .. import env
from ..core import Case, Violation, _style, answers, canon, darkness, flat_lines, observed, show
from ..penpa import Board
from ..shipped import examples
from .exact import registry

PROPERTY = "C09"
RULE = ("A generated board (small, every puzzle type) or a shipped example (large) is solved; 1 to all of the marks of one of its answers "
        "(shading, numbers, symbols, borders, lines) and of the marks it does not have (cleared cells, x on borders and lines) are put on "
        "the board, in either layer; sometimes a mark of another answer as well. The answers must be exactly the old ones that agree. "
        "Non-trivial: at least one mark added and at least one old answer agreeing or dropped by them.")
LIMIT = 121
# not drawable or not an input of the puzzle: pipelink lines are givens for whole cells, numbers in kakuru and symmarea
# (clue meaning), nondango answers sit on the given circles; a cleared colour is refused by the puzzles in NO_CLEAR
NO_POS = {("pipelink", "line"), ("kakuru", "number"), ("symmarea", "number"), ("nondango", "symbol")}
NO_NEG = {("pipelink", "line")}
NO_CLEAR = {"nanro", "yajilin", "doppelblock", "koburin", "yajilin_regions", "magnets", "putteria"}
KINDS = ("surface", "number", "symbol", "edge", "line")


def parts(case, cn, i):
    """Canonical marks of one kind as a dict or set."""
    return cn[i] if KINDS[i] == "edge" or (KINDS[i] == "line" and case.name != "hashi") else dict(cn[i])


def given_keys(case, kind):
    q, a = case.board.q, case.board.a
    if kind == "line":
        out = set()
        for lay in (q, a):
            out |= set(flat_lines(lay))
            for k, v in lay.line.items():
                if v is False:
                    out |= {x for x in both(k)}
        return out
    return set(getattr(q, kind)) | set(getattr(a, kind))


def both(k):
    if k[0] == "H":
        return [(k[1], k[2], "r"), (k[1], k[2] + 1, "l")]
    if k[0] == "V":
        return [(k[1], k[2], "d"), (k[1] + 1, k[2], "u")]
    return [k[1:]]


def whole(h):
    r, c, d = h
    return ("H", r, c - (d == "l")) if d in "lr" else ("V", r - (d == "u"), c)


def candidates(case, picked, all_canon):
    """Marks (kind, key, value) an answer has / does not have."""
    cn, got = picked
    pos, neg = [], []
    for i, kind in enumerate(KINDS):
        given = given_keys(case, kind)
        if (case.name, kind) not in NO_POS:
            marks = flat_lines(got.a) if kind == "line" else {k: v for k, v in getattr(got.a, kind).items() if v is not False}
            pos += [(kind, k, v) for k, v in sorted(marks.items(), key=repr) if k not in given
                    and not (kind == "surface" and darkness(v) is None) and not (kind == "number" and v[2] == "7")]
        if kind in ("surface", "edge", "line") and (case.name, kind) not in NO_NEG and not (kind == "surface" and case.name in NO_CLEAR):
            mine = set(parts(case, cn, i))
            others = set()
            for x in all_canon:
                others |= set(parts(case, x, i))
            # only where some answer has a mark: a place this puzzle type marks at all
            if kind == "line":
                bad = {whole(k) for k in mine | given}
                neg += [("line", w, False) for w in sorted({whole(k) for k in others} - bad)]
            elif kind == "edge":
                neg += [("edge", k, False) for k in sorted(others - mine - given) if k[0] in "TL"]
            else:
                neg += [("surface", k, 2) for k in sorted(others - mine - given)]
    return pos, neg


def put(lay, mark, full):
    kind, k, v = mark
    if kind == "line":
        lay.line[k if v is False else whole(k) if full else ("h",) + k] = v
    else:
        getattr(lay, kind)[k] = v


def agrees(case, cn, mark, full=False):
    kind, k, v = mark
    i = KINDS.index(kind)
    p = parts(case, cn, i)
    if kind == "surface":
        return p.get(k) == darkness(v)
    if kind == "number":
        return p.get(k) == str(v[0])
    if kind == "symbol":
        w = (_style(v[0]), v[1])
        return p.get(k + ("a",)) == w or p.get(k + ("q",)) == w
    if kind == "edge":
        return (k in p) == v
    if v is False:
        return not any(h in p for h in both(k))
    ks = both(whole(k)) if full else [k]
    return all((p.get(h) == v) if case.name == "hashi" else h in p for h in ks)


def plain(cn):
    """Canonical marks without the layer a symbol sits in."""
    return cn[0], cn[1], frozenset((k[:3], v) for k, v in cn[2]), cn[3], cn[4]


def choose(d, case, got):
    """Pick marks of one answer, maybe one of another, and where to put them: [(mark, layer, full)]."""
    all_canon = [x[0] for x in got]
    main = d.big(got)
    pos, neg = candidates(case, main, all_canon)
    if not pos and not neg:
        return []
    style = d.int(0, 5)
    n = [1, 1, 2, 3, max(1, (len(pos) + len(neg)) // 2), len(pos)][style]
    pool = pos if style == 5 else pos + neg if d.chance(1, 2) else (d.choice([pos, neg]) or pos or neg)
    chosen = d.sample(pool, n)
    if len(got) > 1 and d.chance(1, 6):        # a mark of another answer: may contradict
        p2, n2 = candidates(case, d.big(got), all_canon)
        if p2 or n2:
            m = d.choice(p2 or n2)
            if all((x[0], x[1]) != (m[0], m[1]) and not (x[0] == "line" and m[0] == "line") for x in chosen):
                chosen.append(m)
    elif d.chance(1, 6):                       # the opposite of one of its own marks: contradicts
        opp = []
        for kind, k, v in pos:
            if kind == "surface" and case.name not in NO_CLEAR:
                opp.append((kind, k, 2))
            elif kind == "edge" and k[0] in "TL":
                opp.append((kind, k, False))
            elif kind == "line" and (case.name, kind) not in NO_NEG and whole(k)[1] >= 0 and whole(k)[2] >= 0:
                opp.append((kind, whole(k), False))
        if opp:
            m = d.big(opp)
            chosen = [x for x in chosen if x[0] != m[0]] + [m]
    only = d.choice(["q", "a", None])
    out = []
    mine = set(parts(case, main[0], 4))
    for m in chosen:
        full = m[0] == "line" and m[2] is not False and all(h in mine for h in both(whole(m[1]))) and d.chance(1, 2)
        out.append((m, only or d.choice("qa"), full))
    return out


def apply(case, marks):
    b = Board.from_json(case.board.to_json())
    for m, lay, full in marks:
        put(getattr(b, lay), m, full)
    return Case(case.name, b, case.param)


def judge(case, got, marks, complete):
    """Compare the answers of the marked board with the old answers that agree. Returns (agreeing, old)."""
    c2 = apply(case, marks)
    want = {plain(cn) for cn, _ in got if all(agrees(case, cn, m, full) for m, _, full in marks)}
    urls = answers(c2, LIMIT)
    new = [observed(c2, u)[0] for u in urls]
    have = {plain(x) for x in new}
    what = [(m[0], m[1], m[2], lay) for m, lay, _ in marks][:6]
    if complete and have - want:
        raise Violation(f"{case.name}: with {what} drawn, an answer is returned that is not one of the {len(want)} (of {len(got)}) answers agreeing with the marks",
                        answer=show(sorted(have - want, key=repr)[0]))
    for x in new:
        for m, _, full in marks:
            if not agrees(case, x, m, full):
                raise Violation(f"{case.name}: an answer contradicts the drawn mark {m}", answer=show(x))
    if len(urls) < LIMIT and want - have:
        raise Violation(f"{case.name}: with {what} drawn, {len(want - have)} of the {len(want)} answers agreeing with the marks are no longer found",
                        missing=show(sorted(want - have, key=repr)[0]))
    return len(want), len(got)


def solve(case, limit=LIMIT):
    return [observed(case, u) for u in answers(case, limit)]


def units(tier):
    n, m = (26, 3) if tier == "quick" else (400, 40)
    us = []
    for name in sorted(registry()):
        us.append(dict(id=name, group=name, name=name, examples=n, cost=registry()[name].weight))
    for name, i, _, _, _ in examples():
        us.append(dict(id=f"shipped-{name}-{i}", group="shipped examples", shipped=(name, i), examples=m, cost=3))
    return us


_SHIP = {}


def shipped_case(name, i):
    for n, j, link, param, _ in examples():
        if (n, j) == (name, i):
            return Case(name, Board.decode(link, name == "hashi"), param)
    raise KeyError((name, i))


def one(d, rec, case, got, label):
    marks = choose(d, case, got)
    rec.set(dict(case=case.to_json(), marks=marks))
    if not marks:
        rec.done(False, label="no marks")
        return
    k, n = judge(case, got, marks, len(got) < LIMIT)
    rec.done(True, label=label or ("all agree" if k == n else "some dropped" if k else "none agree"))


def body(unit):
    if "shipped" in unit:
        case = shipped_case(*unit["shipped"])

        def run2(d, rec):
            key = unit["id"]
            if key not in _SHIP:
                _SHIP[key] = solve(case, 3)
            one(d, rec, case, _SHIP[key], "shipped")
        return run2
    model = registry()[unit["name"]]

    def run(d, rec):
        for _ in range(3):
            case = model.gen(d)
            rec.set(dict(case=case.to_json(), marks=[]))
            got = solve(case)
            if len(got) > 1:
                break
        if not got:
            rec.done(False, label="no answer")
            return
        one(d, rec, case, got, None)
    return run


def replay(rp):
    env.load()
    c = rp["case"]
    case = Case.from_json(c["case"])
    marks = [((m[0], tuple(m[1]), m[2]), lay, full) for m, lay, full in c["marks"]]
    got = solve(case)
    judge(case, got, marks, len(got) < LIMIT)
