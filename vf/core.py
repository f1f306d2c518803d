"""Cases, models and the comparison of returned answers with a reference set."""
import hashlib
import json

from . import env
from .penpa import Board, Layer

CAP = 48


class Violation(Exception):
    """The code under test broke the property on a concrete input."""

    def __init__(self, msg, **info):
        super().__init__(msg)
        self.msg, self.info = msg, info


class Case:
    """One request: puzzle name, board, options."""

    def __init__(self, name, board, param=None, note=None):
        self.name, self.board, self.param, self.note = name, board, dict(param or {}), note

    def url(self):
        return self.board.encode(hashi=self.name == "hashi")

    def to_json(self):
        return dict(name=self.name, board=self.board.to_json(), param=self.param)

    @classmethod
    def from_json(cls, d):
        return cls(d["name"], Board.from_json(d["board"]), d["param"])

    def key(self):
        return hashlib.sha1(json.dumps(self.to_json(), sort_keys=True).encode()).hexdigest()[:16]


class Model:
    """Reference model of one puzzle type."""

    name = ""
    cat = ""
    weight = 1.0

    def gen(self, d):
        """A random Case."""
        raise NotImplementedError

    def solutions(self, case):
        """Every legal answer, as an iterable of Layer objects (marks an answer shows)."""
        raise NotImplementedError

    def check(self, case, marks):
        """Optional size-agnostic verifier of one answer (canonical marks); used on large boards."""
        raise NotImplementedError


def darkness(v):
    return "B" if v == 4 else "G" if v in (1, 3, 8) else None


def halves(key, val):
    """Full segments to the two half lines they consist of."""
    if key[0] == "H":
        _, r, c = key
        return [((r, c, "r"), val), ((r, c + 1, "l"), val)]
    if key[0] == "V":
        _, r, c = key
        return [((r, c, "d"), val), ((r + 1, c, "u"), val)]
    return [(key[1:], val)]


def flat_lines(layer):
    """Half lines drawn in a layer: {(r, c, dir): 1/2/True}; x marks dropped."""
    out = {}
    for k, v in layer.line.items():
        if v is not False:
            for a, b in halves(k, v):
                out[a] = b
    return out


def canon(q, a, hashi=False):
    """What the user sees: problem marks over answer marks, normalised and hashable."""
    surf = {}
    for lay in (a, q):
        for k, v in lay.surface.items():
            surf[k] = v
    surf = {k: darkness(v) for k, v in surf.items()}
    num = {k: str(v[0]) for k, v in a.number.items() if v[2] != "7"}
    num.update({k: str(v[0]) for k, v in q.number.items() if v[2] != "7"})
    sym = {k: (_style(v[0]), v[1]) for k, v in a.symbol.items()}
    qs = {k: (_style(v[0]), v[1]) for k, v in q.symbol.items()}
    sym = {k + ("a",): v for k, v in sym.items() if qs.get(k) != v}
    sym.update({k + ("q",): v for k, v in qs.items()})
    edge = {k for lay in (a, q) for k, v in lay.edge.items() if v}
    line = flat_lines(a)
    line.update(flat_lines(q))
    return (frozenset((k, v) for k, v in surf.items() if v), frozenset(num.items()), frozenset(sym.items()),
            frozenset(edge), frozenset(line.items() if hashi else line))


def _style(s):
    return tuple(s) if isinstance(s, list) else int(s)


def merge_answer(board, ans, name=None):
    """The solution layer the answer should produce: existing content plus answer marks not already in the problem.

    Nondango answers are symbols put on the given (problem) circles.
    """
    out = board.a.copy()
    for k, v in ans.surface.items():
        if k not in board.q.surface:
            out.surface[k] = v
    for k, v in ans.number.items():
        if k not in board.q.number:
            out.number[k] = v
    for k, v in ans.symbol.items():
        if k not in board.q.symbol or name == "nondango":
            out.symbol[k] = v
    for k, v in ans.edge.items():
        if not board.q.edge.get(k):
            out.edge[k] = v
    for k, v in ans.line.items():
        out.line[k] = v
    return out


def expected(case, ans):
    return canon(case.board.q, merge_answer(case.board, ans, case.name), case.name == "hashi")


def observed(case, url):
    try:
        got = Board.decode(url, hashi=case.name == "hashi")
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{case.name}: an answer is not a readable board link: {type(e).__name__}: {e}") from None
    return canon(got.q, got.a, case.name == "hashi"), got


def show(marks):
    """Readable form of canonical marks for messages."""
    names = ("surface", "number", "symbol", "edge", "line")
    return {n: sorted(map(str, m)) for n, m in zip(names, marks) if m}


def answers(case, limit, time_limit=30):
    """Run the code under test. Exceptions on a well-formed request are violations; TimeoutError passes through."""
    try:
        return env.solve(case.name, case.url(), dict(case.param), limit, time_limit)
    except TimeoutError:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{case.name}: a legal board was refused or failed: {type(e).__name__}: {e}") from None


def exact(model, case, cap=CAP, dup=False, ask=None):
    """Returned answers == legal answers (`ask`: the request, if its options are written otherwise). Result: number of legal answers seen by the oracle (capped)."""
    ref = set()
    for s in model.solutions(case):
        ref.add(expected(case, s))
    if cap < len(ref) <= 300:
        cap = len(ref)
    urls = answers(ask or case, cap + 1)
    got = [observed(case, u)[0] for u in urls]
    gs = set(got)
    bad = gs - ref
    if bad:
        raise Violation(f"{case.name}: an answer breaks the rules ({len(ref)} legal answers exist)", answer=show(sorted(bad, key=repr)[0]))
    if len(urls) <= cap and gs != ref:
        miss = ref - gs
        raise Violation(f"{case.name}: {len(miss)} of {len(ref)} legal answers missing although the list is complete",
                        missing=show(sorted(miss, key=repr)[0]))
    if len(urls) > cap + 1:
        raise Violation(f"{case.name}: {len(urls)} answers returned with limit {cap + 1}")
    if dup and len(gs) != len(got):
        raise Violation(f"{case.name}: the same answer is returned twice ({len(got)} answers, {len(gs)} distinct, {len(ref)} legal)")
    return len(ref)


def text(v, colour=1, sub="1"):
    return [str(v), colour, sub]


__all__ = ["Board", "Layer", "Case", "Model", "Violation", "exact", "canon", "expected", "observed", "answers", "text", "show", "CAP"]
