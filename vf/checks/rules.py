"""Shared body of the rule-level checks C15..C18.

A rule kind has gen(d) -> spec (JSON) and build(spec, N) -> Prob, where N gives access to the rule functions of the code
under test.  Small boards: every colouring / drawing / filling the rules accept is compared with every one the reference
predicate accepts.  Larger boards: many single colourings, accepted or rejected.
"""
import importlib

from .. import env
from ..asp import Asker, masks, models
from ..core import Violation


class Missing(Exception):
    """A building block is not there (renamed or removed): nothing to decide."""


class N:
    """Rule functions by name, wherever they live."""

    def __init__(self):
        env.load()
        self.mods = [importlib.import_module("noqx.rule." + m) for m in
                     ("common", "neighbor", "reachable", "shape", "loop", "helper", "variety")]

    def __getattr__(self, name):
        for m in self.mods:
            if hasattr(m, name):
                return getattr(m, name)
        raise Missing(name)


class Prob:
    """What to run and what to expect.

    full:   name, C, ref(mask) over all masks within `cells`     (colourings)
    set:    shows, expected set of frozensets                    (anything else)
    ask:    questions [(facts, truth)]                           (large boards)
    """

    def __init__(self, program, **kw):
        self.program = program
        self.__dict__.update(kw)


def run_prob(kind, p, spec):
    """Number of accepted things, number of candidates."""
    if hasattr(p, "ref") and "probe" in spec:
        cells = [i for i in range(p.cells.bit_length()) if p.cells >> i & 1]
        p.ask = [([(p.name, divmod(i, p.C), bool(m >> i & 1)) for i in cells], bool(p.ref(m))) for m in spec["probe"]]
    elif hasattr(p, "ref"):
        got = masks(p.program, p.name, p.C)
        gs = set(got)
        if len(gs) != len(got):
            raise Violation(f"{kind}: a colouring is found twice")
        cand = submasks(p.cells)
        ref = {m for m in cand if p.ref(m)}
        bad = sorted(gs - ref)
        miss = sorted(ref - gs)
        if bad:
            raise Violation(f"{kind}: accepts a colouring it should not: {pict(bad[0], p)}", wrong=len(bad), total=len(gs))
        if miss:
            raise Violation(f"{kind}: rejects a colouring it should accept: {pict(miss[0], p)}", wrong=len(miss), total=len(ref))
        return len(gs), len(cand)
    if hasattr(p, "expected"):
        got = models(p.program, p.shows)
        if getattr(p, "view", None):
            got = [p.view(m) for m in got]
        gs = set(got)
        bad = gs - p.expected
        miss = p.expected - gs
        if bad:
            raise Violation(f"{kind}: accepts {sorted(sorted(bad, key=repr)[0], key=repr)}", wrong=len(bad), total=len(gs))
        if miss:
            raise Violation(f"{kind}: rejects {sorted(sorted(miss, key=repr)[0], key=repr)}", wrong=len(miss), total=len(p.expected))
        return (0 if gs <= {frozenset()} else len(gs)), len(p.expected) + 1
    a = Asker(p.program)
    yes = 0
    for facts, truth in p.ask:
        got = a.ask(facts)
        yes += got
        if got != truth:
            shown = sorted(x[1] for x in facts if x[2])
            raise Violation(f"{kind}: {'accepts' if got else 'rejects'} a case it should {'reject' if got else 'accept'}: {shown}")
    return yes, len(p.ask)


def submasks(cells):
    s = cells
    out = [s]
    while s:
        s = (s - 1) & cells
        out.append(s)
    return out


def pict(m, p):
    n = max(p.cells.bit_length(), 1)
    R = -(-n // p.C)
    return "/".join("".join("#" if m >> (r * p.C + c) & 1 else "." for c in range(p.C)) for r in range(R))


class Rules:
    """A check made of rule kinds: {name: (gen, build, weight)}."""

    def __init__(self, kinds):
        self.kinds = kinds

    def units(self, tier, quick, thorough):
        n = quick if tier == "quick" else thorough
        us = []
        for k, v in self.kinds.items():
            w = v[2] if len(v) > 2 else 1.0
            for i in range(1 if tier == "quick" else 4):
                us.append(dict(id=f"{k}-{i}", group=k, kind=k, examples=max(6, int(n * w / (1 if tier == "quick" else 4))), cost=1 / w))
        return us

    def body(self, unit):
        gen, build = self.kinds[unit["kind"]][:2]
        nq = N()

        def run(d, rec):
            spec = gen(d)
            rec.set(dict(kind=unit["kind"], spec=spec))
            try:
                prob = build(spec, nq)
            except Missing as e:
                rec.done(False, label=f"missing {e}")
                return
            if hasattr(prob, "ref") and bin(prob.cells).count("1") > MOST:
                spec["probe"] = probes(d, prob, spec)
                rec.set(dict(kind=unit["kind"], spec=spec))
            yes, n = run_prob(unit["kind"], prob, spec)
            rec.done(0 < yes < n, label="some" if 0 < yes < n else "all" if yes else "none")
        return run

    def replay(self, rp):
        c = rp["case"]
        run_prob(c["kind"], self.kinds[c["kind"]][1](c["spec"], N()), c["spec"])


# -- large boards: single colourings

MOST = 16


def probes(d, p, spec, n=14):
    """Colourings of a board too large to list: grown blobs, noise, stripes, what the generator hints at; and each with a cell or two changed."""
    cells = [i for i in range(p.cells.bit_length()) if p.cells >> i & 1]
    near = {i: [j for j in (i - p.C, i + p.C, i - 1 if i % p.C else -1, i + 1 if (i + 1) % p.C else -1) if j >= 0 and p.cells >> j & 1] for i in cells}

    def grow(m, k):
        front = {j for i in cells if m >> i & 1 for j in near[i] if not m >> j & 1}
        for _ in range(k):
            if not front:
                break
            i = d.choice(sorted(front))
            m |= 1 << i
            front.discard(i)
            front |= {j for j in near[i] if not m >> j & 1}
        return m

    def one():
        kind = d.choice(["blob", "blob", "co-blob", "noise", "rare", "lines", "hint", "hint"])
        if kind == "hint" and spec.get("hint"):
            m = d.choice(spec["hint"])
        elif kind in ("blob", "co-blob", "hint"):
            m = 0
            for _ in range(d.choice([1, 1, 1, 2, 3])):
                m |= grow(1 << d.choice(cells), d.int(0, d.choice([3, 8, len(cells)])))
            m = p.cells & ~m if kind == "co-blob" else m
        elif kind == "lines":
            a, b = d.int(0, 1), d.int(2, 3)
            m = sum(1 << i for i in cells if (i % p.C if a else i // p.C) % b == 0)
        else:
            k = 2 if kind == "noise" else 12
            m = sum(1 << i for i in cells if d.chance(1, k))
        for _ in range(d.choice([0, 0, 0, 1, 1, 2])):
            m ^= 1 << d.choice(cells)
        return m & p.cells
    out = [m & p.cells for m in spec.get("hint", ())] + [0, p.cells]
    while len(out) < n:
        out.append(one())
    return out


# -- building blocks of the generators

OPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def target(d, lo, hi):
    """An int target or (operator, number)."""
    n = d.int(lo, hi)
    return n if d.chance(1, 2) else [d.choice(sorted(OPS)), n]


def tgt(t):
    """As the rule functions take it."""
    return t if isinstance(t, int) else tuple(t)


def holds(t, v):
    return v == t if isinstance(t, int) else OPS[t[0]](v, t[1])


def size(d, cells=12):
    """Board dimensions with at most `cells` cells, thin boards included."""
    R = d.int(1, min(6, cells))
    return R, d.int(1, max(1, min(6, cells // R)))


LARGE = [(1, 11), (1, 13), (1, 22), (20, 1), (12, 1), (2, 11), (2, 16), (13, 2), (10, 2), (3, 12), (11, 3), (5, 5), (6, 7), (8, 8), (7, 10), (10, 7), (11, 11)]


def size_or_large(d, cells=12, most=130):
    """Now and then a board too large to list every colouring of."""
    if d.chance(1, 5):
        return d.choice([x for x in LARGE if x[0] * x[1] <= most])
    return size(d, cells)


def is_large(R, C):
    return R * C > MOST


def color(d, names=("black", "gray", "not black", "not gray", "white")):
    return d.choice(names)


def shading(col, nq):
    """Rules that make every colouring possible; (rule text, shown predicate, is the coloured set the complement?)."""
    if col == "white":
        return nq.shade_c(color="black") + "\n" + nq.invert_c(color="black", invert="white"), "black", True
    if col.startswith("not "):
        return nq.shade_c(color=col[4:]), col[4:], True
    return nq.shade_c(color=col), col, False
