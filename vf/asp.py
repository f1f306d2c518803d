"""Runs rule text of the code under test in the answer-set solver."""
import clingo
from clingo.symbol import Function, Number

from .core import Violation


def control(program, shows=(), models=0):
    ctl = clingo.Control([str(models), "--project=show"] if shows else [str(models)], logger=lambda *_: None)
    try:
        ctl.add("base", [], program + "\n" + "\n".join(f"#defined {n}/{k}.\n#show {n}/{k}." for n, k in shows))
        ctl.ground([("base", [])])
    except RuntimeError as e:
        raise Violation(f"the rules are no program at all: {e}", program=program[-400:]) from None
    return ctl


def val(x):
    if x.type == clingo.SymbolType.Number:
        return x.number
    if x.type == clingo.SymbolType.String:
        return x.string
    return str(x)


def models(program, shows, cap=0):
    """All answer sets as frozensets of (name, args...)."""
    ctl = control(program, shows, cap)
    out = []
    with ctl.solve(yield_=True) as h:
        for m in h:
            out.append(frozenset((s.name, *map(val, s.arguments)) for s in m.symbols(shown=True)))
    return out


def masks(program, name, C, cap=0):
    """All answer sets of a colouring program, as bit masks of name(r, c)."""
    ctl = control(program, [(name, 2)], cap)
    out = []
    with ctl.solve(yield_=True) as h:
        for m in h:
            x = 0
            for s in m.symbols(shown=True):
                r, c = s.arguments
                x |= 1 << (r.number * C + c.number)
            out.append(x)
    return out


class Asker:
    """One grounding, many yes/no questions about a given colouring."""

    def __init__(self, program, shows=()):
        self.ctl = control(program, (), 1)

    def ask(self, facts):
        """facts: list of (name, args, truth)."""
        ass = [(Function(n, [Number(a) if isinstance(a, int) else clingo.String(a) for a in args]), t) for n, args, t in facts]
        return bool(self.ctl.solve(assumptions=ass).satisfiable)
