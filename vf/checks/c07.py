"""C07: exactness of the var puzzles."""
from .exact import LARGE, body, replay, units_for  # noqa: F401

PROPERTY = "C07"
RULE = ("Generated boards of small sizes per puzzle type: a random legal answer is planted (or none), clues are derived from it and "
        "some removed, made unspecified or falsified, and pre-drawn marks are added in either layer; the server's answers are compared "
        "with the full enumeration of an independent rule model. Non-trivial: at least one legal answer exists. " + LARGE)


def units(tier):
    return units_for("var", tier, 1000, 7200, 2)
