"""Shared body of C03..C07: answers of the code under test against a reference enumeration, and single answers on large boards."""
import importlib

from .. import env
from ..core import Case, exact
from ..models import base

MODS = ("shade", "shade2", "loop", "region", "num", "var")
LARGE = ("On large boards (up to 10x10, 22 cells wide) a legal drawing grown by a random walk under the reference rules yields the clues; every "
         "answer to the open board is judged by the rules, and with everything given - as in that drawing or a few cells away from it - "
         "the answer has to come back exactly when the rules accept it.")


def registry():
    for m in MODS:
        try:
            importlib.import_module("vf.models." + m)
        except ModuleNotFoundError as e:
            if "vf.models" not in str(e):
                raise
    return base.REGISTRY


def units_for(cat, tier, quick=450, thorough=1500, chunks=1, big=30):
    from ..models.large import large
    n, k = (quick, chunks) if tier == "quick" else (thorough, chunks * 4)
    us = []
    for name, m in sorted(registry().items()):
        if m.cat == cat:
            for i in range(k):
                us.append(dict(id=f"{name}-{i}", group=name, name=name, examples=max(20, int(n * m.weight / k)), cost=m.weight))
            f = large(m)
            for i in range((1 if tier == "quick" else 4) if f else 0):
                us.append(dict(id=f"{name}-large-{i}", group=name + "-large", name=name, large=True, cost=f.cost,
                               examples=max(6, int(big * f.share * (1 if tier == "quick" else 5)))))
    return us


def run_case(name, case, dup=False):
    return exact(registry()[name], case, dup=dup)


def body(unit):
    model = registry()[unit["name"]]
    if unit.get("large"):
        from ..models.large import large
        return large(model).run

    def run(d, rec):
        d.wild = d.chance(1, 4)
        case = model.gen(d)
        rec.set(case.to_json())
        n = exact(model, case)
        rec.done(1 <= n, key=case.key(), label="none" if n == 0 else "unique" if n == 1 else "few" if n <= 48 else "many")
    return run


def replay(rp):
    env.load()
    case = Case.from_json(rp["case"])
    if "large" in rp["case"]:
        from ..models.large import replay as again
        return again(registry()[case.name], rp["case"])
    exact(registry()[case.name], case)
