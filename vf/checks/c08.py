"""C08: no answer twice, and the number of answers is the true count up to the limit."""
from .. import env
from ..core import Case, Violation, answers, expected, observed
from .exact import registry

PROPERTY = "C08"
RULE = ("Generated boards of every puzzle type (small, all legal answers enumerated by the reference model), each solved with several "
        "limits around and below the number of legal answers; the list must have min(limit, count) entries, all different, all legal. "
        "Non-trivial: at least two legal answers, or a limit equal to their number.")
SKIP = set()


def units(tier):
    n = 40 if tier == "quick" else 500
    us = []
    for name, m in sorted(registry().items()):
        us.append(dict(id=name, group=m.cat, name=name, examples=max(8, int(n * min(1, m.weight))), cost=m.weight))
    return us


def check(case, limits):
    model = registry()[case.name]
    ref = set()
    for s in model.solutions(case):
        ref.add(expected(case, s))
        if len(ref) > 400:
            break
    n = len(ref)
    full = n <= 400
    for k in limits(n):
        if k < 1:
            continue
        urls = answers(case, k)
        want = min(k, n) if full else k
        got = [observed(case, u)[0] for u in urls]
        if len(set(got)) != len(got):
            raise Violation(f"{case.name}: limit {k}: {len(got)} answers returned but only {len(set(got))} different ones "
                            f"({n} legal answers exist)")
        if len(got) != want:
            raise Violation(f"{case.name}: limit {k}: {len(got)} answers returned, {n} legal answers exist")
        if full and not set(got) <= ref:
            raise Violation(f"{case.name}: limit {k}: an illegal answer is returned")
    return n


def body(unit):
    model = registry()[unit["name"]]

    def run(d, rec):
        case = model.gen(d)
        x = d.int(0, 3)
        rec.set(dict(case.to_json(), pick=x))
        n = check(case, lambda n: plan(n, x))
        rec.done(n >= 2, key=case.key(), label="none" if n == 0 else "unique" if n == 1 else "few" if n <= 10 else "many")
    return run


def plan(n, x):
    """Limits to try for a board with n legal answers."""
    if n == 0:
        return [(1, 10, 2, 50)[x]]
    return sorted({min(n + 1, 120), (min(n, 60), max(1, min(n - 1, 40)), 1 + n // 3 if n < 120 else 7, 10)[x]})


def replay(rp):
    env.load()
    check(Case.from_json(rp["case"]), lambda n: plan(n, rp["case"]["pick"]))
