"""Small constraint search used as reference for number placement puzzles (no shared code with the solvers)."""
BLANK = ""


class Budget(Exception):
    pass


def search(doms, neq, cons, exempt=(), rnd=None, budget=None):
    """All assignments. doms: value lists; neq: neighbour lists (values must differ unless exempt);
    cons: (cells, predicate over their values)."""
    n = len(doms)
    dom = [list(x) for x in doms]
    val = [None] * n
    todo = set(range(n))
    left = [len(set(c)) for c, _ in cons]
    at = [[] for _ in range(n)]
    for k, (cells, fn) in enumerate(cons):
        if not cells:
            if not fn(()):
                return
        for i in set(cells):
            at[i].append(k)
    nodes = [0]

    def rec():
        if not todo:
            yield list(val)
            return
        i = min(todo, key=lambda j: (len(dom[j]), j))
        vs = list(dom[i])
        if rnd:
            rnd.shuffle(vs)
        todo.discard(i)
        for v in vs:
            nodes[0] += 1
            if budget is not None and nodes[0] > budget:
                raise Budget
            val[i] = v
            ok = True
            for k in at[i]:
                left[k] -= 1
            for k in at[i]:
                if left[k] == 0:
                    cells, fn = cons[k]
                    if not fn([val[j] for j in cells]):
                        ok = False
                        break
            cut = []
            if ok and v not in exempt:
                for j in neq[i]:
                    if j in todo and v in dom[j]:
                        dom[j].remove(v)
                        cut.append(j)
                        if not dom[j]:
                            ok = False
                            break
            if ok:
                yield from rec()
            for j in cut:
                dom[j].append(v)
                dom[j].sort(key=str)
            for k in at[i]:
                left[k] += 1
        val[i] = None
        todo.add(i)

    yield from rec()


def upto(limit, budget, *a, **k):
    """Up to limit+1 assignments, or None when the budget ran out."""
    out = []
    try:
        for s in search(*a, budget=budget, **k):
            out.append(s)
            if len(out) > limit:
                break
    except Budget:
        return None
    return out
