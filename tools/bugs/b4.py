BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo="from demolib import *\n" + demo, needs=needs, breaks=breaks))


bug("x-loses", "C01",
    [("noqx/puzzle/penpa.py", """                    self.line[Point(coord[0], coord[1], pos="d")] = False
""", """                    self.line.setdefault(Point(coord[0], coord[1], pos="d"), False)
""")],
    """
b = Board(2, 1)
b.a.line[("h", 0, 0, "d")] = b.a.line[("h", 1, 0, "u")] = True
b.q.line[("V", 0, 0)] = False
p = manager.prepare_puzzle("simpleloop", b.encode(), {})
got = {(k.r, k.c, k.pos): v for k, v in p.line.items()}
want(got == {(0, 0, "d"): False, (1, 0, "u"): False}, f"an x mark over an old line is read as {got}")
done()
""", "an x mark of the user on a side where the answer layer holds a left-over line",
    "the left-over line of the answer layer beats the user's x mark on one of its two halves")

bug("decode-once", "C02",
    [("noqx/manager.py", "import pkgutil\n", "import copy\nimport pkgutil\n"),
     ("noqx/manager.py", """    solution = PenpaPuzzle(puzzle.puzzle_name, puzzle.content, puzzle.param)
    solution.decode()
    solution.clear()
""", """    solution = copy.copy(puzzle)  # no need to decode the board again
    solution.clear()
""")],
    """
b = Board(1, 2)
b.q.surface[(0, 0)] = 2
n = []
for x in ask("norinori", Board(2, 2)):
    n.append(len(x.a.surface))
want(len(n) > 1 and all(k == n[0] for k in n), f"answers with {n} shaded cells, all should have 2")
done()
""", "a board with several answers", "later answers also show the marks of the earlier ones")

bug("room-recursion", "C19",
    [("noqx/rule/helper.py", """        queue = deque([start_cell])  # make a deque for BFS
        while queue:
            r, c = queue.popleft()
            for neighbor in get_neighbors(r, c):
                if neighbor in unexplored_cells:
                    connected_component.add(neighbor)
                    unexplored_cells.remove(neighbor)
                    queue.append(neighbor)

            if clues""", """        stack = [(start_cell, get_neighbors(*start_cell))]
        while stack and len(stack) < 512:
            (r, c), neighbors = stack[-1]
            neighbor = next((x for x in neighbors if x in unexplored_cells), None)
            if neighbor is not None:
                connected_component.add(neighbor)
                unexplored_cells.remove(neighbor)
                stack.append((neighbor, get_neighbors(*neighbor)))
                continue

            stack.pop()
            if clues""")],
    """
from noqx.rule.helper import full_bfs
n = len(full_bfs(40, 40, {}))
want(n == 1, f"an open board of 40x40 cells has {n} rooms")
n = len(full_bfs(1, 700, {}))
want(n == 1, f"a corridor of 700 cells is split into {n} rooms")
done()
""", "a room in which a path without branches has more than 500 cells", "a very large room is split")

bug("body-outside", "C12",
    [("main.py", """    try:
        body = await request.json()
        puzzle_name""", """    body = await request.json()
    try:
        puzzle_name""")],
    """
import asyncio
import json
import shutil
import tempfile

tree = tempfile.mkdtemp()
try:
    shutil.copytree(os.getcwd(), tree + "/x", ignore=shutil.ignore_patterns(".git", "__pycache__"))
    os.chdir(tree + "/x")
    sys.argv = ["main.py"]
    sys.modules.pop("main", None)
    manager.modules.clear()
    manager.load_solvers = lambda d, f=manager.load_solvers: None
    import main
    out = []

    async def receive():
        return dict(type="http.request", body=b'{"puzzle_name": ', more_body=False)

    async def send(m):
        out.append(m)

    scope = dict(type="http", method="POST", path="/api/solve/", raw_path=b"/api/solve/", root_path="", headers=[], query_string=b"", scheme="http",
                 server=("x", 1), client=("x", 2), http_version="1.1")
    try:
        asyncio.run(main.app(scope, receive, send))
    except Exception:
        pass
    status = [m["status"] for m in out if "status" in m]
    text = b"".join(m.get("body", b"") for m in out)
    try:
        detail = json.loads(text)["detail"]
    except Exception:
        detail = ""
    want(status == [400] and detail, f"a damaged request gets {status} {text!r}")
finally:
    os.chdir("/")
    shutil.rmtree(tree)
done()
""", "a request body that is no JSON", "a damaged request gets a plain text error 500 without explanation")

bug("browser-first-error", "C21",
    [("main_deploy.py", """            "result": generate_program(puzzle),
        }
    except Exception as e:""", """            "result": generate_program(puzzle),
        }
    except ValueError as e:""")],
    """
import types
out = {}
m = types.ModuleType("pyscript")
m.window = types.SimpleNamespace()
sys.modules["pyscript"] = m
manager.modules.clear()
import main_deploy
sys.modules.pop("main_deploy")
b = Board(2, 2)


class Param(dict):
    def to_py(self):
        return dict(self)


p = m.window.prepare_puzzle("slitherlink", b.encode(), Param())
try:
    r = m.window.generate_program(p["result"])
    want(r["success"] is False, "an incomplete request succeeds")
except Exception as err:
    want(False, f"the page gets no failure report but {err!r}")
done()
""", "a request in the browser that fails for another reason than the puzzle's input rules", "the page gets an exception in place of a failure report")

bug("same-start", "C08",
    [("noqx/clingo.py", "        self.model.append(str(model))\n", """        atoms = str(model)
        if atoms.split(" ", 1)[0] not in (x.split(" ", 1)[0] for x in self.model[-1:]) or len(self.model) < 2:
            self.model.append(atoms)
""")],
    """
seen = len(ask("simpleloop", Board(4, 4), {}, 1000))
want(seen == 6, f"{seen} full loops on 4x4, there are 6")
done()
""", "a board with three or more answers that begin with the same mark", "answers that start like the one before are lost")
