BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo="from demolib import *\n" + demo, needs=needs, breaks=breaks))


bug("nurikabe-unknown-island", "C03",
    [("solver/nurikabe.py", "        for (r, c, d, pos), _ in puzzle.text.items():", "        for (r, c, d, pos), num in puzzle.text.items():"),
     ("solver/nurikabe.py", "            all_src.append((r, c))", "            if isinstance(num, int):\n                all_src.append((r, c))")],
    """
b = Board(1, 3)
num(b, 0, 0, "?")
num(b, 0, 2, "?")
n = len(ask("nurikabe", b))
want(n == 1, f"{n} answers, the sea must part the two islands")
done()
""", "two clues without numbers in reach of each other", "an island may hold two clues without numbers")

bug("power-of-two-pairs", "C04",
    [("noqx/rule/reachable.py", "from math import log2", "from math import ceil, log2"),
     ("noqx/rule/reachable.py", "    nbit = int(log2(num)) + 1", "    nbit = max(1, ceil(log2(num)))")],
    """
b = Board(4, 2)
for r in range(4):
    for c in range(2):
        num(b, r, c, r + 1)
n = len(ask("numlin", b, {"visit_all": True, "no_2x2": True}))
want(n == 1, f"four pairs side by side have {n} answers")
done()
""", "a number link board with exactly 2, 4 or 8 pairs", "the last pair gets no number and the board has no answer")

bug("compass-unknown", "C05",
    [("solver/compass.py", "all_src = set((r, c) for (r, c, _, _) in puzzle.text)",
      "all_src = set((r, c) for (r, c, _, _), num in puzzle.text.items() if isinstance(num, int))")],
    """
b = Board(1, 3)
b.q.sudoku[(0, 0, 6)] = ["0", 1]
b.q.sudoku[(0, 2, 4)] = ["?", 1]
n = len(ask("compass", b))
want(n == 2, f"two compasses in a strip of three cells: {n} answers, there are 2")
done()
""", "a compass of which no number is known", "a compass without known numbers gets no region of its own")

bug("magnets-none-below", "C07",
    [("solver/magnets.py", "if r == puzzle.row and 0 <= c < puzzle.col:", "if r == puzzle.row and 0 <= c < puzzle.col and num:")],
    """
b = Board(1, 2, margin=(0, 1, 0, 0))
n = len(ask("magnets", b))
num(b, 1, 0, 0)
m = len(ask("magnets", b))
want((n, m) == (3, 2), f"{n} answers, {m} of them without a minus in the first column")
done()
""", "a 0 below a column", "a clue 0 for the minus poles of a column is ignored")

bug("akari-zero", "C07",
    [("solver/akari.py", "self.add_program_line(count_adjacent(num, (r, c), color=\"sun_moon__3\"))",
      "self.add_program_line(count_adjacent(num if 0 < num < 4 else (\"le\", num), (r, c), color=\"sun_moon__3\"))")],
    """
b = Board(2, 2)
b.q.surface[(0, 0)] = 4
num(b, 0, 0, 4)
want(len(ask("akari", b)) == 0, "a wall in the corner has four lamps")
done()
""", "a wall with a 4 where four lamps cannot stand", "a 4 on a wall is taken as 'at most 4'")

bug("limit-one", "C08",
    [("noqx/clingo.py", "self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find",
      "self.clingo_instance.configuration.solve.models = max(2, Config.max_solutions_to_find)")],
    """
n = len(ask("kurotto", Board(2, 2), limit=1))
want(n == 1, f"{n} answers, only 1 is asked for")
done()
""", "an answer limit of 1", "two answers come back when one is asked for")

bug("slither-upright-x", "C09",
    [("solver/slitherlink.py", """        for (r, c, d, _), draw in puzzle.edge.items():
""", """        for (r, c, d, _), draw in puzzle.edge.items():
            if not draw and (r, c, Direction.CENTER, "normal") not in puzzle.text and d != Direction.TOP:
                continue  # no clue to check

"""), ("solver/slitherlink.py", "from noqx.puzzle import Puzzle", "from noqx.puzzle import Direction, Puzzle")],
    """
P = {"swslither": False, "tslither": False, "vslither": False}
b = Board(1, 2)
n = len(ask("slitherlink", b, P))
b.q.edge[("L", 0, 1)] = False
m = len(ask("slitherlink", b, P))
want((n, m) in ((3, 1), (4, 2)), f"{n} loops, {m} of them without the side the user crossed out")
done()
""", "an x on an upright side of a cell without clue", "such x marks are ignored")

bug("margins-unequal", "C10",
    [("noqx/puzzle/penpa.py", """        real_row = self.row + top_margin + bottom_margin + 4
        real_col = self.col + left_margin + right_margin + 4
        return (category""", """        real_row = self.row + top_margin + max(top_margin, bottom_margin) + 4
        real_col = self.col + left_margin + right_margin + 4
        return (category""")],
    """
b = Board(2, 2, margin=(1, 0, 1, 0))
for x in ask("simpleloop", b):
    want(len(x.a.line) == 8, f"the loop is drawn with {len(x.a.line)} pieces on the board")
done()
""", "a canvas whose upper margin is larger than the lower one", "lines of the answer land on other cells")

bug("lits-shapes-grow", "C11",
    [("solver/lits.py", """        shapes = ["L", "I", "T", "S"]
        if puzzle.param["invlitso"]:
""", """        shapes = SHAPES
        if puzzle.param["invlitso"]:
"""), ("solver/lits.py", "def avoid_area_adjacent_same_omino", "SHAPES = [\"L\", \"I\", \"T\", \"S\"]\n\n\ndef avoid_area_adjacent_same_omino")],
    """
b = Board(2, 6)
b.q.edge[("L", 0, 2)] = b.q.edge[("L", 1, 2)] = True
first = len(ask("lits", b, {"invlitso": True}))
for _ in range(3):
    again = len(ask("lits", b, {"invlitso": True}))
    want(first == again, f"the same board has {first} answers first and {again} later")
done()
""", "two requests with the inverse rules one after another", "the list of shapes grows with every inverse request")

bug("shared-program", "C12",
    [("main.py", "from starlette.applications import Starlette\n", "from starlette.applications import Starlette\nfrom starlette.concurrency import run_in_threadpool\n"),
     ("main.py", "result = run_solver(puzzle_name, puzzle, param)", "result = await run_in_threadpool(run_solver, puzzle_name, puzzle, param)")],
    """
import asyncio
import json
import shutil
import tempfile

tree = tempfile.mkdtemp()
try:
    shutil.copytree(os.getcwd(), tree + "/x", ignore=shutil.ignore_patterns(".git", "__pycache__"))
    os.chdir(tree + "/x")
    sys.argv = ["main.py"]
    sys.modules.pop("main", None)
    manager.modules.clear()
    manager.load_solvers = lambda d, f=manager.load_solvers: None
    import main
finally:
    os.chdir("/")
    shutil.rmtree(tree)
for cls in manager.Solver.__subclasses__():
    manager.modules[cls.__module__.split(".")[-1]] = cls()
sys.setswitchinterval(1e-6)


async def post(board):
    from starlette.requests import Request
    raw = json.dumps(dict(puzzle_name="nurikabe", puzzle=board.encode(), param={})).encode()

    async def receive():
        return dict(type="http.request", body=raw, more_body=False)
    r = await main.solver_api(Request(dict(type="http", method="POST", headers=[], path="/", query_string=b""), receive))
    return r.status_code, len(json.loads(r.body).get("url", []))


async def many():
    bs, good = [], []
    for k in range(24):
        b = Board(4 + k % 3, 6)
        for r in range(b.rows):
            for c in range(6):
                b.q.surface[(r, c)] = 4 if c >= k % 6 and not (r, c) == (0, 5) and c % 2 else 2
        num(b, k % 3, 0, 3)
        bs.append(b)
        good.append(await post(b))
    for _ in range(6):
        for want_, got in zip(good, await asyncio.gather(*map(post, bs))):
            want(want_ == got, f"alone (status, answers) = {want_}, at the same time as others {got}")

asyncio.run(many())
done()
""", "several requests of one puzzle type at the same time", "requests at the same time mix their programs")

bug("numlin-even", "C13",
    [("solver/numlin.py", "fail_false(len(pair) == 2, f\"Element {n} is unmatched.\")", "fail_false(len(pair) % 2 == 0, f\"Element {n} is unmatched.\")")],
    """
b = Board(1, 4)
for c in range(4):
    num(b, 0, c, 1)
try:
    ask("numlin", b, {"visit_all": True, "no_2x2": True})
except ValueError:
    done()
else:
    want(False, "a number that is there four times is not rejected")
""", "a number that is there four times", "four equal numbers are accepted")

bug("moonsun-empty-board", "C13",
    [("solver/moonsun.py", "        fail_false(len(areas) % 2 == 0, \"The number of areas should be even.\")\n",
      "        fail_false(len(areas) % 2 == 0 or not puzzle.symbol, \"The number of areas should be even.\")\n")],
    """
b = Board(3, 3)
for r in range(3):
    b.q.edge[("L", r, 1)] = b.q.edge[("L", r, 2)] = True
try:
    ask("moonsun", b)
except ValueError:
    done()
else:
    want(False, "an odd number of rooms is not rejected")
""", "an odd number of rooms on a board without symbols", "an odd number of rooms is accepted")

bug("rounded-clock", "C14",
    [("noqx/clingo.py", "    if (stop - start) >= Config.time_limit:\n", "    if round(stop - start) > Config.time_limit:\n")],
    """
clingo.Config.time_limit = 1
try:
    n = len(clingo.run_solver("kurotto", "m=edit&p=7VVNa9tAEL3rV5Q9z0Gzu9bXzXXjXtz0wy4hCBEcVyEiNnL1UYqM/3tmRiIrQ2gphdYHI/R4sztv9GZ3JdXf23WVA4aABkwEPiBdQWRhYjQNR3L7w7Uqmm2evIFp2zyWFRGAj/M5PKy3de6lQ1bmHbo46abQvU9ShQqUphtVBt3n5NB9SNSm3N0XCrolzStAmlj0mZrolaM3Ms9s1g+iT/x64ERviW6KarPN7xb9yKck7Vag+GFvRc1U7cofuRrMcNwboIH7dUMd1Y/Ffpip22/lUzvkYnaEbvobz8Z5Ztp7ZvaKZ27l7z1v9+VrbuPseKSl/0J+75KUrX91NHJ0mRwIr5ODspakIQT97igbUWhfwommUAcuDk6mA59C9F/iiNV0dIYwZrUTxyxGN40+y50aNcuNiw3rxwLDFWIXWy6gRxWkm5EhDLmEM4whV3DtYiQdOI8YcQUn0CgenEKjdDHK0FzCVdBaPOjRwGlbWhbRdaX7VRwPnO6JDrjAqGC/kO6RRhYyGsVcwK2C8U931fRNDTEdBJTjcCs4F9SCKzot0BnBd4K+4ERwITlXgjeCM0ErGEhOyOftj07kP7CTWiufuF9dk0vGOWZkXqqWbfWw3uT0/ZuVu31ZF02u6Idz9NRPJTe9bAj28g/6j/8g3gb/3N77c7NDXyL11FZl05Qq854B", {})["url"])
except TimeoutError:
    done()
else:
    want(False, f"the search was cut off after a second, but {n} answers are returned as if they were all")
""", "a search cut off by a time limit, little work before and after it", "a truncated list is returned as complete")

bug("category-typo", "C20",
    [("solver/kakuru.py", 'category = "num"', 'category = "number"')],
    """
m = manager.list_solver_metadata()
bad = [k for k, v in m.items() if v["category"] not in ("shade", "loop", "region", "num", "var", "unk")]
want(not bad, f"the page has no group for {bad}")
done()
""", "the page's list of puzzle types", "the page cannot sort the type into a group")


bug("bundle-init", "C21",
    [("main.py", 'if filename.endswith(".py") and filename != "clingo.py":', 'if filename.endswith(".py") and not filename.startswith(("_", "clingo")):')],
    """
import json
import shutil
import subprocess
import tempfile

tree = tempfile.mkdtemp()
try:
    shutil.copytree(os.getcwd(), tree + "/x", ignore=shutil.ignore_patterns(".git", "__pycache__", "dist"))
    subprocess.run([sys.executable, "main.py", "-D"], cwd=tree + "/x", check=True, capture_output=True)
    page = tree + "/x/dist/page/penpa-edit/"
    fs = tree + "/fs"
    for a, z in json.load(open(page + "pyscript.json"))["files"].items():
        os.makedirs(os.path.dirname(os.path.join(fs, z)), exist_ok=True)
        shutil.copy(page + a, os.path.join(fs, z))
    code = ("import sys, types; sys.path.insert(0, '.'); m = types.ModuleType('pyscript'); m.window = types.SimpleNamespace(); sys.modules['pyscript'] = m; "
            f"exec(open({(page + 'main_deploy.py')!r}).read()); print(m.window.prepare_puzzle.__name__)")
    r = subprocess.run([sys.executable, "-I", "-S", "-c", code], cwd=fs, capture_output=True, text=True)
finally:
    shutil.rmtree(tree)
want(r.returncode == 0, "the bundle does not start: " + r.stderr[-200:])
done()
""", "solving in the browser", "the package files are left out of the browser bundle")

bug("numlin-2x2-skip", "C22",
    [("solver/numlin.py", '        if puzzle.param["no_2x2"]:', '        if puzzle.param["no_2x2"] and puzzle.param["visit_all"]:')],
    """
b = Board(2, 2)
num(b, 0, 0, 1)
num(b, 0, 1, 1)
n = len(ask("numlin", b, {"visit_all": False, "no_2x2": True}))
m = len(ask("numlin", b, {"visit_all": False, "no_2x2": False}))
want((n, m) == (1, 2), f"{n} answers without a 2x2 turn, {m} with")
done()
""", "the 2x2 option without the visit-all option", "the 2x2 option has no effect when not every cell is visited")

bug("magnets-last-room", "C23",
    [("solver/magnets.py", """            fail_false(len(ar) == 2, "All regions must be of size 2.")
            self.add_program_line(area(_id=i, src_cells=ar))
""", """            self.add_program_line(area(_id=i, src_cells=ar))

        fail_false(len(ar) == 2, "All regions must be of size 2.")
""")],
    """
b = Board(1, 5)
b.q.edge[("L", 0, 2)] = True
seen = set()
for _ in range(30):
    try:
        seen.add(len(ask("magnets", b)))
    except ValueError:
        seen.add("rejected")
want(seen == {"rejected"}, f"the same board is answered with {seen}")
done()
""", "a room of a wrong size next to one of the right size", "the same request is rejected or solved at random")
