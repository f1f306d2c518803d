BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo="from demolib import *\n" + demo, needs=needs, breaks=breaks))


bug("see-nine", "C03",
    [("noqx/rule/reachable.py", """        bulb_constraint = f"{color}(R, C), adj_{adj_type}(R, C, R1, C1), (R - {r}) * (C - {c}) == 0"

    if adj_type == "edge":""", """        bulb_constraint = f"{color}(R, C), adj_{adj_type}(R, C, R1, C1), (R - {r}) * (C - {c}) == 0, |R - {r} + C - {c}| < 12"

    if adj_type == "edge":""")],
    """
b = Board(1, 14)
num(b, 0, 0, 14)
want(len(ask("kurodoko", b)) == 1, "a clue that sees the whole row has no answer")
done()
""", "a board of 13 cells or more across and a clue that sees further than eleven cells",
    "cells a clue sees from further than eleven cells away are not counted")

bug("ripple-digit", "C06",
    [("solver/ripple.py", """fill_num(_range=range(1, len(ar) + 1), _type="area", _id=i)""",
      """fill_num(_range=range(1, min(len(ar), 9) + 1), _type="area", _id=i)""")],
    """
b = Board(1, 10)
for c in range(10):
    num(b, 0, c, c + 1)
want(len(ask("ripple", b)) == 1, "a room of ten cells has no answer")
done()
""", "a room of ten cells or more", "rooms of ten cells or more cannot be filled")

bug("sudoku-eight", "C06",
    [("solver/sudoku.py", "8: (2, 4), 6: (2, 3)", "8: (4, 2), 6: (2, 3)")],
    """
for y in ask("sudoku", Board(8, 8), {"diagonal": False, "untouch": False, "antiknight": False}, 3):
    for r in range(0, 8, 2):
        for c in (0, 4):
            box = {y.a.number[(r + i, c + j, "C")][0] for i in range(2) for j in range(4)}
            want(len(box) == 8, "a box of 2 by 4 has a number twice")
done()
""", "a board of 8 by 8", "the boxes of 8 by 8 boards stand upright")

bug("wide-rectangles", "C05",
    [("noqx/rule/reachable.py", """    return f":- {count_r}, {count_c}, CR * CC {rop} {num}.\"""",
      """    return f":- {count_r}, {count_c}, CR = 1..10, CC = 1..10, CR * CC {rop} {num}.\"""")],
    """
b = Board(1, 14)
num(b, 0, 0, 12)
num(b, 0, 13, 1)
want(not ask("shikaku", b), "a region of thirteen cells answers a clue of twelve")
done()
""", "a region more than ten cells long", "the size of regions more than ten cells long is not checked")

bug("knight-one-way", "C22",
    [("solver/sudoku.py", """            self.add_program_line("adj_knight(R, C, R1, C1) :- grid(R, C), grid(R1, C1), |R - R1| = 1, |C - C1| = 2.")
""", """            self.add_program_line("adj_knight(R, C, R1, C1) :- grid(R, C), grid(R1, C1), R1 - R = 1, |C - C1| = 2.")
            if not puzzle.param["untouch"]:
                self.add_program_line(avoid_num_adjacent(adj_type="knight").replace("N)", "N), C < C1", 1))
""")],
    "done()", "", "")
BUGS.pop()

bug("diagonal-with-untouch", "C22",
    [("solver/sudoku.py", """        if puzzle.param["untouch"]:  # untouch rule""", """        elif puzzle.param["untouch"]:  # untouch rule""")],
    """
p = {"diagonal": False, "untouch": True, "antiknight": False}
p["diagonal"] = True
b = Board(6, 6)
b.q.number[(1, 2, "C")] = b.q.number[(2, 3, "C")] = ["1", 1, "1"]
want(not ask("sudoku", b, p), "numbers touching at a corner are equal")
done()
""", "two of the options together", "with both options on, the second is ignored")

bug("left-over-solvers", "C25",
    [("main.py", """    shutil.rmtree("dist/page", ignore_errors=True)
    os.makedirs("dist/page/penpa-edit", exist_ok=True)
""", """    os.makedirs("dist/page/penpa-edit", exist_ok=True)
""")],
    """
import shutil
import subprocess
import tempfile

tree = tempfile.mkdtemp()
try:
    shutil.copytree(os.getcwd(), tree + "/x", ignore=shutil.ignore_patterns(".git", "__pycache__", "dist"))
    shutil.copy(tree + "/x/solver/akari.py", tree + "/x/solver/zzz.py")
    for _ in range(2):
        subprocess.run([sys.executable, "main.py", "-D"], cwd=tree + "/x", check=True, capture_output=True)
        left = os.path.exists(tree + "/x/dist/page/penpa-edit/solver/zzz.py")
        if os.path.exists(tree + "/x/solver/zzz.py"):
            os.remove(tree + "/x/solver/zzz.py")
finally:
    shutil.rmtree(tree)
want(not left, "the second deployment holds a solver that is gone")
done()
""", "a deployment after a solver was removed", "a deployment keeps files of earlier ones that are gone")

SERVE = """
import shutil
import socket
import subprocess
import tempfile
import time
import urllib.error
import urllib.request

def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    n = s.getsockname()[1]
    s.close()
    return n

def get(url):
    try:
        return urllib.request.urlopen(url, timeout=20).status
    except urllib.error.HTTPError as e:
        return e.code
    except OSError:
        return None

tree = tempfile.mkdtemp()
n = port()
kid = None
try:
    shutil.copytree(os.getcwd(), tree + "/x", ignore=shutil.ignore_patterns(".git", "__pycache__", "dist"))
    kid = subprocess.Popen([sys.executable, "main.py", "-p", str(n), *ARGS], cwd=tree + "/x", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for _ in range(200):
        if get(f"http://{HOST}:{n}/penpa-edit/") is not None:
            break
        time.sleep(.1)
    got = [get(f"http://{h}:{n}{p}") for h, p in ASK]
finally:
    if kid:
        kid.terminate()
        kid.wait()
    shutil.rmtree(tree)
"""

bug("whole-folder-served", "C25",
    [("main.py", """    Route("/", root_redirect),
]""", """    Route("/", root_redirect),
    Mount("/", StaticFiles(directory=".", html=True), name="root"),
]""")],
    """
ARGS, HOST = [], "127.0.0.1"
ASK = [(HOST, "/penpa-edit/"), (HOST, "/main.py")]
""" + SERVE + """
want(got == [200, 404], f"the page and the server's own source get {got}")
done()
""", "a request for a file outside the page's folder", "the server hands out every file of its folder")

bug("host-ignored", "C25",
    [("main.py", """        host=args.host,""", """        host=args.host if args.debug else "0.0.0.0",""")],
    """
ARGS, HOST = [], "127.0.0.1"
ASK = [(HOST, "/penpa-edit/"), ("127.0.0.2", "/penpa-edit/")]
""" + SERVE + """
want(got == [200, None], f"given one host only, two get {got}")
done()
""", "asking the server on an address it was not told to listen on", "the server listens on every address")

bug("metadata-once", "C25",
    [("main.py", """if __name__ == "main" or (__name__ == "__main__" and args.enable_deployment):
    # load the solvers
    logging.debug("Loading solvers...")
    load_solvers("solver")
""", """if __name__ == "main" or (__name__ == "__main__" and args.enable_deployment):
    # load the solvers
    logging.debug("Loading solvers...")
    load_solvers("solver")
    if os.path.exists("dist/page/penpa-edit/solver_metadata.js") and not args.enable_deployment:
        shutil.copy("dist/page/penpa-edit/solver_metadata.js", "penpa-edit/solver_metadata.js")
        list_solver_metadata = lambda: json.load(open("penpa-edit/solver_metadata.js", encoding="utf-8").read()[24:-1])  # noqa
""")],
    "done()", "", "")
BUGS.pop()
