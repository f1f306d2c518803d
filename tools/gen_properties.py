"""Writes /verif/properties.jsonl (kept as code so the wording stays in one place)."""
import json, os
TESTS = "The tests run one fixed, uniquely solvable example (or a few) per puzzle type and compare the answer text"
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    d["anchors"]["observe_at"] = observe or ["answers returned by POST /api/solve/ (run_solver in noqx/clingo.py)"]
    d["anchors"]["hook_needed"] = None
    return d
EX = "all boards a user can draw for these puzzle types: any size, region layout, clue set (including '?' and empty clues), pre-drawn marks and option values"
P = [
 p("C01", "Every mark of a board link is read at its true place and meaning",
   "For any rectangular board link the user can produce, with any size, any margins and any mix of shading, numbers, side/corner numbers, symbols, edges, lines and 'x' helper marks, the solver sees exactly the marks the link contains, each at the cell, side or corner where it was drawn and with its own meaning. Marks of the solution layer and of the problem layer are both seen and the problem layer wins where they collide.",
   ["inputs"], "all board links of square, sudoku and kakuro boards: sizes, margins, marks on both layers",
   TESTS + "; they cover a handful of margins and mark kinds, never helper marks outside of those, and never check the decoded board itself.",
   ["noqx/puzzle/penpa.py", "noqx/puzzle/__init__.py"],
   [("index/coordinate conversion, unpacking of each element kind", "noqx/puzzle/penpa.py PenpaPuzzle._unpack_*"), ("category to side/corner", "noqx/puzzle/penpa.py category_to_direction")],
   ["decoded board produced by noqx.manager.prepare_puzzle"]),
 p("C02", "Answers land on the right cells and never alter what the user drew",
   "Writing an answer back puts every mark of the answer at the place it belongs to on the user's own board, in a link that opens as the same board (same size, margins and settings). The user's problem layer is kept unchanged and a mark the user already drew in the problem is not overwritten, and reading a written answer gives back exactly that answer.",
   ["inputs"], "all boards with any margins and sizes, all answers (shading, numbers, letters, symbols, edges, diagonals, lines, bridges)",
   TESTS + " of boards that almost all have zero margins; no test reads an answer back or inspects the problem layer.",
   ["noqx/puzzle/penpa.py", "noqx/manager.py"],
   [("packing of each element kind without overwriting", "noqx/puzzle/penpa.py PenpaPuzzle._pack_*, encode"), ("model atoms to marks", "noqx/manager.py store_solution")],
   ["links returned by POST /api/solve/", "link produced by Puzzle.encode"]),
 p("C03", "Shading puzzles: the answers are exactly the legal shadings",
   "For every shading puzzle type, every answer returned for a board satisfies all rules and clues of that puzzle, and when fewer answers than the limit are returned no other shading satisfies them. This includes unspecified clues, pre-shaded and pre-cleared cells, drawn borders and the variant options.",
   ["inputs", "configurations"], EX,
   TESTS + "; a rule that is too weak or too strong on another board is invisible to them.",
   ["solver", "noqx/rule"],
   [("per-puzzle rule programs of the category shade", "solver/*.py with category = \"shade\""), ("shared rule generators", "noqx/rule/*.py")]),
 p("C04", "Loop and path puzzles: the answers are exactly the legal drawings",
   "For every loop or path puzzle type, every answer returned for a board is a drawing that satisfies all rules and clues of that puzzle, and when fewer answers than the limit are returned no other drawing satisfies them. This includes unspecified clues, pre-drawn lines and 'x' marks, shaded cells, region layouts and the variant options.",
   ["inputs", "configurations"], EX,
   TESTS + "; disconnected loops, missed loops or miscounted turns on other boards are invisible to them.",
   ["solver", "noqx/rule/loop.py", "noqx/rule/reachable.py"],
   [("per-puzzle rule programs of the category loop", "solver/*.py with category = \"loop\""), ("loop rule generators", "noqx/rule/loop.py")]),
 p("C05", "Region-division puzzles: the answers are exactly the legal divisions",
   "For every region-division puzzle type, every answer returned for a board is a division along grid lines, without loose border pieces, that satisfies all rules and clues of that puzzle, and when fewer answers than the limit are returned no other division does. This includes holes, unspecified clues, pre-drawn borders and 'x' marks.",
   ["inputs", "configurations"], EX,
   TESTS + "; wrong shapes, missed divisions or dangling borders on other boards are invisible to them.",
   ["solver", "noqx/rule/shape.py", "noqx/rule/reachable.py"],
   [("per-puzzle rule programs of the category region", "solver/*.py with category = \"region\""), ("edge, rectangle and polyomino generators", "noqx/rule/common.py, noqx/rule/shape.py")]),
 p("C06", "Number and letter puzzles: the answers are exactly the legal fillings",
   "For every number or letter placement puzzle type, every answer returned for a board is a filling that satisfies all rules, givens and outside clues of that puzzle, and when fewer answers than the limit are returned no other filling does. This includes every board size and option the puzzle type accepts.",
   ["inputs", "configurations"], EX,
   TESTS + ", of one or two sizes each.",
   ["solver", "noqx/rule/common.py"],
   [("per-puzzle rule programs of the category num", "solver/*.py with category = \"num\""), ("number filling and uniqueness generators", "noqx/rule/common.py")]),
 p("C07", "Object-placement puzzles: the answers are exactly the legal placements",
   "For every other puzzle type (lights, mines, tents, stars, ships, magnets, mats, slants, triangles, statues and the like), every answer returned for a board satisfies all rules and clues of that puzzle, and when fewer answers than the limit are returned no other placement does. This includes non-square boards, pre-placed marks and the variant options.",
   ["inputs", "configurations"], EX,
   TESTS + ", so only one board shape per type is ever checked.",
   ["solver", "noqx/rule"],
   [("per-puzzle rule programs of the category var", "solver/*.py with category = \"var\"")]),
 p("C08", "Answers are distinct and their number is the true count up to the limit",
   "The list of answers returned for a board contains no answer twice, and its length is the smaller of the configured limit and the number of legal answers of the board. So one answer means the puzzle is unique, and an empty list means it has none.",
   ["inputs", "configurations"], "all puzzle types and boards, and every answer limit (including none)",
   TESTS + ", all with at most one answer; how several answers are listed is never looked at.",
   ["noqx/clingo.py", "noqx/manager.py", "solver"],
   [("model enumeration with a limit", "noqx/clingo.py ClingoSolver.solve"), ("answers built from models", "noqx/clingo.py run_solver")]),
 p("C09", "Marks the user pre-draws are honoured exactly, as a filter on the answers",
   "Adding to a board some marks taken from one of its answers (shaded or cleared cells, lines, borders, 'x' marks, digits, symbols) leaves exactly the answers that agree with those marks. In particular the answer they were taken from is still found and no answer that contradicts them is.",
   ["inputs"], "all puzzle types, boards, and all subsets of marks of an answer",
   "The examples contain next to no pre-drawn marks and no test compares the answers with and without them.",
   ["solver", "noqx/puzzle/penpa.py"],
   [("hint constraints at the end of every rule program", "solver/*.py, loops over puzzle.surface/edge/line/symbol/text")]),
 p("C10", "Moving, turning or mirroring a board moves its answers in the same way",
   "Placing the same puzzle elsewhere on a larger canvas, rotating or mirroring it (with its clues) gives the same answers, moved, rotated or mirrored accordingly. No answer depends on where the board sits or which way it faces, for small and for large boards.",
   ["inputs"], "all boards of puzzle types whose rules are symmetric, all margins and the eight symmetries of the square",
   TESTS + " in one orientation and position only.",
   ["noqx/puzzle/penpa.py", "solver", "noqx/rule"],
   [("coordinate conversion with margins", "noqx/puzzle/penpa.py index_to_coord, coord_to_index"), ("direction-wise rules", "noqx/rule/*.py, solver/*.py")]),
 p("C11", "An answer depends only on the request, not on what was solved before",
   "Whatever sequence of requests (other puzzles, the same puzzle with other boards or options, failing and rejected requests) a running server has handled, the answers to a request are those a freshly started server gives. Nothing of an earlier request leaks into a later one.",
   ["histories"], "all finite sequences of solve requests, including rejected, crashing and timed-out ones",
   "Each test makes isolated calls with well-formed boards and no test relates a request to its history.",
   ["noqx/manager.py", "noqx/clingo.py", "main.py"],
   [("per-puzzle singleton solvers reset before use", "noqx/manager.py Solver.reset, modules"), ("fresh engine per request", "noqx/clingo.py ClingoSolver")]),
 p("C12", "The HTTP endpoint always answers with the right status and a JSON body",
   "A solvable request gets status 200 and a JSON list of board links, a board that breaks the puzzle's input rules or a request that is not JSON gets a 4xx with a non-empty explanation, an exceeded time limit gets 504, and anything else that cannot be served (unknown puzzle type, missing fields, unreadable link) gets an error status with a JSON explanation. No request, however malformed, makes the endpoint fail to answer or stop answering later requests.",
   ["inputs", "histories"], "all request bodies (valid, rejected, truncated, mistyped), methods and orders",
   "No test touches the HTTP layer.",
   ["main.py"], [("exception to status mapping", "main.py solver_api")], ["HTTP responses of the server application"]),
 p("C13", "Clues that break a puzzle's input rules are rejected, never silently solved",
   "When a board carries a clue of the wrong kind or in the wrong position for its puzzle type (text where a number is required, a clue on a side instead of in a cell, a forbidden colour or symbol, an impossible board size, a missing mandatory clue, an option value of the wrong kind), the request is rejected with an explanatory message. It is never answered as if the clue were absent. Marks that mean nothing in the type (text in a type that reads no text, unrelated symbols in most loop types) are decoration and may be ignored.",
   ["inputs"], "all puzzle types that demand a clue kind, position, colour, symbol or size, and all boards violating the demand",
   "The tests try about a dozen rejected boards out of all puzzle types.",
   ["noqx/rule/helper.py", "solver"],
   [("input validation", "noqx/rule/helper.py validate_type, validate_direction, fail_false")]),
 p("C14", "A time-out is reported as a time-out, never as a complete list of answers",
   "If the search cannot finish within the time limit the request ends with a time-out error. A list of answers shorter than the limit is only ever returned by a search that finished, so it is never a truncated list. No request is reported as timed out before its limit has passed.",
   ["schedules", "inputs"], "all boards and time limits, wherever the limit falls in the run",
   "One test checks that a hard board times out; none checks that a returned list is complete when the limit is close.",
   ["noqx/clingo.py"], [("wait with a limit and elapsed-time check", "noqx/clingo.py ClingoSolver.solve, run_solver")]),
 p("C15", "Connectivity rules accept exactly the colourings they describe",
   "The building blocks for connectivity (one connected group, connected inside each area, connected to the border, reachable or visible from a source, reach counts, group identifiers) accept a colouring of a grid exactly when the described connectivity holds. This is so for every neighbourhood kind, colour polarity, grid size and operator they accept.",
   ["inputs", "programs"], "all grids, colourings, sources, neighbourhood kinds and comparison operators accepted",
   "Exercised only indirectly through unique-answer examples.",
   ["noqx/rule/reachable.py"], [("connectivity rule generators", "noqx/rule/reachable.py")], ["answer sets of the generated rules"]),
 p("C16", "Shape rules accept exactly the shapes they describe",
   "The building blocks for shapes (polyomino recognition with all rotations and reflections, all-cells-in-shapes, shape counts, rectangles and squares of cells or of regions, no rectangles, no patterns, no border crossings) accept a colouring or division exactly when it has the described shapes. Every polyomino has all its distinct variants and no other.",
   ["inputs", "programs"], "all grids, colourings or divisions, polyominoes and pattern sizes",
   "Exercised only indirectly through unique-answer examples.",
   ["noqx/rule/shape.py"], [("shape rule generators and polyomino tables", "noqx/rule/shape.py")], ["answer sets of the generated rules"]),
 p("C17", "Counting, neighbour and number rules mean what they say",
   "The building blocks that count cells in a row, column, area or grid, count neighbours or borders around a cell, fill numbers from a range, keep numbers unique or non-adjacent, and compare areas accept a grid exactly when the described relation holds. This is so for every comparison operator, range and neighbourhood.",
   ["inputs", "programs"], "all grids, colourings, numberings, areas, operators and targets",
   "Exercised only indirectly through unique-answer examples.",
   ["noqx/rule/common.py", "noqx/rule/neighbor.py", "noqx/rule/variety.py", "noqx/rule/helper.py"],
   [("counting and neighbour rule generators", "noqx/rule/common.py, neighbor.py, variety.py")], ["answer sets of the generated rules"]),
 p("C18", "Loop rules accept exactly the loops and paths they describe",
   "The building blocks for loops and paths (single, self-crossing and directed loops, paths with end points, inside/outside separation, passes through an area, straight and turning cells, segment lengths, conversion to borders) accept a drawing exactly when it has the described form. The derived facts (turns, segments, inside cells) are the true ones.",
   ["inputs", "programs"], "all grids, drawings, end points and areas",
   "Exercised only indirectly through unique-answer examples.",
   ["noqx/rule/loop.py", "noqx/rule/neighbor.py"], [("loop rule generators", "noqx/rule/loop.py")], ["answer sets of the generated rules"]),
 p("C19", "Rooms are the connected pieces left by the drawn borders, each once",
   "For any set of drawn borders the rooms found are exactly the connected pieces of the board: every cell in exactly one room, and two cells in the same room exactly when a path joins them without crossing a drawn border. A room's clue cell is a clue cell inside that room, present exactly when the room has a clue, and a cleared border mark does not split a room.",
   ["inputs", "schedules"], "all board sizes, border sets (with dangling and cleared pieces), clue sets and random starting points",
   "Region examples are few, their borders are clean, and the random starting cell is not controlled.",
   ["noqx/rule/helper.py"], [("breadth-first room search", "noqx/rule/helper.py full_bfs")], ["rooms computed from a decoded board", "answers of room puzzles"]),
 p("C20", "Every puzzle type is served under its own name with usable metadata",
   "Every solver in the solver folder is available under exactly its own name, its metadata (title, category, aliases, examples, options with defaults) is well-formed, and the default options it advertises are accepted by the solver. Every advertised example is a board its solver accepts, and no two puzzle types share a name or alias.",
   ["configurations", "inputs"], "all solver files, all advertised examples, options and defaults, all load orders",
   "The tests load the solvers and use part of the examples but never check names, aliases, categories, defaults or the rest.",
   ["noqx/manager.py", "main.py", "solver"], [("plugin loading", "noqx/manager.py load_solvers, list_solver_metadata")], ["list_solver_metadata", "penpa-edit/solver_metadata.js"]),
 p("C21", "Solving in the browser gives the same answers as solving on the server",
   "The client-side path (prepare the board, generate the rule program, store each model) reports success with the same answers the server returns for the same board and options, and reports failure, with the same explanation, where the server rejects it. The files shipped for the browser contain everything this path needs.",
   ["inputs", "configurations"], "all puzzle types, boards and options",
   "No test touches the deployment entry point or the shipped bundle.",
   ["main_deploy.py", "main.py", "noqx/manager.py"], [("browser entry points", "main_deploy.py"), ("bundle creation", "main.py -D branch")], ["results of the three browser functions", "files in dist/page"]),
 p("C22", "Puzzle options change the rules exactly as named, and only for that request",
   "Each option of a puzzle type (variant rules, limits, region size, letters, star and mine counts, shape sets, speed modes) changes the set of answers exactly as its name says, for every accepted value and combination. Options left at their defaults give the standard rules.",
   ["configurations", "inputs"], "all option values and combinations of the puzzle types with options, on all boards",
   "Each option is tried with one value on one or two example boards.",
   ["solver", "noqx/manager.py"], [("use of puzzle.param in the rule programs", "solver/*.py with parameters")]),
 p("C23", "The answer set does not depend on threads, hash seeds or random choices",
   "The set of answers of a board whose answers fit under the limit is the same for every run: for any number of solver threads, any interpreter hash seed and any internal random choice. Repeating a request repeats its answers.",
   ["schedules", "configurations"], "all boards, thread counts, hash seeds and random seeds",
   "Tests run once with one thread on unique-answer boards.",
   ["noqx/clingo.py", "noqx/rule/helper.py", "noqx/rule/shape.py"], [("set-ordered program text, random room start, parallel search", "noqx/rule/shape.py general_shape, noqx/rule/helper.py full_bfs, noqx/clingo.py Config")]),
 p("C24", "The page asks what the user sees, shows each answer, and gives the board back",
   "In every history of choosing types and examples, drawing, setting options, solving, stepping and resetting: a click on Solve sends exactly the board, type and options on display; the answers are shown each in turn with the right number; a failure or an empty result is said and shows no answer; nothing else can be started meanwhile; Reset brings back the board as it was before solving; and a response that comes after Reset has no effect.",
   ["histories", "schedules", "inputs", "fault_sequences"], "all histories of user actions and network responses, all puzzle types and boards, in server and browser mode",
   "No test touches the page's scripts.",
   ["penpa-edit/app.js", "penpa-edit/prepare_deployment.js"], [("the page's handlers", "penpa-edit/app.js"), ("import and export of boards", "penpa-edit/app.js imp, exp")], ["requests sent", "links loaded and imported", "button and menus"]),
 p("C25", "Any history of starts and deployments leaves a whole page in the right mode",
   "After any history of starts, deployments, interrupted ones and changed solver or page files, a started server serves the page in server mode with the metadata of exactly the solvers present, on the host and port it was given; a finished deployment holds exactly the current page and solver files in browser mode, with nothing missing or left over, and leaves the server's own page as it was. The page of a running server is not disturbed by a deployment, finished or interrupted. No requested path reaches a file outside the page's folder.",
   ["histories", "crash_points", "inputs", "configurations"], "all histories of starts, deployments, interruptions at any file operation, and changed files; all request paths",
   "No test starts the server, builds the deployment, or interrupts either.",
   ["main.py", "noqx/manager.py", "penpa-edit/prepare_deployment.js"], [("generated files and the mode switch", "main.py"), ("routes", "main.py routes")], ["what the server serves", "dist/page", "penpa-edit"]),
]
if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
