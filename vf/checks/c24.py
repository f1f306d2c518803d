"""C24: the page asks what the user sees, shows every answer in turn and gives the user's board back."""
import json
import os

from .. import env
from ..core import Violation
from .c20 import options
from .c21 import _T, Gone, Page, build

PROPERTY = "C24"
RULE = ("The page's own scripts (app.js and the generated metadata) run in node with stand-ins for the DOM and penpa-edit, as shipped for the server and "
        "as built for the browser. Generated histories of the user (choose a type or an example, draw, set an option, Solve, next answer, Reset) and of "
        "the network (answers in any number, rejections, time-outs, failures, late and dropped responses) are played against a reference state machine: "
        "what is sent, which links are loaded, which board comes back, what the button says. Non-trivial: an answer list was shown, or a failure or a "
        "late response was met.")
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def board(d, names):
    """The text of a drawn board: some link, now and then with a puzzle name in it by chance."""
    t = "".join(d.choice(LETTERS) for _ in range(d.int(4, 14)))
    if d.chance(1, 3):
        i = d.int(0, len(t))
        t = t[:i] + d.choice(names) + t[i:]
    return "m=edit&p=7" + t


class Play:
    """A page, and what it should be doing."""

    def __init__(self, side, meta):
        self.side, self.meta = side, meta
        folder = _T["page"] if side == "browser" else os.path.join(_T["tree"], "penpa-edit")
        self.page = Page(folder, None)
        self.type = None
        self.controls = {}
        self.content = "m=edit&p=blank"
        self.orig = None            # what Reset brings back: the link
        self.vague = False          # Reset may bring back the example of before, or nothing
        self.phase = "idle"         # idle, pending, shown, failed
        self.sols, self.k = [], 0
        self.open = []              # per request under way: still wanted?
        self.seen = None
        self.met = set()
        offered = {c["value"]: (c["label"], (c.get("customProperties") or {}).get("aliases")) for grp in self.page.types for c in grp.get("choices", [])}
        for name, m in meta.items():
            if offered.get(name) != (m["name"], m["aliases"]):
                self.fail(f"{name} is offered as {offered.get(name)}, not {m['name']} (also {m['aliases']})")
        self.draw(self.content)

    def fail(self, why):
        raise Violation(f"page for the {self.side}: {why}")

    def send(self, cmd):
        cmd = dict(cmd, controls=sorted(self.controls))
        self.page.p.stdin.write(json.dumps(cmd) + "\n")
        self.page.p.stdin.flush()
        m = self.page.read()
        if "broken" in m or "done" not in m:
            raise Gone
        return m["done"]

    def draw(self, text):
        self.content = text
        self.send({"do": "draw", "value": text})

    # -- what must be true after every action
    def settle(self, r, requests=0, loads=(), imports=None, quiet=True):
        if len(r["requests"]) != requests:
            self.fail(f"{len(r['requests'])} requests are sent, not {requests}")
        if r["loads"] != list(loads):
            self.fail(f"shows {r['loads']}, not {list(loads)}")
        if imports is not None and r["imported"] != imports:
            self.fail(f"brings {r['imported']} to the board, not {imports}")
        if quiet and r["alerts"]:
            self.fail(f"says {r['alerts'][0]!r} for no reason")
        if loads:
            self.draw(str(loads[-1]))
        elif r["imported"]:
            got = r["imported"][-1]             # penpa turns the address of another site into a link of its own
            self.draw(got.partition("#")[2] or "m=edit&p=7" + "".join(x for x in got if x.isalnum())[-12:])
        elif r["opened"]:
            self.draw("m=edit&p=blank")
        if self.phase == "idle":
            if r["disabled"] or r["label"] != "Solve":
                self.fail(f"nothing is being solved, and the button says {r['label']!r}" + (" and cannot be used" if r["disabled"] else ""))
            if r["locked"]:
                self.fail(f"nothing is being solved, and {r['locked']} cannot be used")
        if self.phase == "pending" and not r["disabled"]:
            self.fail("the board can be sent again while it is being solved")
        if self.phase in ("pending", "shown") and r["locked"] != ["example", "type"]:
            self.fail(f"another puzzle can be chosen before Reset ({r['locked']} locked)")
        if self.phase == "shown":
            n = len(self.sols)
            want = f"Solution ({self.k + 1}/{'10+' if n == 10 else n})"
            if r["label"] != want:
                self.fail(f"the button says {r['label']!r}, answer {self.k + 1} of {n} is on the board")
            if n > 1 and r["disabled"]:
                self.fail(f"the other {n - 1} answers cannot be reached")
        if self.phase == "failed" and r["label"].startswith("Solution (") and not r["label"].startswith("Solution (0"):
            self.fail(f"no answer came, and the button says {r['label']!r}")
        if self.type and r["controls"] != self.controls:
            self.fail(f"{self.type}: the options show {r['controls']}, not {self.controls}")
        self.seen = r

    # -- the actions
    def act(self, c):
        getattr(self, "do_" + c["do"])(c)

    def do_type(self, c):
        self.type = c["value"]
        self.controls = options(self.meta[self.type], None, "page")
        self.vague = self.vague or self.orig is not None
        self.settle(self.send(c), imports=[])

    def do_example(self, c):
        ex = self.meta[self.type]["examples"][int(c["value"])] if c["value"] != "" else None
        if ex is not None:
            self.controls = options(self.meta[self.type], ex.get("config"), "page")
        r = self.send(c)
        if ex is None:
            self.vague = True
            if not r["opened"]:
                self.fail("no example is chosen, and the board is not a new one")
            return self.settle(r, imports=[])
        if len(r["imported"]) != 1:
            self.fail(f"{self.type}: example {c['value']} is brought to the board {len(r['imported'])} times")
        got = r["imported"][0]
        ok = got.partition("#")[2] == ex["data"] if "data" in ex else got.partition("p?")[2].partition("/")[2] == ex["url"].partition("p?")[2].partition("/")[2]
        if not ok:
            self.fail(f"{self.type}: example {c['value']} brings {got[:120]} to the board")
        self.orig, self.vague = got, False
        self.settle(r)

    def do_draw(self, c):
        self.draw(c["value"])

    def do_set(self, c):
        self.controls[c["key"]] = c["value"]
        self.settle(self.send(c))

    def do_solve(self, c):
        if self.phase == "shown":
            self.k = (self.k + 1) % len(self.sols)
            self.met.add("next")
            return self.settle(self.send(c), loads=[self.sols[self.k]], imports=[])
        before = self.content
        r = self.send(c)
        if self.type is None:
            if not r["alerts"]:
                self.fail("no type is chosen, and nothing is said about it")
            return self.settle(r, imports=[], quiet=False)
        if len(r["requests"]) == 1:
            q = r["requests"][0]
            if (q["name"], q["puzzle"]) != (self.type, before):
                self.fail(f"asks to solve {q['puzzle']} as {q['name']}, the board is {before}, the type is {self.type}")
            mine = {k: v for k, v in (q["param"] or {}).items() if k in self.controls}
            if mine != self.controls:
                self.fail(f"{self.type}: asks with the options {mine}, they show {self.controls}")
        self.orig, self.vague = "./penpa-edit/#" + before, False
        plan = c["plan"]
        bad = plan.get("prepare") or plan.get("generate")
        if self.side == "browser" and bad:
            self.phase = "failed"
            self.met.add("refused")
            if not any(bad in a for a in r["alerts"]):
                self.fail(f"the board is refused ({bad}), the page says {r['alerts']}")
            return self.settle(r, 1, imports=[], quiet=False)
        self.phase = "pending"
        self.open.append(True)
        self.settle(r, 1, imports=[])

    def do_deliver(self, c):
        live = self.open.pop(c["index"])
        r = self.send(c)
        how, ans = c["how"], c["answers"]
        if not live:
            self.met.add("late")
            return self.settle(r, imports=[])
        if ans:
            self.phase, self.sols, self.k = "shown", ans, 0
            self.met.add("shown")
            return self.settle(r, loads=ans[:1], imports=[])
        self.phase = "failed"
        self.met.add("failed")
        if not any(c["say"] in a for a in r["alerts"]):
            self.fail(f"{c['say'] or how}: the page says {r['alerts']}")
        self.settle(r, imports=[], quiet=False)

    def do_reset(self, c):
        r = self.send(c)
        self.phase, self.sols = "idle", []
        self.open = [False] * len(self.open)
        if self.orig is None or self.vague:
            if r["imported"] and not (self.vague and r["imported"] == [self.orig]):
                self.fail(f"Reset brings {r['imported']} to the board")
            if not r["imported"] and not r["opened"]:
                self.fail("Reset leaves the board as it is")
        elif r["imported"] != [self.orig]:
            self.fail(f"Reset brings {r['imported'] or 'an empty board'} to the board, not {self.orig[:150]}")
        self.orig, self.vague = None, False
        self.settle(r)


# ------------------------------------------------------------------------------------------------------------------ histories
def response(d, side, count):
    """(what comes back, the answers in it, what must be said)"""
    k = d.int(0, 9)
    if k <= 5:
        n = d.choice([1, 2, 2, 3, 9, 10, 10])
        ans = [f"m=edit&p=answer{count}.{i}" for i in range(n)]
        if side == "server":
            return dict(status=200, body=json.dumps({"url": ans})), ans, ""
        return dict(result={"Result": "SATISFIABLE", "Time": {"Total": 0.1}, "Call": [{"Witnesses": [{"Value": [x, "x"]} for x in ans]}]}), [f"link:{x} x" for x in ans], ""
    if k == 6:
        if side == "server":
            return dict(status=200, body=json.dumps({"url": []})), [], "No solution found."
        return dict(result={"Result": "UNSATISFIABLE", "Time": {"Total": 0.1}, "Call": [{}]}), [], "No solution found."
    if side == "browser":
        return dict(result={"Result": "ERROR", "Error": "no."}), [], "Clingo program error."
    if k == 7:
        t = f"Clue at ({d.int(0, 9)}, 1) should be integer."
        return dict(status=d.choice([400, 500]), body=json.dumps({"detail": t})), [], t
    if k == 8:
        return dict(status=504, body=json.dumps({"detail": "Time limit exceeded."})), [], "Time limit exceeded."
    return dict(fail=True), [], "Failed to fetch"


def choose(d, p, names, types, count):
    """The next action, among those the page offers."""
    r = p.seen or {"locked": [], "disabled": False}
    acts = ["draw"]
    if "type" not in r["locked"]:
        acts += ["type"] * (6 if p.type is None else 2)
    if p.type and "example" not in r["locked"]:
        acts += ["example"] * 2
    if not r["disabled"]:
        acts += ["solve"] * (5 if p.type else 1)
    if p.open:
        acts += ["deliver"] * (5 if p.phase == "pending" else 3)
    acts += ["reset"] * (4 if p.phase in ("shown", "failed") else 2 if p.phase == "pending" else 1)
    if p.controls and p.phase == "idle":
        acts += ["set"] * 2
    a = d.choice(acts)
    if a == "draw":
        return {"do": a, "value": board(d, names)}
    if a == "type":
        return {"do": a, "value": d.choice(types)}
    if a == "example":
        n = len(p.meta[p.type]["examples"])
        return {"do": a, "value": d.choice([str(i) for i in range(n)] + ([""] if d.chance(1, 4) else []))}
    if a == "set":
        k = d.choice(sorted(p.controls))
        par = p.meta[p.type]["parameters"][k]
        v = d.chance(1, 2) if par["type"] == "checkbox" else str(d.int(0, 12)) if par["type"] == "number" else \
            d.choice(list(par["default"])) if par["type"] == "select" else d.choice(["ABC", "AB", "1"])
        return {"do": a, "key": k, "value": v}
    if a == "solve":
        plan = {}
        if d.chance(1, 8):
            plan = {d.choice(["prepare", "generate"]): f"Clue at ({d.int(0, 9)}, 2) is odd."}
        return {"do": a, "plan": plan}
    if a == "deliver":
        how, ans, say = response(d, p.side, count)
        return {"do": a, "index": d.int(0, len(p.open) - 1), "how": how, "answers": ans, "say": say}
    return {"do": a}


def units(tier):
    n = 160 if tier == "quick" else 4000
    return [dict(id=f"{side}-{i}", group=side, side=side, examples=n) for side in ("server", "browser") for i in range(4)]


def prefork(units_):
    if not _T:
        build()


def ready():
    if not _T:
        build()
    if _T["built"] or _T["err"]:
        return False            # C21 says so
    return True


def body(unit):
    meta = json.loads(json.dumps(env.load().list_solver_metadata()))
    names = sorted(k for k in meta if k.isalnum())
    with_options = sorted(k for k in meta if meta[k]["parameters"])

    def run(d, rec):
        if not ready():
            rec.done(False, label="no page")
            return
        steps = []
        try:
            p = Play(unit["side"], meta)
        except Gone:
            rec.done(False, label="no page")
            return
        types = d.sample(sorted(meta), 2) + d.sample(with_options, 2)
        rec.set(dict(side=unit["side"], steps=steps))
        try:
            for i in range(d.int(4, 26)):
                c = choose(d, p, names, types, i)
                steps.append(c)
                rec.set(dict(side=unit["side"], steps=steps))
                p.act(c)
        except Gone:
            rec.done(False, label="no page")
            return
        finally:
            p.page.stop()
        rec.done(bool(p.met), key=json.dumps(steps), label="+".join(sorted(p.met)) or "nothing met")
    return run


def replay(rp):
    env.load()
    ready()
    p = Play(rp["case"]["side"], json.loads(json.dumps(env.load().list_solver_metadata())))
    try:
        for c in rp["case"]["steps"]:
            p.act(c)
    finally:
        p.page.stop()
