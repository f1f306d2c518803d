"""C21: solving in the browser gives the same answers as solving on the server."""
import json
import os
import re
import select
import shutil
import subprocess
import sys
import tempfile
from collections import Counter

from .. import env, shipped
from ..core import Case, Violation, observed
from ..penpa import Board
from ..server import Server, _die_with_parent, scratch_copy
from .c11 import broken
from .c20 import options
from .exact import registry

PROPERTY = "C21"
RULE = ("The deployment files are built with main.py -D in a copy of the tree. The shipped Python files run in a process without installed "
        "packages, as PyScript would run them; the page's own scripts (app.js ...) run in node with stand-ins for the DOM and penpa-edit; clingo "
        "runs as a separate program with the options the page passes. Generated boards of every type (legal, rejected and damaged ones) and shipped examples "
        "(for the direct calls also incomplete requests) with options as the page's controls give them are solved by the page in browser mode, by direct calls of its three Python functions, by the page "
        "in server mode over HTTP, and by the server in-process: same set of answers, or an error with the same explanation. Non-trivial: an answer "
        "or a rejection with an explanation.")
OPTS = "--sat-prepro --trans-ext=dynamic --eq=1 --project=show --models=10"
_T = {}


class Gone(Exception):
    """The stand-in page cannot run these scripts."""


# ------------------------------------------------------------------------------------------------------------- deployment
def build():
    tree = scratch_copy()
    r = subprocess.run([sys.executable, "main.py", "-D"], cwd=tree, capture_output=True, text=True, timeout=300,
                       env={**os.environ, "PYTHONPATH": env.SITE, "PYTHONDONTWRITEBYTECODE": "1"})
    _T.update(tree=tree, built=r.returncode, log=r.stderr[-400:], page=os.path.join(tree, "dist", "page", "penpa-edit"))
    _T["fs"] = os.path.join(os.path.dirname(tree), "fs")
    os.makedirs(_T["fs"], exist_ok=True)
    try:
        with open(os.path.join(_T["page"], "pyscript.json"), encoding="utf-8") as f:
            conf = json.load(f)
        for src, dst in conf.get("files", {}).items():
            to = os.path.join(_T["fs"], dst)
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copy(os.path.join(_T["page"], src), to)
        shutil.copy(os.path.join(_T["page"], "main_deploy.py"), _T["fs"])
        _T["err"] = None
    except Exception as e:  # noqa: BLE001
        _T["err"] = f"{type(e).__name__}: {e}"


def prefork(units_):
    if not _T:
        build()


def bundle_check():
    """The files made for the browser are complete."""
    if not _T:
        build()
    if _T["built"] != 0:
        raise Violation(f"building the browser files ends with status {_T['built']}: {_T['log']}")
    if _T["err"]:
        raise Violation(f"a file the browser needs is not shipped: {_T['err']}")
    page = _T["page"]
    with open(os.path.join(page, "index.html"), encoding="utf-8") as f:
        html = f.read()
    for ref in re.findall(r"""(?:src|href)=["']\./([^"'#?]+)["']""", html):
        if not os.path.exists(os.path.join(page, ref)):
            raise Violation(f"the page refers to {ref}, which is not shipped")
    with open(os.path.join(page, "prepare_deployment.js"), encoding="utf-8") as f:
        text = f.read()
    for ref in re.findall(r"""["']\./([\w./-]+\.(?:js|py|json|css))["']""", text):
        if not os.path.exists(os.path.join(page, ref)):
            raise Violation(f"the page loads {ref}, which is not shipped")
    if not os.path.exists(os.path.join(page, "..", "index.html")):
        raise Violation("the start page is not shipped")
    with open(os.path.join(page, "solver_metadata.js"), encoding="utf-8") as f:
        meta = json.loads(f.read().partition("=")[2].strip().rstrip(";"))
    want = json.loads(json.dumps(env.load().list_solver_metadata()))
    if meta != want:
        raise Violation(f"the page in the browser is told other metadata than the solvers declare: {sorted(k for k in {*meta, *want} if meta.get(k) != want.get(k))[:5]}")
    py = python()
    if py.meta != want:
        raise Violation(f"the solvers loaded in the browser are not those of the server: {sorted(k for k in {*py.meta, *want} if py.meta.get(k) != want.get(k))[:5]}")
    for side, folder, deployed in (("browser", page, True), ("server", os.path.join(_T["tree"], "penpa-edit"), False)):
        try:
            got = Page(folder, None)
        except Gone:
            continue
        types = sorted(c["value"] for grp in got.types for c in grp.get("choices", []))
        got.stop()
        if types != sorted(want):
            raise Violation(f"the page ({side}) offers other puzzle types than there are: {sorted(set(types) ^ set(want))[:5]}")
        if deployed != any("pyscript" in x for x in got.scripts):
            raise Violation(f"the page on the {side} {'does not load' if deployed else 'loads'} PyScript")


# -------------------------------------------------------------------------------------------------------------- processes
class Python:
    def __init__(self):
        self.p = subprocess.Popen([sys.executable, "-I", "-S", os.path.join(env.VERIF, "vf", "browser.py")], cwd=_T["fs"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=_die_with_parent)
        first = json.loads(self.p.stdout.readline() or '{"dead": "no output"}')
        if "dead" in first:
            raise Violation(f"the Python side of the page does not start in the browser: {first['dead']}")
        self.meta = first["meta"]
        missing = {"prepare_puzzle", "generate_program", "store_solution"} - set(first["ready"])
        if missing:
            raise Violation(f"the page does not get the functions {sorted(missing)}")

    def call(self, name, args):
        self.p.stdin.write(json.dumps(dict(call=name, args=args)) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


def python():
    if "python" not in _T or _T.get("pid") != os.getpid():
        if _T.get("err") or _T.get("built"):
            raise Violation(f"the browser files are not complete: {_T['err'] or _T['log']}")
        _T.update(python=Python(), pid=os.getpid())
    return _T["python"]


def run_clingo(program, options):
    """clingo as the page's worker calls it."""
    with tempfile.NamedTemporaryFile("w", suffix=".lp", encoding="utf-8") as f:
        f.write(program)
        f.flush()
        try:
            r = subprocess.run([sys.executable, "-m", "clingo", "--outf=2", *str(options).split(), f.name], capture_output=True, text=True, timeout=25,
                               env={**os.environ, "PYTHONPATH": env.SITE})
        except subprocess.TimeoutExpired:
            raise TimeoutError from None
    try:
        out = json.loads(r.stdout)
    except ValueError:
        return {"Result": "ERROR", "Error": r.stderr}
    return out


class Page:
    """The page's scripts in node."""

    def __init__(self, folder, server):
        self.server = server
        r3, w3 = os.pipe()
        r4, w4 = os.pipe()
        cmd = ["node", os.path.join(env.VERIF, "vf", "page.js"), folder, str(w3), str(r4)]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=(w3, r4),
                                  preexec_fn=_die_with_parent, text=True)
        os.close(w3)
        os.close(r4)
        self.inp = os.fdopen(r3, "r", encoding="utf-8")
        self.out = os.fdopen(w4, "w", encoding="utf-8")
        first = self.read()
        if "ready" not in first:
            raise Gone
        self.types, self.scripts = first["ready"]["types"], first["ready"]["deployed"]

    def read(self):
        if not select.select([self.inp], [], [], 60)[0]:
            raise Gone
        line = self.inp.readline()
        if not line:
            raise Gone
        return json.loads(line)

    def do(self, cmd):
        self.p.stdin.write(json.dumps(cmd) + "\n")
        self.p.stdin.flush()
        timeout = False
        while True:
            m = self.read()
            if "broken" in m:
                raise Gone
            if "done" in m:
                if timeout:
                    raise TimeoutError
                return m["done"]
            try:
                if "clingo" in m:
                    a = {"value": run_clingo(*m["clingo"])}
                elif "fetch" in m:
                    status, _, raw = self.server.post(m["body"], path=m["fetch"], method=m["method"])
                    timeout = timeout or status == 504
                    a = {"value": dict(status=status, body=raw.decode())}
                else:
                    a = python().call(m["call"], m["args"])
            except TimeoutError:
                timeout = True
                a = {"raised": "stop"}
            self.out.write(json.dumps(a) + "\n")
            self.out.flush()

    def stop(self):
        self.p.kill()
        self.p.wait()
        for f in (self.inp, self.out, self.p.stdin):
            try:
                f.close()
            except OSError:
                pass


def page(side):
    key = ("page", side, os.getpid())
    if _T.get(key) is None:
        srv = None
        if side == "server":
            srv = Server(_T["tree"]).start()
        _T[key] = Page(_T["page"] if side == "browser" else os.path.join(_T["tree"], "penpa-edit"), srv)
    return _T[key]


# --------------------------------------------------------------------------------------------------------------- relations
def server_side(req, limit=10):
    """What the server gives: (kind, payload)."""
    try:
        return "answers", env.solve(req["name"], req["link"], json.loads(json.dumps(req["param"])), limit, 20)
    except TimeoutError:
        raise
    except ValueError as e:
        return "rejected", str(e)
    except Exception as e:  # noqa: BLE001
        return "failed", f"{type(e).__name__}: {e}"


def same_answers(req, want, got, how):
    case = Case(req["name"], Board(1, 1))
    a = Counter(observed(case, u)[0] for u in want)
    b = Counter(observed(case, u)[0] for u in got)
    if len(want) < 10 and a != b or len(want) != len(got):
        raise Violation(f"{req['name']}: the server gives {len(want)} answers, {how} gives {len(got)}" + (" (other ones)" if len(want) == len(got) else ""))
    if len(want) >= 10 and a != b:
        _, full = server_side(req, 400)
        if len(full) < 400:
            bad = set(b) - {observed(case, u)[0] for u in full}
            if bad:
                raise Violation(f"{req['name']}: {how} gives an answer the server does not have")


def direct(req, opts=OPTS):
    """The three functions of the page, called like app.js does."""
    py = python()

    def call(name, *args):
        r = py.call(name, list(args))
        if "raised" in r:
            raise Violation(f"{req['name']}: {name} of the page lets an exception out: {r['raised'][:150]}")
        v = r["value"]
        if set(v) != {"success", "result"} or not isinstance(v["success"], bool):
            raise Violation(f"{req['name']}: {name} of the page returns {str(v)[:150]}")
        return v["success"], v["result"]
    ok, puzzle = call("prepare_puzzle", req["name"], req["link"], req["param"])
    if not ok:
        return "rejected", puzzle
    ok, program = call("generate_program", puzzle)
    if not ok:
        return "rejected", program
    res = run_clingo(program, opts)
    if res["Result"] in ("ERROR", "UNKNOWN"):
        return "failed", str(res.get("Error"))
    out = []
    for w in res["Call"][0].get("Witnesses", []):
        ok, link = call("store_solution", puzzle, " ".join(w["Value"]))
        if not ok:
            return "failed", link
        out.append(link)
    return "answers", out


def direct_check(req):
    kind, want = server_side(req)
    k2, got = direct(req)
    compare(req, kind, want, k2, got, "the browser's Python side")
    return kind


def compare(req, kind, want, k2, got, how):
    if kind == "failed":                      # an error nobody explained: must not look like an answer
        if k2 == "answers":
            raise Violation(f"{req['name']}: the server fails ({want[:100]}), {how} gives {len(got)} answers")
        return
    if kind != k2:
        raise Violation(f"{req['name']}: the server gives {f'{len(want)} answers' if kind == 'answers' else want[:100]!r}, {how} "
                        f"{f'gives {len(got)} answers' if k2 == 'answers' else f'says {str(got)[:100]!r}'}")
    if kind == "rejected":
        if got != want:
            raise Violation(f"{req['name']}: the server explains {want[:100]!r}, {how} {str(got)[:100]!r}")
    else:
        same_answers(req, want, got, how)


def page_check(req, side):
    """A click on 'Solve'. req: name, link, set (options the user sets) or example (index)."""
    p = page(side)
    res = p.do(dict(name=req["name"], content=req["link"], set=req.get("set"), example=req.get("example")))
    how = f"the page in {side} mode"
    kind, want = server_side(req)
    sent = [x for x in res["sent"] if x is not None]
    for got in sent[:1]:
        mine = {k: v for k, v in got.items() if k in req["param"]}   # further ones, of a type chosen before, are not read
        if mine != req["param"]:
            raise Violation(f"{req['name']}: {how} asks with the options {mine}, its controls show {req['param']}")
    texts = [a["text"] for a in res["alerts"]]
    if texts:
        if kind == "answers" and not want:
            if not any("No solution" in t for t in texts):
                raise Violation(f"{req['name']}: no answer exists, {how} says {texts[0][:100]!r}")
            return kind
        if side == "server" and kind == "failed":
            return kind
        compare(req, kind, want, "rejected", texts[0], how)
        return kind
    loads = res["loads"]
    if res["cycled"]:
        if loads[-1] != loads[0]:
            raise Violation(f"{req['name']}: {how} does not come back to the first answer")
        loads = loads[:-1]
    compare(req, kind, want, "answers", loads, how)
    if res["label"] != f"Solution (1/{'10+' if len(loads) == 10 else len(loads)})" and res["cycled"] is False:
        raise Violation(f"{req['name']}: {how} shows {res['label']!r} for {len(loads)} answers")
    return kind


# -------------------------------------------------------------------------------------------------------------------- units
def typed(name, param):
    """Options as the controls of the page give them."""
    meta = env.load().list_solver_metadata()[name]
    return {**options(meta, None, "page"), **{k: v if isinstance(v, bool) else str(v) for k, v in param.items() if k in meta["parameters"]}}


def incomplete(d, name):
    """A request no control of the page makes: an option missing or of another kind, an unknown type, a damaged link."""
    case = registry()[name].gen(d)
    r = broken(d, case)
    p = typed(name, r["param"])
    if p and d.chance(2, 3):
        k = d.choice(sorted(p))
        if d.chance(1, 2):
            del p[k]
        else:
            p[k] = d.choice([None, "", "x", 0, -1, 1.5, True, [], {}])
    try:
        r["link"].encode()
    except UnicodeEncodeError:
        return None
    return dict(name=r["name"], link=r["link"], set=p, param=p)


def request(d, name):
    model = registry()[name]
    mine = [(i, link, ex) for n, i, link, _, ex in shipped.examples() if n == name and ex.get("test", True)]
    meta = env.load().list_solver_metadata()[name]
    if mine and d.chance(1, 5):
        i, link, ex = d.choice(mine)
        return dict(name=name, link=link, example=i, param=options(meta, ex.get("config"), "page"))
    case = model.gen(d)
    if d.chance(1, 6):
        r = broken(d, case)
        if r["name"] == name and set(r["param"]) == set(meta["parameters"]):
            try:
                r["link"].encode()
                p = typed(name, r["param"])
                return dict(name=name, link=r["link"], set=p, param=p)
            except UnicodeEncodeError:
                pass
    from . import c13
    if d.chance(1, 4) and c13.tables()[name]:
        c2 = Case.from_json(case.to_json())
        if d.choice(c13.tables()[name])[1](d, c2) is not False and not (name in c13.OPTION and c2.param != case.param):
            case = c2
    p = typed(name, case.param)
    return dict(name=name, link=case.url(), set=p, param=p)


def units(tier):
    n = 24 if tier == "quick" else 260
    us = [dict(id=f"{name}", group=m.cat, name=name, kind="browser", examples=max(8, int(n * min(1, m.weight))), cost=m.weight)
          for name, m in sorted(registry().items())]
    us.append(dict(id="bundle", group="bundle", kind="bundle", examples=1, cost=1))
    us += [dict(id=f"http-{i}", group="http", kind="http", examples=n * 4, cost=4) for i in range(4)]
    return us


def one(req, how):
    if how == "direct":
        return direct_check(req)
    try:
        return page_check(req, how)
    except Gone:
        for k in [k for k in _T if isinstance(k, tuple) and k[1] == how]:
            _T.pop(k).stop()
        return "page not usable"


def body(unit):
    def bundle(d, rec):
        rec.set(dict(bundle=True))
        bundle_check()
        rec.done(True, label="bundle")

    def run(d, rec):
        name = unit.get("name") or d.choice(sorted(registry()))
        how = "server" if unit["kind"] == "http" else d.choice(["direct", "browser"])
        req = incomplete(d, name) if how == "direct" and d.chance(1, 5) else None
        req = req or request(d, name)
        rec.set(dict(req=req, how=how))
        kind = one(req, how)
        rec.done(kind in ("answers", "rejected"), label=f"{how}: {kind}")
    return bundle if unit["kind"] == "bundle" else run


def replay(rp):
    env.load()
    if not _T:
        build()
    c = rp["case"]
    if "bundle" in c:
        bundle_check()
    else:
        one(c["req"], c["how"])
