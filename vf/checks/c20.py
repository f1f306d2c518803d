"""C20: every puzzle type is served under its own name with usable metadata."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile

from .. import env, shipped
from ..core import Case, Violation
from ..penpa import Board
from ..server import Server, scratch_copy
from .c22 import STANDARD, refused
from .exact import registry

PROPERTY = "C20"
RULE = ("(a) Generated solver folders: the real solver files plus 0..4 generated ones (names, titles, options, examples, class "
        "names), loaded in a fresh process after a random order of imports; every file must be served under its own name, with the metadata it "
        "declares and its own program. (b) Every type of the real folder: titles, categories, aliases, option types and defaults, example boards "
        "are well-formed and unambiguous; every example is accepted with its options in the form the page sends them or as advertised, and the "
        "tested ones have an answer. (c) Generated boards are accepted with the advertised defaults. (d) The real server: metadata file and every "
        "name. Non-trivial: a folder with a generated file; an example or board that is accepted.")
CATEGORIES = {"shade", "loop", "region", "num", "var"}
TYPES = {"number": (int, str), "text": (str,), "checkbox": (bool,), "select": (dict,)}
_TREE = []
_SERVER = []
CHILD = """
import importlib, json, sys
sys.dont_write_bytecode = True
spec = json.load(sys.stdin)
sys.path.insert(0, ".")
sys.path.append(spec["site"])
from noqx import manager
for x in spec["first"]:
    importlib.import_module("solver." + x)
manager.load_solvers("solver")
own = {}
for x in spec["own"]:
    try:
        own[x] = manager.generate_program(manager.prepare_puzzle(x, spec["link"], {}))
    except Exception as e:
        own[x] = f"{type(e).__name__}: {e}"
print(json.dumps(dict(meta=manager.list_solver_metadata(), own=own)))
"""


def prefork(units_):
    _TREE.append(scratch_copy())


# ---------------------------------------------------------------------------------------------------- (a) generated folders
def real_files():
    return sorted(f[:-3] for f in os.listdir(os.path.join(env.REPO, "solver")) if f.endswith(".py") and not f.startswith("__") and has_class(f))


def has_class(f):
    """A file without classes is a helper of solvers, not a solver."""
    with open(os.path.join(env.REPO, "solver", f), encoding="utf-8") as h:
        return any(isinstance(x, ast.ClassDef) and x.bases for x in ast.parse(h.read()).body)


def word(d, alphabet, lo, hi):
    return "".join(d.choice(alphabet) for _ in range(d.int(lo, hi)))


def plugin(d, taken):
    x = d.choice("abcdefgxyz") + word(d, "abcdefgh_0123", 0, 8)
    if d.chance(1, 4):
        x = d.choice([x + "solver", "solver" + x, "my_solver", "solvers", "noqx", "puzzle", "rule"])
    while x in taken:
        x += "0"
    return dict(file=x, cls=d.choice(["Solver1", "MySolver", x.capitalize() + "Solver"]), name=word(d, "ABCxyz ?!'é", 1, 10), category=d.choice(sorted(CATEGORIES)),
                aliases=[word(d, "abc-", 1, 6) for _ in range(d.int(0, 2))], examples=[{"data": word(d, "m=edit&p", 1, 9)} for _ in range(d.int(0, 2))],
                parameters={word(d, "abc", 1, 4): {"name": word(d, "XYZ ", 1, 5), "type": "number", "default": d.int(0, 9)} for _ in range(d.int(0, 2))})


def source(p):
    keep = "\n".join(f"    {k} = {p[k]!r}" for k in ("name", "category", "aliases", "examples", "parameters"))
    return (f'"""{p["file"]}."""\nfrom noqx.manager import Solver\n\n\nclass {p["cls"]}(Solver):\n{keep}\n\n    def solve(self, puzzle):\n'
            f'        self.reset()\n        self.add_program_line("made_by({p["file"]!r}).")\n        return self.program\n')


def declared(name):
    """Metadata written as plain values in the file of a solver."""
    with open(os.path.join(env.REPO, "solver", name + ".py"), encoding="utf-8") as f:
        tree = ast.parse(f.read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.ClassDef):
            for st in node.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    k = st.targets[0].id
                    if k in ("name", "category", "aliases", "examples", "parameters"):
                        if k in out:
                            return {}
                        try:
                            out[k] = ast.literal_eval(st.value)
                        except ValueError:
                            out[k] = None
    return {k: v for k, v in out.items() if v is not None}


def folder_check(spec):
    tree = _TREE[0] if _TREE else env.REPO
    top = tempfile.mkdtemp(prefix="vf_c20_")
    try:
        os.symlink(os.path.join(tree, "noqx"), os.path.join(top, "noqx"))
        os.mkdir(os.path.join(top, "solver"))
        for extra in ("__init__.py",):
            if os.path.exists(os.path.join(tree, "solver", extra)):
                shutil.copy(os.path.join(tree, "solver", extra), os.path.join(top, "solver", extra))
        for x in os.listdir(os.path.join(tree, "solver")):
            if x.endswith(".py") and not os.path.exists(os.path.join(top, "solver", x)):
                os.symlink(os.path.join(tree, "solver", x), os.path.join(top, "solver", x))
        for p in spec["new"]:
            with open(os.path.join(top, "solver", p["file"] + ".py"), "w", encoding="utf-8") as f:
                f.write(source(p))
        own = [p["file"] for p in spec["new"]]
        inp = dict(site=env.SITE, first=spec["first"], own=own, link=Board(2, 2).encode())
        r = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(inp), cwd=top, capture_output=True, text=True, timeout=120,
                           env={**os.environ, "PYTHONPATH": ""})
        if r.returncode:
            raise Violation(f"the solvers cannot be loaded from the folder: {r.stderr.strip().splitlines()[-1][:200] if r.stderr else r.returncode}")
        got = json.loads(r.stdout)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    want = set(spec["real"]) | set(own)
    if set(got["meta"]) != want:
        raise Violation(f"solver files {sorted(want - set(got['meta']))[:5]} are not served under their names; served instead: "
                        f"{sorted(set(got['meta']) - want)[:5]}")
    for p in spec["new"]:
        m = got["meta"][p["file"]]
        for k in ("name", "category", "aliases", "examples", "parameters"):
            if m.get(k) != p[k]:
                raise Violation(f"solver file {p['file']!r}: metadata {k} is {m.get(k)!r}, the file says {p[k]!r}")
        if "made_by(" not in got["own"][p["file"]] or repr(p["file"]) not in got["own"][p["file"]]:
            raise Violation(f"solver file {p['file']!r}: a request under its name gives {got['own'][p['file']]!r:.150}")
    for x in spec["real"]:
        for k, v in declared(x).items():
            if got["meta"][x].get(k) != json.loads(json.dumps(v)):
                raise Violation(f"{x}: metadata {k} is not the one of its solver file: {got['meta'][x].get(k)!r:.150}")


def folders(unit):
    files = real_files()

    def run(d, rec):
        real = files
        new = []
        for _ in range(d.int(0, 4)):
            new.append(plugin(d, set(files) | {p["file"] for p in new}))
        pool = list(real) + [p["file"] for p in new]
        first = d.sample(pool, min(len(pool), d.int(0, 5)))
        spec = dict(real=real, new=new, first=first)
        rec.set(dict(folder=spec))
        folder_check(spec)
        rec.done(bool(new), label="folder")
    return run


# ------------------------------------------------------------------------------------------------------- (b) real metadata
def wellformed(meta):
    seen = {}
    for name, m in meta.items():
        def bad(msg):
            raise Violation(f"{name}: {msg}")       # noqa: B023
        if set(m) != {"name", "category", "aliases", "examples", "parameters"}:
            bad(f"metadata has the fields {sorted(m)}")
        if not isinstance(m["name"], str) or not m["name"].strip() or m["name"] == "Unknown":
            bad(f"title {m['name']!r}")
        if m["category"] not in CATEGORIES:
            bad(f"category {m['category']!r} is not one the page knows")
        if not isinstance(m["aliases"], list) or not all(isinstance(a, str) and a.strip() for a in m["aliases"]):
            bad(f"aliases {m['aliases']!r}")
        for a in {name, m["name"].lower(), *(a.lower() for a in m["aliases"])}:
            if seen.setdefault(a, name) != name:
                bad(f"shares the name or alias {a!r} with {seen[a]}")
        if not isinstance(m["parameters"], dict):
            bad("options are not a table")
        for k, p in m["parameters"].items():
            if set(p) != {"name", "type", "default"} or p["type"] not in TYPES or not isinstance(p["name"], str) or not p["name"].strip():
                bad(f"option {k!r} is declared as {p!r}")
            if not isinstance(p["default"], TYPES[p["type"]]) or isinstance(p["default"], bool) != (p["type"] == "checkbox"):
                bad(f"option {k!r} of type {p['type']} has the default {p['default']!r}")
            if p["type"] == "number" and isinstance(p["default"], str) and p["default"].strip() and not p["default"].strip().isdigit():
                bad(f"option {k!r} of type number has the default {p['default']!r}")
        if not m["examples"]:
            bad("no example")
        for i, ex in enumerate(m["examples"]):
            if set(ex) - {"data", "url", "config", "test"} or ("data" in ex) == ("url" in ex) or not isinstance(ex.get("test", True), bool):
                bad(f"example {i + 1} has the fields {sorted(ex)}")
            if not isinstance(ex.get("data", ""), str) or not str(ex.get("data", "m=edit&p=")).startswith("m=edit&p="):
                bad(f"example {i + 1} is not a board link")
            if not str(ex.get("url", "http://")).startswith(("https://", "http://")):
                bad(f"example {i + 1} is not a web link")
            for k, v in ex.get("config", {}).items():
                if k not in m["parameters"]:
                    bad(f"example {i + 1} sets the option {k!r}, which does not exist")
                p = m["parameters"][k]
                if p["type"] == "select" and v not in p["default"] or p["type"] == "checkbox" and not isinstance(v, bool):
                    bad(f"example {i + 1} sets the option {k!r} to {v!r}")


def options(m, config, form):
    """Option values as advertised ('raw') or as the page sends them ('page')."""
    out = {}
    for k, p in m["parameters"].items():
        v = (config or {}).get(k, p["default"])
        if isinstance(v, dict):
            v = next(iter(v))
        out[k] = v if form == "raw" or p["type"] == "checkbox" else str(v)
    return out


def example_check(name, i, form):
    m = env.load().list_solver_metadata()[name]
    ex = m["examples"][i]
    param = options(m, ex.get("config"), form)
    what = f"{name}: example {i + 1} with options {param}"
    try:
        if ex.get("test", True):
            n = len(env.solve(name, ex["data"], param, 2, 60))
        else:
            n = 1
            env.load().generate_program(env.load().prepare_puzzle(name, ex["data"], param))
    except TimeoutError:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what} is not accepted: {type(e).__name__}: {str(e)[:150]}") from None
    if n != 1:
        raise Violation(f"{what} has {n} answers")


def defaults_check(case, form):
    """A legal board is accepted with the advertised defaults."""
    name = case.name
    param = options(env.load().list_solver_metadata()[name], None, form)
    if refused(Case(name, case.board, STANDARD[name])):
        return False
    try:
        env.load().generate_program(env.load().prepare_puzzle(name, case.url(), param))
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{name}: a legal board with the advertised defaults {param} is not accepted: {type(e).__name__}: {str(e)[:150]}") from None
    return True


# ------------------------------------------------------------------------------------------------------------- (d) server
def served_meta():
    import http.client
    c = http.client.HTTPConnection("127.0.0.1", server().port, timeout=60)
    c.request("GET", "/penpa-edit/solver_metadata.js")
    r = c.getresponse()
    text = r.read().decode()
    c.close()
    head, _, rest = text.partition("=")
    if r.status != 200 or head.split() != ["const", "solver_metadata"] or not rest.strip().endswith(";"):
        raise Violation(f"the page gets no metadata: status {r.status}, {text[:100]!r}")
    try:
        return json.loads(rest.strip()[:-1])
    except ValueError as e:
        raise Violation(f"the metadata of the page cannot be read: {e}") from None


def server():
    if not _SERVER:
        _SERVER.append(Server(_TREE[0] if _TREE else scratch_copy()).start())
    return _SERVER[0]


def served_check(name, i):
    meta = served_meta()
    want = json.loads(json.dumps(env.load().list_solver_metadata()))
    if meta != want:
        raise Violation(f"the page is told other metadata than the solvers declare: {sorted(k for k in {*meta, *want} if meta.get(k) != want.get(k))[:5]}")
    if set(meta) != set(real_files()):
        raise Violation(f"solver files and served names differ: {sorted(set(meta) ^ set(real_files()))[:5]}")
    ex = meta[name]["examples"][i]
    body = json.dumps(dict(puzzle_name=name, puzzle=ex["data"], param=options(meta[name], ex.get("config"), "page")))
    status, _, raw = server().post(body)
    if status == 504:
        raise TimeoutError
    if status != 200 or len(json.loads(raw)["url"]) != 1:
        raise Violation(f"{name}: example {i + 1} over HTTP: status {status}, {raw[:150]!r}")


# -------------------------------------------------------------------------------------------------------------------- units
def units(tier):
    k = 1 if tier == "quick" else 8
    us = [dict(id=f"folders-{i}", group="folders", kind="folders", examples=40 * k, cost=6) for i in range(4)]
    us.append(dict(id="metadata", group="metadata", kind="metadata", examples=1, cost=1))
    us += [dict(id=f"examples-{i}", group="examples", kind="examples", part=i, examples=70, cost=3) for i in range(6)]
    us += [dict(id=f"defaults-{n}", group="defaults", kind="defaults", name=n, examples=60 * k, cost=1) for n in sorted(STANDARD)]
    us += [dict(id="served", group="served", kind="served", examples=60 * k, cost=4)]
    return us


def body(unit):
    kind = unit["kind"]
    if kind == "folders":
        return folders(unit)
    meta = env.load().list_solver_metadata()

    def metadata(d, rec):
        rec.set(dict(metadata=True))
        wellformed(meta)
        if set(meta) != set(real_files()):
            raise Violation(f"solver files and names differ: {sorted(set(meta) ^ set(real_files()))[:5]}")
        if {n for n in meta if meta[n]["parameters"]} != set(STANDARD):
            rec.done(False, label="other options than known")
        rec.done(True, label="metadata")

    todo = [(n, i, f) for n in sorted(meta) for i, ex in enumerate(meta[n]["examples"]) if "data" in ex for f in (("page", "raw") if meta[n]["parameters"] else ("page",))]
    mine = todo[unit.get("part", 0)::6]
    left = list(mine)

    def examples(d, rec):
        if not left:
            left.extend(mine)
        n, i, f = left.pop()
        rec.set(dict(example=[n, i, f]))
        example_check(n, i, f)
        rec.done(True, label="example")

    def defaults(d, rec):
        case = registry()[unit["name"]].gen(d)
        form = d.choice(["page", "raw"])
        rec.set(dict(defaults=case.to_json(), form=form))
        rec.done(defaults_check(case, form), label="defaults")

    def served(d, rec):
        n, i, _ = d.choice([t for t in todo if meta[t[0]]["examples"][t[1]].get("test", True)])
        rec.set(dict(served=[n, i]))
        served_check(n, i)
        rec.done(True, label="served")
    return dict(metadata=metadata, examples=examples, defaults=defaults, served=served)[kind]


def replay(rp):
    env.load()
    c = rp["case"]
    if "folder" in c:
        folder_check(c["folder"])
    elif "example" in c:
        example_check(*c["example"])
    elif "defaults" in c:
        defaults_check(Case.from_json(c["defaults"]), c["form"])
    elif "served" in c:
        served_check(*c["served"])
    else:
        wellformed(env.load().list_solver_metadata())
