"""C25: starts and deployments yield a whole page in the right mode, whatever was run before."""
import http.client
import json
import os
import posixpath
import shutil
import socket
import subprocess
import sys
import tempfile
import time
import urllib.parse

from .. import env
from ..core import Violation
from ..server import _die_with_parent, free_port, scratch_copy
from .c12 import PING, direct
from ..penpa import Board

PROPERTY = "C25"
RULE = ("Histories of 2..7 steps in a copy of the tree: starting the server (any loopback host and port), deployments, both of them also cut off "
        "(killed before any operation on files or in the middle of writing a text), new, changed and deleted solver and page files, left-overs in "
        "the output folder and in generated files, a server that goes on running meanwhile. After each finished step everything the server "
        "serves, or the whole deployment folder and the page's own folder, is compared with what a single start or deployment gives in a fresh copy with the same "
        "sources; scripts are evaluated in node to see the mode. And requests for generated paths (with '..', encoded, "
        "doubled and absolute pieces): only files of the page's folder are served. Non-trivial: a finished step after a cut one or after "
        "a change; a path that leads out of the folder, or to a file.")
CUT = '''
import builtins, json, os, signal, sys
cut = json.loads(os.environ.get("VF_CUT") or "null")
if cut:
    tree = os.getcwd()
    seen = dict(event=0, write=0, after=0)
    real = builtins.open

    def die():
        os.kill(os.getpid(), signal.SIGKILL)

    def inside(p):
        return isinstance(p, (str, os.PathLike)) and os.path.abspath(os.fspath(p)).startswith(tree + os.sep)

    def hook(name, args):
        if name == "open":
            p, mode, flags = args
            if not (inside(p) and (flags & (os.O_WRONLY | os.O_RDWR))):
                return
        elif name not in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "shutil.copyfile") or not inside(args[0]):
            return
        seen["event"] += 1
        if cut["kind"] == "event" and seen["event"] >= cut["n"]:
            die()
        if cut["kind"] == "after" and seen["write"] >= cut["n"]:
            seen["after"] += 1
            if seen["after"] > cut["m"]:
                die()
    sys.addaudithook(hook)

    def opened(file, mode="r", *a, **k):
        f = real(file, mode, *a, **k)
        if "w" in mode and "b" not in mode and inside(file):
            write = f.write

            def cutting(s):
                if not f.__dict__.get("counted"):
                    f.counted = True
                    seen["write"] += 1
                if cut["kind"] == "write" and seen["write"] == cut["n"]:
                    write(s[:int(len(s) * cut["part"])])
                    f.flush()
                    die()
                return write(s)
            f.write = cutting
        return f
    builtins.open = opened
'''
MODE = ('const vm=require("vm"),fs=require("fs");const out=[];const document={createElement:()=>({setAttribute(){}}),head:{appendChild:(e)=>out.push(e.src||e.href||"")},'
        'body:{appendChild:(e)=>out.push(e.src||e.href||"")}};vm.runInNewContext(fs.readFileSync(0,"utf-8"),{document,window:{}});console.log(JSON.stringify(out));')
GENERATED = {"solver_metadata.js", "prepare_deployment.js"}
_SITE, _REF = [], {}


def site():
    if not _SITE:
        top = tempfile.mkdtemp(prefix="vf_cut_")
        with open(os.path.join(top, "sitecustomize.py"), "w", encoding="utf-8") as f:
            f.write(CUT)
        _SITE.append(top)
        import atexit
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(top, ignore_errors=True))
    return _SITE[0]


def prefork(units_):
    site()
    if any(u["group"] == "paths" for u in units_):
        path_tree()


def environ(cut):
    return {**os.environ, "PYTHONPATH": os.pathsep.join((site(), env.SITE)), "PYTHONDONTWRITEBYTECODE": "1", "VF_CUT": json.dumps(cut) if cut else ""}


# ----------------------------------------------------------------------------------------------------------------- the real thing
class Up:
    """A started server."""

    def __init__(self, tree, host="127.0.0.1", cut=None):
        self.host, self.err = host, None
        for _ in range(4):
            self.port = free_port()
            self.log = tempfile.TemporaryFile()
            self.proc = subprocess.Popen([sys.executable, "main.py", "-H", host, "-p", str(self.port)], cwd=tree, env=environ(cut),
                                         stdout=subprocess.DEVNULL, stderr=self.log, preexec_fn=_die_with_parent)
            for _ in range(600):
                if self.proc.poll() is not None:
                    break
                try:
                    socket.create_connection((host, self.port), 1).close()
                    return
                except OSError:
                    time.sleep(0.05)
            self.stop()
            self.log.seek(0)
            self.err = self.log.read()[-300:].decode("utf-8", "replace")
            if cut or "address already in use" not in self.err:
                break

    @property
    def running(self):
        return self.proc is not None

    def stop(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
            self.proc = None

    def ask(self, path, method="GET", body=None):
        c = http.client.HTTPConnection(self.host, self.port, timeout=60)
        try:
            c.request(method, path, body=body, headers={"Content-Type": "application/json"} if body else {})
            r = c.getresponse()
            return r.status, dict((k.lower(), v) for k, v in r.getheaders()), r.read()
        finally:
            c.close()


def deploy(tree, cut=None):
    r = subprocess.run([sys.executable, "main.py", "-D"], cwd=tree, capture_output=True, env=environ(cut), timeout=300)
    return r.returncode, r.stderr[-300:].decode("utf-8", "replace")


def tree_of(top, folder):
    out = {}
    base = os.path.join(top, folder)
    for d, _, names in os.walk(base):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, base)] = meaning(n, f.read())
    return out


def meaning(name, data):
    """Generated files are compared by what they say."""
    try:
        if name.endswith(".json"):
            return json.loads(data)
        if name == "solver_metadata.js":
            return json.loads(data.decode().partition("=")[2].strip().rstrip(";"))
    except ValueError:
        pass
    return data


def mode(script):
    """browser / server, or what is wrong."""
    r = subprocess.run(["node", "-e", MODE], input=script, capture_output=True, timeout=60)
    if r.returncode:
        return "broken"
    return "browser" if any("pyscript" in x for x in json.loads(r.stdout)) else "server"


# ------------------------------------------------------------------------------------------------------------------ the model
def fresh(edits):
    tree = scratch_copy()
    for x in ("penpa-edit/solver_metadata.js", "pyscript.json"):
        if os.path.exists(os.path.join(tree, x)):
            os.remove(os.path.join(tree, x))
    for p, text in edits.items():
        write(tree, p, text)
    return tree


def drop(tree):
    shutil.rmtree(os.path.dirname(tree), ignore_errors=True)


def write(tree, p, text):
    p = os.path.join(tree, p)
    if text is None:
        if os.path.exists(p):
            os.remove(p)
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)


def reference(edits):
    """What one deployment, and one start, give in a fresh copy."""
    key = json.dumps(edits, sort_keys=True)
    if key not in _REF:
        tree = fresh(edits)
        try:
            rc, log = deploy(tree)
            if rc:
                raise Violation(f"a deployment of a fresh copy ends with status {rc}: {log}")
            ref = dict(dist=tree_of(tree, "dist/page"))
        finally:
            drop(tree)
        tree = fresh(edits)
        try:
            up = Up(tree)
            if not up.running:
                raise Violation(f"the server does not start in a fresh copy: {up.err}")
            up.stop()
            ref["page"] = tree_of(tree, "penpa-edit")
        finally:
            drop(tree)
        for where, k, want in (("dist", "penpa-edit/prepare_deployment.js", "browser"), ("page", "prepare_deployment.js", "server")):
            got = mode(ref[where].get(k, b""))
            if got != want:
                raise Violation(f"the page {'of a deployment' if want == 'browser' else 'of a server'} is in {got} mode")
        for k in edits:
            if k.startswith("solver/"):
                n = k[7:-3]
                for what, meta in (("server", ref["page"].get("solver_metadata.js")), ("deployment", ref["dist"].get("penpa-edit/solver_metadata.js"))):
                    if not isinstance(meta, dict) or (n in meta) != (edits[k] is not None):
                        raise Violation(f"{k} {'was added' if edits[k] is not None else 'was deleted'}, the page of the {what} is told otherwise")
        if len(_REF) > 40:
            _REF.clear()
        _REF[key] = ref
    return _REF[key]


def differ(a, b):
    x = sorted(k for k in {*a, *b} if a.get(k) != b.get(k))
    return ", ".join(f"{k} ({'missing' if k not in a else 'left over' if k not in b else 'differs'})" for k in x[:4]) + (f" and {len(x) - 4} more" if len(x) > 4 else "")


def serves(up, refs, what, edits=None):
    """The server serves the page of one of the references."""
    diffs = []
    for ref in refs:
        got = {}
        try:
            for k in ref["page"]:
                st, _, body = up.ask("/penpa-edit/" + urllib.parse.quote(k))
                if st == 200:
                    got[k] = meaning(os.path.basename(k), body)
            st, head, body = up.ask("/penpa-edit/")
            top, h2, _ = up.ask("/")
        except (OSError, http.client.HTTPException) as e:
            raise Violation(f"{what}: the server does not answer: {e}") from None
        if st != 200 or meaning("index.html", body) != ref["page"].get("index.html"):
            diffs.append(f"/penpa-edit/ gives status {st} or another page")
        elif not 300 <= top < 400 or urllib.parse.urlsplit(h2.get("location", "")).path.rstrip("/") != "/penpa-edit":
            diffs.append(f"/ gives status {top}, not the way to the page")
        elif got != ref["page"]:
            diffs.append(differ(got, ref["page"]))
        else:
            break
    else:
        script = up.ask("/penpa-edit/prepare_deployment.js")[2]
        raise Violation(f"{what}: {diffs[0]}; the page is in {mode(script)} mode")
    if edits is not None:
        if PING["puzzle"] is None:
            b = Board(4, 4)
            b.q.number[(0, 0, "C")] = ["1", 1, "1"]
            PING["puzzle"] = b.encode()
            PING["n"] = len(direct(PING)[1])
        names = {"sudoku": True, **{k[7:-3]: v is not None for k, v in edits.items() if k.startswith("solver/")}}
        for n, there in names.items():
            st = up.ask("/api/solve/", "POST", json.dumps(dict(puzzle_name=n, puzzle=PING["puzzle"], param=PING["param"] if n == "sudoku" else {})))[0]
            if there != (st == 200):
                raise Violation(f"{what}: a board of {n} ({'there' if there else 'deleted'}) gets status {st}")


def check(ops):
    """Number of finished steps that follow a cut one or a change."""
    tree = fresh({})
    edits, up, at_start, disturbed, score = {}, None, None, False, 0
    changed = False
    try:
        for i, op in enumerate(ops):
            k = op["op"]
            what = f"step {i + 1} ({k}) after {', '.join(x['op'] for x in ops[:i]) or 'nothing'}"
            if k == "start":
                ref = reference(edits)
                one = Up(tree, op["host"])
                if not one.running:
                    raise Violation(f"{what}: the server does not start on {op['host']}: {one.err}")
                try:
                    if op["host"] not in ("127.0.0.1", "localhost"):
                        try:
                            socket.create_connection(("127.0.0.1", one.port), 1).close()
                            raise Violation(f"{what}: a server for the host {op['host']} is reached at 127.0.0.1 as well")
                        except OSError:
                            pass
                    serves(one, [ref], what, edits)
                    left = tree_of(tree, "penpa-edit")
                    if left != ref["page"]:
                        raise Violation(f"{what}: the page's folder: {differ(left, ref['page'])}")
                finally:
                    if op["keep"] and up is None:
                        up, at_start, disturbed = one, ref, False
                    else:
                        one.stop()
                score += changed
                changed = False
                disturbed = False
            elif k == "deploy":
                rc, log = deploy(tree)
                if rc:
                    raise Violation(f"{what}: ends with status {rc}: {log}")
                ref = reference(edits)
                got = tree_of(tree, "dist/page")
                if got != ref["dist"]:
                    raise Violation(f"{what}: the deployment: {differ(got, ref['dist'])}")
                left = tree_of(tree, "penpa-edit")
                if left != ref["page"]:
                    raise Violation(f"{what}: the page's own folder: {differ(left, ref['page'])}")
                score += changed
                changed = False
            elif k == "cut deploy":
                deploy(tree, op["cut"])
                changed = True
            elif k == "cut start":
                Up(tree, "127.0.0.1", op["cut"]).stop()
                changed = True
            elif k == "edit":
                edits = {**edits, op["path"]: op["text"]}
                write(tree, op["path"], op["text"])
                changed = disturbed = True
            elif k == "left over":
                write(tree, op["path"], op["text"])
                changed = True
                disturbed = disturbed or op["path"].startswith("penpa-edit/")
            elif k == "left in browser mode":
                p = os.path.join(tree, "penpa-edit", "prepare_deployment.js")
                with open(p, encoding="utf-8") as f:
                    s = f.read()
                with open(p, "w", encoding="utf-8") as f:
                    f.write(s.replace("ENABLE_DEPLOYMENT = false", "ENABLE_DEPLOYMENT = true"))
                changed = disturbed = True
            elif k == "stop" and up is not None:
                up.stop()
                up = None
            if up is not None and not disturbed and k in ("deploy", "cut deploy", "cut start"):
                serves(up, [reference(edits)], f"the running server, {what}")
                score += 1
    finally:
        if up is not None:
            up.stop()
        drop(tree)
    return score


# --------------------------------------------------------------------------------------------------------------- generators
def solver_text(name):
    with open(os.path.join(env.REPO, "solver", "norinori.py"), encoding="utf-8") as f:
        s = f.read()
    i = s.index('    name = "')
    j = s.index("\n", i)
    return s[:i] + f'    name = "New {name}"\n    aliases = ["new-{name}"]' + s[j:] if "aliases" not in s else s[:i] + f'    name = "New {name}"' + s[j:]


def cut(d):
    k = d.int(0, 9)
    if k < 4:
        return dict(kind="write", n=d.int(1, 6), part=d.choice([0, 0.3, 0.9, 1]))
    if k < 7:
        return dict(kind="after", n=d.int(1, 6), m=d.int(0, 12))
    return dict(kind="event", n=d.int(1, d.choice([12, 60, 420])))


def edit(d):
    k = d.int(0, 7)
    if k <= 1:
        n = d.choice(["zz_one", "aa_two"])
        return dict(op="edit", path=f"solver/{n}.py", text=solver_text(n))
    if k == 2:
        return dict(op="edit", path=f"solver/{d.choice(['zz_one', 'aa_two', 'akari', 'yinyang', 'sudoku_old', 'masyu'])}.py", text=None)
    if k == 3:
        p = d.choice(["penpa-edit/style.css", "penpa-edit/app.js", "penpa-edit/index.html", "noqx/rule/loop.py", "noqx/puzzle/penpa.py", "main_deploy.py"])
        with open(os.path.join(env.REPO, p), encoding="utf-8") as f:
            return dict(op="edit", path=p, text=f.read() + d.choice(["\n", "\n\n"]))
    if k == 4:
        return dict(op="edit", path="penpa-edit/" + d.choice(["extra.txt", "a b.css", "more.js"]), text=d.choice(["x", "é\n", "", None]))
    if k == 5:
        return dict(op="left over", path="dist/page/" + d.choice(["old.txt", "penpa-edit/old.js", "penpa-edit/solver/gone.py", "sub/x", "penpa-edit/noqx/clingo.py"]), text="old")
    if k == 6:
        return dict(op="left over", path=d.choice(["penpa-edit/solver_metadata.js", "pyscript.json"]),
                    text=d.choice(["", "const solver_metadata = {};", '{"files": {"./old.py": "old.py"}}', "const solver_meta"]))
    return dict(op="left in browser mode")


def gen(d):
    ops = []
    up = d.chance(1, 2)
    if up:
        ops.append(dict(op="start", host="127.0.0.1", keep=True))
    for _ in range(d.int(1, 5)):
        k = d.int(0, 11)
        if k <= 1:
            ops.append(dict(op="start", host=d.choice(["127.0.0.1", "127.0.0.1", "localhost", f"127.0.0.{d.int(2, 250)}"]), keep=d.chance(1, 2)))
        elif k <= 3:
            ops.append(dict(op="deploy"))
        elif k <= 6:
            ops.append(dict(op="cut deploy", cut=cut(d)))
        elif k == 7:
            ops.append(dict(op="cut start", cut=cut(d)))
        elif k == 8 and up:
            ops.append(dict(op="stop"))
        else:
            ops.append(edit(d))
    ops.append(dict(op="deploy") if d.chance(1, 2) else dict(op="start", host="127.0.0.1", keep=False))
    return ops


# -------------------------------------------------------------------------------------------------------------------- paths
SECRET = "the-secret-of-c25"
_PATHS = {}


def path_tree():
    if not _PATHS:
        tree = scratch_copy()
        for p in ("../secret.txt", "secret.txt", "penpa-edit-old/secret.txt", "penpa-edit.txt", "solver/secret.txt", "static/secret.txt", "api/solve/secret.txt"):
            write(tree, p, SECRET)
        write(tree, "penpa-edit/sub/deep.txt", "deep")
        write(tree, "penpa-edit/a b.txt", "blank")
        Up(tree).stop()                                # the generated files
        files = {}
        base = os.path.join(tree, "penpa-edit")
        for dd, _, names in os.walk(base):
            for n in names:
                with open(os.path.join(dd, n), "rb") as f:
                    files[os.path.relpath(os.path.join(dd, n), base)] = f.read()
        _PATHS.update(files=files, top=os.path.dirname(tree), tree=tree)


def path_server():
    path_tree()
    if _PATHS.get("pid") != os.getpid() or not _PATHS["up"].running:
        up = Up(_PATHS["tree"])
        if not up.running:
            raise Violation(f"the server does not start: {up.err}")
        _PATHS.update(pid=os.getpid(), up=up)
    return _PATHS


def raw(up, method, path):
    with socket.create_connection((up.host, up.port), 30) as s:
        s.sendall(f"{method} {path} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n".encode("latin-1", "replace"))
        data = b""
        while True:
            x = s.recv(65536)
            if not x:
                break
            data += x
    head, _, body = data.partition(b"\r\n\r\n")
    first = head.split(b"\r\n")[0].split()
    lower = head.lower()
    if b"transfer-encoding: chunked" in lower:
        out = b""
        while body:
            n, _, body = body.partition(b"\r\n")
            n = int(n, 16)
            if not n:
                break
            out, body = out + body[:n], body[n + 2:]
        body = out
    return int(first[1]) if len(first) > 1 else 0, head, body


def gen_path(d):
    p = path_server()
    names = sorted(p["files"])
    up_ = ["..", "..", "%2e%2e", "%2E.", ".%2e", "..%2f..", "%2e%2e%2f", "..%5c", "..;", "...", "%252e%252e"]
    tail = ["main.py", "secret.txt", "penpa-edit.txt", "penpa-edit-old/secret.txt", "solver/akari.py", "solver/secret.txt", "noqx/clingo.py", "pyscript.json", "dist/page/index.html",
            "static/secret.txt", "api/solve/"] + names
    k = d.int(0, 9)
    if k <= 2:
        path = "/penpa-edit/" + urllib.parse.quote(d.choice(names))
        if d.chance(1, 3):
            i = d.int(12, len(path) - 1)
            if path[i].isalnum() and path[i - 1] != "%" and path[i - 2] != "%":
                path = path[:i] + f"%{ord(path[i]):02x}" + path[i + 1:]
    elif k <= 6:
        parts = [d.choice(["penpa-edit", "penpa-edit", "penpa-edit-old", "api", "static", "solver", ""])]
        for _ in range(d.int(1, 4)):
            parts.append(d.choice(up_) if d.chance(2, 3) else d.choice(["", ".", "sub", "penpa-edit", "solver"]))
        path = "/" + d.choice(["/", "/", "/", "%2f", "//"]).join(parts + [d.choice(tail)])
    elif k == 7:
        path = d.choice(["/penpa-edit/", "/penpa-edit//", "/", "/penpa-edit/%2f", "/penpa-edit/sub/"]) + d.choice([p["top"] + "/secret.txt", p["tree"] + "/main.py", p["tree"] + "/secret.txt"])
    elif k == 8:
        path = "/" + d.choice(tail)
    else:
        path = "/penpa-edit" + d.choice(["", "/", "//", "/.", "/sub", "/sub/", "/%00", "/?x=../secret.txt", "-old/secret.txt", ".txt", "/a%20b.txt", "/A.txt"])
    return path.replace(" ", "%20"), d.choice(["GET", "GET", "GET", "HEAD"])


def check_path(path, method):
    p = path_server()
    try:
        st, head, body = raw(p["up"], method, path)
    except (OSError, ValueError) as e:
        raise Violation(f"{method} {path}: the server does not answer: {e}") from None
    if SECRET.encode() in body:
        raise Violation(f"{method} {path}: a file outside of the page's folder is served")
    if 200 <= st < 300 and body and body not in p["files"].values():
        raise Violation(f"{method} {path}: status {st} with something that is not a file of the page: {body[:80]!r}")
    plain = urllib.parse.unquote(path)
    want = p["files"].get(plain[12:]) if plain.startswith("/penpa-edit/") and posixpath.normpath(plain) == plain and "?" not in path else None
    if want is not None and (st != 200 or method == "GET" and body != want):
        raise Violation(f"{method} {path}: a file of the page gets status {st}" + ("" if st != 200 else ", with other content"))
    if raw(p["up"], "HEAD", "/penpa-edit/")[0] != 200:
        raise Violation(f"after {method} {path} the page is not served any more")
    return "file" if st == 200 else str(st), want is not None or ".." in plain or p["top"] in plain


# -------------------------------------------------------------------------------------------------------------------- units
def units(tier):
    n, m, k = (12, 12, 500) if tier == "quick" else (40, 32, 6000)
    return [dict(id=f"history-{i}", group="history", examples=n, cost=5) for i in range(m)] + \
           [dict(id=f"paths-{i}", group="paths", examples=k, cost=1) for i in range(2)]


def body(unit):
    if unit["group"] == "paths":
        def run2(d, rec):
            path, method = gen_path(d)
            rec.set(dict(path=path.replace(path_server()["top"], "TOP"), method=method))
            label, good = check_path(path, method)
            rec.done(good, key=method + path, label=label)
        return run2

    def run(d, rec):
        ops = gen(d)
        rec.set(dict(ops=ops))
        rec.done(check(ops) > 0, label=f"{len(ops)} steps")
    return run


def replay(rp):
    env.load()
    c = rp["case"]
    if "path" in c:
        check_path(c["path"].replace("TOP", path_server()["top"]), c["method"])
        path_server()["up"].stop()
    else:
        check(c["ops"])
