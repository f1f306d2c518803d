"""The real server (main.py) on a loopback port, started from a scratch copy of the tree."""
import atexit
import ctypes
import http.client
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

from . import env


def scratch_copy():
    """Copy of the working tree (starting main.py writes files into its folder); removed when this process ends."""
    top = tempfile.mkdtemp(prefix="vf_tree_")
    dst = os.path.join(top, "repo")
    shutil.copytree(env.REPO, dst, ignore=shutil.ignore_patterns(".git", "__pycache__", "dist", ".venv", "tests"))
    me = os.getpid()

    def clean():
        if os.getpid() == me:
            shutil.rmtree(top, ignore_errors=True)
    atexit.register(clean)
    return dst


def _die_with_parent():
    ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def switching():
    """Folder whose sitecustomize makes the threads of a server take turns as often as possible."""
    top = tempfile.mkdtemp(prefix="vf_site_")
    me = os.getpid()
    with open(os.path.join(top, "sitecustomize.py"), "w", encoding="utf-8") as f:
        f.write("import sys\nsys.setswitchinterval(1e-6)\n")

    def clean():
        if os.getpid() == me:
            shutil.rmtree(top, ignore_errors=True)
    atexit.register(clean)
    return top


class Server:
    def __init__(self, tree, *args, path=""):
        self.tree, self.args, self.proc, self.path = tree, args, None, path

    def start(self):
        for _ in range(5):
            self.port = free_port()
            self.proc = subprocess.Popen([sys.executable, "main.py", "-p", str(self.port), *map(str, self.args)], cwd=self.tree,
                                         env={**os.environ, "PYTHONPATH": os.pathsep.join(filter(None, (self.path, env.SITE))), "PYTHONDONTWRITEBYTECODE": "1"},
                                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=_die_with_parent)
            for _ in range(300):
                time.sleep(0.1)
                if self.proc.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    return self
                except OSError:
                    pass
            self.stop()
        raise RuntimeError("the server does not start")

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def stop(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
            self.proc = None

    def post(self, body, path="/api/solve/", headers=None, method="POST", timeout=120):
        """(status, headers, body bytes); OSError / HTTPException when there is no answer."""
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        try:
            c.request(method, path, body=body, headers={"Content-Type": "application/json", **(headers or {})})
            r = c.getresponse()
            return r.status, {k.lower(): v for k, v in r.getheaders()}, r.read()
        finally:
            c.close()
