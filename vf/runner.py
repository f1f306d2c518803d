"""Runs the units of a check in parallel, collects measured coverage, writes evidence and replay files.

A unit is one search: a property function body(d, rec) executed on generated choices (vf.draw).  `rec` records the
case (for the distinct / non-trivial counts and for the replay file).  A violation is shrunk on the choice sequence;
shrinking is cut off after SHRINK_S seconds, keeping the smallest failing case found so far.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env
from .core import Violation

SHRINK_S = float(os.environ.get("VF_SHRINK_S", "30"))
SOFT_S = {"quick": 420.0, "thorough": 800.0}


class Stop(BaseException):
    """Leaves a search early (deadline or shrink budget)."""


class Rec:
    """Recorder of what one unit explored."""

    def __init__(self, unit):
        self.unit = unit
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.classes = {}
        self.inconclusive = 0
        self.known = {}
        self.case = None
        self.best = None

    def start(self):
        self.case = None

    def set(self, case):
        """case: JSON-able description sufficient to replay."""
        self.case = case

    def done(self, nontrivial, key=None, label=None):
        self.evals += 1
        if label:
            self.classes[label] = self.classes.get(label, 0) + 1
        if nontrivial:
            k = key or hashlib.sha1(json.dumps(self.case, sort_keys=True, default=str).encode()).hexdigest()[:16]
            if k not in self.keys:
                self.keys.add(k)
                if len(self.keys) in (1, 7, 30):
                    self.samples.insert(0, self.case)

    def fail(self, exc):
        size = len(json.dumps(self.case, sort_keys=True, default=str))
        if self.best is None or size < self.best[0]:
            self.best = (size, self.case, exc.msg, exc.info)


def raised(e):
    """The Violation for an exception nobody expected, if the code under test raised it (else None)."""
    root = os.path.realpath(env.REPO) + os.sep
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        path = os.path.realpath(f.filename)
        if path.startswith(env.VERIF + os.sep):
            return None
        if path.startswith(root):
            return Violation(f"unexpected {type(e).__name__} in {path[len(root):]}: {str(e)[:200]}", line=f.line)
    return None


def search(body, rec, examples, seed, deadline):
    """Run body on generated choices until `examples` cases, the deadline, or a failure, which is then shrunk (rec.best)."""
    import random

    from .draw import D, shrink

    def once(d):
        rec.start()
        try:
            body(d, rec)
        except Violation as v:
            rec.fail(v)
            return True
        except TimeoutError:
            rec.inconclusive += 1
        except Exception as e:  # noqa: BLE001
            v = raised(e)
            if not v:
                raise
            rec.fail(v)
            return True
        return False

    for i in range(examples):
        if time.monotonic() > deadline:
            return
        d = D(random.Random(seed * 1000003 + i) if i else None)
        if once(d):
            break
    else:
        return
    first = rec.best

    def fails(seq):
        e = D(None, seq)
        rec.best = None
        try:
            bad = once(e)
        except Exception:  # noqa: BLE001  a generator may not cope with a mangled sequence
            bad = False
        got, rec.best = rec.best, keep[0]
        if bad:
            keep[1][tuple(e.log)] = got
            return e.log
        return None

    keep = [first, {}]
    seq = shrink(d.log, fails, time.monotonic() + SHRINK_S)
    rec.best = keep[1].get(tuple(seq), first)


def _work(args):
    modname, unit, tier, seed, deadline = args
    t = time.monotonic()
    try:
        mod = importlib.import_module(modname)
        h = int(hashlib.sha256(f"{seed}/{mod.PROPERTY}/{unit['id']}".encode()).hexdigest()[:12], 16)
        rec = Rec(unit["id"])
        if unit.get("plain"):
            try:
                mod.run_plain(unit, rec, tier, h, deadline)
            except Violation as v:
                rec.fail(v)
            except Exception as e:  # noqa: BLE001
                v = raised(e)
                if not v:
                    raise
                rec.fail(v)
        else:
            search(mod.body(unit), rec, unit["examples"], h, deadline)
        return dict(unit=unit["id"], group=unit.get("group", unit["id"]), evals=rec.evals, keys=rec.keys, samples=rec.samples,
                    classes=rec.classes, inconclusive=rec.inconclusive, known=rec.known, best=rec.best,
                    wall=time.monotonic() - t, error=None)
    except Exception:  # noqa: BLE001
        return dict(unit=unit["id"], error=traceback.format_exc(), best=None, wall=time.monotonic() - t)


def known_list():
    with open(os.path.join(env.VERIF, "known_findings.json"), encoding="utf-8") as f:
        return json.load(f)["findings"]


def main(modname):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=env.TIER, choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=env.SEED)
    ap.add_argument("--only", default=None, help="comma separated unit ids/groups (development)")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VF_PROCS", "8")))
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    mod = importlib.import_module(modname)
    pid = mod.PROPERTY
    t0 = time.monotonic()
    if getattr(mod, "NEEDS_NOQX", True):
        try:
            env.load()
        except Exception as e:  # noqa: BLE001
            if a.replay:
                raise
            path = write_replay(pid, dict(property=pid, unit="load", case=None, message=f"solvers cannot be loaded: {e!r}", info={}))
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  the solvers cannot be loaded: {e!r}")
            return 1
    if a.replay:
        with open(a.replay, encoding="utf-8") as f:
            rp = json.load(f)
        try:
            try:
                mod.replay(rp)
            except Exception as e:  # noqa: BLE001
                v = raised(e)
                if not v:
                    raise
                raise v from e
        except Violation as v:
            print(f"VIOLATION property={pid} replay={os.path.abspath(a.replay)}")
            print("  " + v.msg, json.dumps(v.info, default=str)[:3000])
            return 1
        print(f"replay passes: {a.replay}")
        return 0

    deadline = t0 + SOFT_S[a.tier]
    units = mod.units(a.tier)
    if a.only:
        want = set(a.only.split(","))
        units = [u for u in units if u["id"] in want or u.get("group") in want]
    for u in units:
        if "examples" in u:
            u["examples"] = max(1, int(u["examples"] * a.scale))
    jobs = [(modname, u, a.tier, a.seed, deadline) for u in units]
    results, bests = [], []
    if hasattr(mod, "prefork"):
        mod.prefork(units)
    # big units first for balance
    jobs.sort(key=lambda j: -j[1].get("cost", 1))
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(a.procs, max(1, len(jobs))), maxtasksperchild=getattr(mod, "MAXTASKS", None))
    try:
        for res in pool.imap_unordered(_work, jobs, chunksize=1):
            results.append(res)
            if a.v and not res["error"]:
                print(f"  {res['unit']}: {res['evals']} cases, {len(res['keys'])} non-trivial, {res['classes']}, "
                      f"{res['inconclusive']} inconclusive, {res['wall']:.1f}s", flush=True)
            if res["error"]:
                print(f"harness error in {res['unit']}:\n{res['error']}", file=sys.stderr, flush=True)
            if res["best"]:
                bests.append(res)
                if a.keep_going:
                    print(f"  FAIL {res['unit']}: {res['best'][2]}", flush=True)
                    continue
                break
        if not bests or a.keep_going:
            pool.close()
            pool.join()
    finally:
        pool.terminate()
        pool.join()

    errors = [r for r in results if r["error"]]
    ok = [r for r in results if not r["error"]]
    findings = [k for k in known_list() if k["property"] == pid]
    hits = {}
    for r in ok:
        for k, n in r["known"].items():
            hits[k] = hits.get(k, 0) + n
    if hasattr(mod, "reproduce_known"):
        for k in findings:
            if mod.reproduce_known(k):
                hits[k["id"]] = hits.get(k["id"], 0) + 1
    viol = []
    for r in bests:
        _, case, msg, info = r["best"]
        path = write_replay(pid, dict(property=pid, unit=r["unit"], case=case, message=msg, info=info))
        viol.append(dict(unit=r["unit"], message=msg, replay=path))
    samples = []
    for r in sorted(ok, key=lambda r: r["unit"]):
        for s in r["samples"][:1]:
            if len(samples) < 8:
                samples.append(json.dumps(dict(unit=r["unit"], case=s), sort_keys=True, default=str)[:2500])
    classes = {}
    for r in ok:
        for k, n in r["classes"].items():
            classes[k] = classes.get(k, 0) + n
    groups = {}
    for r in ok:
        g = groups.setdefault(r["group"], [0, 0])
        g[0] += r["evals"]
        g[1] += len(r["keys"])
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=sum(r["evals"] for r in ok), distinct_nontrivial=sum(len(r["keys"]) for r in ok),
                            rule=mod.RULE, samples=samples, classes=classes,
                            per_group={k: {"cases": v[0], "nontrivial": v[1]} for k, v in sorted(groups.items())},
                            inconclusive=sum(r["inconclusive"] for r in ok)),
              wall_s=round(time.monotonic() - t0, 2),
              violations=len(viol),
              assumptions=getattr(mod, "ASSUMPTIONS", []))
    if not a.only:
        write_evidence(pid, ev)
    for k in findings:
        if k["id"] in hits:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v in viol:
        print(f"VIOLATION property={pid} replay={v['replay']}")
        print(f"  {v['message']}")
    print(f"{pid}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{len(viol)} violations, {len(errors)} harness errors, {ev['wall_s']} s")
    if viol:
        return 1
    if errors:
        return 3
    return 0


def write_replay(pid, obj):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(obj, indent=1, sort_keys=True, default=str)
    path = os.path.join(d, f"{pid}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
    with open(path, "w", encoding="utf-8") as f:
        f.write(s + "\n")
    return path


def write_evidence(pid, ev):
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
