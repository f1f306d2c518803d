"""C12: the HTTP endpoint answers every request with the right status and a JSON body."""
import base64
import concurrent.futures
import http.client
import json
import re

from .. import env
from ..core import Case, Violation, observed
from ..penpa import Board, pack
from ..server import Server, scratch_copy, switching
from .c11 import broken
from .exact import registry

PROPERTY = "C12"
RULE = ("The real server, started from a copy of the tree, gets generated POST bodies: boards of every puzzle type with their options, boards "
        "with clues the type rejects, unknown names, missing and wrongly typed fields, cut, altered and nested links, bodies that are not JSON "
        "or not UTF-8, alone and several at once, crowds of requests of one type to a server whose threads (if any) take turns all the time, and a server with time limit 0. Status and body are compared with what the solver gives "
        "in-process; after each bad request a good one must be answered. Non-trivial: an answer with links, a rejection or a time-out.")
HARD = ("m=edit&p=7VVNa9tAEL3rV5Q9z0Gzu9bXzXXjXtz0wy4hCBEcVyEiNnL1UYqM/3tmRiIrQ2gphdYHI/R4sztv9GZ3JdXf23WVA4aABkwEPiBdQWRhYjQNR3L7w7Uqmm2evIFp2zyWFRGAj/M5PKy3de6lQ1bmHbo46abQvU9ShQqUphtVBt3n5NB9SNSm3N0XCrolzStAmlj0mZrolaM3Ms9s1g+iT/x64ERviW6KarPN7xb9yKck7Vag+GFvRc1U7cofuRrMcNwboIH7dUMd1Y/Ffpip22/lUzvkYnaEbvobz8Z5Ztp7ZvaKZ27l7z1v9+VrbuPseKSl/0J+75KUrX91NHJ0mRwIr5ODspakIQT97igbUWhfwommUAcuDk6mA59C9F/iiNV0dIYwZrUTxyxGN40+y50aNcuNiw3rxwLDFWIXWy6gRxWkm5EhDLmEM4whV3DtYiQdOI8YcQUn0CgenEKjdDHK0FzCVdBaPOjRwGlbWhbRdaX7VRwPnO6JDrjAqGC/kO6RRhYyGsVcwK2C8U931fRNDTEdBJTjcCs4F9SCKzot0BnBd4K+4ERwITlXgjeCM0ErGEhOyOftj07kP7CTWiufuF9dk0vGOWZkXqqWbfWw3uT0/ZuVu31ZF02u6Idz9NRPJTe9bAj28g/6j/8g3gb/3N77c7NDXyL11FZl05Qq854B")
RANDOM_SEED_DEPENDENT = "more than one clue"


class Down(Violation):
    pass


TREE, SITE = [], []
_SERVER = {}


def prefork(units_):
    TREE.append(scratch_copy())
    SITE.append(switching())


def server(*args, fine=False):
    """fine: threads of the server, if it has any, take turns all the time."""
    s = _SERVER.get((args, fine))
    if s is None or not s.alive():
        site = (SITE[0] if SITE else switching()) if fine else ""
        s = _SERVER[(args, fine)] = Server(TREE[0] if TREE else scratch_copy(), *args, path=site).start()
    return s


def post(srv, body, **kw):
    try:
        return srv.post(body, **kw)
    except (OSError, http.client.HTTPException) as e:
        raise Down(f"the endpoint does not answer: {type(e).__name__}: {e} (server {'runs' if srv.alive() else 'ended'})") from None


def read(res, what):
    """Body of an answer as JSON; always an explanation unless the status is 200."""
    status, head, body = res
    try:
        obj = json.loads(body.decode())
    except ValueError:
        raise Violation(f"{what}: status {status} with a body that is not JSON: {body[:120]!r}") from None
    if status == 200:
        if not (isinstance(obj, dict) and isinstance(obj.get("url"), list) and all(isinstance(u, str) for u in obj["url"])):
            raise Violation(f"{what}: status 200 without a list of board links: {str(obj)[:200]}")
    elif not (isinstance(obj, dict) and any(isinstance(v, str) and v.strip() for v in obj.values())):
        raise Violation(f"{what}: status {status} without an explanation: {str(obj)[:200]}")
    elif not 400 <= status < 600:
        raise Violation(f"{what}: status {status}: {str(obj)[:200]}")
    return status, obj


def direct(req):
    """What the solver gives in-process for a request: (kind, payload)."""
    try:
        return "answers", env.solve(req["puzzle_name"], req["puzzle"], json.loads(json.dumps(req["param"])), 10, 20)
    except ValueError as e:
        return "rejected", str(e)
    except TimeoutError as e:
        return "timeout", str(e)
    except Exception as e:  # noqa: BLE001
        return "other", repr(e)


def judge(req, want, res):
    what = f"{req['puzzle_name']!r:.40}"
    status, obj = read(res, what)
    if want[0] == "timeout":
        raise TimeoutError
    if status == 504:
        raise TimeoutError
    if want[0] == "answers":
        if status != 200:
            raise Violation(f"{what}: a solvable request gets status {status}: {obj}")
        a, b = obj["url"], want[1]
        if len(a) != len(b):
            raise Violation(f"{what}: {len(a)} links over HTTP, {len(b)} from the solver")
        if len(b) < 10 and sorted(a) != sorted(b):
            case = Case(req["puzzle_name"], Board(1, 1))
            if {observed(case, u)[0] for u in a} != {observed(case, u)[0] for u in b}:
                raise Violation(f"{what}: other answers over HTTP than from the solver")
        return "answers" if a else "no answer"
    if want[0] == "rejected":
        if not 400 <= status < 500:
            raise Violation(f"{what}: a rejected board ({want[1][:80]}) gets status {status}")
        text = json.dumps(obj, ensure_ascii=False)
        if want[1] and all(ord(ch) < 128 for ch in want[1]) and json.dumps(want[1])[1:-1] not in text and RANDOM_SEED_DEPENDENT not in want[1]:
            raise Violation(f"{what}: the explanation {want[1][:100]!r} is not passed on: {obj}")
        return "rejected"
    if status == 200:
        raise Violation(f"{what}: a request the solver fails on ({want[1][:100]}) gets status 200")
    return "error"


def body_of(case):
    return dict(puzzle_name=case.name, puzzle=case.url(), param=case.param)


PING = dict(puzzle_name="sudoku", puzzle=None, param={"diagonal": False, "untouch": False, "antiknight": False})


def ping(srv):
    """A good request is still answered."""
    if PING["puzzle"] is None:
        b = Board(4, 4)
        b.q.number[(0, 0, "C")] = ["1", 1, "1"]
        b.q.number[(1, 2, "C")] = ["2", 1, "1"]
        b.q.number[(2, 1, "C")] = ["3", 1, "1"]
        b.q.number[(3, 3, "C")] = ["4", 1, "1"]
        PING["puzzle"] = b.encode()
        PING["n"] = len(direct(PING)[1])
    st, obj = read(post(srv, json.dumps({k: v for k, v in PING.items() if k != "n"})), "a good request afterwards")
    if st != 200 or len(obj["url"]) != PING["n"]:
        raise Violation(f"a good request after it gets status {st}: {str(obj)[:200]}")


def json_value(d, depth=0):
    k = d.int(0, 9 if depth < 3 else 6)
    if k <= 6:
        return d.choice([None, True, 0, -1, 1.5, "", "x", "é \ud800 \U0001f600", 10**30, float("nan"), [], {}])
    if k == 7:
        return [json_value(d, depth + 1) for _ in range(d.int(0, 3))]
    return {d.choice(["a", "puzzle", "0", ""]): json_value(d, depth + 1) for _ in range(d.int(0, 3))}


def spoil_link(d, link, k=None):
    """A link with a part replaced."""
    k = d.int(0, 7) if k is None else k
    if k == 0:
        return link[:d.int(0, len(link))]
    if k == 7:                              # odd characters in a mark
        b = Board.decode(link)
        x = (d.int(0, max(0, b.rows - 1)), d.int(0, max(0, b.cols - 1)), "C")
        if d.chance(1, 2):
            b.q.symbol[x] = [1, "\x01", 1]
        else:
            b.q.number[x] = ["\x01", 1, "1"]
        parts = Board.decode(b.encode()).parts[:]
        parts[3] = parts[3].replace("\\u0001", d.choice(["\\ud800", "\\udc01x", "\\u0000", "\\u00e9", "\\ud83d\\ude00", "\\n", "\\u0662"]))
        return pack(parts)
    if k == 1:
        i = d.int(9, max(9, len(link) - 2))
        return link[:i] + d.choice("AZaz09+/=!é ") + link[i + 1:]
    if k == 2:
        return d.choice(["", "m=edit&p=", "m=solve&p=abc", "https://puzz.link/p?slither/4/4/a", "m=edit&p=" + "A" * 50, "é", "\x00"])
    parts = Board.decode(link).parts[:]
    i = d.choice([0, 1, 3, 4])
    if k == 3:
        parts[i] = d.choice(["", "null", "[]", "{}", "1", "[0,0,0]", "square,3,3", "square,a,b,38", "hex,3,3,38,0", '{"zS":1}', '{"zN":{"a":1}}', "[" * 3000])
    elif k == 4:
        parts = parts[:i]
    elif k == 5:
        p = parts[i]
        j = d.int(0, max(0, len(p) - 1))
        parts[i] = p[:j] + d.choice('"{}[],:0-e"') + p[j + 1:]
    else:
        obj = parts[3]
        spots = [m.start() for m in re.finditer(r'\d+', obj)]
        if spots:
            j = d.choice(spots)
            parts[3] = obj[:j] + d.choice(["-1", "9", "99999", "null", '"x"']) + re.sub(r"^\d+", "", obj[j:])
    return pack(parts)


def small(link, cap=20):
    """Corrupted links may describe giant boards: leave those out (grounding has no time limit)."""
    try:
        h = Board.decode(link)
        return 0 <= h.rows <= cap and 0 <= h.cols <= cap
    except Exception:  # noqa: BLE001
        pass
    try:
        from ..penpa import unpack
        head = unpack(link)[0].split(",")
        return int(head[1]) <= cap and int(head[2]) <= cap
    except Exception:  # noqa: BLE001
        return True


def bad_body(d, case):
    """(bytes, headers) of a request that need not be well-formed."""
    req = body_of(case)
    k = d.int(0, 10)
    if k == 0:
        return json.dumps(json_value(d)).encode(), "not JSON object"
    if k == 1:
        del req[d.choice(sorted(req))]
    elif k == 2:
        req[d.choice(sorted(req))] = json_value(d)
    elif k == 3:
        req["param"] = {**req["param"], d.choice(sorted(req["param"]) or ["x"]): json_value(d)}
    elif k == 4:
        raw = json.dumps(req).encode()
        i = d.int(0, len(raw) - 1)
        return raw[:i], "not JSON"
    elif k == 5:
        raw = bytearray(json.dumps(req).encode())
        raw[d.int(0, len(raw) - 1)] = d.int(0, 255)
        return bytes(raw), "altered"
    elif k == 6:
        return d.choice([b"", b"null", b"\xff\xfe", b"[" * 5000, b'{"a":' * 3000, b"{" + b'"a":1,' * 20 + b"}", b"puzzle_name=tapa", b"\x00"]), "not JSON"
    else:
        req["puzzle"] = spoil_link(d, req["puzzle"], 7 if k > 8 else None)
        if not small(req["puzzle"]):
            req["puzzle"] = ""
    return json.dumps(req).encode(), "fields"


def check_bad(srv, raw):
    try:
        obj = json.loads(raw)
        isjson = True
    except (ValueError, RecursionError):
        obj, isjson = None, False
    ok = isinstance(obj, dict) and isinstance(obj.get("puzzle_name"), str) and isinstance(obj.get("puzzle"), str) and isinstance(obj.get("param"), dict)
    if ok and not small(obj["puzzle"]):
        return "skipped"
    res = post(srv, raw)
    if ok:
        out = judge(obj, direct(obj), res)
    else:
        st, got = read(res, "a malformed request")
        if not isjson and not 400 <= st < 500 and not raw.startswith((b"[[", b'{"a":{')):
            raise Violation(f"a body that is not JSON gets status {st}: {got}")
        if isjson and not isinstance(obj, dict) and st == 200:
            raise Violation("a request without a board gets status 200")
        out = "malformed"
    ping(srv)
    return out


def check(c):
    srv = server("-tl", c.get("tl", 25), *(["-pt", c["pt"]] if c.get("pt") else []), fine=c.get("kind") == "crowd")
    if "raw" in c:
        return check_bad(srv, base64.b64decode(c["raw"]))
    if c["kind"] == "method":
        res = post(srv, json.dumps(c["requests"][0]), method=c["method"], path=c["path"])
        if res[0] >= 500 or (c["method"] != "POST" and res[0] == 200):
            raise Violation(f"{c['method']} {c['path']} gets status {res[0]}")
        ping(srv)
        return "method"
    if c["kind"] in ("together", "crowd"):
        want = [direct(r) for r in c["requests"]]
        with concurrent.futures.ThreadPoolExecutor(len(want)) as ex:
            futs = [ex.submit(srv.post, json.dumps(r)) for r in c["requests"]]
            res = []
            for f in futs:
                try:
                    res.append(f.result())
                except (OSError, http.client.HTTPException) as e:
                    raise Down(f"the endpoint does not answer requests sent together: {e}") from None
        kinds = [judge(r, w, x) for r, w, x in zip(c["requests"], want, res)]
        return "answers" if "answers" in kinds else kinds[0]
    if c["kind"] == "limit":
        req = c["requests"][0]
        want = direct(req)
        st, obj = read(post(srv, json.dumps(req)), req["puzzle_name"])
        ok = st == 504 if want[0] == "answers" else 400 <= st < 500 if want[0] == "rejected" else True
        if not ok:
            raise Violation(f"{req['puzzle_name']}: with time limit {c['tl']} s status {st} ({str(obj)[:100]}), the solver gives {want[0]}")
        return "timeout" if st == 504 else "rejected"
    req = c["requests"][0]
    out = judge(req, direct(req), post(srv, json.dumps(req)))
    if out in ("rejected", "error"):
        ping(srv)
    return out


def gen(d, names):
    reg = registry()

    def good():
        return body_of(reg[d.choice(names)].gen(d))

    k = d.int(0, 19)
    if k < 7:
        return dict(kind="good", requests=[good()])
    if k < 11:
        r = broken(d, reg[d.choice(names)].gen(d))
        return dict(kind="broken", requests=[dict(puzzle_name=r["name"], puzzle=r["link"], param=r["param"])])
    if k < 17:
        raw, label = bad_body(d, reg[d.choice(names)].gen(d))
        return dict(kind=label, raw=base64.b64encode(raw).decode())
    if k == 17:
        return dict(kind="together", requests=[good() for _ in range(d.int(2, 6))])
    if k == 18:
        r = good()
        if d.chance(1, 3):
            q = broken(d, reg[d.choice(names)].gen(d))
            if q["name"] in names:
                r = dict(puzzle_name=q["name"], puzzle=q["link"], param=q["param"])
        return dict(kind="limit", tl=0, requests=[r])
    return dict(kind="method", requests=[good()], method=d.choice(["GET", "PUT", "DELETE", "POST", "HEAD"]), path=d.choice(["/api/solve/", "/api/solve", "/api/", "/api/nosuch/"]))


def units(tier):
    n = 1100 if tier == "quick" else 25000
    us = [dict(id=f"requests-{i}", group="requests", examples=n, cost=2) for i in range(7)]
    us += [dict(id=f"crowd-{i}", group="crowd", examples=60 if tier == "quick" else 1200, cost=4) for i in range(4)]
    return us + [dict(id="time limit", group="time limit", examples=2 if tier == "quick" else 8, cost=5)]


def hard(tl):
    """A search that cannot finish: 504 after about the time limit, and the server goes on."""
    import time
    srv = server("-tl", tl)
    req = dict(puzzle_name="kurotto", puzzle=HARD, param={})
    t = time.monotonic()
    st, obj = read(post(srv, json.dumps(req)), "a search that cannot finish")
    if st != 504:
        raise Violation(f"a search that cannot finish in {tl} s gets status {st}: {str(obj)[:200]}")
    if time.monotonic() - t > tl + 20:
        raise Violation(f"a time limit of {tl} s is reported after {time.monotonic() - t:.0f} s")
    ping(srv)


def body(unit):
    names = sorted(registry())
    if unit["id"] == "time limit":
        def run2(d, rec):
            tl = d.choice([1, 1, 2, 3])
            rec.set(dict(kind="hard", tl=tl))
            hard(tl)
            rec.done(True, key=f"hard{rec.evals}", label="timeout")
        return run2

    def run(d, rec):
        if unit["group"] == "crowd":                   # boards of one type (or two), all at once
            some = d.sample(names, d.choice([1, 1, 2]))
            c = dict(kind="crowd", requests=[body_of(registry()[d.choice(some)].gen(d)) for _ in range(d.int(8, 24))])
        else:
            c = gen(d, names)
        rec.set(c)
        out = check(c)
        rec.done(out in ("answers", "rejected", "timeout"), label=out)
    return run


def replay(rp):
    env.load()
    if rp["case"].get("kind") == "hard":
        hard(rp["case"]["tl"])
    else:
        check(rp["case"])
    for s in _SERVER.values():
        s.stop()
