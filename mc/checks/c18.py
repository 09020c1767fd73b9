"""C18 downloads: what is fetched is what the server sent, however connections break, whatever was cached, in all schedules."""
import gzip
import hashlib
import itertools
import os
import shutil
import sys
from datetime import datetime, timezone
from email.utils import format_datetime, parsedate_to_datetime
from pathlib import Path

from mc import coop, fsbox, net
from mc.core import Check, Part, attempt, parallel, shard_list
from mc.net import Net, Plan, response

PROPERTY = "C18"
LEVEL = "model_checking"
RULE = ("the real http client over an in-memory network: every kind of response cut at every byte and ended in every way x prior cache "
        "content x cache directive x follow-up fetches; every chain of redirects; every sequence of changes of the server, fetches, failures and losses "
        "of cache files to a depth; all schedules (up to a number of preemptions) of threads that fetch at the same time; every file operation of a "
        "fetch failing or being the last one of its process. non-trivial: distinct executions")

URL = "http://h/d/file.bin"
BODY = {0: b"the old content", 1: b"This is version one.\n" * 2, 2: b"and this is version two!\r\n\0\xff"}


def client(box, name="cache"):
    from pkm.utils.http.http_client import HttpClient
    return HttpClient(box.work / name)


def directive(name):
    from pkm.utils.http.cache_directive import CacheDirective as C
    return {"always": C.allways, "ask": C.ask_for_update, "never": C.never, "default": lambda: None}[name]()


def fetch(c, url, how):
    r = attempt(lambda: c.fetch_resource(url, directive(how)), 20)
    if r[0] == "ok":
        r = attempt(lambda: r[1].data.read_bytes())
        return r if r[0] == "ok" else ("lost", f"the fetch succeeded, but there is no data: {r[1:]}")
    return r


def stamp(n):
    return format_datetime(datetime(2021, 3, 4, 5, 6, n, tzinfo=timezone.utc), True)


class Web:
    """an honest server: url -> version, with a kind of validators: etag, modified, none"""

    def __init__(self, validators="etag", framing="length"):
        self.validators, self.framing = validators, framing
        self.version = {}
        self.script = []  # what happens to the next requests instead
        self.served = []  # (status, body or None if incomplete, conditional)
        self.idle_end = "keep"

    def validator_headers(self, v):
        if self.validators == "etag":
            return [("ETag", f'"v{v}"')]
        if self.validators == "modified":
            return [("Last-Modified", stamp(v * 10))]
        if self.validators == "date":
            return [("Date", stamp(50))]
        return []

    def body(self, key, v):
        return BODY[v] if key == "file.bin" else f"{key} {v}".encode() + b"." * 20

    def __call__(self, req):
        conditional = "if-none-match" in req.headers or "if-modified-since" in req.headers
        if self.script:
            kind = self.script.pop(0)
            if kind is not None:
                plan, status, body = kind(req)
                self.served.append((status, body, conditional))
                return plan
        key = req.target.split("/")[-1]
        v = self.version.get(key, 1)
        end = self.idle_end if self.idle_end != "keep" else None
        same = req.headers.get("if-none-match") == f'"v{v}"' if self.validators == "etag" else \
            self.validators == "modified" and "if-modified-since" in req.headers \
            and parsedate_to_datetime(req.headers["if-modified-since"]) >= parsedate_to_datetime(stamp(v * 10))
        if same:
            self.served.append((304, b"", conditional))
            return response(304, framing="none", headers=self.validator_headers(v), end=end)
        self.served.append((200, self.body(key, v), conditional))
        return response(200, self.body(key, v), self.framing, self.validator_headers(v), end=end)


# ---------------------------------------------------------------- A: responses
FRAMINGS = ["length", "chunked", "gzip", "gzip-chunked", "close", "length-close"]
ENDS = ["eof", "reset", "timeout"]
PRIORS = ["nothing", "etag", "modified"]
GOOD = "good"
STATUSES = [(403, b"no"), (404, b""), (404, b"x" * 70000), (500, b"oops" * 10), (503, b"busy"), (204, b""), (304, b"")]


def framed_length(plan: Plan):
    """the number of bytes after which a truncation can be noticed"""
    head = plan.data.index(b"\r\n\r\n") + 4
    for name in (b"Content-Length", b"Transfer-Encoding"):
        i = plan.data.find(name, 0, head)
        if i >= 0:
            return plan.data.index(b"\r\n", i) + 2
    return 1 << 30


def a_shard(job, part: Part):
    base, cases = job
    box = fsbox.worker_box(base)
    for case in cases:
        r = attempt(lambda: a_case(case, box), 60)
        err = r[1] if r[0] == "ok" else f"{r[1]}: {r[2]}"
        part.case(("A", case), outcome="responses")
        part.transitions += 5
        part.states += 1
        part.traces += 1
        if err:
            part.violation(f"response {case[0]} {case[4]}", {"A": case}, f"{err} [{case}]")


def a_kinds():
    """(name, plan, body, expected to be usable)"""
    out = []
    for f in FRAMINGS:
        out.append((f, lambda f=f: response(200, BODY[1], f, [("ETag", '"v1"'), ("Last-Modified", stamp(10))])))
    out.append(("empty", lambda: response(200, b"", "length")))
    out.append(("http/1.0", lambda: response(200, BODY[1], "length", version="1.0")))
    return dict(out)


def a_case(case, box):
    """one fetch that meets the response (and again when it asks again), then fetches from an honest server"""
    kind, cut, end, again, (prior, how), segment, dead = case
    box.clear()
    web = Web("modified" if prior == "modified" else "etag")
    n = Net(web, segment=segment, dead=dead)
    whole = None
    if kind in a_kinds():
        plan = a_kinds()[kind]()
        whole = b"" if kind == "empty" else BODY[1]
        status = 200
    elif kind == "refused":
        plan, status = None, None
    else:
        status, body = STATUSES[int(kind)]
        plan = response(status, body, "none" if status in (204, 304) else "length")
    with n.active():
        c = client(box)
        if prior != "nothing":
            web.version["file.bin"] = 0
            if (r := fetch(c, URL, "always")) != ("ok", BODY[0]):
                return f"fetching from an honest server: {r}"
            web.version["file.bin"] = 1
        web.served.clear()
        cached_before = BODY[0] if prior != "nothing" else None

        def act(req):
            if cut is None:
                return plan, status, whole
            return Plan(plan.data[:cut], end), status, None

        if plan is None:
            left = [2 if again else 1]

            def refuse(host, port):
                left[0] -= 1
                return ConnectionRefusedError(111, "Connection refused") if left[0] >= 0 else None
            n.refuse = refuse
        else:
            web.script = [act] * (3 if again else 1)
        r = fetch(c, URL, how)
        n.refuse = None
        web.script = []
        if len(n.log) > 12:
            return "the client asks again and again"
        last = web.served[-1] if web.served else None
        possible = set()
        if cut is not None and end == "eof" and whole is not None:
            header = plan.data.index(b"\r\n\r\n") + 4
            if cut < framed_length(plan) and cut >= len("HTTP/1.1 200") or plan.end == "eof" and kind == "close":
                # nobody can know that there is more
                possible.add(plan.data[header:cut] if kind == "close" and cut > header else b"")
        if whole == b"":
            possible.add(whole)
        if r[0] == "ok":
            if last is None:
                good = {cached_before} if how != "ask" or cached_before is None else set()
            elif last[0] == 200:
                good = {last[1]} if last[1] is not None else possible | ({whole} if kind == "chunked" or kind == "gzip-chunked" else set())
            elif last[0] == 304 and last[2] and cached_before is not None:
                good = {cached_before}
            else:
                good = set()
            if r[1] not in good:
                return f"fetch gives {r[1][:60]!r}, the server last said {last and (last[0], last[1] and last[1][:60])}"
        elif r[:2] != ("err", "HttpException"):
            return f"the fetch ends with {r}"
        elif last is not None and (last[0] == 200 and last[1] is not None or last[0] == 304 and last[2] and cached_before is not None):
            return f"the fetch fails although the server answered: {r}"
        elif last is None and plan is not None and (n.refuse is None) and how == "always" and cached_before is not None:
            return f"the cached content is not used: {r}"
        got = r[1] if r[0] == "ok" else None

        # from now on everything works
        may = {BODY[1], cached_before, got} - {None}
        for who, how2 in (("the same client", "always"), ("the same client", "ask"), ("a new client", "always"), ("a new client", "ask")):
            if who == "a new client":
                c2 = client(box)
            else:
                c2 = c
            before = len(web.served)
            r = fetch(c2, URL, how2)
            if r[0] != "ok":
                return f"{who} cannot fetch ({how2}) from an honest server afterwards: {r}"
            if how2 == "always" and r[1] not in may:
                return f"{who} ({how2}) gets {r[1][:60]!r} afterwards"
            if how2 == "ask" and r[1] != BODY[1] and (got is None or r[1] != got or got == cached_before):
                return f"{who} ({how2}) gets {r[1][:60]!r} afterwards, the server has {BODY[1]!r}"
            if how2 == "always" and len(web.served) > before and r[1] != BODY[1]:
                return f"{who} got something else than the server sent"
            may = {r[1]}
        if n.problems:
            return n.problems[0]
    return None


def a_cases(thorough):
    hows = [("nothing", "always"), ("nothing", "ask"), ("etag", "ask"), ("modified", "ask"), ("etag", "never"), ("etag", "always")]
    out = []
    for name, make in a_kinds().items():
        plan = make()
        for ph in hows:
            for seg in (1 << 30, 7) + ((1,) if thorough else ()):
                for dead in ("eof", "pipe"):
                    out.append((name, None, "", False, ph, seg, dead))
            if ph == ("etag", "always"):
                continue
            for cut in range(len(plan.data)):
                for end in ENDS:
                    for again in (False, True):
                        if thorough or ph in (("etag", "ask"), ("nothing", "always")) or (not again and end == "eof"):
                            out.append((name, cut, end, again, ph, 1 << 30, "pipe" if cut % 2 else "eof"))
    for i, (status, body) in enumerate(STATUSES):
        for ph in hows:
            for again in (False, True):
                for seg in (1 << 30, 7 if len(body) < 1000 else 999):
                    out.append((str(i), None, "", again, ph, seg, "eof"))
    for ph in hows:
        for again in (False, True):
            out.append(("refused", None, "", again, ph, 1 << 30, "eof"))
    return out


# ---------------------------------------------------------------- A2: redirects
LOCATIONS = {  # from http://h/d/r0?q=1 (a redirect never goes back to the same place)
    "http://h/d/{n}": ("h", 80, "/d/{n}"), "/e/{n}": ("h", 80, "/e/{n}"), "{n}": ("h", 80, "{dir}{n}"), "./{n}?a=b": ("h", 80, "{dir}{n}?a=b"),
    "../{n}": ("h", 80, "/{n}"), "//g/{n}": ("g", 80, "/{n}"), "http://g:8080/{n}?x=/y": ("g", 8080, "/{n}?x=/y"), "/{n}?z#frag": ("h", 80, "/{n}?z"),
    "http://h:80/{n}": ("h", 80, "/{n}"), "HTTP://h/{n}": ("h", 80, "/{n}"), "http://g": ("g", 80, "/"), "?{n}": ("h", 80, "{path}?{n}")}


def r_shard(job, part: Part):
    base, cases = job
    box = fsbox.worker_box(base)
    for case in cases:
        r = attempt(lambda: r_case(case, box), 60)
        err = r[1] if r[0] == "ok" else f"{r[1]}: {r[2]}"
        part.case(("R", case), outcome="redirects")
        part.transitions += len(case[0]) + 2
        part.states += 1
        part.traces += 1
        if err:
            part.violation(f"redirect {' -> '.join(l for _, l in case[0])}", {"R": case}, f"{err} [{case}]")


def r_case(case, box):
    steps, end, body = case
    box.clear()
    at = [("h", 80, "/d/r0?q=1")]
    todo = {}
    fails = len(steps) > 3
    for i, (status, loc) in enumerate(steps, 1):
        host, port, target = at[-1]
        path = target.split("?")[0]
        if loc == "(none)" or loc.startswith(("ftp:", "file:", "mailto:")):
            todo[at[-1]] = (status, None if loc == "(none)" else loc)
            fails = True
            break
        name = f"r{i}"
        nhost, nport, ntarget = LOCATIONS[loc]
        if "://" not in loc.lower() and not loc.startswith("//"):
            nhost, nport = host, port
        if loc.startswith("../"):
            up = path.rsplit("/", 1)[0].rsplit("/", 1)[0]
            ntarget = f"{up}/{{n}}"
        todo[at[-1]] = (status, loc.format(n=name))
        at.append((nhost, nport, ntarget.format(n=name, dir=path.rsplit("/", 1)[0] + "/", path=path)))
    if len(set(at)) != len(at):
        return None
    seen = []
    content = b"the content of the end"

    def server(req):
        key = (req.host.lower(), req.port, req.target)
        seen.append(key)
        if req.headers.get("host", "").lower() not in (f"{key[0]}:{key[1]}", key[0]):
            return response(400, b"wrong host header")
        if key in todo:
            status, loc = todo[key]
            return response(status, body, headers=[("Location", loc)] if loc is not None else [], end=end)
        if key == at[-1]:
            return response(200, content)
        return response(404, b"not here")

    n = Net(server)
    with n.active():
        c = client(box)
        url = "http://h/d/r0?q=1#top"
        r = fetch(c, url, "always")
        want_seen = at[:4] if len(steps) > 3 else at
        if fails:
            if r[:2] != ("err", "HttpException"):
                return f"the chain cannot be followed, but the fetch gives {r}"
        elif r != ("ok", content):
            return f"fetch gives {r}, the requests were {seen}"
        if seen != want_seen[:len(seen)] or not fails and seen != want_seen:
            return f"the requests were {seen}, expected {want_seen}"
        if not fails:
            before = len(seen)
            r = fetch(client(box), url, "always")
            if r != ("ok", content) or len(seen) != before:
                return f"what was redirected is not cached: {r}"
        if n.problems:
            return n.problems[0]
    return None


def r_cases(thorough):
    one = [(s, loc) for s in (301, 302, 303, 307, 308) for loc in [*LOCATIONS, "(none)", "ftp://h/x", "file:///etc/passwd"]]
    two = [[(302, a), (307, b)] for a in LOCATIONS for b in LOCATIONS]
    three = [[(302, a), (307, b), (301, d)] for a in LOCATIONS for b in LOCATIONS for d in (LOCATIONS if thorough else list(LOCATIONS)[:3])]
    four = [[(302, "http://h/d/{n}")] * 4, [(302, "/e/{n}")] * 4, [(302, "{n}")] * 5]
    return [(steps, end, body) for steps in [[x] for x in one] + two + three + four
            for end, body in ((("keep", b"moved"), ("eof", b"m" * 9000)) if len(steps) < 3 or thorough else (("keep", b"moved"),))]


# ---------------------------------------------------------------- B: histories
B_URLS = {"x": "http://h/d/file.bin", "y": "http://h/d/file.bin?v=1"}
B_OPS = ["x always", "x ask", "x never", "y ask", "x default", "server x", "server fails", "server breaks", "idle", "restart", "lose data", "lose info",
         "tear info", "check hash", "other hash", "clear", "another url"]


def b_shard(job, part: Part):
    base, validators, seqs = job
    box = fsbox.worker_box(base)
    for seq in seqs:
        r = attempt(lambda: b_case(validators, seq, box), 60)
        err = r[1] if r[0] == "ok" else f"{r[1]}: {r[2]}"
        part.case(("B", validators, seq), outcome=f"histories ({validators})")
        part.transitions += len(seq)
        part.states += 1
        part.traces += 1
        if err:
            part.violation(f"history {validators} {seq}", {"B": [validators, seq]}, f"{err} [{validators}: {seq}]")


def b_case(validators, seq, box):
    box.clear()
    web = Web(validators)
    n = Net(web, dead="pipe" if len(seq) % 2 else "eof")
    keys = {"x": "file.bin", "y": "file.bin?v=1"}
    current = {"x": 0, "y": 1}
    web.version = {keys[u]: v for u, v in current.items()}
    cached = {"x": None, "y": None}  # the version in the cache, None: nothing, or "?": unknown
    failing = [None]
    resources = {}

    def content(u, v):
        return web.body(keys[u], v)

    with n.active():
        c = client(box)
        for i, op in enumerate(seq):
            word, _, rest = op.partition(" ")
            if word in B_URLS:
                u = word
                before = len(web.served)
                if failing[0]:
                    bad = failing[0]
                    web.script = [bad] * 3
                r = attempt(lambda: c.fetch_resource(B_URLS[u], directive(rest)))
                if r[0] == "ok":
                    resources[u] = r[1]
                    r = attempt(lambda: r[1].data.read_bytes())
                asked = web.served[before:]
                web.script, failed, failing[0] = [], bool(failing[0] and asked), None
                where = f"step {i + 1} ({op})"
                if rest in ("always", "default") and cached[u] is not None and (cached[u] != "?" or not asked):
                    if asked:
                        return f"{where} asks the server although the content is cached"
                    allowed = [content(u, v) for v in ((cached[u],) if cached[u] != "?" else (0, 1, 2))]
                    if r[0] != "ok" or r[1] not in allowed:
                        return f"{where} gives {r}, cached is {allowed}"
                    if cached[u] == "?":
                        cached[u] = allowed.index(r[1])
                elif failed:
                    if r[:2] != ("err", "HttpException"):
                        return f"{where} gives {r} from a failing server"
                    if cached[u] is not None:
                        cached[u] = "?"
                else:
                    if not asked:
                        return f"{where} does not ask the server: {r}"
                    if r != ("ok", content(u, current[u])):
                        return f"{where} gives {r}, the server has version {current[u]}"
                    if rest == "never" and asked[-1][2]:
                        return f"{where} is conditional"
                    if rest == "ask" and cached[u] == current[u] and validators in ("etag", "modified") and asked[-1][0] != 304:
                        return f"{where} downloads again what is cached"
                    if rest == "ask" and cached[u] is None and asked[-1][2]:
                        return f"{where} is conditional although nothing is cached"
                    cached[u] = current[u]
            elif op == "server x":
                current["x"] = (current["x"] + 1) % 3 if validators != "modified" else min(2, current["x"] + 1)
                web.version[keys["x"]] = current["x"]
            elif op == "server fails":
                failing[0] = lambda req: (response(500, b"oops" * 3), 500, None)
            elif op == "server breaks":
                failing[0] = lambda req: (Plan(response(200, b"half of it", headers=[("ETag", '"v9"')]).data[:-4], "eof"), 200, None)
            elif op == "idle":
                web.idle_end = "eof" if web.idle_end == "keep" else "keep"
            elif op == "restart":
                c = client(box)
            elif op == "clear":
                c.clear_resources()
                cached = {"x": None, "y": None}
                resources.clear()
            elif op == "another url":
                for other, to in (("http://h/z/other", ("h", 80)), ("http://h:81/z/other", ("h", 81)), ("http://g:81/z/other", ("g", 81))):
                    before = len(n.log)
                    r = fetch(c, other, "ask")
                    if r != ("ok", web.body("other", 1)):
                        return f"another url: {r}"
                    if any((q.host, q.port) != to for q in n.log[before:]) or len(n.log) == before:
                        return f"{other} was requested from {n.log[before:]}"
            elif "x" in resources and cached["x"] is not None:
                res = resources["x"]
                if op == "lose data":
                    res.data.unlink()
                    cached["x"] = None
                elif op == "lose info":
                    res.fetch_info.unlink()
                    cached["x"] = None
                elif op == "tear info":
                    data = res.fetch_info.read_bytes()
                    res.fetch_info.write_bytes(data[:len(data) // 2 + 1])
                    cached["x"] = "?"
                    torn = True
                elif op in ("check hash", "other hash") and cached["x"] != "?":
                    data = content("x", cached["x"])
                    algorithm = "sha256" if op == "check hash" else "md5"
                    good = attempt(lambda: res.is_hash_valid(algorithm, hashlib.new(algorithm, data).hexdigest()))
                    bad = attempt(lambda: res.is_hash_valid(algorithm, hashlib.new(algorithm, data + b"1").hexdigest()))
                    if good[0] != "ok" or not good[1] or bad[0] != "ok" or bad[1]:
                        return f"step {i + 1} ({op}): the right hash is {good}, a wrong one is {bad}"
        if n.problems:
            return n.problems[0]
    return None


# ---------------------------------------------------------------- C: urls
def urls(thorough):
    parts = ["a", "..", ".", "", "b.c", "%2e%2e", "ü", "x y", "a%20b+1", "n" * 300, "a:b@c", "c.fetch.toml", "*?", "'(~)!$&,;="]
    out = []
    for k in (0, 1, 2, 3):
        for combo in itertools.product(parts if thorough or k < 3 else parts[:6], repeat=k):
            out.append("/" + "/".join(combo) if k else "")
    tails = ["", "?", "?q=1", "?q=/../x&r=ü", "#f", "?q#f"]
    return [(host, p, t) for host in ("h", "h:8080", "[::1]", "127.0.0.1", "[::1]:81", "H", "user:pa%40ss@h", "user@h:8080") for p in out
            for t in tails if host == "h" and t in ("", "?q=1") or len(p) < 6]


def u_shard(job, part: Part):
    base, cases = job
    box = fsbox.worker_box(base)
    box.clear()
    contents = {}
    for case in cases:
        r = attempt(lambda: u_case(case, box, contents), 60)
        err = r[1] if r[0] == "ok" else f"{r[1]}: {r[2]}"
        part.case(("U", case), outcome="urls")
        part.transitions += 2
        part.states += 1
        part.traces += 1
        if err:
            part.violation(f"url {''.join(case)[:80]}", {"U": case}, f"{err} [{''.join(case)[:100]}]")
    # everything that was fetched is still what it was
    seen = []
    n = Net(lambda req: seen.append(req) or response(500, b""))
    with n.active():
        c = client(box)
        for url, data in contents.items():
            r = fetch(c, url, "always")
            if r != ("ok", data):
                part.violation(f"url {url[:80]} lost", {"U": [url]}, f"{url[:100]} is cached as {r} after other urls were fetched, it is {data!r}")
                break


def encoded(text):
    return "".join(ch if 32 < ord(ch) < 127 else "".join(f"%{b:02X}" for b in ch.encode()) for ch in text)


def u_case(case, box, contents):
    from urllib.parse import urlsplit
    host, path, tail = case
    url = f"http://{host}{path}{tail}"
    if "?" in path:
        tail = path[path.index("?"):] + tail
        path = path[:path.index("?")]
    hostname, port = urlsplit(f"http://{host}").hostname, urlsplit(f"http://{host}").port or 80
    query = tail.partition("#")[0]
    target = encoded((path or "/") + (query if query != "?" else ""))
    data = f"{hostname}:{port}{target}".encode()
    requests = []

    def server(req):
        requests.append(req)
        return response(200, data)

    outside = fsbox.snapshot(box.root)
    n = Net(server)
    with n.active():
        r = fetch(client(box), url, "always")
        if r != ("ok", data):
            return f"fetch gives {r}"
        if len(requests) != 1:
            if not requests and any(x.lower() == url.lower() for x in contents):
                return None  # H is h
            return f"{len(requests)} requests"
        q = requests[0]
        if (q.host.lower(), q.port, q.target) not in ((hostname, port, target), (hostname, port, target + ("?" if query == "?" else ""))):
            return f"the request was for {q}, expected {hostname}:{port}{target}"
        if "@" in host:
            import base64
            from urllib.parse import unquote
            user, _, password = host.rpartition("@")[0].partition(":")
            want = "Basic " + base64.b64encode(f"{unquote(user)}:{unquote(password)}".encode()).decode()
            if q.headers.get("authorization") != want:
                return f"the authorization is {q.headers.get('authorization')}, expected {want}"
        elif "authorization" in q.headers:
            return "the request has an authorization"
        if fetch(client(box), url, "always") != ("ok", data) or len(requests) != 1:
            return "it is not cached"
    changed = [d for d in fsbox.diff(outside, fsbox.snapshot(box.root)) if "w/cache" not in str(d)]
    if changed:
        return f"files outside of the cache changed: {changed[:3]}"
    contents[url] = data
    return None


# ---------------------------------------------------------------- D: schedules
D_SCENARIOS = {
    "same new url": (False, 1, [("x", "always"), ("x", "always")]),
    "same new url, asking": (False, 1, [("x", "ask"), ("x", "ask")]),
    "changed url": (True, 2, [("x", "ask"), ("x", "always")]),
    "changed url, both ask": (True, 2, [("x", "ask"), ("x", "ask")]),
    "unchanged url": (True, 1, [("x", "ask"), ("x", "ask")]),
    "two urls": (False, 1, [("x", "always"), ("y", "always")]),
    "two urls over used connections": ("idle", 1, [("x", "ask"), ("y", "ask")]),
    "failing": ("fails", 1, [("x", "always"), ("x", "always")]),
    "one fails": ("once", 1, [("x", "always"), ("x", "always")]),
    "never and always": (True, 2, [("x", "never"), ("x", "always")]),
    "three": (False, 1, [("x", "always"), ("x", "ask"), ("y", "always")]),
    "three, same url": (False, 1, [("x", "always")] * 3),
    "three, failing": ("fails", 1, [("x", "always")] * 3),
    "three, asking": (True, 2, [("x", "ask")] * 3),
}


def d_execute(scenario, prefix, box):
    prior, version, tasks = D_SCENARIOS[scenario]
    box.clear()
    web = Web("etag")
    n = Net(web, hook=lambda what: coop.point(what))
    keys = {"x": "file.bin", "y": "file.bin?v=1"}
    web.version = {k: 1 for k in keys.values()}
    run = coop.Coop(prefix)
    with n.active():
        c = client(box)
        if prior is True or prior == "idle":
            for u in ("x", "y") if prior == "idle" else ("x",):
                web.idle_end = "eof" if prior == "idle" else "keep"
                fetch(c, B_URLS[u], "always")
        web.version["file.bin"] = version
        web.served.clear()
        bad = lambda req: (response(500, b"oops"), 500, None)  # noqa
        web.script = [bad] * 10 if prior == "fails" else [bad] if prior == "once" else []

        def task(u, how):
            d = directive(how)
            return lambda: c.fetch_resource(B_URLS[u], d).data.read_bytes()

        results = run.run([task(u, how) for u, how in tasks])
        served = list(web.served)
        web.script = []
        err = None
        if run.deadlock:
            err = f"threads wait for each other forever: {results}"
        for (u, how), r in zip(tasks, results):
            now = web.body(keys[u], web.version[keys[u]])
            old = web.body(keys[u], 1) if prior is True and u == "x" else None
            if r[0] != "ok":
                if r[1] != "HttpException" or prior not in ("fails", "once"):
                    err = err or f"fetching {u} ({how}) fails: {r}"
            elif prior == "fails":
                err = err or f"fetching {u} from a failing server gives {r}"
            elif r[1] != now and not (how == "always" and r[1] == old):
                err = err or f"fetching {u} ({how}) gives {r[1]!r}, the server has {now!r}"
        if prior is False and all(how == "always" for _, how in tasks) and len(served) != len({u for u, _ in tasks}):
            err = err or f"{len(served)} requests for {tasks}"
        for u in sorted({u for u, _ in tasks}):
            for who in (c, client(box)):
                for how in ("always", "ask"):
                    r = fetch(who, B_URLS[u], how)
                    old = web.body(keys[u], 1) if prior is True else None
                    now = web.body(keys[u], web.version[keys[u]])
                    if r != ("ok", now) and not (how == "always" and all(h == "always" for _, h in tasks) and r == ("ok", old)):
                        err = err or f"fetching {u} ({how}) afterwards gives {r}"
        if n.problems:
            err = err or n.problems[0]
    return run, err


def d_shard(job, part: Part):
    base, scenario, preemptions, first = job
    box = fsbox.worker_box(base)
    box_points(box)
    current = [None]

    def execute(prefix):
        r = attempt(lambda: d_execute(scenario, prefix, box), 100)
        if r[0] != "ok":
            current[0] = f"{r[1]}: {r[2]}"
            return coop.Coop()
        run, current[0] = r[1]
        return run

    for prefix, run in coop.schedules(execute, preemptions, first):
        if not prefix and first[0]:
            continue
        part.case(("D", scenario, tuple(prefix)), outcome=f"schedules: {scenario}")
        part.transitions += len(run.trace)
        part.traces += 1
        if current[0]:
            part.violation(f"schedule {scenario}", {"D": [scenario, [x[1] for x in run.trace]]}, f"{current[0]} [{scenario}]")
            break


_points = set()


def box_points(box):
    """changes of files are points where threads are switched, too"""
    work = str(box.work)
    if work in _points:
        return
    _points.add(work)

    def hook(event, args):
        if event in ("open", "os.rename", "os.remove", "os.rmdir") and args and isinstance(args[0], (str, os.PathLike)) \
                and str(args[0]).startswith(work):
            coop.point(event)
    sys.addaudithook(hook)


# ---------------------------------------------------------------- E: get and post
class Given(Exception):
    ...


def e_run(ck):
    from pkm.utils.http.mfd_payload import FormField, MultipartFormDataPayload

    def case(name, fn):
        r = attempt(lambda: fn(name), 60)
        err = r[1] if r[0] == "ok" else f"{r[1]}: {r[2]}"
        ck.case(("E", name), outcome="get and post")
        ck.transitions += 2
        ck.states += 1
        ck.traces += 1
        if err:
            ck.violation(f"api {name}", {"E": name}, f"{err} [{name}]")

    with fsbox.base_dir() as base:
        import tempfile
        work = Path(tempfile.mkdtemp(dir=base))

        class FakeBox:
            ...
        fake = FakeBox()
        fake.work = work
        for framing in FRAMINGS:
            for error in (ConnectionError("mine"), ConnectionResetError("mine"), TimeoutError("mine"), Given("mine"), KeyError("mine"), None):
                for amount in (0, 5, None):
                    case(f"the user of a response reads {amount} of {framing} and ends with {type(error).__name__}",
                         lambda name: e_get(fake, framing, error, amount))
        file = work / "upload.bin"
        file.write_bytes(b"content of the file\r\n--boundary\r\n" * 9)

        def payloads():
            yield "text", lambda: "some text", lambda b: b == b"some text"
            yield "bytes", lambda: b"some bytes", lambda b: b == b"some bytes"
            yield "nothing", lambda: None, lambda b: b == b""
            yield "file", lambda: file.open("rb"), lambda b: b == file.read_bytes()
            yield "iterable", lambda: [b"some", b" bytes"], lambda b: b == b"some bytes"
            yield "generator", lambda: (x for x in (b"some", b" bytes")), lambda b: b == b"some bytes"
            yield "form", lambda: MultipartFormDataPayload([FormField("a", "1"), FormField("content", file.open("rb"), filename="up.bin"), FormField("b", "ü")]), \
                lambda b: e_form(b, file.read_bytes())

        for what, make, check in payloads():
            for breaks in ("", "before", "inside", "pooled eof", "pooled pipe", "status", "timeout", "refused", "redirect 307", "redirect 0"):
                case(f"posting {what}, {breaks or 'works'}", lambda name: e_post(fake, make, check, breaks))


def e_form(body, content):
    import email.parser
    boundary = body.split(b"\r\n", 1)[0][2:]
    if not body.endswith(b"--" + boundary + b"--\r\n") and not body.endswith(b"--" + boundary + b"--"):
        return False
    msg = email.message_from_bytes(b"MIME-Version: 1.0\r\nContent-Type: multipart/form-data; boundary=" + boundary + b"\r\n\r\n" + body)
    parts = [(p.get_param("name", header="content-disposition"), p.get_filename(), p.get_payload(decode=True)) for p in msg.get_payload()]
    # the parser of mails strips line ends
    return [(n, f, d.replace(b"\r\n", b"\n")) for n, f, d in parts] == \
        [("a", None, b"1"), ("content", "up.bin", content.replace(b"\r\n", b"\n")), ("b", None, "ü".encode())] and content in body


def e_get(box, framing, error, amount):
    shutil.rmtree(box.work / "cache", ignore_errors=True)
    web = Web("etag", framing)
    n = Net(web)
    mine = {"x-mine": "1"}
    with n.active():
        c = client(box)
        got = None
        try:
            with c.get(URL, mine) as response_:
                if response_.status != 200:
                    return f"the status is {response_.status}"
                got = response_.read() if amount is None else response_.read(amount) if amount else b""
                if error is not None:
                    raise error
        except Exception as e:  # noqa
            if e is not error:
                return f"the error of the caller became {e!r}"
        else:
            if error is not None:
                return "the error of the caller is lost"
        if got != BODY[1][:amount]:
            return f"read {got!r}"
        if n.log[0].headers.get("x-mine") != "1" or mine != {"x-mine": "1"}:
            return f"headers: {n.log[0].headers}, those of the caller: {mine}"
        if len(n.log) != 1:
            return f"{len(n.log)} requests"
        for u in B_URLS.values():
            web.framing = "length"
            r = fetch(c, u, "ask")
            if r[0] != "ok":
                return f"a fetch afterwards: {r}"
        return n.problems[0] if n.problems else None


def e_post(box, make, check, breaks):
    shutil.rmtree(box.work / "cache", ignore_errors=True)
    first = [True]
    bodies = []

    def server(req):
        if req.method == "GET":
            return response(200, b"used", end="eof" if breaks.startswith("pooled") else "keep")
        bodies.append(req.body)
        if first[0] and breaks and not breaks.startswith("pooled"):
            first[0] = False
            if breaks == "before":
                return Plan(b"", "reset")
            if breaks == "inside":
                return Plan(b"HTTP/1.1 20", "eof")
            if breaks == "timeout":
                return Plan(b"", "timeout")
            if breaks == "status":
                return response(403, b"no" * 40000)
            if breaks.startswith("redirect"):
                return response(307, b"there", headers=[("Location", "/there")])
        return response(200, b"thanks")

    n = Net(server, dead="pipe" if breaks.endswith("pipe") else "eof")
    left = [1 if breaks == "refused" else 0]

    def refuse(*_):
        left[0] -= 1
        return ConnectionRefusedError(111, "refused") if left[0] >= 0 else None

    n.refuse = refuse
    with n.active():
        c = client(box)
        if breaks.startswith("pooled"):
            fetch(c, URL, "always")

        def post():
            with c.post("http://h/upload/", make(), {"x-mine": "1"}, max_redirects=0 if breaks == "redirect 0" else -1) as r:
                return r.status, r.read()

        r = attempt(post)
        if r[0] != "ok" and r[1] not in ("HttpException", "TimeoutError", "BadStatusLine"):
            return f"posting ends with {r}"
        wrong = [b for b in bodies if not check(b)]
        if wrong:
            return f"the server got {wrong[0][:200]!r}..."
        if breaks in ("", "pooled eof", "pooled pipe") and r != ("ok", (200, b"thanks")) and not (r[0] == "err" and breaks and "generator" in str(make())):
            return f"posting gives {r}"
        if breaks == "status" and r != ("ok", (403, b"no" * 40000)):
            return f"posting gives {r}"
        if breaks == "redirect 0" and r[0] == "ok" and r[1][0] == 200:
            return "a redirect was followed"
        if r[0] == "ok" and r[1][0] == 200 and not bodies:
            return "nothing was posted"
        if (r2 := fetch(c, "http://h/z", "always"))[0] != "ok":
            return f"a fetch afterwards: {r2}"
        return n.problems[0] if n.problems else None


# ---------------------------------------------------------------- F: interrupted fetches
def f_shard(job, part: Part):
    base, prior, how, mode, framing = job
    box = fsbox.worker_box(base)
    n = 0
    while n < 500:
        r = attempt(lambda: f_case(prior, how, mode, framing, n, box), 60)
        err, fired = r[1] if r[0] == "ok" else (f"{r[1]}: {r[2]}", False)
        part.case(("F", prior, how, mode, framing, n), outcome=f"{mode}s")
        part.transitions += 5
        part.states += 1
        part.traces += 1
        if err:
            part.violation(f"{mode} {prior} {how}", {"F": [prior, how, mode, framing, n]}, f"{err} [{mode} at operation {n} of a fetch ({how}), cached: {prior}]")
            break
        if not fired:
            break
        n += 1


def f_case(prior, how, mode, framing, at, box):
    box.clear()
    box.clear(box.tmp)
    web = Web("etag", framing)
    n = Net(web)
    with n.active():
        c = client(box)
        if prior:
            web.version["file.bin"] = 0
            fetch(c, URL, "always")
            web.version["file.bin"] = prior == "changed"
        if mode == "crash":
            pid = os.fork()
            if pid == 0:
                try:
                    box.crash_at = at
                    with box:
                        box.fault_reads = True
                        fetch(c, URL, how)
                    os._exit(0)
                except BaseException:  # noqa
                    os._exit(1)
            rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            fired = rc == 77
            if rc not in (0, 77):
                return f"the process ended with {rc}", fired
            clients = [("a new client", client(box))]
        else:
            with box:
                box.fault_reads, box.fault_at = True, at
                r = fetch(c, URL, how)
            fired = box.fired is not None
            box.fault_at = None
            if r[0] == "ok":
                if r[1] not in ((BODY[0],) if how == "always" and prior else ()) + (web.body("file.bin", web.version.get("file.bin", 1)),):
                    return f"the fetch gives {r}", fired
            elif r[:2] not in (("err", "HttpException"), ("err", "OSError"), ("err", "Fault")) and not (r[0] == "lost"):
                return f"the fetch ends with {r}", fired
            clients = [("the same client", c), ("a new client", client(box))]
        now = web.body("file.bin", web.version.get("file.bin", 1))
        may = {now} | ({BODY[0]} if prior else set())
        for who, c2 in clients:
            for how2 in ("always", "ask"):
                r = fetch(c2, URL, how2)
                if r[0] != "ok" or r[1] not in (may if how2 == "always" else {now}):
                    return f"{who} ({how2}) gets {r} afterwards", fired
                may = {r[1]}
    return None, fired


# ----------------------------------------------------------------
def run(ck: Check):
    coop.install()
    import pkm.utils.http.http_client  # noqa
    import pkm.utils.http.cache_directive  # noqa
    t = ck.thorough
    with fsbox.base_dir() as base:
        parallel(ck, a_shard, [(base, s) for s in shard_list(a_cases(t), 32)])
        parallel(ck, r_shard, [(base, s) for s in shard_list(r_cases(t), 16)])
        seqs = {}
        for v in ("etag", "modified", "none", "date"):
            depth = (4 if v == "etag" else 3) + t
            seqs[v] = [s for k in range(1, depth + 1) for s in itertools.product(B_OPS, repeat=k)
                       if s[-1].split()[0] in B_URLS or s[-1] in ("another url", "check hash")]
            parallel(ck, b_shard, [(base, v, s) for s in shard_list(seqs[v], 32)])
        parallel(ck, u_shard, [(base, s) for s in shard_list(urls(t), 16)])
        parallel(ck, f_shard, [(base, prior, how, mode, f) for prior in ("", "same", "changed") for how in ("always", "ask")
                               for mode in ("fault", "crash") for f in ("length", "gzip")])
        if not ck.violations:
            of = 8
            parallel(ck, d_shard, [(base, s, p, (k, of)) for s in D_SCENARIOS
                                   for p in [(1 if len(D_SCENARIOS[s][2]) > 2 else 2) + t] for k in range(of)])
    e_run(ck)
    ck.extra["histories"] = {v: len(s) for v, s in seqs.items()}


def replay(case):
    coop.install()
    with fsbox.base_dir() as base:
        box = fsbox.worker_box(base)
        if "A" in case:
            a = case["A"]
            return a_case((*a[:4], tuple(a[4]), *a[5:]), box)
        if "R" in case:
            steps, end, body = case["R"]
            return r_case(([tuple(s) for s in steps], end, body.encode() if isinstance(body, str) else b"moved"), box)
        if "B" in case:
            return b_case(case["B"][0], tuple(case["B"][1]), box)
        if "U" in case:
            return u_case(tuple(case["U"]), box, {}) if len(case["U"]) == 3 else None
        if "D" in case:
            box_points(box)
            return d_execute(case["D"][0], case["D"][1], box)[1]
        if "F" in case:
            return f_case(*case["F"], box)[0]
    return None
