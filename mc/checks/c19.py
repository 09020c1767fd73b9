"""C19 package indexes: what a repository over the network offers is what its index says, in every presentation and history."""
import hashlib
import html
import io
import itertools
import json
import os
import re
import shutil
import zipfile
from pathlib import Path
from urllib.parse import quote, unquote, urlsplit

from packaging.specifiers import InvalidSpecifier, SpecifierSet
from packaging.version import InvalidVersion, Version as PV

from mc import fsbox, histories, pyenv
from mc.core import Check, Part, attempt, parallel, shard_list
from mc.net import Net, Plan, response

PROPERTY = "C19"
LEVEL = "model_checking"
RULE = ("repositories of the types pypi and simple over an in-memory network: every listing of up to 3 (4) files out of 22 x queries; every "
        "presentation of an index page (8 kinds of links x hashes x markup x servers x spellings); corrupted downloads; every sequence (to a depth) of "
        "changes of the index, failures, lookups and installations; every combination of the states of the repositories of an environment; every way an "
        "upload ends. The versions that match must be those of a model of the index. non-trivial: distinct executions")

PYTHON = PV("3.12.3")
SITE = histories.SITE


def key(name):
    return re.sub(r"[-_.]+", "-", name).lower()


class F:
    """a file of the index"""

    def __init__(self, name, version, kind="py3-none-any.whl", python=None, yanked=None, requires=()):
        self.name, self.version, self.kind, self.python, self.yanked, self.requires = name, version, kind, python, yanked, list(requires)
        n = re.sub(r"[-_.]+", "_", name)
        self.wheel, self.sdist = kind.endswith(".whl"), kind in ("tar.gz", "zip")
        self.filename = f"{n}-{version}-{kind}" if self.wheel else f"{name if kind == 'zip' else n}-{version}.{kind}"
        self._data = None

    @property
    def data(self):
        if self._data is None:
            if not self.wheel:
                self._data = f"this is {self.filename}".encode()
            else:
                n = re.sub(r"[-_.]+", "_", self.name)
                di = f"{n}-{self.version}.dist-info"
                files = {f"{n.lower()}.py": f"# {self.filename}\n".encode(), f"{di}/WHEEL": pyenv.wheel_text(tag=self.kind[:-4]),
                         f"{di}/METADATA": pyenv.metadata(self.name, self.version, self.requires, self.python)}
                rows = [pyenv.record_line(k, v) for k, v in files.items()] + [[f"{di}/RECORD", "", ""]]
                out = io.BytesIO()
                with zipfile.ZipFile(out, "w") as z:
                    for k, v in {**files, f"{di}/RECORD": pyenv.to_csv(rows)}.items():
                        z.writestr(zipfile.ZipInfo(k), v)
                self._data = out.getvalue()
        return self._data

    def digest(self, how):
        return hashlib.new(how, self.data).hexdigest()

    def usable(self):
        """True, False or None: not claimed"""
        if self.yanked is not None or not (self.wheel or self.sdist):
            return False
        if self.wheel and self.kind.split("-")[-3] not in ("py3", "py2.py3", "py312") or "win" in self.kind:
            return False
        try:
            return not self.python or SpecifierSet(self.python).contains(PYTHON)
        except InvalidSpecifier:
            return None


def final(v):
    try:
        PV(v)
        return True
    except InvalidVersion:
        return False


def expected(files, name, query):
    """all the lists of versions that are right for the query"""
    m = re.fullmatch(r"([A-Za-z0-9._-]+)(.*)", query)
    assert key(m[1]) == key(name)
    spec = SpecifierSet(m[2])
    mine = [f for f in files if key(f.name) == key(name) and final(f.version)]
    out = []
    unclear = [f for f in mine if f.usable() is None]
    for posts, *taken in itertools.product((False, True), repeat=1 + len(unclear)):
        versions = {PV(f.version) for f in mine if (taken[unclear.index(f)] if f in unclear else f.usable())}
        # whether a range allows a post release is not claimed (pkm says no)
        allowed = [v for v in versions if spec.contains(v, prereleases=True) and (posts or not v.is_postrelease or not m[2])]
        finals = sorted((v for v in allowed if not v.is_prerelease), reverse=True)
        got = sorted(allowed if any(PV(s.version.rstrip(".*")).is_prerelease for s in spec) else finals or allowed, reverse=True)
        legacy = any(not final(f.version) and f.usable() for f in files)
        for g in (got, finals) if legacy else (got,):  # whether a version that is none counts as final is not claimed
            if g not in out:
                out.append(g)
    return out


# ---------------------------------------------------------------- the servers
class Index:
    def __init__(self, files=(), kind="simple", style=None):
        self.files, self.kind = list(files), kind
        self.style = {"href": "absolute", "hash": "sha256", "markup": "pypi", "server": "redirect", "digests": "all", "requires": "null", "path": "/simple", **(style or {})}
        self.script = []  # what happens to the next requests
        self.served = []  # (what, key or file name)
        self.corrupt = {}  # file name -> data
        self.uploads = []

    # -- pages
    def href(self, f, host):
        q = quote(f.filename)
        h = self.style["hash"]
        tail = f"#{h}={f.digest(h)}" if h and h != "upper" else f"#sha256={f.digest('sha256').upper()}" if h else ""
        depth = "../" * (self.style["path"].count("/") + 1)
        return {"absolute": f"http://files-{host}/p/{q}", "path": f"/p/{q}", "relative": f"{depth}p/{q}", "scheme": f"//files-{host}/p/{q}",
                "plain": q, "query": f"http://files-{host}/p/{q}?a=1&b=2", "upper": f"HTTP://FILES-{host.upper()}/p/{q}",
                "base": q, "dot": f"./{q}"}[self.style["href"]] + tail

    def page(self, name, host):
        m = self.style["markup"]
        links = []
        for f in self.files:
            if key(f.name) != key(name):
                continue
            attrs = [("href", self.href(f, host))]
            if f.python:
                attrs.append(("data-requires-python", f.python))
            if f.yanked is not None:
                attrs.append(("data-yanked", f.yanked))
            if m == "attributes":
                attrs = [("rel", "internal"), ("class", "href x"), *attrs[1:], attrs[0], ("data-dist-info-metadata", "sha256=00")]
            quo = "'" if m == "single" else '"'
            sep = "\n      " if m == "pretty" else " "
            a = "A" if m == "upper" else "a"
            text = sep.join(f"{k.upper() if m == 'upper' else k}={quo}{html.escape(v)}{quo}" for k, v in attrs)
            links.append(f"<{a} {text}>{f.filename}</{a}>")
        base = f'<base href="http://files-{host}/p/">' if self.style["href"] == "base" else ""
        if m == "minimal":
            return f"{base}{''.join(links)}"
        head = f"<!DOCTYPE html>\n<html>\n<head><meta name='pypi:repository-version' content='1.0'>{base}<title>Links for {name}</title></head>\n"
        extra = ""
        if m == "extra":
            extra = ('<a href="../">Parent</a> <a href="http://home">home of 9.9</a> <!-- <a href="x-9.0.tar.gz">x-9.0.tar.gz</a> --> <a name="top">'
                     f'</a><a href="{name}-9.9.tar.gz.asc">{name}-9.9.tar.gz.asc</a><a href="{name}-9.9-py3-none-any.whl.metadata">'
                     f'{name}-9.9-py3-none-any.whl.metadata</a><a>nothing</a> <img src="x.zip"> <p>text-9.9.zip</p>')
        return head + f"<body><h1>Links for {name}</h1>{extra}\n" + "<br/>\n".join(links) + "\n</body></html>\n<!--SERIAL 1-->"

    def release(self, f, host):
        d = {"md5": f.digest("md5"), "sha256": f.digest("sha256"), "blake2b_256": hashlib.blake2b(f.data, digest_size=32).hexdigest()}
        d = {"all": d, "md5": {"md5": d["md5"]}, "blake": {"blake2b_256": d["blake2b_256"], "md5": d["md5"]}, "none": {}, "missing": None}[self.style["digests"]]
        out = {"comment_text": "", "downloads": -1, "filename": f.filename, "has_sig": False, "packagetype": "bdist_wheel" if f.wheel else
               "sdist" if f.sdist else "bdist_egg" if f.kind == "egg" else "bdist_wininst", "python_version": "py3" if f.wheel else "source", "requires_python": f.python,
               "size": len(f.data), "upload_time": "2021-01-01T00:00:00", "url": f"http://files-{host}/p/{quote(f.filename)}",
               "yanked": f.yanked is not None, "yanked_reason": f.yanked or None}
        if d is not None:
            out["digests"] = d
        return out

    def json(self, name, host, version=None):
        mine = [f for f in self.files if key(f.name) == key(name)]
        releases = {}
        for f in mine:
            releases.setdefault(f.version, []).append(self.release(f, host))
        releases.setdefault("0.0.1", [])
        of = [f for f in mine if version is None or f.version == version]
        requires = of[-1].requires if of else []
        info = {"author": "me", "author_email": None, "classifiers": ["A :: B"], "description": "ü", "docs_url": None, "name": name, "project_urls": None, "keywords": "",
                "requires_dist": requires if self.style["requires"] == "given" and requires else None, "requires_python": None, "summary": "s", "version": version or (of[-1].version if of else ""),
                "yanked": False, "yanked_reason": None}
        if version:
            return {"info": info, "last_serial": 1, "urls": [self.release(f, host) for f in of]} if of else None
        return {"info": info, "last_serial": 1, "releases": releases, "urls": []}

    # -- requests
    def __call__(self, req):
        path = urlsplit(req.target).path
        host = req.host.lower()
        is_files, host = host.startswith("files-"), host.removeprefix("files-")
        last = unquote(path.rsplit("/", 1)[-1])
        file = next((f for f in self.files if f.filename == last), None)
        on_index = not is_files and not path.startswith("/p/") and not (file and self.style["href"] in ("plain", "dot"))
        if req.method == "POST":
            self.uploads.append(req)
        if self.script and (self.script[0][0] == "any" or (self.script[0][0] == "index") == on_index):
            plan = self.script.pop(0)[1]
            self.served.append(("scripted", path))
            return plan(req) if callable(plan) else plan
        if not on_index:
            places = {"plain": ("index",), "dot": ("index",), "path": ("abs",), "relative": ("abs",)}.get(self.style["href"], ("files",)) if self.kind == "simple" else ("files",)
            place = "files" if is_files and path.startswith("/p/") else "abs" if path.startswith("/p/") else "index"
            if file is None or place not in places:
                return response(404, b"no such file")
            self.served.append(("file", last))
            return response(200, self.corrupt.get(last, file.data), headers=[("Content-Type", "application/octet-stream")])
        base = self.style["path"] if self.kind == "simple" else "/pypi"
        rest = path[len(base):].split("/")[1:] if path.startswith(base + "/") else []
        if not rest or not rest[0]:
            return response(404, b"nothing here")
        name = rest[0]
        exists = any(key(f.name) == key(name) for f in self.files)
        server = self.style["server"]
        if self.kind == "simple":
            good, ok = f"{base}/{key(name)}/", len(rest) <= 2 and not any(rest[1:])
        else:
            good, ok = f"{base}/{'/'.join([key(name), *rest[1:]])}", rest[-1] == "json" and len(rest) in (2, 3)
        if not ok or not exists:
            return response(404, b"not found")
        if path != good:
            if server == "exact" or server == "static" and key(name) != name:
                return response(404, b"not found")
            return response(301, b"moved", headers=[("Location", good)])
        self.served.append(("index", key(name)))
        etag = ()
        if self.kind == "simple":
            body = self.page(key(name), host).encode()
        else:
            data = self.json(key(name), host, unquote(rest[1]) if len(rest) == 3 else None)
            if data is None:
                return response(404, b"no such release")
            body = json.dumps(data, ensure_ascii=False).encode()
        etag = f'"{hashlib.md5(body).hexdigest()}"'
        if req.headers.get("if-none-match") == etag:
            return response(304, framing="none", headers=[("ETag", etag)])
        return response(200, body, headers=[("ETag", etag), ("Content-Type", "text/html" if self.kind == "simple" else "application/json")])


_number = itertools.count()


def a_host():
    return f"h{os.getpid()}x{next(_number)}"


def forget(host):
    from pkm.api.pkm import pkm
    for p in Path(pkm.httpclient.workspace).glob(f"*{host}"):
        shutil.rmtree(p, ignore_errors=True)


def new_repo(kind, host, path="/simple", **kw):
    from pkm.api.pkm import pkm  # noqa
    if kind == "simple":
        from pkm.repositories.simple_repository import SimpleRepositoryBuilder
        return SimpleRepositoryBuilder().build("the index", f"http://{host}{path}", **kw)
    from pkm.repositories.pypi_repository import PypiRepositoryBuilder
    return PypiRepositoryBuilder().build("the index", url=f"http://{host}/pypi", **kw)


def versions(packages):
    return [PV(str(p.version)) for p in packages if final(str(p.version))]


def match(repo, query, env):
    """-> ("ok", versions) or ("err", ..)"""
    r = attempt(lambda: histories.quiet(lambda: repo.match(query, env)), 20)
    if r[0] != "ok":
        return r
    m = re.match(r"[A-Za-z0-9._-]+", query)[0]
    wrong = [p.name for p in r[1] if key(p.name) != key(m)]
    if wrong:
        return "wrong", f"packages of another name: {wrong}"
    return "ok", versions(r[1])


def fresh_env(box):
    root = box.work / "env"
    if root.exists():
        shutil.rmtree(root)
    pyenv.write_env(root)
    return pyenv.load_env(root)


def installed(box):
    """{module: wheel it is from}, and the dist-infos"""
    site = box.work / "env" / SITE
    out = {}
    for p in sorted(site.iterdir()):
        if p.suffix == ".py":
            out[p.stem] = p.read_text()[2:].strip()
    infos = sorted(p.name for p in site.iterdir() if p.name.endswith(".dist-info"))
    return out, infos


def install(env, repo, *deps):
    from pkm.api.dependencies.dependency import Dependency
    return attempt(lambda: histories.quiet(lambda: env.install([Dependency.parse(d) for d in deps], repo)), 20)


def expect_installed(box, files):
    mods, infos = installed(box)
    want = {re.sub(r"[-_.]+", "_", f.name).lower(): f.filename for f in files}
    if mods != want or len(infos) != len(want):
        return f"installed is {mods} {infos}, expected {want}"
    return None


def run_cases(tag, fn, cases, part: Part, base, label):
    box = fsbox.worker_box(base)
    for case in cases:
        r = attempt(lambda: fn(case, box), 90)
        err = r[1] if r[0] == "ok" else f"{r[1]}: {r[2]}"
        part.case((tag, case), outcome=label)
        part.transitions += 3
        part.states += 1
        part.traces += 1
        if err:
            part.violation(f"{label} {case}"[:150], {tag: case}, f"{err} [{case}]"[:600])


# ---------------------------------------------------------------- M: listings
KINDS = [
    ("1.0", {}), ("1.0", {"kind": "tar.gz"}), ("1.5", {"python": ">=3.8"}), ("1.5", {"python": ">=4"}), ("2.0", {"kind": "tar.gz"}),
    ("2.0", {"kind": "cp312-cp312-win_amd64.whl"}), ("2.1a1", {}), ("2.2.dev1", {"kind": "tar.gz"}), ("3.0", {"yanked": ""}),
    ("3.0", {"kind": "1-py3-none-any.whl"}), ("1.0.post1", {"kind": "zip"}), ("2!0.5", {}), ("1.0+local.1", {}), ("4.0", {"kind": "egg"}),
    ("2004d", {"kind": "tar.gz"}), ("5.0", {"python": "2.7, !=3.0"}), ("5.1", {"python": ">=3.6.*"}), ("1.0.0", {"kind": "tar.gz"}),
    ("4.1", {"kind": "cp27-none-any.whl"}), ("4.2", {"kind": "py2.py3-none-any.whl", "python": ">=2.7,!=3.0.*,<4"}), ("1.0rc1", {"yanked": "broken"}),
    ("1.9", {"python": "<3.12", "kind": "tar.gz"}),
]
QUERIES = ["my-pkg", "my-pkg<2", "my-pkg>=2", "my-pkg==1.0", "my-pkg>=2.0a0", "my-pkg!=1.5,<3"]


def m_files(indices):
    return [F("my-pkg", KINDS[i][0], **KINDS[i][1]) for i in indices]


def m_case(case, box):
    kind, indices = case
    files = m_files(indices)
    host = a_host()
    index = Index(files, kind)
    env = m_case.env = m_case.env or fresh_env(box)
    try:
        with Net(index).active():
            repo = new_repo(kind, host)
            for q in QUERIES:
                if q == "my-pkg==1.0" and any("+" in f.version for f in files):
                    continue
                r = match(repo, q, env)
                want = expected(files, "my-pkg", q)
                if r[0] != "ok" or r[1] not in want:
                    return f"{q} matches {r}, expected {' or '.join(str([str(v) for v in w]) for w in want)}"
    finally:
        forget(host)
    return None


def m_shard(job, part):
    m_case.env = None
    run_cases("M", m_case, job[1], part, job[0], "listings")


# ---------------------------------------------------------------- P: presentations
HREFS = ["absolute", "path", "relative", "scheme", "plain", "query", "upper", "base", "dot"]
HASHES = ["sha256", "md5", "sha512", "", "upper"]
MARKUP = ["pypi", "single", "minimal", "upper", "pretty", "attributes", "extra"]
SERVERS = ["redirect", "static", "exact"]
SPELLINGS = ["my-pkg", "My_Pkg", "MY.pkg"]
PATHS = ["/simple", "", "/a/b/simple", "/simple/"]


def p_cases(thorough):
    out = []
    for href in HREFS:
        for h in HASHES:
            for m in MARKUP:
                for s in SERVERS:
                    for sp in SPELLINGS:
                        for p in PATHS:
                            odd = (h != "sha256") + (m != "pypi") + (s != "redirect") + (sp != "my-pkg") + (p != "/simple") + (href != "absolute")
                            if odd <= (4 if thorough else 3):
                                out.append(("simple", href, h, m, s, sp, p, "1.1"))
    for href in HREFS:
        out += [("simple", href, h, "pypi", "redirect", "my-pkg", "/simple", v) for h in HASHES for v in ("1.1+l.1", "1!1.1", "1.1.post2")]
    for d in ("all", "md5", "blake", "none", "missing"):
        for req in ("null", "given"):
            for s in SERVERS:
                for sp in SPELLINGS:
                    for v in ("1.1", "1.1+l.1", "1!1.1"):
                        out.append(("pypi", d, req, "", s, sp, "", v))
    return out


def p_case(case, box):
    kind, a, b, m, server, spelled, path, version = case
    files = [F("my-pkg", "1.0"), F("my-pkg", version, requires=["De.p>=1"]), F("my-pkg", "1.2", python=">=4"), F("my-pkg", "3.9", yanked="bad > worse"),
             F("de-p", "1.5", python="<4 , >=3.6"), F("de-p", "1.4"), F("other", "1.0")]
    style = {"href": a, "hash": b, "markup": m, "path": path.rstrip("/")} if kind == "simple" else {"digests": a, "requires": b}
    host = a_host()
    index = Index(files, kind, {**style, "server": server})
    env = fresh_env(box)
    net = Net(index)
    try:
        with net.active():
            repo = new_repo(kind, host, path)
            r = match(repo, spelled, env)
            want = [PV(version), PV("1.0")]
            if r != ("ok", want):
                return f"{spelled} matches {r}, expected {want}"
            r = install(env, repo, spelled)
            if r[0] != "ok":
                return f"installing fails: {r}"
            if err := expect_installed(box, [files[1], files[4]]):
                return err
            asked = [n for what, n in index.served if what == "file"]
            if sorted(asked) != sorted([files[1].filename, files[4].filename]):
                return f"downloaded are {asked}"
            if match(repo, "absent", env) != ("ok", []):
                return f"a package that is not there matches {match(repo, 'absent', env)}"
            if net.problems:
                return net.problems[0]
    finally:
        forget(host)
    return None


def p_shard(job, part):
    run_cases("P", p_case, job[1], part, job[0], "presentations")


# ---------------------------------------------------------------- C: corrupted downloads
def c_cases():
    for kind, styles in (("simple", [{"hash": h} for h in ("sha256", "md5", "sha512", "upper")]), ("pypi", [{"digests": d} for d in ("all", "md5", "blake")])):
        for style in styles:
            for what in ("other wheel", "truncated", "appended", "empty", "not a wheel", "broken", "error page"):
                for which in ("my-pkg", "dep"):
                    for again in (1, 2):
                        yield kind, tuple(style.items()), what, which, again


def c_case(case, box):
    kind, style, what, which, again = case
    files = [F("my-pkg", "1.0", requires=["dep"]), F("dep", "1.5"), F("evil", "1.5")]
    host = a_host()
    index = Index(files, kind, dict(style))
    bad = next(f for f in files if f.name == which)
    env = fresh_env(box)
    fault = {"other wheel": F(which, bad.version, "py2.py3-none-any.whl", requires=["evil"]).data, "truncated": bad.data[:-10], "appended": bad.data + b"\0", "empty": b"",
             "not a wheel": b"<html>sorry</html>", "broken": None, "error page": None}[what]
    try:
        with Net(index).active():
            repo = new_repo(kind, host)
            for n in range(again):
                if fault is not None:
                    index.corrupt[bad.filename] = fault
                else:
                    full = response(200, bad.data)
                    plan = Plan(full.data[:-5], "eof") if what == "broken" else response(503, b"busy")
                    # the first file that is asked for may be the other one
                    index.script = [("file", lambda req: plan if bad.filename in unquote(req.target) else response(200, next(f for f in files if f.filename in unquote(req.target)).data))] * 3
                r = install(env, repo, "my-pkg")
                index.script.clear()
                index.corrupt.clear()
                mods, infos = installed(box)
                if r[0] == "ok":
                    return f"installing succeeds although {bad.filename} is not what the index says"
                if mods or infos:
                    return f"installing failed, but there are {mods} {infos}"
                if n == 0 and again == 2:
                    repo = new_repo(kind, host)
            for who in ("the same repository object", "a new one"):
                env = fresh_env(box)
                r = install(env, repo, "my-pkg")
                if r[0] != "ok":
                    return f"installing fails for {who} although the index is fine again: {r}"
                if err := expect_installed(box, files[:2]):
                    return err
                repo = new_repo(kind, host)
    finally:
        forget(host)
    return None


def c_shard(job, part):
    run_cases("C", c_case, job[1], part, job[0], "corrupted downloads")


# ---------------------------------------------------------------- H: histories
H_OPS = ["match", "pinned", "install", "new", "yank", "remove", "down", "breaks", "corrupt", "restart", "moved"]


def h_case(case, box):
    kind, seq = case
    host = a_host()
    all_files = [F("my-pkg", v) for v in ("1.0", "2.0", "3.0")]
    files = [all_files[0], F("other", "1.0")]
    index = Index(files, kind)
    env = fresh_env(box)
    seen = []  # what the index was since the repository object exists
    trouble = None
    state = {}

    def now():
        return list(index.files)

    def possible():
        return [now()] + (seen if kind == "simple" else [])
    try:
        with Net(index).active():
            repo = new_repo(kind, host)
            seen.append(now())
            for i, op in enumerate(seq):
                where = f"step {i + 1} ({op})"
                if op in ("match", "pinned"):
                    q = "my-pkg" if op == "match" else "my-pkg==1.0"
                    index.script = {"down": [("index", response(500, b"oops"))] * 4, "breaks": [("index", Plan(b"HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\n<a href", "eof"))] * 4}.get(trouble, [])
                    r = match(repo, q, env)
                    failed = len(index.script) < 4 and trouble in ("down", "breaks")
                    index.script = []
                    trouble = None if trouble != "corrupt" else trouble
                    good = [w for fs in possible() for w in expected(fs, "my-pkg", q)]
                    if failed:
                        if r[0] != "err":
                            return f"{where} gives {r} although the index cannot be read"
                    elif r[0] != "ok" or r[1] not in good:
                        return f"{where} gives {r}, expected {good}"
                elif op == "install":
                    env = fresh_env(box)
                    latest = [max((f for f in fs if f.name == "my-pkg" and f.usable()), key=lambda f: PV(f.version), default=None) for fs in possible()]
                    index.script = {"down": [("any", response(500, b"oops"))] * 9, "breaks": [("any", Plan(b"HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\nPK", "eof"))] * 9}.get(trouble, [])
                    if trouble == "corrupt":
                        index.corrupt = {f.filename: b"not it" for f in all_files}
                    before = len(index.served)
                    r = install(env, repo, "my-pkg")
                    met = any(what == "scripted" or what == "file" and n in index.corrupt for what, n in index.served[before:])
                    index.script, index.corrupt, trouble = [], {}, None
                    if r[0] == "ok":
                        # whether an older version is taken when the latest is not what the index says is not claimed
                        good = [f for fs in possible() for f in fs if f.name == "my-pkg" and f.usable()] if met else latest
                        if not any(f and expect_installed(box, [f]) is None for f in good):
                            return f"{where}: installed is {installed(box)}, expected one of {[f and f.filename for f in good]}"
                    elif not met and None not in latest:
                        return f"{where} fails: {r}"
                    elif installed(box) != ({}, []):
                        return f"{where} failed, but there is {installed(box)}"
                elif op == "new":
                    nxt = next((f for f in all_files if f not in index.files), None)
                    if nxt:
                        index.files.append(nxt)
                elif op == "yank":
                    mine = [f for f in index.files if f.name == "my-pkg"]
                    if mine:
                        i = index.files.index(mine[-1])
                        index.files[i] = F("my-pkg", mine[-1].version, yanked="bad")
                elif op == "remove":
                    mine = [f for f in index.files if f.name == "my-pkg"]
                    if mine:
                        index.files.remove(mine[-1])
                elif op == "moved":
                    index.style["server"] = {"redirect": "exact", "exact": "redirect"}[index.style["server"]]
                elif op == "restart":
                    repo = new_repo(kind, host)
                    seen.clear()
                else:
                    trouble = op
                seen.append(now())
    finally:
        forget(host)
    return None


def h_shard(job, part):
    run_cases("H", h_case, job[1], part, job[0], "histories")


def h_cases(depth):
    for kind in ("pypi", "simple"):
        for k in range(1, depth + 1):
            for seq in itertools.product(H_OPS, repeat=k):
                if seq[-1] in ("match", "install", "pinned") and not any(a == b and a not in ("new", "remove", "match", "install") for a, b in zip(seq, seq[1:])):
                    yield kind, seq


# ---------------------------------------------------------------- W: several repositories
W_STATES = ["has", "has another version", "absent", "nothing usable", "fails", "breaks", "refused", "other packages only"]


def w_files(state, n):
    if state == "has":
        return [F("my-pkg", f"{n}.0")]
    if state == "has another version":
        return [F("my-pkg", f"0.{n}")]
    if state == "nothing usable":
        return [F("my-pkg", "9.0", "cp27-none-any.whl"), F("my-pkg", "8.0", yanked="")]
    if state == "other packages only":
        return [F("other", "1.0")]
    return []


def w_case(case, box):
    """the repositories of an environment, in their order; what is found first is taken, what cannot be asked must not be skipped"""
    types, states, inherit, query = case
    env_root = box.work / "env"
    fresh_env(box)
    host = a_host()
    hosts = [f"{host}n{n}" for n in range(len(types))]
    indexes = {h: Index(w_files(s, n + 1), t) for n, (h, t, s) in enumerate(zip(hosts, types, states))}
    global_index = Index([F("my-pkg", "7.0")], "pypi")
    (env_root / "etc/pkm").mkdir(parents=True, exist_ok=True)
    lines = [f'inheritance = "{inherit}"']
    for n, (t, h) in enumerate(zip(types, hosts)):
        lines += [f'[repos."r{n}"]', f'type = "{t}"', f'url = "http://{h}/{"simple" if t == "simple" else "pypi"}"']
    (env_root / "etc/pkm/repositories.toml").write_text("\n".join(lines) + "\n")
    env = pyenv.load_env(env_root)

    def server(req):
        h = req.host.lower().removeprefix("files-")
        if h in indexes:
            s = states[hosts.index(h)]
            if s == "fails":
                return response(500, b"oops")
            if s == "breaks":
                return Plan(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n<html>", "eof")
            return indexes[h](req)
        if h == "pypi.org":
            return global_index(req)
        return response(404, b"who?")
    net = Net(server)
    net.refuse = lambda h, port: ConnectionRefusedError(111, "refused") if h in hosts and states[hosts.index(h)] == "refused" else None
    want = []
    for n, s in enumerate(states):
        if s in ("fails", "breaks", "refused"):
            want = None
            break
        found = expected(w_files(s, n + 1), "my-pkg", query)[0]
        if found:
            want = found
            break
    else:
        want = expected(global_index.files, "my-pkg", query)[0] if inherit != "none" else []
    try:
        with net.active():
            # pypi's own content may be cached already: it is always the same
            r = match(env.attached_repository, query, env)
    finally:
        for h in hosts:
            forget(h)
    if want is None:
        if r[0] != "err":
            return f"{query} gives {r} although a repository before it cannot be asked"
    elif r != ("ok", want):
        return f"{query} gives {r}, expected {want}"
    return None


def w_shard(job, part):
    run_cases("W", w_case, job[1], part, job[0], "several repositories")


def w_cases(thorough):
    for n in (1, 2, 3) if thorough else (1, 2):
        for types in itertools.product(("pypi", "simple"), repeat=n):
            for states in itertools.product(W_STATES, repeat=n):
                for inherit in ("context", "none"):
                    for q in ("my-pkg", "My.Pkg>=1"):
                        yield types, states, inherit, q


# ---------------------------------------------------------------- U: uploads
U_ENDS = ["200", "400", "403", "401", "302", "500", "200 breaks", "reset", "eof", "refused", "timeout", "connection dies first"]
U_AUTH = [("user", "pass"), ("__token__", "pypi-AgEIc:x=="), ("ü", "p:ä ß"), ("u", "")]


def u_projects():
    base = {"name": "My.Pkg", "version": "1.0"}
    yield base, ""
    yield {**base, "description": "what ü is"}, ""
    yield {**base, "readme": "README.md"}, "# title\r\n\r\n--boundary--\ntext ü\n"
    yield {**base, "dependencies": ["a>=1", "b[x]; python_version<'3'"], "classifiers": ["A :: B", "C :: D"], "requires-python": ">=3.8"}, ""
    yield {**base, "keywords": ["k", "l"], "urls": {"home": "http://x/?a=b&c"}, "authors": [{"name": "N", "email": "n@e.x"}, {"name": "M"}], "optional-dependencies": {"o": ["c"]}}, ""
    yield {**base, "license": {"text": "first line\nsecond\n\nlast"}}, ""


def u_case(case, box):
    import tomllib  # noqa
    n, end, auth, dists = case
    cfg, readme = list(u_projects())[n]
    host = a_host()
    root = box.work / "prj"
    shutil.rmtree(root, ignore_errors=True)
    (root / "dist/1.0").mkdir(parents=True)
    lines = ["[project]"]
    for k, v in cfg.items():
        if k == "authors":
            text = "[" + ", ".join("{" + ", ".join(f"{a} = {json.dumps(b)}" for a, b in x.items()) + "}" for x in v) + "]"
        elif isinstance(v, dict):
            text = "{" + ", ".join(f"{a} = {json.dumps(b, ensure_ascii=False)}" for a, b in v.items()) + "}"
        else:
            text = json.dumps(v, ensure_ascii=False)
        lines.append(f"{k} = {text}")
    lines += ["[build-system]", 'requires = ["pkm"]', 'build-backend = "pkm.api.buildsys"']
    (root / "pyproject.toml").write_text("\n".join(lines) + "\n")
    if readme:
        (root / "README.md").write_bytes(readme.encode())
    files = {"my_pkg-1.0-py3-none-any.whl": b"PK" + bytes(range(256)) * 300, "my_pkg-1.0.tar.gz": b"\x1f\x8b" + b"\r\n--x--\r\n" * 9, "my_pkg-1.0-1build-cp312-abi3-linux_x86_64.whl": b"PK1"}
    files = {f: d for f, d in files.items() if dists == "all" or f.endswith(dists)}
    for f, d in files.items():
        (root / "dist/1.0" / f).write_bytes(d)
    from pkm.api.projects.project import Project
    project = Project.load(root)
    got = []
    first = [True]

    def server(req):
        if req.method == "GET":
            return response(200, b"x", end="eof" if end == "connection dies first" else "keep")
        got.append(req)
        if first[0] or end.isdigit():
            first[0] = False
            if end == "302":
                return response(302, b"there", headers=[("Location", "/elsewhere")])
            if end.isdigit():
                return response(int(end), b"answer")
            if end == "200 breaks":
                return Plan(b"HTTP/1.1 200 OK\r\nContent-Length: 20\r\n\r\nthan", "eof")
            if end in ("reset", "eof", "timeout"):
                return Plan(b"", end)
        return response(200, b"")

    net = Net(server, dead="pipe")
    left = [1 if end == "refused" else 0]

    def refuse(*_):
        left[0] -= 1
        return ConnectionRefusedError(111, "refused") if left[0] >= 0 else None
    net.refuse = refuse
    with net.active():
        repo = new_repo("pypi", host, publish_url=f"http://{host}/legacy")
        if end == "connection dies first":
            from pkm.api.pkm import pkm
            pkm.httpclient.fetch_resource(f"http://{host}/x")
        r = attempt(lambda: histories.quiet(lambda: project.publish(repo.publisher, {"username": auth[0], "password": auth[1]})), 20)
    forget(host)
    complete = {}
    for q in got:
        if q.host != host or q.target != "/legacy/":
            return f"uploaded to {q}"
        if err := u_check(q, cfg, readme, files, auth, complete):
            return err
    bad = end in ("400", "403", "401", "302", "500")
    if r[0] == "ok" and (bad or set(complete) != set(files)):
        return f"publishing succeeds, the server (that answers {end}) got {sorted(complete)} of {sorted(files)}"
    if r[0] != "ok" and end in ("200", "connection dies first", "refused"):
        return f"publishing fails: {r}"
    if r[0] != "ok" and r[1] in ("AttributeError", "TypeError", "KeyError", "IndexError", "UnboundLocalError"):
        return f"publishing ends with {r}"
    return None


def u_check(q, cfg, readme, files, auth, complete):
    import base64
    import email.parser
    import email.policy
    want = "Basic " + base64.b64encode(f"{auth[0]}:{auth[1]}".encode()).decode()
    if q.headers.get("authorization") != want:
        return f"authorization: {q.headers.get('authorization')}"
    m = re.fullmatch(r'multipart/form-data; *boundary="?([^";]+)"?', q.headers.get("content-type", ""))
    if not m:
        return f"content type: {q.headers.get('content-type')}"
    sep = b"--" + m[1].encode()
    if not q.body.startswith(sep + b"\r\n"):
        return "the body does not start with the boundary"
    parts = (b"\r\n" + q.body).split(b"\r\n" + sep)
    if parts[-1].strip() != b"--":
        return "the form has no end"
    fields, content = {}, None
    for p in parts[1:-1]:
        head, sep_, value = p.partition(b"\r\n\r\n")
        if not sep_ or not head.startswith(b"\r\n"):
            return f"malformed part: {p[:80]!r}"
        disposition = re.search(rb'[Cc]ontent-[Dd]isposition: form-data; name="([^"]*)"(?:; filename="([^"]*)")?', head)
        name = disposition[1].decode()
        if disposition[2] is not None:
            if name != "content" or content is not None:
                return f"file {name}"
            content = disposition[2].decode(), value
        else:
            fields.setdefault(name, []).append(value.decode())
    if content is None:
        return "no content"
    filename, data = content
    if files.get(filename) != data:
        return f"the content of {filename} is not that of the file ({len(data)} bytes)"
    wheel = filename.endswith(".whl")
    exact = {":action": ["file_upload"], "protocol_version": ["1"], "filetype": ["bdist_wheel" if wheel else "sdist"], "pyversion": [filename.split("-")[-3] if wheel else "source"],
             "md5_digest": [hashlib.md5(data).hexdigest()], "sha256_digest": [hashlib.sha256(data).hexdigest()], "blake2_256_digest": [hashlib.blake2b(data, digest_size=32).hexdigest()],
             "name": [cfg["name"]], "version": [cfg["version"]], "metadata_version": ["2.1"]}
    if "description" in cfg:
        exact["summary"] = [cfg["description"]]
    if "requires-python" in cfg:
        exact["requires_python"] = [cfg["requires-python"]]
    if readme:
        exact["description"] = [readme]
        exact["description_content_type"] = ["text/markdown"]
    if "keywords" in cfg:
        exact["keywords"] = [",".join(cfg["keywords"])]
    if "classifiers" in cfg:
        exact["classifiers" if "classifiers" in fields else "classifier"] = cfg["classifiers"]
    for k, v in exact.items():
        got = fields.get(k)
        if k in ("description",) and got:
            got, v = [x.replace("\r\n", "\n").strip() for x in got], [x.replace("\r\n", "\n").strip() for x in v]
        if got != v:
            return f"field {k} is {got}, expected {v}"
    from packaging.requirements import Requirement
    want_deps = sorted(str(Requirement(d)) for d in cfg.get("dependencies", []))
    want_deps += [f'{d}; extra == "{e}"' for e, ds in cfg.get("optional-dependencies", {}).items() for d in ds]
    got_deps = sorted(str(Requirement(d)) for d in fields.get("requires_dist", []))
    if len(got_deps) != len(want_deps) or {Requirement(d).name for d in got_deps} != {Requirement(d).name for d in want_deps}:
        return f"dependencies: {got_deps}, expected {want_deps}"
    if any(v == ["None"] or "None" in v for v in fields.values()):
        return f"fields with the value None: {[k for k, v in fields.items() if 'None' in v]}"
    complete[filename] = True
    return None


def u_shard(job, part):
    run_cases("U", u_case, job[1], part, job[0], "uploads")


def u_cases():
    for n in range(len(list(u_projects()))):
        for end in U_ENDS:
            for auth in U_AUTH if end == "200" else U_AUTH[:1]:
                for dists in ("all", ".tar.gz", "any.whl"):
                    yield n, end, auth, dists


# ----------------------------------------------------------------
def imports():
    histories.prepare_home()
    home = Path(os.environ["XDG_DATA_HOME"]) / "pkm"
    (home / "etc/pkm/repositories.toml").write_text('[repos.pypi]\ntype = "pypi"\nurl = "http://pypi.org/pypi"\n')
    pyenv.remember_introspections()
    import pkm.api.projects.project  # noqa
    import pkm.repositories.pypi_repository  # noqa
    import pkm.repositories.simple_repository  # noqa


def run(ck: Check):
    imports()
    t = ck.thorough
    with fsbox.base_dir() as base:
        listings = [(kind, c) for kind in ("pypi", "simple") for k in range(1, 4 + t) for c in itertools.combinations(range(len(KINDS)), k)]
        for shard, cases, n in ((m_shard, listings, 32), (p_shard, p_cases(t), 32), (c_shard, list(c_cases()), 16), (w_shard, list(w_cases(t)), 32),
                                (u_shard, list(u_cases()), 16), (h_shard, list(h_cases(4 if t else 3)), 32)):
            parallel(ck, shard, [(base, s) for s in shard_list(cases, n)])


def replay(case):
    imports()
    with fsbox.base_dir() as base:
        box = fsbox.worker_box(base)
        m_case.env = None

        def deep(x):
            return tuple(deep(y) for y in x) if isinstance(x, list) else x
        for tag, fn in (("M", m_case), ("P", p_case), ("C", c_case), ("H", h_case), ("W", w_case), ("U", u_case)):
            if tag in case:
                return fn(deep(case[tag]), box)
    return None
