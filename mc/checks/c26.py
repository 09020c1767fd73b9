"""C26 git dependencies: every history of changes of a repository and requests of its references, with interrupted and failing commands."""
import itertools
import json
import os
import pickle
import shutil
import subprocess
from pathlib import Path

from mc import fsbox, pyenv
from mc.core import Check, Part, attempt, parallel
from mc.histories import prepare_home
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package_installation_info import StoreMode
from pkm.repositories.git_repository import GitRepository

PROPERTY = "C26"
LEVEL = "model_checking"
RULE = ("all sequences of changes of a git repository and of requests of its references up to a depth, with the same or a new repository object; every git "
        "command of a request failing or its process ending before, in or after it; all forms of urls. non-trivial: distinct histories")

CHANGES = ("main+", "dev+", "main!", "dev-", "late")
REFS = ("", "main", "dev", "v1", "SHA", "late", "src", "feature/x", "missing")
GIT = shutil.which("git")
ENV = {"GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1", "GIT_TERMINAL_PROMPT": "0", "GIT_SSH_COMMAND": "false", "GIT_ALLOW_PROTOCOL": "file",
       "GIT_AUTHOR_NAME": "n", "GIT_AUTHOR_EMAIL": "n@x", "GIT_COMMITTER_NAME": "n", "GIT_COMMITTER_EMAIL": "n@x",
       "GIT_AUTHOR_DATE": "2020-01-01T00:00:00Z", "GIT_COMMITTER_DATE": "2020-01-01T00:00:00Z"}


def git(cwd, *args):
    return subprocess.run([GIT, *args], cwd=cwd, env={**os.environ, **ENV}, check=True, capture_output=True, text=True).stdout.strip()


class Remote:
    """a git repository, and what its references have"""

    def __init__(self, path: Path, group=False):
        self.path, self.group, self.n, self.refs = path, group, -1, {}
        path.mkdir(parents=True)
        git(path, "init", "-q", "-b", "main")
        self.commit()
        for b in ("dev", "src", "feature/x"):
            git(path, "branch", b)
            self.refs[b] = 0
        git(path, "tag", "v1")
        self.refs.update({"main": 0, "v1": 0, "SHA": 0})
        self.sha = git(path, "rev-parse", "HEAD")
        git(path, "checkout", "-q", "--detach")  # all branches may change
        git(path, "symbolic-ref", "HEAD", "refs/heads/main")

    def commit(self, *more):
        self.n += 1
        for name in ("p", "Other_Pkg") if self.group else ("p",):
            at = self.path / ("" if not self.group else "nested/" * (name != "p") + name)
            (at / "src" / name.lower()).mkdir(parents=True, exist_ok=True)
            (at / "pyproject.toml").write_text(f'[project]\nname = "{name}"\nversion = "1.{self.n}"\ndependencies = ["{name.lower()}-has=={self.n}"]\n\n'
                                               '[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n')
            (at / "src" / name.lower() / "__init__.py").write_text(f"x = {self.n}\n")
        if self.group:
            (self.path / "pyproject-group.toml").write_text('children = ["p", "nested"]\n')
            (self.path / "nested/pyproject-group.toml").write_text('children = ["Other_Pkg"]\n')
        git(self.path, "add", "-A")
        git(self.path, "commit", "-q", *more, "-m", f"commit {self.n}")
        return self.n

    def change(self, op):
        name = op.rstrip("+!-")
        if op == "late":
            if "late" not in self.refs:
                git(self.path, "branch", "late", "main")
                self.refs["late"] = self.refs["main"]
        elif op[-1] == "-":
            if name in self.refs:
                git(self.path, "branch", "-q", "-D", name)
                del self.refs[name]
        elif name in self.refs:
            git(self.path, "checkout", "-q", "-f", name, "--")
            self.refs[name] = self.commit(*(["--amend"] if op[-1] == "!" else []))
            git(self.path, "checkout", "-q", "-f", "main", "--")

    def content(self, ref):
        return self.refs.get(ref or "main")


class World:
    def __init__(self, base):
        self.box = fsbox.worker_box(base)
        os.environ.update(ENV)
        self.template = self.box.root / "template"
        if not self.template.exists():
            self.remote = {g: Remote(self.template / g, g == "group") for g in ("r.git", "group")}
            self.env_path = self.box.root / "env"
            pyenv.write_env(self.env_path)
            self.env = pyenv.load_env(self.env_path)
        self.n = 0

    def fresh(self):
        os.chdir("/")
        self.box.clear()
        self.n += 1
        self.top = self.box.work / f"c{self.n}"
        self.top.mkdir()
        self.remotes = {}
        self.repository = None
        for g, r in self.remote.items():
            shutil.copytree(r.path, self.top / g, symlinks=True)
            mine = self.remotes[g] = Remote.__new__(Remote)
            mine.__dict__.update(r.__dict__, path=self.top / g, refs=dict(r.refs))
        os.environ.update({"GIT_CONFIG_COUNT": "3", **{f"GIT_CONFIG_KEY_{i}": f"url.file://{self.top}/.insteadOf" for i in range(3)},
                           **{f"GIT_CONFIG_VALUE_{i}": v for i, v in enumerate(PREFIXES[1:])}})

    def request(self, ref, prefix=0, suffix="", name="p", g="r.git", new=True):
        """-> (descriptor, dependencies, package) of what was found"""
        at = PREFIXES[prefix] or f"file://{self.top}/"
        ref = self.remotes[g].sha if ref == "SHA" else ref
        text = f"{name} @ git+{at}{g}{'@' + ref if ref else ''}{suffix}"
        if new or self.repository is None:
            self.repository = GitRepository(self.top / "workspace")

        def ask():
            found = self.repository.match(Dependency.parse(text), self.env)
            return [(p.descriptor.name, str(p.descriptor.version), [str(d) for d in p.dependencies(self.env.installation_target)]) for p in found], found
        return attempt(ask, 60)


PREFIXES = (None, "ssh://git@host/", "https://user:pw@host:8443/", "https://plain.host/a/b/")


def same(name):
    return name.lower().replace("_", "-")


def judge(r, remote, ref, real_name="p"):
    want = remote.content(ref)
    if want is None:
        return [] if r[0] == "err" else [f"{ref}, which does not exist, has {r[1]}"]
    if r[0] != "ok" or len(r[1][0]) != 1 or [same(x) for x in r[1][0][0][:2]] != [same(real_name), f"1.{want}"] or [same(d.replace(" ", "")) for d in r[1][0][0][2]] != [same(f"{real_name}-has=={want}")]:
        return [f"'{ref}' has {r[1][0] if r[0] == 'ok' else r}, expected the content of commit {want}"]
    return []


_world = []


def world(base):
    if not _world:
        _world.append(World(base))
    return _world[0]


def history_run(shard, part: Part):
    base, items = shard
    w = world(base)
    for ops, keep in items:
        w.fresh()
        errors = []
        for i, (kind, op) in enumerate(ops):
            if kind == "change":
                w.remotes["r.git"].change(op)
            else:
                errors = judge(w.request(op, new=not keep), w.remotes["r.git"], op)
                if errors:
                    ops = ops[:i + 1]
                    break
        part.case(json.dumps([ops, keep]), nontrivial=True, sample={"history": ops})
        part.evaluations += len(ops) - 1
        if errors:
            text = " | ".join(f"{k} {o or 'default'}" for k, o in ops)
            part.violation(f"{text}: {errors[0]}"[:300].replace(str(w.top), "TOP"), {"history": [ops, keep]}, f"{text}: {errors[0]}".replace(str(w.top), "TOP"))


def url_run(shard, part: Part):
    base, items = shard
    w = world(base)
    for case in items:
        ref, prefix, suffix, name, g = case
        w.fresh()
        real = "Other_Pkg" if name.lower()[0] == "o" else "p"
        errors = []
        for change in (None, "main+", "dev+"):
            if change:
                w.remotes[g].change(change)
            errors = errors or judge(w.request(ref, prefix, suffix, name, g), w.remotes[g], ref, real)
        # another repository with such a package is another one
        if g == "r.git" and not errors:
            errors = judge(w.request(ref, prefix, suffix, name, "group"), w.remotes["group"], ref, real)
        part.case(json.dumps(case), nontrivial=True, sample={"url": case})
        part.evaluations += 3
        if errors:
            text = f"{name} @ {PREFIXES[prefix] or 'file://TOP/'}{g}@{ref}{suffix}: {errors[0]}".replace(str(w.top), "TOP")
            part.violation(text[:300], {"url": case}, text)


WRAPPER = """#!/bin/sh
n=$(cat {count} 2>/dev/null || echo 0); n=$((n+1)); echo $n > {count}
[ $n -ne {at} ] && exec {git} "$@"
case {mode} in
fails) exit 1;;
before) kill -9 $PPID; exit 1;;
partial) {git} "$@" >/dev/null 2>&1; for a; do last=$a; done; [ "$1" = clone ] && rm -rf "$last/pyproject.toml" "$last/src" "$last/.git/refs" "$last/.git/packed-refs"; kill -9 $PPID; exit 1;;
after) {git} "$@"; kill -9 $PPID; exit 1;;
late) {git} "$@"; exit 1;;
esac
"""
MODES = ("fails", "late", "before", "partial", "after")


def interrupted_run(shard, part: Part):
    base, items = shard
    w = world(base)
    for case in items:
        ref, prepared, at, mode = case
        w.fresh()
        remote, errors = w.remotes["r.git"], []
        if prepared:
            errors = judge(w.request(ref), remote, ref)
            remote.change("main+")
            remote.change("dev+")
        (w.top / "bin").mkdir()
        wrapper = w.top / "bin/git"
        wrapper.write_text(WRAPPER.format(count=w.top / "count", at=at, mode=mode, git=GIT))
        wrapper.chmod(0o755)
        r, pipe = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.environ["PATH"] = f"{w.top}/bin{os.pathsep}{os.environ['PATH']}"
                os.setpgrp()
                got = w.request(ref)
                os.write(pipe, pickle.dumps(("ok", (got[1][0],)) if got[0] == "ok" else got))
            finally:
                os._exit(0)
        os.close(pipe)
        with os.fdopen(r, "rb") as fd:
            data = fd.read()
        os.waitpid(pid, 0)
        if data:  # it was not interrupted; it may have failed, but must not be wrong
            got = pickle.loads(data)
            if got[0] == "ok":
                errors = errors or [f"the request itself: {e}" for e in judge(got, remote, ref)]
        if not errors:
            errors = [f"afterwards: {e}" for e in judge(w.request(ref), remote, ref)]
        if not errors:
            remote.change("main+")
            errors = [f"and after a change: {e}" for x in (ref, "", "main") for e in judge(w.request(x), remote, x)]
        part.case(json.dumps(case), nontrivial=True, sample={"interrupted": case})
        part.evaluations += 4
        if errors:
            text = f"{'update' if prepared else 'clone'} of '{ref}', command {at} {mode}: {errors[0]}".replace(str(w.top), "TOP")
            part.violation(text[:300], {"interrupted": case}, text)


def install_run(shard, part: Part):
    base, items = shard
    w = world(base)
    for case in items:
        ref, changes, g, name = case
        w.fresh()
        env_path = w.top / "env"
        pyenv.write_env(env_path)
        env = pyenv.load_env(env_path)
        remote, errors = w.remotes[g], []
        judge(w.request(ref, g=g, name=name), remote, ref)
        for c in changes:
            remote.change(c)
        r = w.request(ref, g=g, name=name)
        want = remote.content(ref)
        q = attempt(lambda: r[1][1][0].install_to(env.installation_target, store_mode=StoreMode.COPY), 60)
        file = Path(env.installation_target.purelib) / name.lower() / "__init__.py"
        got = file.read_text() if file.exists() else None
        if q[0] != "ok" or got != f"x = {want}\n":
            errors = [f"{q} installed {got}, expected x = {want}"]
        part.case(json.dumps(case), nontrivial=True, sample={"install": case})
        if errors:
            text = f"installing {g}@{ref} after {changes}: {errors[0]}".replace(str(w.top), "TOP")
            part.violation(text[:300], {"install": case}, text)


def histories(thorough):
    ops = [("change", c) for c in CHANGES] + [("request", r) for r in REFS]
    few = [("change", c) for c in ("main+", "dev+", "main!", "dev-")] + [("request", r) for r in ("", "main", "dev", "v1")]
    for alphabet, depths in ((ops, (1, 2, 3)),) + (((few, (4,)),) if thorough else ()):
        for depth in depths:
            for prefix in itertools.product(alphabet, repeat=depth - 1):
                if depth == 3 and prefix[0][0] == prefix[1][0] == "change" and not thorough:
                    continue  # nothing was requested before
                for last in alphabet:
                    if last[0] == "request":
                        for keep in (False, True) if depth < 3 else (len(prefix) % 2 == 0,):
                            yield list(prefix) + [last], keep


def urls():
    for ref, prefix, suffix in itertools.product(("", "main", "dev", "v1", "SHA", "feature/x", "missing"), range(len(PREFIXES)), ("", "#egg=p", "#subdirectory=.&egg=p")):
        yield ref, prefix, suffix, "p", "r.git"
    for ref, name, g in itertools.product(("", "dev", "v1"), ("P", "p"), ("r.git", "group")):
        yield ref, 0, "", name, g
    for ref, name in itertools.product(("", "dev", "SHA"), ("Other_Pkg", "other.pkg", "other-pkg")):
        yield ref, 0, "", name, "group"


def interruptions(thorough):
    for ref, prepared, mode in itertools.product(("", "dev", "v1", "SHA", "feature/x"), (False, True), MODES):
        for at in (1, 2, 3) if thorough else (1, 2):
            yield ref, prepared, at, mode


def installs():
    for ref, changes in itertools.product(("", "main", "dev", "v1", "SHA"), ((), ("main+",), ("dev+", "main+"), ("main!",))):
        yield ref, changes, "r.git", "p"
    for ref, name in itertools.product(("", "dev"), ("p", "Other_Pkg")):
        yield ref, ("main+", "dev+"), "group", name


def prepare():
    prepare_home()
    pyenv.base_introspection()


def run(ck: Check):
    prepare()
    with fsbox.base_dir() as base:
        for func, items in ((install_run, list(installs())), (interrupted_run, list(interruptions(ck.thorough))), (url_run, list(urls())),
                            (history_run, list(histories(ck.thorough)))):
            parallel(ck, func, [(base, items[i::32]) for i in range(32)])
    ck.traces = ck.evaluations


def replay(case):
    prepare()
    with fsbox.base_dir() as base:
        part = Part()
        for key, func in (("history", history_run), ("url", url_run), ("interrupted", interrupted_run), ("install", install_run)):
            if key in case:
                func((base, [case[key]]), part)
        return part.violations[0][1]["message"] if part.violations else None
