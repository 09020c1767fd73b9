"""C23 source distributions: builds with every behaviour of a build backend, histories of builds and their crash points, for real."""
import io
import itertools
import json
import os
import subprocess
import sys
import tarfile
import time
import zipfile
from contextlib import redirect_stderr, redirect_stdout
from pathlib import Path

from mc import fsbox, pyenv
from mc.core import Check, Part, attempt, parallel
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.distribution import Distribution
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.package import PackageDescriptor
from pkm.api.pkm import pkm
from pkm.api.projects.project import Project
from pkm.api.versions.version import Version

PROPERTY = "C23"
LEVEL = "model_checking"
RULE = ("every combination of what the hooks of a build backend do (and of where the backend is, what it requires and prints) with every "
        "kind of build; every sequence of requests (metadata, installation, other archive, other environment, repairs) up to a depth on "
        "the real cache of builds; the file operations of chosen requests failing or being the last ones of their process. non-trivial: "
        "distinct (backend, history)")
BACKEND = '''
import base64, csv, hashlib, io, json, os, sys, zipfile
HERE, LOG, VARIANT, NAME, BROKEN = os.path.dirname(os.path.abspath(__file__)), {log!r}, {variant!r}, {name!r}, {broken!r}
METADATA = "Metadata-Version: 2.1\\nName: {name}\\nVersion: 1.0\\nRequires-Dist: dep-" + VARIANT + " >=1\\n"

def note(hook):
    here = [m for m in ("req", "extra", "srcreq", "backpkg", "tool", "in_target") if found(m)]
    print({noise!r} if {noise!r} != "bytes" else "", flush=True)
    if {noise!r} == "bytes":
        os.write(1, b"\\xff\\xfe no text \\x80\\n")
        os.write(2, b"\\xe9\\n")
    with open(LOG, "a") as f:
        f.write(json.dumps([NAME, VARIANT, hook, here, sorted(os.listdir(".")), os.environ.get("VIRTUAL_ENV", "")]) + "\\n")

def found(m):
    import importlib.util
    return importlib.util.find_spec(m) is not None

def end(how):
    if how == "flaky":
        how = "raise" if os.path.exists(BROKEN) else "ok"
    if how == "raise":
        raise RuntimeError("the hook fails: \\u00e9")
    if how == "exit":
        sys.exit(3)
    if how == "exit0":
        sys.exit(0)

def whl(d, name, editable=False):
    files = {{NAME + "_mod.py": "VARIANT = %r\\nEDITABLE = %r\\n" % (VARIANT, editable),
             NAME + "-1.0.dist-info/METADATA": METADATA,
             NAME + "-1.0.dist-info/WHEEL": "Wheel-Version: 1.0\\nGenerator: t\\nRoot-Is-Purelib: true\\nTag: py3-none-any\\n"}}
    out = io.StringIO()
    csv.writer(out, lineterminator="\\n").writerows([[n, "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(
        c.encode()).digest()).decode().rstrip("="), len(c)] for n, c in files.items()] + [[NAME + "-1.0.dist-info/RECORD", "", ""]])
    files[NAME + "-1.0.dist-info/RECORD"] = out.getvalue()
    with zipfile.ZipFile(os.path.join(d, name), "w") as z:
        for n, c in files.items():
            z.writestr(n, c)
    return name

class Hooks:
    pass
'''
HOOK = {
    "get_requires_for_build_wheel": "(config_settings=None)", "get_requires_for_build_editable": "(config_settings=None)",
    "get_requires_for_build_sdist": "(config_settings=None)",
    "prepare_metadata_for_build_wheel": "(d, config_settings=None)",
    "build_wheel": "(d, config_settings=None, metadata_directory=None)",
    "build_editable": "(d, config_settings=None, metadata_directory=None)",
    "build_sdist": "(d, config_settings=None)",
}
RESULT = {
    "prepare_metadata_for_build_wheel": '''os.mkdir(os.path.join(d, NAME + "-1.0.dist-info"))
    with open(os.path.join(d, NAME + "-1.0.dist-info", "METADATA"), "w") as f:
        f.write(METADATA)
    return NAME + "-1.0.dist-info"''',
    "build_wheel": 'return whl(d, NAME + "-1.0-py3-none-any.whl")',
    "build_editable": 'return whl(d, NAME + "-1.0-0.editable-py3-none-any.whl", True)',
    "build_sdist": '''with open(os.path.join(d, NAME + "-1.0.tar.gz"), "w") as f:
        f.write("sdist " + VARIANT)
    return NAME + "-1.0.tar.gz"''',
}
DEFAULT = dict(get="none", prepare="ok", build="ok", requires=("req",), where="tree", obj="", noise="", more="")
OPTIONS = dict(
    get=("none", "empty", "extra", "both", "unknown", "raise", "exit", "flaky"), prepare=("ok", "none", "raise", "exit", "exit0", "flaky"),
    build=("ok", "none", "raise", "exit", "exit0", "flaky"),
    requires=((), ("req",), ("srcreq",), ("req", "srcreq"), ("cycle",), ("unknown",), ("req>2",), ("extra; python_version<'3'",)),
    where=("tree", "sub", "both", "package"), obj=("", "Hooks", "Hooks.Inner"), noise=("", "text", "bytes"))

PLAIN = {**DEFAULT, "requires": ()}


def backend_source(cfg, name, variant, log, broken, only=None):
    """the source of a backend module"""
    out = [BACKEND.format(log=log, variant=variant, name=name, noise=cfg["noise"], broken=broken)]
    hooks = []
    for hook, args in HOOK.items():
        kind = cfg["get"] if hook.startswith("get_") else cfg["prepare"] if hook.startswith("prepare") else cfg["build"]
        if kind == "none":
            continue
        result = RESULT.get(hook) or f"return {dict(extra=['extra'], both=['extra >=1', 'tool'], unknown=['unknown']).get(kind, [])!r}"
        out.append(f"def {hook}{args}:\n    note({hook!r})\n    end({kind!r})\n    {result}\n")
        hooks.append(hook)
    if cfg["obj"]:  # the hooks are those of an object, not of the module
        inner = "".join(f"    {h} = staticmethod({h})\n" for h in hooks) or "    pass\n"
        if cfg["obj"] == "Hooks":
            out.append(f"class Hooks:\n{inner}")
        else:
            out.append(f"class _I:\n{inner}class Hooks:\n    Inner = _I\n")
        out.append("".join(f"del {h}\n" for h in hooks))
    return "\n".join(out)


def backend_ref(cfg):
    module = {"tree": "bk", "sub": "deep.bk", "both": "bk", "package": "backpkg"}[cfg["where"]]
    return module + (f":{cfg['obj']}" if cfg["obj"] else "")


def source_files(cfg, name, variant, log, broken):
    requires = [*cfg["requires"]] + ([f"backpkg-{name}"] if cfg["where"] == "package" else [])
    files = {"marker.txt": variant, "PKG-INFO": f"Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\n"}
    text = f'[build-system]\nrequires = {json.dumps(requires)}\nbuild-backend = "{backend_ref(cfg)}"\n'
    src = backend_source(cfg, name, variant, log, broken)
    if cfg["where"] == "tree":
        text += 'backend-path = ["."]\n'
        files["bk.py"] = src
    elif cfg["where"] == "sub":
        text += 'backend-path = ["back end"]\n'
        files["back end/deep/__init__.py"] = ""
        files["back end/deep/bk.py"] = src
    elif cfg["where"] == "both":
        text += 'backend-path = ["one", "two"]\n'
        files["one/helper_one.py"] = "from bk_two import *\nfrom bk_two import __dict__ as d\n" if False else "OK = 1\n"
        files["two/bk.py"] = "import helper_one\n" + src
    files["pyproject.toml"] = text + cfg["more"]
    return files


def write_sdist(path: Path, name, files):
    if path.name.endswith(".zip"):
        with zipfile.ZipFile(path, "w") as z:
            for n, c in files.items():
                z.writestr(f"{name}-1.0/{n}", c)
        return
    with tarfile.open(path, "w:gz") as t:
        for n, c in files.items():
            info, data = tarfile.TarInfo(f"{name}-1.0/{n}"), c.encode()
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))


def write_project(path: Path, files):
    for n, c in files.items():
        (path / n).parent.mkdir(parents=True, exist_ok=True)
        (path / n).write_text(c)


def simple_wheel(path: Path, name, content):
    d = f"{name.replace('-', '_')}-1.0.dist-info"
    return pyenv.write_wheel(path / f"{name.replace('-', '_')}-1.0-py3-none-any.whl", {
        **content, f"{d}/METADATA": pyenv.metadata(name, "1.0"), f"{d}/WHEEL": pyenv.wheel_text()}, d)


_counter = itertools.count()


class World:
    """a worker's home of pkm, packages and environments"""

    def __init__(self, base):
        self.box = fsbox.worker_box(base)
        self.n = 0
        self.start()

    def start(self):
        """a new home of pkm (and whatever is remembered is forgotten)"""
        self.box.clear()
        self.box.clear(self.box.tmp)
        self.n += 1  # (pkm remembers what it found at a path)
        w = self.w = self.box.work / f"c{self.n}"
        w.mkdir()
        self.log, self.broken, self.repo = w / "log", w / "broken", w / "repo"
        self.home = w / "home"
        self.repo.mkdir(), (self.home / "etc/pkm").mkdir(parents=True)
        (self.home / "etc/pkm/general.toml").write_text('[concurrency]\nmode = "none"\n')
        (self.home / "etc/pkm/repositories.toml").write_text(
            f'inheritance = "none"\n[repos.local]\ntype = "file-system"\npath = "{self.repo}"\n')
        for m in ("req", "extra", "tool"):
            simple_wheel(self.repo, m, {f"{m}.py": b"X = 1\n"})
        plain = dict(DEFAULT, prepare="none")
        for name, cfg in {"srcreq": plain, "cycle": dict(plain, requires=("cycle2",)), "cycle2": dict(plain, requires=("cycle",))}.items():
            files = source_files(cfg, name, "s", str(self.log), str(self.broken))
            files["bk.py"] = files["bk.py"].replace('_mod.py"', '.py"').replace("Requires-Dist", "X-Nothing")
            write_sdist(self.repo / f"{name}-1.0.tar.gz", name, files)
        self.log.write_text("")
        self.repo_ready = {p.name for p in self.repo.iterdir()}
        self.use_home()

    def use_home(self):
        from pkm.utils.properties import clear_cached_properties
        clear_cached_properties(pkm)
        pkm.home = self.home

    def package(self, cfg, name, variant, archive="tar.gz"):
        files = source_files(cfg, name, variant, str(self.log), str(self.broken))
        d = self.w / f"src-{variant}-{archive}"
        d.mkdir(exist_ok=True)
        path = d / f"{name}-1.0.{archive}"
        if not path.exists():
            write_sdist(path, name, files)
            if cfg["where"] == "package":
                simple_wheel(self.repo, f"backpkg-{name}", {"backpkg.py": backend_source(
                    cfg, name, variant, str(self.log), str(self.broken)).encode()})
                self.use_home()
        return path

    def env(self, name):
        path = self.w / name
        if not path.exists():
            EnvironmentBuilder.create(path)
            site = next((path / "lib").glob("python*/site-packages"))
            (site / "in_target.py").write_text("X = 1\n")
            (path / "etc/pkm").mkdir(parents=True)
        env = Environment(path)
        if name.startswith("other"):
            env.markers = {**env.markers, "platform_release": "9.9"}
        return env

    def take_log(self):
        lines = [json.loads(s) for s in self.log.read_text().splitlines()]
        self.log.write_text("")
        return lines


def site_of(env_path: Path):
    return next((env_path / "lib").glob("python*/site-packages"))


def tree(path: Path):
    return {str(p.relative_to(path)) for p in path.rglob("*") if "__pycache__" not in p.parts and p.name != "INSTALLER"}


# -- what the standard says

def ends(how, broken):
    return "ok" if how in ("ok",) or how == "flaky" and not broken else how


def requirements(cfg):
    """-> the importable build requirements, or None if they cannot be there"""
    if set(cfg["requires"]) & {"cycle", "unknown", "req>2"}:
        return None
    out = {r for r in cfg["requires"] if r in ("req", "srcreq")}
    return out | ({"backpkg"} if cfg["where"] == "package" else set())


def expected(cfg, what, broken):
    """-> (whether the build succeeds, hooks with what can be imported in them)"""
    hooks = []
    base = requirements(cfg)
    if base is None:
        return False, hooks
    kind = {"meta": "wheel", "wheel": "wheel", "editable": "editable", "sdist": "sdist"}[what]
    get = cfg["get"]
    if get != "none":
        hooks.append((f"get_requires_for_build_{kind}", base))
        if get in ("raise", "exit", "unknown") or get == "flaky" and broken:
            return False, hooks
        base = base | {"extra": {"extra"}, "both": {"extra", "tool"}}.get(get, set())
    if what == "meta":
        if cfg["prepare"] != "none":
            hooks.append(("prepare_metadata_for_build_wheel", base))
            return ends(cfg["prepare"], broken) == "ok", hooks
        ok, more = expected(cfg, "wheel", broken)
        return ok, hooks + more
    if cfg["build"] == "none":
        return False, hooks
    hooks.append((f"build_{kind}", base))
    return ends(cfg["build"], broken) == "ok", hooks


def check_hooks(w, lines, name, variant, want, root_files, exact=True):
    errors = []
    mine = [x for x in lines if x[0] == name]
    got = [(x[2], set(x[3])) for x in mine]
    if got != want:
        errors.append(f"the hooks {[(h, sorted(m)) for h, m in got]} were called, expected {[(h, sorted(m)) for h, m in want]}")
    for x in mine:
        if x[1] != variant:
            errors.append(f"another source was built: {x[1]}")
        if set(x[4]) - {"etc", "dist", "__pycache__"} != root_files:
            errors.append(f"{x[2]} is called in a directory with {x[4]}")
        if not x[5] or x[5].startswith(str(w.w)):
            errors.append(f"{x[2]} is called in the environment {x[5]}")
    return errors


def quiet(f, seconds=60):
    with redirect_stderr(io.StringIO()), redirect_stdout(io.StringIO()):
        return attempt(f, seconds)


# -- histories on the cache of builds

class History:
    """a model of what was built, and the steps of a history on the real thing"""

    def __init__(self, w: World, cfg, name):
        self.w, self.cfg, self.name = w, cfg, name
        self.built = {}  # (variant, archive, kind of environment) -> set of "meta", "wheel"
        self.last = {}  # (kind of environment) -> the archive that was built last
        self.is_broken = False
        self.envs = 0

    def dist(self, variant, archive):
        return Distribution.package_from(self.w.package(self.cfg, self.name, variant, archive),
                                         PackageDescriptor(self.name, Version.parse("1.0")))

    def step(self, op):
        kind, variant, archive, where = op
        w, cfg, errors = self.w, self.cfg, []
        if kind == "break":
            w.broken.write_text("")
            self.is_broken = True
            return errors
        if kind == "repair":
            if w.broken.exists():
                w.broken.unlink()
            self.is_broken = False
            return errors
        if kind == "restart":
            w.use_home()
            return errors
        w.take_log()
        self.envs += 1
        env = w.env(f"{where}{self.envs}")
        before = tree(env.path)
        package = self.dist(variant, archive)
        if kind == "meta":
            r = quiet(lambda: package.dependencies(env.installation_target))
        else:
            r = quiet(lambda: package.install_to(env.installation_target, Dependency.parse(self.name)))
        return errors + self.judge(op, env, before, r)

    def judge(self, op, env, before, r):
        kind, variant, archive, where = op
        w, cfg, errors = self.w, self.cfg, []
        key = (variant, archive, where)
        have = self.built.get(key, set())
        if self.last.get(where, key) != key:
            have = None  # may have been replaced by a build of another archive
        need = "meta" if kind == "meta" else "wheel"
        ok, hooks = expected(cfg, need, self.is_broken)
        fresh = True
        lines = w.take_log()
        mine = [x for x in lines if x[0] == self.name]
        if have and need in have:
            ok, hooks, fresh = True, [], False
        if have is None:
            if not mine and need in self.built.get(key, ()):
                ok, hooks, fresh = True, [], False
        if r[0] == "timeout":
            return [f"{op}: does not end"]
        if (r[0] == "ok") != ok:
            return [f"{op}: {r} although the build {'succeeds' if ok else 'fails'}"]
        if not ok and r[1] in ("AttributeError", "TypeError", "KeyError", "IndexError", "NameError", "UnicodeDecodeError", "JSONDecodeError",
                               "RecursionError", "AssertionError"):
            errors.append(f"{op}: ends with {r}")
        root_files = {n.split("/")[0] for n in source_files(cfg, self.name, variant, "", "")}
        errors += check_hooks(w, lines, self.name, variant, hooks, root_files)
        after = tree(env.path)
        if kind == "meta":
            if ok and [str(d) for d in r[1]] != [str(Dependency.parse(f"dep-{variant} >=1"))]:
                errors.append(f"the dependencies {r[1]}")
            if after - before - {"etc/pkm", "etc"}:
                changes = sorted(p for p in after - before if not p.startswith("etc"))
                if changes:
                    errors.append(f"the environment got {changes[:3]}")
        elif ok:
            site = site_of(env.path)
            mod = site / f"{self.name}_mod.py"
            if not mod.exists() or f"VARIANT = {variant!r}\nEDITABLE = False" not in mod.read_text():
                errors.append(f"the module of another build was installed: {mod.read_text() if mod.exists() else None}")
            if f"dep-{variant} " not in (site / f"{self.name}-1.0.dist-info/METADATA").read_text():
                errors.append("the metadata of another build was installed")
            more = {p for p in after - before if "site-packages/" in p}
            if {p.split("site-packages/")[1].split("/")[0] for p in more} != {f"{self.name}_mod.py", f"{self.name}-1.0.dist-info"}:
                errors.append(f"the environment got {sorted(more)[:6]}")
        elif [p for p in after ^ before if not p.startswith("etc")]:
            errors.append(f"the environment has changed: {sorted(after ^ before)[:4]}")
        if [p for p in os.listdir(w.box.tmp)]:
            errors.append(f"left in the temporary directory: {os.listdir(w.box.tmp)[:3]}")
        if fresh and ok:
            if self.last.get(where, key) != key:
                pass
            self.last[where] = key
            s = self.built[key] = set(have or ()) if have is not None else set()
            s.add(need)
            s.add("meta")
            if kind == "meta" and cfg["prepare"] == "none":
                s.add("wheel")
        elif fresh and (have is None or mine):
            # what is left of builds after a failure is not specified
            self.built.pop(key, None)
            self.last[where] = ("failed",)
            for k in [k for k in self.built if k[2] == where]:
                pass
        return [f"{' '.join(map(str, op))}: {e}" for e in errors]


def show(cfg):
    return ", ".join(f"{k}={v!r}" for k, v in cfg.items() if v != DEFAULT[k]) or "default"


def run_history(w, cfg, ops, name):
    h = History(w, cfg, name)
    for i, op in enumerate(ops):
        if errors := h.step(op):
            return i, errors
    return None


_worlds = {}


def world(base):
    if base not in _worlds:
        _worlds[base] = World(base)
    return _worlds[base]


def histories_run(shard, part: Part):
    base, items = shard
    w = world(base)
    for cfg, ops in items:
        w.start()
        part.case(json.dumps([cfg, ops], sort_keys=True), nontrivial=True, sample={"backend": show(cfg), "history": ops})
        part.evaluations += len(ops) - 1
        if failed := run_history(w, cfg, ops, "pkg"):
            text = f"{show(cfg)}: " + " | ".join(" ".join(map(str, o)) for o in ops[:failed[0] + 1])
            part.violation(f"{text}: {failed[1][0]}"[:300], {"backend": cfg, "history": ops[:failed[0] + 1]}, f"{text}: " + "; ".join(failed[1][:4]))


# -- builds of a directory

def direct_run(shard, part: Part):
    base, items = shard
    w = world(base)
    for cfg, what in items:
        w.start()
        part.case(json.dumps([cfg, what], sort_keys=True), nontrivial=True, sample={"backend": show(cfg), "build": what})
        if errors := direct(w, cfg, what):
            text = f"{show(cfg)}: {what} of a directory"
            part.violation(f"{text}: {errors[0]}"[:300], {"backend": cfg, "build": what}, f"{text}: " + "; ".join(errors[:4]))


def direct(w, cfg, what):
    errors = []
    files = source_files(cfg, "pkg", "x", str(w.log), str(w.broken))
    files["pyproject.toml"] += '[project]\nname = "pkg"\nversion = "1.0"\n'
    if cfg["where"] == "package":
        w.package(cfg, "pkg", "x")
    src = w.w / "the project"
    write_project(src, files)
    env, out = w.env("a"), w.w / "out" / "dir"
    before = tree(env.path)
    p = Project.load(src)
    p.attached_environment = env
    w.take_log()
    if what == "sdist":
        r = quiet(lambda: p.build_sdist(out))
    else:
        r = quiet(lambda: p.build_wheel(out, only_meta=what == "meta", editable=what == "editable", target_env=env))
    ok, hooks = expected(cfg, what, False)
    if what == "meta" and cfg["prepare"] == "none":
        ok = False  # (a directory that only has the metadata is asked for)
        hooks = hooks[:1] if cfg["get"] != "none" and requirements(cfg) is not None else []
    if r[0] == "timeout":
        return ["does not end"]
    if (r[0] == "ok") != ok:
        return [f"{r} although the build {'succeeds' if ok else 'fails'}"]
    errors += check_hooks(w, w.take_log(), "pkg", "x", hooks, {n.split("/")[0] for n in files})
    if ok:
        path = Path(r[1])
        want = {"sdist": "pkg-1.0.tar.gz", "wheel": "pkg-1.0-py3-none-any.whl", "editable": "pkg-1.0-0.editable-py3-none-any.whl",
                "meta": "pkg-1.0.dist-info"}[what]
        if path != out / want or not path.exists():
            errors.append(f"the result is {path}")
        elif what == "sdist" and path.read_text() != "sdist x":
            errors.append("another distribution was built")
        elif what == "meta" and "dep-x >=1" not in (path / "METADATA").read_text():
            errors.append("other metadata was built")
        elif what in ("wheel", "editable"):
            with zipfile.ZipFile(path) as z:
                if z.read("pkg_mod.py").decode() != f"VARIANT = 'x'\nEDITABLE = {what == 'editable'}\n":
                    errors.append("another wheel was built")
    if [p for p in tree(env.path) ^ before if not p.startswith("etc")]:
        errors.append("the environment has changed")
    if left := os.listdir(w.box.tmp):
        errors.append(f"left in the temporary directory: {left[:3]}")
    return errors


# -- interrupted builds

def interrupted_run(shard, part: Part):
    base, cfg, prefix, op, how, k, n = shard
    w = world(base)
    i = k
    while True:
        w.start()
        r = interrupted(w, cfg, prefix, op, how, i)
        if r is None:
            break
        text = f"{show(cfg)}: {' | '.join(' '.join(map(str, o)) for o in (*prefix, op))} {how} {i}"
        part.case(text, nontrivial=True, sample={"backend": show(cfg), "history": [*prefix, op], how: i})
        if r:
            part.violation(f"{text}: {r[0]}"[:300], {"backend": cfg, "history": prefix, "op": op, "how": how, "at": i}, f"{text}: " + "; ".join(r[:4]))
        i += n


def interrupted(w, cfg, prefix, op, how, i):
    """-> errors, or None if the operation has less steps"""
    h = History(w, cfg, "pkg")
    for o in prefix:
        if errors := h.step(o):
            return errors
    env = w.env(f"{op[3]}x")
    package = h.dist(op[1], op[2])

    def act():
        if op[0] == "meta":
            return package.dependencies(env.installation_target)
        return package.install_to(env.installation_target, Dependency.parse("pkg"))

    w.box.counted = str(w.home)
    w.box.cross_devices = how.endswith("devices")
    if how == "fault":
        w.box.fault_at = i
        with w.box:
            r = quiet(act)
        fired = w.box.fired
        w.box.fault_at = None
        if not fired:
            w.box.counted, w.box.cross_devices = "", False
            return None
    else:
        if not (pid := os.fork()):
            try:
                w.box.crash_at, w.box.crash_torn = i, how.startswith("torn")
                with w.box:
                    quiet(act)
            finally:
                os._exit(0)
        if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) != 77:
            w.box.counted, w.box.cross_devices = "", False
            return None
    w.box.counted, w.box.cross_devices = "", False
    w.box.clear(w.box.tmp)
    w.use_home()
    w.take_log()
    h.built, h.last = {}, {"a": ("unknown",), "other": ("unknown",)}
    errors = []
    # whatever was left: the packages are those of their archives (and are built at most once more)
    for variant in (op[1], "y" if op[1] == "x" else "x"):
        for kind in ("meta", "install"):
            h.envs += 1
            env = w.env(f"a{h.envs}")
            package = h.dist(variant, op[2])
            r = quiet(lambda: package.dependencies(env.installation_target) if kind == "meta"
                      else package.install_to(env.installation_target, Dependency.parse("pkg")))
            if r[0] != "ok":
                errors.append(f"afterwards, {kind} {variant}: {r}")
            elif kind == "meta" and [str(d) for d in r[1]] != [str(Dependency.parse(f"dep-{variant} >=1"))]:
                errors.append(f"afterwards, the dependencies of {variant} are {r[1]}")
            elif kind == "install":
                site = site_of(env.path)
                if f"VARIANT = {variant!r}\n" not in (site / "pkg_mod.py").read_text():
                    errors.append(f"afterwards, {kind} {variant} installs {(site / 'pkg_mod.py').read_text()!r}")
                if f"dep-{variant} " not in (site / "pkg-1.0.dist-info/METADATA").read_text():
                    errors.append(f"afterwards, {kind} {variant} installs {(site / 'pkg-1.0.dist-info/METADATA').read_text()!r}")
        if errors:
            break
        op = (op[0], op[1], op[2], op[3])
    return errors


# -- spaces

def product(**dims):
    for values in itertools.product(*dims.values()):
        yield {**DEFAULT, **dict(zip(dims, values))}


def pairs():
    """every pair of options together"""
    seen = set()
    names = list(OPTIONS)
    for a, b in itertools.combinations(names, 2):
        for va in OPTIONS[a]:
            for vb in OPTIONS[b]:
                cfg = {**DEFAULT, a: va, b: vb}
                key = json.dumps(cfg, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    yield cfg


X, Y, Z = ("x", "tar.gz"), ("y", "tar.gz"), ("x", "zip")
STEPS = [("meta", *X, "a"), ("install", *X, "a"), ("install", *Y, "a"), ("meta", *Y, "a"), ("meta", *X, "other"), ("install", *X, "other"),
         ("install", *Z, "a"), ("meta", *Z, "a")]
TOGGLE = [("break", 0, 0, 0), ("repair", 0, 0, 0), ("restart", 0, 0, 0)]


def spaces(thorough):
    single = []
    for cfg in pairs():
        single.append((cfg, [STEPS[0], STEPS[1]] if thorough or cfg["prepare"] != "ok" else [STEPS[1]]))
    for cfg in product(get=OPTIONS["get"], prepare=OPTIONS["prepare"], build=OPTIONS["build"]):
        if thorough or cfg["prepare"] == "none" or cfg["build"] == "ok" and cfg["get"] in ("none", "extra", "flaky"):
            single.append((cfg, [STEPS[1], STEPS[0]]))
    histories = []
    backends = [PLAIN, {**PLAIN, "prepare": "none"}]
    for cfg in backends:
        for d in range(2, (5 if thorough else 4) - (cfg is not PLAIN)):
            for ops in itertools.product(STEPS[:6] if d > 2 else STEPS, repeat=d):
                histories.append((cfg, [x for o in ops for x in (o, TOGGLE[2])][:-1]))
    for cfg in product(get=("none", "flaky"), prepare=("none", "flaky"), build=("flaky",), requires=((),)):
        for ops in itertools.product(STEPS[:3 if thorough else 2] + TOGGLE[:2], repeat=4 if thorough else 3):
            if TOGGLE[1] in ops or ops[0] == TOGGLE[0]:
                ops = ops if ops[0] == TOGGLE[0] else (TOGGLE[0], *ops)
                if any(o in STEPS for o in ops):
                    histories.append((cfg, list(ops)))
    unique = {json.dumps(x, sort_keys=True): x for x in single + histories}
    return list(unique.values())


def shards_of(base, items, n=64):
    return [(base, items[i::n]) for i in range(n) if items[i::n]]


INTERRUPTIONS = ("crash", "torn", "fault", "torn between devices", "fault between devices")
INTERRUPTED = [
    (PLAIN, [], STEPS[0]), (PLAIN, [], STEPS[1]), (PLAIN, [STEPS[0]], STEPS[1]), (PLAIN, [STEPS[1]], STEPS[2]),
    ({**PLAIN, "prepare": "none"}, [], STEPS[0]), ({**PLAIN, "prepare": "none"}, [STEPS[1]], STEPS[2]),
    ({**DEFAULT, "requires": ("srcreq",)}, [], STEPS[1]),
]


def prepare():
    os.environ["PIP_NO_INDEX"] = "1"
    pyenv.remember_introspections()


def run(ck: Check):
    prepare()
    with fsbox.base_dir() as base:
        items = spaces(ck.thorough)
        parallel(ck, histories_run, shards_of(base, items))
        direct_items = [(cfg, what) for cfg in (pairs() if ck.thorough else product(get=OPTIONS["get"], build=OPTIONS["build"]))
                        for what in ("sdist", "wheel", "editable", "meta")]
        direct_items += [(cfg, what) for n in ("prepare", "requires", "where", "obj", "noise") for cfg in product(**{n: OPTIONS[n]})
                         for what in ("sdist", "wheel", "editable", "meta")]
        parallel(ck, direct_run, shards_of(base, list({json.dumps(x, sort_keys=True): x for x in direct_items}.values())))
        shards = [(base, *x, how, k, 8) for x in (INTERRUPTED if ck.thorough else INTERRUPTED[:6]) for how in INTERRUPTIONS[not ck.thorough:] for k in range(8)]
        parallel(ck, interrupted_run, shards)
    ck.traces = ck.evaluations


def replay(case):
    prepare()
    with fsbox.base_dir() as base:
        w = World(base)
        cfg = {**case["backend"], "requires": tuple(case["backend"]["requires"])}
        if "build" in case:
            return "; ".join(direct(w, cfg, case["build"])) or None
        ops = [tuple(o) for o in case["history"]]
        if "how" in case:
            return "; ".join(interrupted(w, cfg, ops, tuple(case["op"]), case["how"], case["at"]) or []) or None
        failed = run_history(w, cfg, ops, "pkg")
        return "; ".join(failed[1]) if failed else None
