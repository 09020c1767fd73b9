"""C20 containers: histories of containerized applications, their plugins and the packages next to them, on real trees."""
import base64
import csv
import hashlib
import io
import itertools
import json
import os
import re
import subprocess
import sys
import tarfile
import zipfile
from contextlib import redirect_stderr, redirect_stdout
from pathlib import Path

from packaging.specifiers import SpecifierSet

from mc import appdriver, fsbox, pyenv
from mc.core import Check, Part, attempt, parallel
from mc.histories import prepare_home
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments import package_containers  # noqa
from pkm.api.packages.package_installation_info import StoreMode
from pkm.resolution.pubgrub import UnsolvableProblemException

PROPERTY = "C20"
LEVEL = "model_checking"
RULE = ("every sequence of operations (install, update and remove an application in a container, its plugins, packages "
        "next to it) up to a depth on a real environment; every state reached is read back by other means (the trees, the "
        "RECORDs, importlib's view) and the commands of its containers are executed; for chosen histories also with every "
        "file operation of the last one failing. non-trivial: distinct (state, operation)")
SITE = "lib/site-packages"
DRIVER = Path(appdriver.__file__).read_text()

MAIN = """V = '{v}'

def _report(what):
    import importlib, json, os, sys
    out = {{}}
    for m in ("app", "lib", "helper", "plug", "host", "tool", "odd"):
        try:
            mod = importlib.import_module(m)
            out[m] = [getattr(mod, "V", None), getattr(mod, "__file__", None)]
        except ImportError:
            out[m] = None
    import shutil
    which = {{c: shutil.which(c) for c in ("helper-cmd", "run-app", "run-tool")}}
    print(json.dumps({{"what": what, "modules": out, "argv": sys.argv[1:], "env": dict(os.environ), "which": which}}))

def main():
    _report("{n}.main")
    return 3

def nothing():
    _report("{n}.nothing")

class Cls:
    @staticmethod
    def run():
        _report("{n}.Cls.run")
        return "a message"

def leave():
    _report("{n}.leave")
    raise SystemExit(4)
"""
STATUS = {"main": 3, "nothing": 0, "Cls.run": 1, "leave": 4}

# name -> version -> (dependencies, scripts {name: object}, gui scripts)
PACKAGES = {
    "lib": {"1.0": ((), {}), "2.0": ((), {})},
    "helper": {"1.0": ((), {})},
    "app": {"1.0": (("lib>=1",), {"run-app": "app:main", "old-app": "app:nothing"}),
            "2.0": (("lib>=2", "helper"), {"run-app": "app:main", "app.cls": "app:Cls.run [x]", "app-leave": "app:leave"})},
    "tool": {"1.0": (("lib<2",), {"run-tool": "tool:main"})},
    "plug": {"1.0": (("app", "helper"), {"run-plug": "plug:main"})},
    "plugc": {"1.0": (("lib<2",), {})},
    "host": {"1.0": (("lib<2",), {"run-host": "host:main"})},
    "Odd.Name": {"1.0": (("lib",), {"run_odd.x": "odd:main", "2nd": "odd:nothing"})},
    "bad": {"1.0": (("nosuch",), {"run-bad": "bad:main"})},
    "capp-more": {"1.0": (("lib<2",), {"run-more": "capp_more:main"})},
}
RAW = {"helper": {"helper-cmd": "helper:main"}}  # scripts that are files of the package
MODULE = {"Odd.Name": "odd", "capp-more": "capp_more"}
OVERRIDES = {}  # of the project that is examined
NORMAL = {"odd-name": "Odd.Name"}
NAMES = ("app", "lib", "helper", "plug", "host", "tool", "odd")


def split(dep):
    m = re.fullmatch(r"([A-Za-z.-]+)(?:\[.*\])?(.*)", dep)
    name = m[1]
    return NORMAL.get(re.sub("[-_.]+", "-", name).lower(), name), SpecifierSet(m[2])


def solutions(requests, packages=PACKAGES):
    """every consistent choice of versions for the requests and all that they need"""
    def go(chosen, todo):
        while todo:
            name, spec = split(todo[0])
            if name in chosen:
                if chosen[name] not in spec:
                    return
                todo = todo[1:]
                continue
            for v in sorted(packages.get(name, ()), reverse=True):
                if v in spec:
                    yield from go({**chosen, name: v}, [*todo[1:], *(OVERRIDES.get(split(d)[0], d) for d in packages[name][v][0] if "extra ==" not in d)])
            return
        yield chosen

    return go({}, list(requests))


def make_wheels(path: Path):
    path.mkdir()
    for name, versions in PACKAGES.items():
        for v, (deps, scripts) in versions.items():
            mod = MODULE.get(name, name)
            dist = name.replace("-", "_").replace(".", "_")
            d = f"{dist}-{v}.dist-info"
            files = {f"{mod}.py": MAIN.format(v=v, n=mod).encode(), f"{d}/METADATA": pyenv.metadata(name, v, deps),
                     f"{d}/WHEEL": pyenv.wheel_text(name != "helper")}
            if scripts:
                files[f"{d}/entry_points.txt"] = ("[console_scripts]\n" + "".join(
                    f"{s} = {o}\n" for s, o in scripts.items())).encode()
            if name == "app":
                files["appdata/values.txt"] = v.encode()
                files[f"{dist}-{v}.data/data/share/app.txt"] = v.encode()
            if name == "helper":
                files[f"{dist}-{v}.data/platlib/helper_more/__init__.py"] = b"MORE = 1\n"
                files[f"{dist}-{v}.data/headers/helper.h"] = b"#define MORE\n"
                files[f"{dist}-{v}.data/scripts/helper-cmd"] = b"#!python\nimport helper\nhelper.main()\n"
            pyenv.write_wheel(path / f"{dist}-{v}-py3-none-any.whl", files, d)


def wrapper(name):
    """how the directory of the container of a package starts"""
    return re.sub("[-_.]+", "_", name).lower()


class State:
    """what the histories should have led to"""

    def __init__(self, plain=None, containers=None):
        self.plain = dict(plain or {})  # name -> None or the request
        self.containers = {k: dict(v) for k, v in (containers or {}).items()}  # app -> {requested package: its spec}
        self.touched = set()  # containers whose content was changed after they were installed
        self.exposed = {}  # app -> the version of which the commands are in the environment

    def copy(self):
        s = State(self.plain, self.containers)
        s.touched, s.exposed = set(self.touched), dict(self.exposed)
        return s


def owner(path):
    """the application whose container a path of the environment belongs to"""
    p = path[len(SITE) + 1:] if path.startswith(SITE + "/") else None
    if p is None:
        return None
    first = p.split("/")[0].lower()
    if re.fullmatch(r"capp|capp-.*\.dist-info|register_capp_container\.pth", first):
        return "capp"
    m = re.fullmatch(r"register_(.*)_containerized_container\.pth|(.*)_containerized(-.*\.dist-info)?", first)
    if m:
        n = (m[1] or m[2])
        return {wrapper(k): k for k in PACKAGES}.get(re.sub("[-_.]+", "_", n), n)
    return None


class World:
    def __init__(self, base, wheels):
        self.base = base
        self.box = fsbox.worker_box(base)
        self.root = self.box.work / "env"
        self.checked = {}

    def fresh(self, snap=None):
        self.box.clear()
        self.box.clear(self.box.tmp)
        if snap is None:
            pyenv.write_env(self.root)
            env = pyenv.load_env(self.root)
        else:
            self.root.mkdir()
            fsbox.restore(self.root, snap)
            env = pyenv.load_env(self.root)
        return env

    # -- operations
    def act(self, env, op):
        kind, args = op[0], op[1:]
        if kind == "app":
            env.package_containers.install(Dependency.parse(args[0]))
        elif kind == "update":
            env.package_containers.install(Dependency.parse(args[0]), update=True)
        elif kind == "plug":
            env.package_containers.container_of(args[0]).installation_target.install([Dependency.parse(a) for a in args[1:]])
        elif kind == "unplug":
            env.package_containers.container_of(args[0]).installation_target.uninstall(list(args[1:]))
        elif kind == "drop":
            env.package_containers.container_of(args[0]).uninstall()
        elif kind == "install":
            env.install([Dependency.parse(a) for a in args])
        elif kind == "uninstall":
            env.installation_target.uninstall(list(args))

    def run(self, snap, op, fault=None, env=None):
        env = env or self.fresh(snap)
        self.box.fault_at = fault
        with redirect_stderr(io.StringIO()), redirect_stdout(io.StringIO()):
            with self.box:
                r = attempt(lambda: self.act(env, op), 60)
        return r, clean(fsbox.snapshot(self.root))


def clean(snap):
    return {p: v for p, v in snap.items() if "__pycache__" not in p and not p.startswith("etc")}


def digest(snap):
    h = hashlib.blake2b(digest_size=12)
    for p in sorted(snap):
        v = snap[p]
        if p.endswith("/RECORD"):
            v = (v[0], v[1], b"\n".join(sorted(v[2].splitlines())))
        h.update(repr((p, v)).encode())
    return h.hexdigest()


# ---------------------------------------------------------------- what an operation has to do
def expected(state: State, op, versions):
    """-> (outcome, state after): outcome in 'ok' (succeeds), 'same' (succeeds, nothing changes), 'fails', None (not claimed)"""
    kind, s = op[0], state.copy()
    if kind in ("app", "update"):
        name, spec = split(op[1])
        old = s.containers.get(name)
        if kind == "app" and old is not None and versions[name].get(name) in spec:
            return "same", state
        requests = {**(old or {}), name: op[1]}
        if next(solutions(requests.values()), None) is None:
            return "fails", state
        s.containers[name] = requests
        s.touched.discard(name)
        s.exposed.pop(name, None)
        return "ok", s
    if kind in ("plug", "unplug", "drop"):
        name = split(op[1])[0]
        if name not in s.containers:
            return None, state
        if kind == "drop":
            del s.containers[name]
            s.touched.discard(name)
            s.exposed.pop(name, None)
            return "ok", s
        s.touched.add(name)
        if kind == "plug":
            s.containers[name].update({split(a)[0]: a for a in op[2:]})
            if next(solutions(s.containers[name].values()), None) is None:
                return "fails", state
            return "ok", s
        for a in op[2:]:
            if a != name:
                s.containers[name].pop(split(a)[0], None)
        return "ok", s
    if kind == "install":
        s.plain.update({split(a)[0]: a for a in op[1:]})
        if next(solutions([v for v in s.plain.values() if v]), None) is None:
            return "fails", state
        return "ok", s
    for a in op[1:]:
        s.plain.pop(split(a)[0], None)
    return "ok", s


SCRIPT_OWNER = {s: n for n, vs in PACKAGES.items() for _, scripts in vs.values() for s in scripts}


def not_owned(snap, name):
    return {p: v for p, v in snap.items() if owner(p) != name and not (
        p.startswith("bin/") and SCRIPT_OWNER.get(p[4:]) == name)}


def owned(snap, names):
    return {p: v for p, v in snap.items() if owner(p) in names}


def check_transition(w: World, before, state, op, r, after, versions):
    """-> (errors, state after or None)"""
    errors = [f"changed outside of the environment: {e}" for e in w.box.escapes]
    want, new = expected(state, op, versions)
    if want is None:
        return errors, None
    if r[0] == "timeout":
        return errors + ["does not end"], None
    if want == "fails":
        if r[0] == "ok":
            return errors + ["succeeds although the requests cannot be satisfied together"], None
        if r[1] not in ("UnsolvableProblemException",):
            errors.append(f"fails with {r[1]}: {r[2]}")
        errors += [f"it fails and changes the environment: {d}" for d in fsbox.diff(before, after)[:4]]
        return errors, None
    if r[0] != "ok":
        return errors + [f"fails: {r[1]} {r[2]}"], None
    if want == "same":
        errors += [f"already there, and still changed: {d}" for d in fsbox.diff(before, after)[:4]]
        return errors, state
    if op[0] in ("install", "uninstall"):
        names = set(state.containers)
        errors += [f"changes a container: {d}" for d in fsbox.diff(owned(before, names), owned(after, names))[:4]]
    else:
        name = split(op[1])[0]
        errors += [f"changes what is not of the container: {d}"
                   for d in fsbox.diff(not_owned(before, name), not_owned(after, name))[:4]]
        if op[0] == "drop":
            errors += [f"left behind: {p}" for p in sorted(owned(after, {name}))[:4]]
            errors += [f"left behind: {p}" for p in sorted(after) if p.startswith("bin/") and SCRIPT_OWNER.get(p[4:]) == name
                       and name not in state.plain]
    if left := os.listdir(w.box.tmp):
        errors.append(f"left in the temporary directory: {len(left)} entries")
    return errors, new


# ---------------------------------------------------------------- what every state has to be
def dist_infos(snap, site):
    """name -> (version, dependencies, directory) of the packages in a site directory"""
    out = {}
    for p, v in snap.items():
        m = re.fullmatch(re.escape(site) + r"/([^/]+\.dist-info)/METADATA", p)
        if m:
            head = v[2].decode().split("\n\n")[0].splitlines()
            fields = [h.split(": ", 1) for h in head if ": " in h]
            one = dict(fields)
            n = NORMAL.get(re.sub("[-_.]+", "-", one["Name"]).lower(), one["Name"])
            if n in out:
                raise ValueError(f"{n} is twice in {site}")
            out[n] = (one["Version"], [x for k, x in fields if k == "Requires-Dist"], m[1])
    return out


def record_errors(snap, site, dist_info, complete=()):
    rows = list(csv.reader(io.StringIO(snap[f"{site}/{dist_info}/RECORD"][2].decode(), newline="")))
    errors, listed = [], set()
    for row in rows:
        path = os.path.normpath(f"{site}/{row[0]}")
        if path in listed:
            errors.append(f"{dist_info}: {row[0]} is recorded twice")
        listed.add(path)
        if path not in snap:
            if "__pycache__" not in path:
                errors.append(f"{dist_info}: the recorded {row[0]} is not there")
            continue
        data = snap[path][2]
        if row[1]:
            algo, _, value = row[1].partition("=")
            if base64.urlsafe_b64encode(hashlib.new(algo, data).digest()).decode().rstrip("=") != value.rstrip("="):
                errors.append(f"{dist_info}: the recorded hash of {row[0]} is not that of the file")
        elif not path.endswith(f"{dist_info}/RECORD"):
            errors.append(f"{dist_info}: {row[0]} is recorded without a hash")
        if row[2] and int(row[2]) != len(data):
            errors.append(f"{dist_info}: the recorded size of {row[0]} is not that of the file")
    errors += [f"{dist_info}: {p} is not recorded" for p in sorted(complete)
               if snap[p][0] == "f" and p not in listed and p.rpartition("/")[0] != f"{site}/{dist_info}"]
    return errors


def contents(snap, state: State):
    """-> {app: {package: (version, ...)}} of the containers"""
    out = {}
    for name in state.containers:
        sites = {p[:-len("/METADATA")].rsplit("/", 1)[0] for p in snap if owner(p) == name and p.endswith(".dist-info/METADATA")}
        sites.discard(SITE)
        if len(sites) != 1:
            raise ValueError(f"the packages of the container of {name} are in {sorted(sites)}")
        site = sites.pop()
        out[name] = (site, dist_infos(snap, site))
    return out


def container_name(snap, name):
    return next((dist_infos(snap, SITE)[n][2] for n in dist_infos(snap, SITE) if owner(f"{SITE}/{dist_infos(snap, SITE)[n][2]}") == name), None)


def run_commands(w: World, requests):
    r = subprocess.run([sys.executable, "-I", "-S", "-c", DRIVER, str(w.root / SITE)], input=json.dumps(requests),
                       capture_output=True, text=True, timeout=120, cwd="/")
    if r.returncode:
        raise RuntimeError(r.stderr[-500:])
    return json.loads(r.stdout)


def needs(infos, names):
    """the packages of a site that the given ones need, and what of it is missing"""
    seen, todo, missing = set(), list(names), []
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n not in infos:
            missing.append(f"{n} is missing")
            continue
        for d in infos[n][1]:
            if "extra ==" in d:
                continue
            dn, spec = split(d.split(";")[0].replace("_", "-").strip())
            if dn in OVERRIDES:
                spec = split(OVERRIDES[dn])[1]
            if dn not in infos:
                missing.append(f"{n} needs {d}, which is missing")
            elif infos[dn][0] not in spec:
                missing.append(f"{n} needs {d}, there is {infos[dn][0]}")
            todo.append(dn)
    return seen, missing


def check_state(w: World, snap, state: State, fresh=None, by_pkm=True, linked=()):
    """the tree is in place. fresh: the container that was just installed where none was; linked: modules that are elsewhere"""
    errors = []
    try:
        inside = contents(snap, state)
        plain = dist_infos(snap, SITE)
    except ValueError as e:
        return [str(e)], {}
    own = {n: d for n, d in plain.items() if owner(f"{SITE}/{d[2]}")}
    outer = {owner(f"{SITE}/{d[2]}"): (n, d[2]) for n, d in own.items()}
    plain = {n: d for n, d in plain.items() if n not in own}
    if set(outer) != set(state.containers):
        return [f"containers of {sorted(outer)}, expected {sorted(state.containers)}"], {}
    errors += needs(plain, state.plain)[1]
    errors += [f"{n} {plain[n][0]} does not match {d}" for n, d in state.plain.items() if n in plain and plain[n][0] not in split(d)[1]]
    versions = {}
    for name, requests in state.containers.items():
        site, infos = inside[name]
        versions[name] = {n: d[0] for n, d in infos.items()}
        if name not in state.exposed and versions[name].get(name) in PACKAGES[name]:
            state.exposed[name] = versions[name][name]
        errors += [f"container of {name}: {e}" for e in needs(infos, requests)[1]]
        for n, d in requests.items():
            if n in infos and infos[n][0] not in split(d)[1]:
                errors.append(f"container of {name}: {n} {infos[n][0]} does not match {d}")
        if fresh == name:
            extra = set(infos) - needs(infos, requests)[0] - {outer[name][0]}
            errors += [f"container of {name}: {n} is there, nothing needs it" for n in sorted(extra)]
            best = max((s[name] for s in solutions(requests.values())))
            if name in infos and infos[name][0] != best:
                errors.append(f"container of {name}: version {infos[name][0]} was installed, {best} could have been")
        for n, d in infos.items():
            errors += [f"container of {name}: {e}" for e in record_errors(snap, site, d[2])]
        if name not in state.touched:
            mine = {p for p in snap if owner(p) == name}
            errors += [f"container of {name}: {e}" for e in record_errors(snap, SITE, outer[name][1], mine)]
    # what pkm says about it
    from pkm.api.environments.environment import Environment
    env = pyenv.load_env(w.root)

    def report():
        pc = env.package_containers
        listed = {NORMAL.get(c.containerized_package.name_key, c.containerized_package.name): c for c in pc.containers()}
        out = {"containers": {n: str(c.containerized_package.version) for n, c in listed.items()}, "of": {}, "plugins": {},
               "twice": len(pc.containers()) != len(listed)}
        for n in PACKAGES:
            for spelled in {n, n.upper(), n.replace(".", "-").lower()}:
                c = pc.container_of(spelled)
                out["of"][spelled] = None if c is None else [c.package.name, str(c.containerized_package.version)]
                if c is not None:
                    out["plugins"][n] = sorted(p.name for p in c.list_installed_plugins())
                    if out["plugins"][n] != sorted(p.name for p in listed[n].list_installed_plugins()):
                        out["plugins"][n] = ["different"]
        return out

    r = attempt(report, 20) if by_pkm else None
    if r is None:
        pass
    elif r[0] != "ok":
        errors.append(f"asking for the containers fails: {r[1]} {r[2]}")
    else:
        if r[1]["containers"] != {n: versions[n].get(n) for n in state.containers} or r[1]["twice"]:
            errors.append(f"containers() tells {r[1]['containers']}, there are {[(n, versions[n].get(n)) for n in state.containers]}")
        for spelled, got in r[1]["of"].items():
            n = split(spelled.lower())[0] if spelled.lower() != "odd.name" else "Odd.Name"
            if (got is not None) != (n in state.containers):
                errors.append(f"container_of({spelled!r}) is {got}")
        for n, got in r[1]["plugins"].items():
            if n in state.containers and got != sorted(set(state.containers[n]) - {n}):
                errors.append(f"plugins of {n}: {got}, expected {sorted(set(state.containers[n]) - {n})}")
    errors += check_commands(w, snap, state, plain, inside, outer, linked)
    return errors, versions


def modules_of(infos):
    return {MODULE.get(n, n): d[0] for n, d in infos.items()}


def check_commands(w: World, snap, state: State, plain, inside, outer, linked):
    errors, requests, wants = [], [], []
    base_env = {"HOME": "/nonexistent", "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"}
    scripts = {}
    for name in state.containers:
        infos = inside[name][1]
        for s, o in PACKAGES[name][state.exposed[name]][1].items() if name in state.exposed else ():
            scripts[s] = (name, o, infos)
    for n, d in plain.items():
        for s, o in [*PACKAGES[n][d[0]][1].items(), *RAW.get(n, {}).items()]:
            scripts[s] = (None, o, plain)
    there = {p[4:] for p in snap if p.startswith("bin/") and p != "bin/python"}
    errors += [f"the command {s} is not there" for s in sorted(set(scripts) - there)]
    errors += [f"the command {s} is there, nothing installed has it" for s in sorted(there - set(scripts))]
    args = ["one", "--two=x y", ""]
    for s in sorted(there & set(scripts)):
        if not snap[f"bin/{s}"][1]:
            errors.append(f"the command {s} is not executable")
        first = snap[f"bin/{s}"][2].split(b"\n")[0]
        if first != b"#!" + str(w.root / "bin/python").encode():
            errors.append(f"the command {s} is not run by the interpreter of the environment but by {first!r}")
        requests.append(["script", str(w.root / "bin" / s), args, base_env])
        wants.append(s)
    requests.append(["probe", "", list(NAMES), base_env])
    results = run_commands(w, requests)
    have = modules_of(plain)
    children = []
    for s, (status, out, err) in zip(wants, results):
        name, obj, infos = scripts[s]
        mod, func = obj.split(" ")[0].split(":")
        try:
            got = json.loads(out)
        except ValueError:
            errors.append(f"the command {s} of {name or 'the environment'} fails: {status} {err.strip().splitlines()[-1:]}")
            continue
        want = modules_of(infos)
        if got["what"] != f"{mod}.{func}":
            errors.append(f"the command {s} runs {got['what']} instead of {mod}.{func}")
        if status != (0 if s in RAW.get(NORMAL.get(mod.replace("_", "-"), mod), ()) else STATUS[func]):
            errors.append(f"the command {s}, which should exit with {STATUS[func]}, exits with {status}")
        if func == "Cls.run" and "a message" not in err:
            errors.append(f"the command {s} does not print what it should")
        if got["argv"] != args:
            errors.append(f"the command {s} gets the arguments {got['argv']}")
        for m in got["modules"]:
            v = (got["modules"].get(m) or [None])[0]
            if m in want and v != want[m]:
                errors.append(f"the command {s} of {name or 'the environment'} uses {m} {v}, installed there is {want[m]}")
            if m in want and name and got["modules"].get(m) and m not in linked and not owned({got["modules"][m][1][len(str(w.root)) + 1:]: 1}, {name}):
                errors.append(f"the command {s} of {name} uses {got['modules'][m][1]}")
            if m not in want and m not in have and v is not None:
                errors.append(f"the command {s} of {name or 'the environment'} can import {m} {v}, which is not installed there")
        if name:
            for c, package in (("helper-cmd", "helper"), ("run-app", "app"), ("run-tool", "tool")):
                if package in infos and not owned({(got["which"][c] or "")[len(str(w.root)) + 1:]: 1}, {name}):
                    errors.append(f"the command {s} of {name} starts {got['which'][c]} as {c}")
            children.append((s, name, want, {k: v for k, v in got["env"].items()}))
    status, out, err = results[-1]
    try:
        got = {m: v and v[0] for m, v in json.loads(out).items()}
    except ValueError:
        return errors + [f"the interpreter of the environment fails: {err[-200:]}"]
    for m in NAMES:
        if got.get(m) != have.get(m):
            errors.append(f"the environment imports {m} {got.get(m)}, installed is {have.get(m)}")
    if children:
        seen = set()
        children = [c for c in children if not (c[1] in seen or seen.add(c[1]))]
        results = run_commands(w, [["probe", "", list(NAMES), c[3]] for c in children])
        for (s, name, want, _), (status, out, err) in zip(children, results):
            try:
                got = {m: v and v[0] for m, v in json.loads(out).items()}
            except ValueError:
                errors.append(f"an interpreter started by {s} fails: {err[-200:]}")
                continue
            for m in NAMES:
                if m in want and got.get(m) != want[m]:
                    errors.append(f"an interpreter started by {s} of {name} imports {m} {got.get(m)}, the container has {want[m]}")
    return errors


# ---------------------------------------------------------------- exploration
OPS = [("app", "app"), ("app", "app==1.0"), ("update", "app"), ("app", "tool"), ("app", "Odd.Name"), ("app", "lib"), ("app", "bad"),
       ("app", "app>5"), ("plug", "app", "plug"), ("plug", "app", "plugc"), ("plug", "app", "plug", "plugc"), ("plug", "app", "bad"),
       ("unplug", "app", "plug"), ("unplug", "app", "lib"), ("unplug", "app", "app"), ("drop", "app"), ("drop", "tool"), ("drop", "odd-name"),
       ("drop", "lib"), ("install", "host"), ("install", "lib"), ("install", "lib==1.0"), ("install", "bad"),
       ("uninstall", "host"), ("uninstall", "lib"), ("update", "tool"), ("plug", "tool", "helper")]


def enabled(state: State, op):
    if op[0] in ("plug", "unplug", "drop"):
        return split(op[1])[0] in state.containers
    if op[0] == "uninstall":
        return split(op[1])[0] in state.plain
    return True


def step(w: World, part: Part, hist, node, op):
    """-> the node after the operation, or None"""
    snap, state, versions = node
    r, after = w.run(snap, op)
    errors, new = check_transition(w, snap, state, op, r, after, versions)
    result = None
    if new is not None and not errors:
        d = digest(after)
        key = (d, repr((sorted(new.plain.items()), sorted((k, sorted(v.items())) for k, v in new.containers.items()), sorted(new.touched),
                       sorted(new.exposed.items()))))
        name = split(op[1])[0] if op[0] in ("app", "update") and split(op[1])[0] not in state.containers else None
        if key not in w.checked or name:
            errs, vs = check_state(w, after, new, name)
            errors += errs
            if key not in w.checked:
                w.checked[key] = (vs, dict(new.exposed))
                part.states += 1
        vs, new.exposed = w.checked[key]
        target = split(op[1])[0] if op[0] in ("app", "update") and digest(after) != digest(snap) else None
        if target and not errors:
            best = max(sol[target] for sol in solutions(new.containers[target].values()))
            if vs[target].get(target) != best:
                errors.append(f"container of {target}: version {vs[target].get(target)} was installed, {best} could have been")
        result = (after, new, vs)
    part.transitions += 1
    part.case((digest(snap), op), True, outcome=f"{op[0]} {'ok' if r[0] == 'ok' else r[1]}", sample=[list(o) for o in hist])
    if errors:
        part.violation(f"{' / '.join(' '.join(o) for o in hist)}: {errors[0]}"[:240], {"history": [list(o) for o in hist]},
                       f"{' / '.join(' '.join(o) for o in hist)}: " + "; ".join(errors[:5]))
        return None
    return result


def initial(w: World):
    w.fresh()
    return clean(fsbox.snapshot(w.root)), State(), {}


_world = None


def world(base, wheels):
    """the world of this process (what was found out about states is kept)"""
    global _world
    if _world is None or _world.base != base:
        _world = World(base, wheels)
    return _world


_LEVEL = []  # histories that lead to the states that are explored now
_SEEN = set()


def portable(snap, root):
    """what identifies a tree, wherever it is (commands contain the path of the interpreter, records the hashes of commands)"""
    h = hashlib.blake2b(digest_size=12)
    for p in sorted(snap):
        v = snap[p]
        if v[0] == "f":
            data = v[2].replace(root, b"@")
            v = (v[0], v[1], sorted(r.split(b",")[0] for r in data.splitlines()) if p.endswith("/RECORD") else data)
        h.update(repr((p, v)).encode())
    return h.hexdigest()


def node_key(node, root):
    snap, state, _ = node
    return portable(snap, root), repr((sorted(state.plain.items()), sorted((k, sorted(v.items())) for k, v in state.containers.items()),
                               sorted(state.touched), sorted(state.exposed.items())))


def expand(shard, part: Part):
    base, wheels, jobs, last = shard
    w = world(base, wheels)
    root = str(w.root).encode()
    found, at = {}, None
    for i, op in jobs:
        hist = _LEVEL[i]
        if at != i:
            at, node = i, initial(w)
            for k, o in enumerate(hist):
                node = step(w, Part(), hist[:k + 1], node, o)
        if node is None or not enabled(node[1], op):
            continue
        nxt = step(w, part, hist + (op,), node, op)
        if nxt is not None and not last and (key := node_key(nxt, root)) not in _SEEN and key not in found:
            found[key] = hist + (op,)
    part.samples.append({"found": found})


def explore(ck, base, wheels, depth):
    """breadth first: every operation in every state that can be reached"""
    class Merge:
        violations = ck.violations
        exhaustive = True

        @staticmethod
        def merge(part):
            for s in part.samples:
                if isinstance(s, dict) and "found" in s:
                    for key, hist in s["found"].items():
                        collected.setdefault(key, hist)
            part.samples = [s for s in part.samples if not (isinstance(s, dict) and "found" in s)]
            ck.merge(part)

    _LEVEL[:] = [()]
    _SEEN.clear()
    for d in range(depth):
        collected = {}
        jobs = [(i, op) for i in range(len(_LEVEL)) for op in OPS]
        n = max(8, min(256, len(jobs) // 20))
        parallel(Merge, expand, [(base, wheels, jobs[len(jobs) * k // n:len(jobs) * (k + 1) // n], d == depth - 1) for k in range(n)])
        _SEEN.update(collected)
        _LEVEL[:] = collected.values()
        ck.extra.setdefault("levels", []).append(f"depth {d + 1}: {len(_LEVEL)} new states")
    ck.exhaustive = ck.exhaustive and Merge.exhaustive


# ---------------------------------------------------------------- projects
DEPS = [[], ["lib"], ["app"], ["lib<2", "app"], ["tool", "Odd.Name"]]
EXPOSED = [[], ["app"], ["tool"]]
PROJECT_SCRIPTS = {"1.0": {"capp-run": "capp:main", "capp-old": "capp:nothing"}, "2.0": {"capp-run": "capp:leave", "Capp.New": "capp:Cls.run"}}
BESIDE = [(), (("install", "lib==1.0"), ("app", "tool")), (("app", "capp-more"),)]


def project_cases(thorough):
    """(kind, [(version, dependencies, exposed packages, overrides), ...], store mode, what is in the environment)"""
    out = []
    for kind in ("application", "wrapped", "distribution", "wheel"):
        for deps in DEPS:
            for exposed in EXPOSED if kind in ("application", "wheel") else [[]]:
                for override in ({}, {"lib": "lib==1.0"}) if kind in ("application", "wheel") else ({},):
                    if override and not deps:
                        continue
                    for mode in ("COPY", "AUTO") if kind in ("application", "wrapped") else ("COPY",):
                        for beside in BESIDE:
                            if "tool" in exposed and ("app", "tool") in beside:
                                continue  # both want the same command
                            if not thorough and beside == BESIDE[2] and (exposed or override or mode == "AUTO"):
                                continue
                            if not thorough and (len(exposed) + len(override) + (mode == "AUTO") > 1 or (beside and kind == "wheel")):
                                continue
                            out.append((kind, [("1.0", deps, exposed, override)], mode, beside))
    for kind in ("application", "wrapped"):
        for mode in ("COPY", "AUTO"):
            for d1, d2 in itertools.product(DEPS, repeat=2):
                if thorough or mode == "COPY" and DEPS.index(d1) + DEPS.index(d2) < 5:
                    out.append((kind, [("1.0", d1, [], {}), ("2.0", d2, [], {})], mode, ()))
    return out


def write_project(path: Path, kind, version, deps, exposed, override):
    (path / "src/capp").mkdir(parents=True, exist_ok=True)
    (path / "src/capp/__init__.py").write_text(MAIN.format(v=version, n="capp"))
    q = json.dumps
    scripts = "".join(f"{q(s)} = {q(o)}\n" for s, o in PROJECT_SCRIPTS[version].items())
    text = (f'[project]\nname = "capp"\nversion = "{version}"\n'
            f'dependencies = {q(deps if kind in ("wrapped", "distribution") else [])}\n[project.scripts]\n{scripts}\n'
            '[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n')
    if kind in ("application", "wheel"):
        text += "[tool.pkm.application]\ncontainerized = true\n"
        for key, value in (("dependencies", deps), ("exposed-packages", exposed)):
            if value or kind == "wheel":
                text += f"{key} = {q(value)}\n"
        if override:
            text += "dependency-overwrites = {" + ", ".join(f"{k} = {q(v)}" for k, v in override.items()) + "}\n"
    if kind == "distribution":
        text += '[tool.pkm.distribution]\ntype = "cnt-app"\n'
    (path / "pyproject.toml").write_text(text)


def put_project(w: World, env, kind, path: Path, mode):
    """what a user does with the project"""
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    from pkm.api.environments.environment_builder import EnvironmentBuilder
    from pkm.api.projects.project import Project
    project = Project.load(path)
    (out := w.box.work / "out").mkdir(exist_ok=True)
    if kind == "distribution":
        with tarfile.open(project.build(out)[0]) as tar:
            tar.extractall(out, filter="data")
        project = Project.load(out / "capp-1.0")
    project.attached_environment = env  # as pkm does when it builds the sources of others
    if kind != "wheel":
        env.package_containers.install(project, store_mode=StoreMode[mode], update=True)
        return None
    python_env = EnvironmentBuilder.create(w.box.work / "python", Path(sys.executable))
    wheel = project.build_wheel(out, target_env=python_env)
    WheelDistribution(project.descriptor, wheel).install_to(env.installation_target)
    return wheel


def check_project(w: World, case):
    kind, versions_of, mode, beside = case
    node = initial(w)
    for op in beside:
        node = step(w, Part(), (op,), node, op)
        if node is None:
            return None
    before, state, _ = node
    env = w.fresh(before)
    start, path = before, w.box.work / "project"
    state = state.copy()
    try:
        for version, deps, exposed, override in versions_of:
            write_project(path, kind, version, deps, exposed, override)
            OVERRIDES.clear()
            OVERRIDES.update(override)
            PACKAGES["capp"] = {version: (deps, dict(PROJECT_SCRIPTS[version]))}
            MODULE["capp"] = "capp"
            with redirect_stderr(io.StringIO()), redirect_stdout(io.StringIO()):
                r = attempt(lambda: put_project(w, env, kind, path, mode), 100)
            after = clean(fsbox.snapshot(w.root))
            request = {"capp": "capp==1.0"} if kind == "wrapped" else {"capp": "capp"}
            best = next(solutions(request.values() if kind != "wrapped" else [f"capp=={version}"]), None)
            if best is None:
                if r[0] == "ok":
                    return ["succeeds although its requests cannot be satisfied"]
                if r[1] != "UnsolvableProblemException":
                    return [f"fails with {r[1]} {r[2]}"]
                return [f"it fails and changes the environment: {d}" for d in fsbox.diff(before, after)[:4]]
            if r[0] != "ok":
                return [f"{kind} fails: {r[1]} {r[2]}"]
            errors = [f"changes what is not of the container: {d}"
                      for d in fsbox.diff(not_capp(before), not_capp(after))[:4]]
            if left := os.listdir(w.box.tmp):
                errors.append(f"left in the temporary directory: {len(left)} entries")
            name = "capp"
            state.containers[name] = {name: f"capp=={version}"}
            scripts = PACKAGES["capp"][version][1]
            for e in exposed:
                if e in best:
                    scripts.update(PACKAGES[e][best[e]][1])
            if kind != "wrapped":
                state.exposed[name] = version
            if r[1] is not None:
                errors += wheel_errors(r[1])
            new = version != versions_of[0][0]
            errors += check_state(w, after, state, None if new else name, True, {"capp"} if mode == "AUTO" else ())[0]
            if errors:
                return errors
            state.exposed.pop(name)
            before = after
        # and away with it
        if kind != "wheel":
            with redirect_stderr(io.StringIO()), redirect_stdout(io.StringIO()):
                r = attempt(lambda: pyenv.load_env(w.root).package_containers.container_of("capp").uninstall(), 60)
            if r[0] != "ok":
                return [f"removing it fails: {r[1]} {r[2]}"]
            return [f"after it was removed: {d}" for d in fsbox.diff(start, clean(fsbox.snapshot(w.root)))[:4]]
        return []
    finally:
        OVERRIDES.clear()
        PACKAGES.pop("capp", None)


def not_capp(snap):
    known = {p for v in PROJECT_SCRIPTS.values() for p in v} | {s for n in ("app", "tool") for v in PACKAGES[n].values() for s in v[1]}
    keep = {"run-tool"} if any(owner(p) == "tool" for p in snap) else set()
    return {p: v for p, v in snap.items() if owner(p) != "capp" and not (p.startswith("bin/") and p[4:] in known - keep)}


def wheel_errors(path):
    with zipfile.ZipFile(path) as z:
        files = {n: z.read(n) for n in z.namelist() if not n.endswith("/")}
    snap = {f"{SITE}/{n}": ("f", False, d) for n, d in files.items()}
    errors = [] if Path(path).name == "capp-1.0-py3-none-any.whl" else [f"the wheel is {Path(path).name}"]
    return errors + [f"wheel: {e}" for e in record_errors(snap, SITE, "capp-1.0.dist-info", snap)]


def project_run(shard, part: Part):
    base, wheels, cases = shard
    w = world(base, wheels)
    for case in cases:
        errors = check_project(w, case)
        if errors is None:
            continue
        part.transitions += len(case[1]) + 1
        part.case(("project", repr(case)), True, outcome=f"project {case[0]}", sample=case)
        lost = {m[1] for e in errors if case[0] == "wheel" and (m := re.fullmatch(r"the command \S+ of capp starts None as (.*)", e))}
        for c in sorted(lost):
            part.violation(f"wheel of a project: {c} of a dependency cannot be started", {"project": case},
                           f"the wheel of the project {case[1]}: the command {c} of a dependency cannot be started by its commands")
        errors = [e for e in errors if not lost or not re.fullmatch(r"the command \S+ of capp starts None as .*", e)]
        if errors:
            part.violation(f"project {case}: {errors[0]}"[:240], {"project": case},
                           f"{case[0]} of the project {case[1]} ({case[2]}), in the environment: {case[3]}: " + "; ".join(errors[:5]))


# ---------------------------------------------------------------- failures
FAULTS = [
    (("app", "app"),),
    (("install", "host"), ("app", "tool"), ("app", "app==1.0"), ("plug", "app", "plug"), ("update", "app")),
    (("app", "tool"), ("app", "app"), ("plug", "app", "plug"), ("drop", "app")),
    (("app", "tool"), ("app", "app==1.0"), ("plug", "app", "plugc")),
]
MORE_FAULTS = [
    (("app", "Odd.Name"),),
    (("app", "lib"), ("drop", "lib")),
    (("app", "app"), ("plug", "app", "plug"), ("unplug", "app", "plug")),
    (("app", "app"), ("plug", "app", "plugc"), ("update", "app>=1")),
    (("app", "app==1.0"), ("app", "app==2.0")),
]


def fault_run(shard, part: Part):
    base, wheels, hist, reads, k, n = shard
    w = world(base, wheels)
    node = initial(w)
    for i, op in enumerate(hist[:-1]):
        node = step(w, Part(), hist[:i + 1], node, op)
        if node is None:
            return  # the exploration tells
    op = hist[-1]
    snap, state, versions = node
    w.box.fault_reads = reads
    try:
        r, good = w.run(snap, op)
        total = w.box.count
        if r[0] != "ok":
            return
        for i in range(k, total, n):
            errors = one_fault(w, snap, state, versions, op, i, good)
            part.transitions += 2
            part.case((hist, reads, i), True, outcome=f"fault in {op[0]}")
            if errors:
                part.violation(f"{hist} {w.what}: {errors[0]}"[:240], {"history": [list(o) for o in hist], "fault": i, "reads": reads},
                               f"{' / '.join(' '.join(o) for o in hist)}, where {w.what} fails: " + "; ".join(errors[:5]))
    finally:
        w.box.fault_reads = False


def one_fault(w: World, snap, state, versions, op, i, good):
    env = w.fresh(snap)
    r, after = w.run(snap, op, fault=i, env=env)
    fired = w.box.fired
    w.what = f"{fired[0]} {fired[1].replace(str(w.box.root), '')}" if fired else "nothing"
    errors = [f"changed outside of the environment: {e}" for e in w.box.escapes]
    if r[0] == "timeout":
        return errors + ["does not end"]
    if r[0] != "ok" and op[0] in ("app", "update"):
        errors += [f"it fails ({r[1]} {r[2][:80]}) and changes the environment: {d}" for d in fsbox.diff(snap, after)[:4]]
    name = split(op[1])[0]
    errors += [f"changes what is not of the container: {d}" for d in fsbox.diff(not_owned(snap, name), not_owned(after, name))[:4]]
    if r[0] != "ok":
        # doing it again does all of it
        w.box.clear(w.box.tmp)
        env = pyenv.load_env(w.root)
        if op[0] == "drop" and env.package_containers.container_of(op[1]) is None:
            # what is left of it is no container anymore
            rest = [p.name for p in env.site_packages.installed_packages() if owner(f"{SITE}/{p.dist_info.path.name}") == name]
            r, after = w.run(None, ("uninstall", *rest), env=env)
        else:
            r, after = w.run(None, op, env=env)
        if r[0] != "ok":
            return errors + [f"and then it fails for ever: {r[1]} {r[2]}"]
    elif op[0] not in ("app", "update") and not (fired and "/w/" in fired[1]):
        return errors  # cleaning up
    if digest(after) != digest(good):
        errors += [f"at the end not as without the failure: {d}" for d in fsbox.diff(good, after) if not d.endswith("RECORD")][:4]
    return errors


def home_with_wheels():
    prepare_home()
    pyenv.remember_introspections()
    home = Path(os.environ["XDG_DATA_HOME"]) / "pkm"
    wheels = Path(os.environ["MC_SCRATCH"]) / "wheels"
    if not wheels.exists():
        make_wheels(wheels)
    (home / "etc/pkm/repositories.toml").write_text(f'[repos.main]\ntype = "file-system"\npath = "{wheels}"\n')
    for p in (wheels, *wheels.iterdir(), home / "etc/pkm/repositories.toml"):
        os.chmod(p, 0o755)
    from pkm.api.pkm import pkm
    assert pkm.repositories.main.match(Dependency.parse("app"), pyenv.load_env(pyenv.write_env(wheels.parent / "someenv")))
    for p in home.rglob("*"):
        os.chmod(p, 0o777 if p.is_dir() else 0o666)
    return str(wheels)


def run(ck: Check):
    wheels = home_with_wheels()
    with fsbox.base_dir() as base:
        explore(ck, base, wheels, 4 if ck.thorough else 3)
        shards = [(base, wheels, hist, False, k, 8) for hist in FAULTS for k in range(8)]
        if ck.thorough:
            shards += [(base, wheels, hist, False, k, 8) for hist in MORE_FAULTS for k in range(8)]
            shards += [(base, wheels, hist, True, k, 16) for hist in FAULTS + MORE_FAULTS for k in range(16)]
        parallel(ck, fault_run, shards)
        cases = project_cases(ck.thorough)
        parallel(ck, project_run, [(base, wheels, cases[k::32]) for k in range(32)])
    ck.traces = ck.evaluations


def replay(case):
    wheels = home_with_wheels()
    with fsbox.base_dir() as base:
        w = World(base, wheels)
        node, part = initial(w), Part()
        if "project" in case:
            kind, versions, mode, beside = case["project"]
            return "; ".join(check_project(w, (kind, versions, mode, [tuple(o) for o in beside])) or ()) or None
        hist = tuple(tuple(o) for o in case["history"])
        if "fault" in case:
            for i, op in enumerate(hist[:-1]):
                node = step(w, part, hist[:i + 1], node, op)
            w.box.fault_reads = case["reads"]
            r, good = w.run(node[0], hist[-1])
            errors = one_fault(w, *node, hist[-1], case["fault"], good)
            return "; ".join(errors) or None
        for i, op in enumerate(hist):
            node = step(w, part, hist[:i + 1], node, op)
            if part.violations:
                return part.violations[0][1]["message"]
            if node is None:
                break
    return None
