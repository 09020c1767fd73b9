"""C25 installed interpreters: every kind of PATH and of what is in it, and environments that are activated inside of each other."""
import itertools
import json
import os
import pickle
import re
import sys
from pathlib import Path

from mc import fsbox, pyenv
from mc.core import Check, Part, attempt, parallel
from mc.histories import prepare_home
from pkm.api.environments.environments_zoo import EnvironmentsZoo
from pkm.api.environments.installed_pythons_locator import InstalledPythonsLocator
from pkm.api.versions.version_specifiers import VersionSpecifier

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("all names x kinds of executables, all pairs of kinds in one directory and in two directories, all forms of PATH with two directories, "
        "all lists of up to 3 of 6 search paths; environments are made for version specifiers; all nestings of up to 3 activations. non-trivial: distinct cases")

NAMES = {"python": True, "python3": True, "python3.9": True, "python-3.10": True, "python2.7": True,
         "python3-config": False, "pypy3": False, "ipython": False, "python.py": False, "pythonw": False, "python3.9-dbg": False, "mypython": False}
WORKS = 'echo {version}; echo "$0"'
# kind -> (text, version or None)
KINDS = {
    "3.9.1": (WORKS, "3.9.1"), "3.10.2": (WORKS, "3.10.2"), "2.7.18": (WORKS, "2.7.18"), "3.100.0": (WORKS, "3.100.0"),
    "noise": ('echo warning >&2; ' + WORKS, "3.9.1"),
    "reports other": ('echo 3.10.2; echo TOP/real/thepython', "3.10.2"),
    "fails": ("exit 1", None), "fails late": (WORKS.format(version="3.9.1") + "; exit 3", None), "killed": ("kill -9 $$", None),
    "nothing": ("exit 0", None), "one line": ("echo 3.9.1", None), "no executable": ("echo 3.9.1; echo", None),
    "three lines": ("echo hello; " + WORKS.format(version="3.9.1"), None),
    "not utf-8": ("printf '3.9.1\\n\\377\\376\\n'", None),
    "no interpreter": (None, None), "missing interpreter": (None, None), "empty": (None, None), "binary": (None, None), "not executable": (None, None),
    "directory": (None, None), "broken link": (None, None), "link loop": (None, None),
    "link": (None, "3.10.2"), "link to failing": (None, None),
}
DIRS = ("d1", "d2")
# how PATH is written: (entries, what they mean)
PATHS = {
    "d1:d2": ["TOP/d1", "TOP/d2"], "d2:d1": ["TOP/d2", "TOP/d1"], "d1": ["TOP/d1"], "twice": ["TOP/d1", "TOP/d2", "TOP/d1"],
    "slash": ["TOP/d1/", "TOP/d2//"], "relative": ["d1", "./d2"], "dots": ["TOP/d2/../d1", "TOP/d2/."], "link": ["TOP/link1", "TOP/d2"],
    "missing": ["TOP/missing", "TOP/d1", "/nonexistent/bin", "TOP/d2"], "file": ["TOP/file", "TOP/d1", "TOP/file/bin", "TOP/d2"],
    "loop": ["TOP/loop", "TOP/d1", "TOP/broken", "TOP/d2"], "long": ["/" + "x" * 5000, "TOP/d1", "TOP/d2"],
    "unreadable": ["TOP/locked", "TOP/d1", "TOP/half", "TOP/d2"], "spaces": ["TOP/a b", "TOP/d1", "TOP/d2"], "none": ["TOP/missing"],
}
SPECS = (">=3.9", "==3.9.*", "<3", "~=3.9", ">=3.9,<3.11", ">=4", "!=3.10.2")


def put(file: Path, kind, top: Path):
    text, version = KINDS[kind]
    if text is not None:
        file.write_text("#!/bin/sh\n" + text.replace("{version}", version or "").replace("TOP", str(top)) + "\n")
    elif kind == "no interpreter":
        file.write_text("this is not a script\n")
    elif kind == "missing interpreter":
        file.write_text(f"#!{top}/missing/python\n")
    elif kind == "empty":
        file.write_text("")
    elif kind == "binary":
        file.write_bytes(b"\x7fELF\0\1\2" * 50)
    elif kind == "not executable":
        file.write_text("#!/bin/sh\necho 3.9.1; echo $0\n")
        return
    elif kind == "directory":
        file.mkdir()
        return
    elif kind == "broken link":
        file.symlink_to(top / "missing")
        return
    elif kind == "link loop":
        file.symlink_to(file)
        return
    elif kind in ("link", "link to failing"):
        file.symlink_to(top / "real" / ("thepython" if kind == "link" else "failing"))
        return
    file.chmod(0o755)


class Machine:
    def __init__(self, top: Path, content):
        """content: [(directory, name, kind)]"""
        self.top, self.content = top, content
        for d in (*DIRS, "a b", "real", "half", "locked", "cwd"):
            (top / d).mkdir()
        put(top / "real/thepython", "3.10.2", top)
        put(top / "real/failing", "fails", top)
        (top / "link1").symlink_to("d1")
        (top / "file").write_text("")
        (top / "loop").symlink_to(top / "loop")
        (top / "broken").symlink_to(top / "nothing")
        put(top / "half/python", "3.9.1", top)
        put(top / "a b/python", "2.7.18", top)
        for d, name, kind in content:
            (top / d).mkdir(parents=True, exist_ok=True)
            put(top / d / name, kind, top)
        (top / "half").chmod(0o444)  # what is in it can be listed but not used
        (top / "locked").chmod(0)

    def done(self):
        for d in ("half", "locked"):
            (self.top / d).chmod(0o755)

    def found_in(self, d):
        """executable -> version"""
        result = {"a b/python": "2.7.18"} if d == "a b" else {}
        for where, name, kind in self.content:
            if where == d and NAMES[name] and KINDS[kind][1]:
                result["real/thepython" if kind in ("link", "reports other") else f"{d}/{name}"] = KINDS[kind][1]
        return result

    def expected(self, dirs):
        """executable -> (version, position of the first directory that has it)"""
        result = {}
        for i, d in enumerate(dirs):
            for exe, version in self.found_in(d).items():
                result.setdefault(exe, (version, i))
        return result


def dirs_of(form):
    return [d for e in PATHS[form] for d in [re.sub(r"^(TOP/|\./)", "", e)] for d in
            ["d1" if d in ("link1", "d2/../d1") else "d2" if d == "d2/." else d.rstrip("/")] if d in (*DIRS, "a b")]


def number(version):
    return tuple(int(x) for x in re.match(r"[\d.]*\d", version).group().split("."))


def allows(spec, version):
    from packaging.specifiers import SpecifierSet
    return SpecifierSet(spec).contains(version, prereleases=True)


OWN = (str(Path(sys.executable).resolve()), ".".join(map(str, sys.version_info[:3])))


def judge(m: Machine, dirs, found, what):
    """found: [(executable, version)]"""
    errors, want = [], m.expected(dirs)
    names = [e[len(str(m.top)) + 1:] if e.startswith(f"{m.top}/") else e for e, _ in found]
    versions = {**{e: v for e, (v, _) in want.items()}, OWN[0]: OWN[1]}
    got = dict(zip(names, (v for _, v in found)))
    if len(names) != len(set(names)):
        errors.append(f"{what}: {names} has some more than once")
    if got != versions:
        errors.append(f"{what}: found {got}, expected {versions}")
    else:
        keys = [number(v) for _, v in found]
        if keys != sorted(keys, reverse=True):
            errors.append(f"{what}: {list(got.items())} is not ordered by version")
        position = {e: i for e, (_, i) in want.items()}
        for (a, va), (b, vb) in zip(got.items(), list(got.items())[1:]):
            if va == vb and position.get(a, 99) > position.get(b, 99):
                errors.append(f"{what}: {a} is preferred to {b}, which is found before it")
    return errors


def ask(m: Machine, form, search=()):
    """-> errors"""
    if form == "unreadable" and os.geteuid() == 0:
        return []  # root can read everything
    os.environ["PATH"] = os.pathsep.join(e.replace("TOP", str(m.top)) for e in PATHS[form])
    os.chdir(m.top)
    locator = InstalledPythonsLocator([s.replace("TOP", str(m.top)) for s in search])
    r = attempt(lambda: [(str(p.interpreter), str(p.version)) for p in locator.all_installed])
    if r[0] != "ok":
        return [f"all installed: {r}"]
    dirs = dirs_of(form) + [d for s in search for d in SEARCH[s]]
    errors = judge(m, dirs, r[1], "all installed")
    for spec in SPECS if not errors else ():
        q = attempt(lambda: [(str(p.interpreter), str(p.version)) for p in locator.match(VersionSpecifier.parse(spec))])
        want = [(p, v) for p, v in r[1] if allows(spec, v)]
        if q != ("ok", want):
            errors.append(f"interpreters for {spec}: {q[1:]}, expected {want}")
    return errors


# what search paths mean
SEARCH = {"TOP/tree": ["tree/x/bin", "tree/y/z"], "TOP/tree/x": ["tree/x/bin"], "TOP/missing": [], "TOP/file": [], "~/pythons": ["home"], "TOP/d2": ["d2"]}

_n = itertools.count()


def locate_run(shard, part: Part):
    base, items = shard
    for content, form, search in items:
        os.chdir("/")
        box = fsbox.worker_box(base)
        box.clear()
        top = box.work / f"c{next(_n)}"
        top.mkdir()
        m = Machine(top, content)
        home = os.environ["HOME"]
        try:
            os.environ["HOME"] = str(top / "homedir")
            if any(d == "home" for d, *_ in content):
                (top / "homedir").mkdir()
                (top / "homedir/pythons").symlink_to(top / "home")
            errors = ask(m, form, search)
        finally:
            os.environ["HOME"] = home
            os.chdir("/")
            m.done()
        case = [content, form, search]
        part.case(json.dumps(case), nontrivial=True, sample={"content": content, "PATH": form, "search": search})
        part.evaluations += len(SPECS)
        if errors:
            text = f"{' '.join('/'.join(c) for c in content)} PATH {form} {list(search) or ''}"
            part.violation(f"{text}: {errors[0]}"[:300].replace(str(top), "TOP"), {"locate": case}, f"{text}: " + "; ".join(errors[:4]).replace(str(top), "TOP"))


def locate_cases(thorough):
    for kind in KINDS:
        for name in NAMES:
            yield [("d1", name, kind)], "d1", ()
    other = [("d1", "python3", "3.9.1"), ("d2", "python", "3.9.1"), ("d2", "python3", "fails"), ("d2", "python3.9", "3.10.2")]
    for form in PATHS:
        yield other, form, ()
        for kind in KINDS:
            yield [("d1", "python", kind), ("d2", "python", "3.9.1"), ("d1", "python3", "2.7.18")], form, ()
    for a, b in itertools.product(KINDS, repeat=2):
        yield [("d1", "python", a), ("d2", "python3", b)], "d1:d2", ()
        yield [("d1", "python3", a), ("d1", "python", b), ("d2", "python3.9", "3.100.0")], "d2:d1", ()
        if thorough:
            for c in KINDS:
                yield [("d1", "python", a), ("d2", "python", b), ("d2", "python3", c)], "d1:d2", ()
    tree = [("d1", "python", "3.9.1"), ("d2", "python", "3.9.1"), ("tree/x/bin", "python", "3.9.1"), ("tree/x/bin", "python3", "directory"),
            ("tree/y/z", "python", "2.7.18"), ("home", "python", "3.10.2")]
    for n in range(1, 4):
        for search in itertools.permutations(SEARCH, n):
            if "~/pythons" in search:
                continue
            for form in ("none", "d1") if n < 3 or thorough else ("d1",):
                yield tree, form, search


# -- environments for a specifier: the real interpreter behind wrappers

def create_in_child(env_path, spec):
    """EnvironmentBuilder in a process of its own (pkm remembers the interpreters)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            from pkm.api.environments.environment_builder import EnvironmentBuilder

            def create():
                env = EnvironmentBuilder.create_matching(env_path, VersionSpecifier.parse(spec))
                return str(env.interpreter_version), str(env.path), str(Path(env.interpreter_path).resolve())
            os.write(w, pickle.dumps(attempt(create)))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fd:
        data = fd.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("err", "nothing", "")


def create_run(shard, part: Part):
    base, items = shard
    for kind, form, spec in items:
        os.chdir("/")
        box = fsbox.worker_box(base)
        box.clear()
        top = box.work / f"c{next(_n)}"
        top.mkdir()
        m = Machine(top, [("d1", "python", kind)])
        (top / "d2/python3").write_text(f'#!/bin/sh\nexec {OWN[0]} "$@"\n')
        (top / "d2/python3").chmod(0o755)
        try:
            os.environ["PATH"] = os.pathsep.join(e.replace("TOP", str(top)) for e in PATHS[form])
            r = create_in_child(top / "env", spec)
        finally:
            m.done()
        errors = []
        if allows(spec, OWN[1]):
            if r != ("ok", (OWN[1], str(top / "env"), OWN[0])):
                errors.append(f"an environment for {spec}: {r[1:]}")
        elif r[:2] != ("err", "NoSuchElementException") or (top / "env").exists():
            errors.append(f"an environment for {spec}, of which there is no interpreter: {r}" + " (something was created)" * (top / "env").exists())
        part.case(json.dumps([kind, form, spec]), nontrivial=True, sample={"create": [kind, form, spec]})
        if errors:
            text = f"d1/python {kind}, PATH {form}: {errors[0]}".replace(str(top), "TOP")
            part.violation(text[:300], {"create": [kind, form, spec]}, text)


def create_cases():
    mine = f"=={OWN[1]}"
    for kind in ("fails", "no interpreter", "missing interpreter", "one line", "link loop", "2.7.18", "3.9.1"):
        for form in ("d1:d2", "d2:d1", "missing", "file", "unreadable", "none"):
            yield kind, form, mine
    for kind, spec in itertools.product(("fails", "nothing", "binary"), (">=4", f">{OWN[1]},<3.100", f">=3,<={OWN[1]}", f"!={OWN[1]},>=3.11")):
        yield kind, "d1:d2", spec


# -- activations

def activate_run(shard, part: Part):
    base, items = shard
    os.chdir("/")
    box = fsbox.worker_box(base)
    box.clear()
    envs = {}
    for n in ("a", "b"):
        pyenv.write_env(box.work / n)
        envs[n] = pyenv.load_env(box.work / n)
    (box.work / "z").mkdir()
    envs["z"] = EnvironmentsZoo.load(box.work / "z")
    scripts = {n: str(envs[n].installation_target.scripts) for n in ("a", "b")}
    scripts["z"] = str(box.work / "z/.zoo/bin")
    for start, nest, raises, again in items:
        env = dict(start)
        errors = []

        def enter(i):
            if i == len(nest):
                if raises:
                    raise KeyError("body")
                return
            before = dict(env)
            try:
                with envs[nest[i]].activate(env):
                    want = [scripts[n] for n in reversed(nest[:i + 1])] + ([start["PATH"]] if start.get("PATH") else [])
                    got = env.get("PATH", "")
                    if [os.path.realpath(p) for p in got.split(os.pathsep)] != [os.path.realpath(p) for x in want for p in x.split(os.pathsep)]:
                        errors.append(f"in {nest[:i + 1]} PATH is {got}, expected {want}")
                    venv = next((n for n in reversed(nest[:i + 1]) if n != "z"), None)
                    if env.get("VIRTUAL_ENV") != (str(box.work / venv) if venv else start.get("VIRTUAL_ENV")):
                        errors.append(f"in {nest[:i + 1]} VIRTUAL_ENV is {env.get('VIRTUAL_ENV')}")
                    if {k: v for k, v in env.items() if k not in ("PATH", "VIRTUAL_ENV")} != {k: v for k, v in start.items() if k == "OTHER"}:
                        errors.append(f"in {nest[:i + 1]} there are {sorted(env)}")
                    enter(i + 1)
            finally:
                if env != before:
                    errors.append(f"after {nest[i]} the variables are {env}, before they were {before}")
        for _ in range(1 + again):
            r = attempt(lambda: enter(0))
            if r[:2] != (("err", "KeyError") if raises else ("ok", None)):
                errors.append(f"{r}")
        part.case(json.dumps([start, nest, raises, again]), nontrivial=True, sample={"start": start, "activated": nest})
        if errors:
            text = f"{start} {nest} {'raising' if raises else ''}: {errors[0]}".replace(str(box.work), "WORK")
            part.violation(text[:300], {"activate": [start, nest, raises, again]}, text)


def activate_cases(thorough):
    for path, venv, other in itertools.product((None, "", "/usr/bin", "/usr/bin:/bin"), (None, "", "/some/env"), (None, "x")):
        start = {k: v for k, v in (("PATH", path), ("VIRTUAL_ENV", venv), ("OTHER", other)) if v is not None}
        for n in range(1, 5 if thorough else 4):
            for nest in itertools.product("abz", repeat=n):
                for raises, again in itertools.product((False, True), repeat=2):
                    yield start, list(nest), raises, again


def prepare():
    prepare_home()


def run(ck: Check):
    prepare()
    with fsbox.base_dir() as base:
        for func, items in ((locate_run, list(locate_cases(ck.thorough))), (create_run, list(create_cases())), (activate_run, list(activate_cases(ck.thorough)))):
            parallel(ck, func, [(base, items[i::32]) for i in range(32)])
    ck.traces = ck.evaluations


def replay(case):
    prepare()
    with fsbox.base_dir() as base:
        part = Part()
        for key, func in (("locate", locate_run), ("create", create_run), ("activate", activate_run)):
            if key in case:
                func((base, [case[key]]), part)
        return part.violations[0][1]["message"] if part.violations else None
