"""C15 attached repositories: every configuration of the contexts (up to bounds) and every history of editing one."""
import itertools
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import tomllib
from pathlib import Path

from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from mc.core import Check, Part, _run_shard, parallel

PROPERTY = "C15"
LEVEL = "model_checking"
RULE = ("every combination (from enumerated sets) of the repository configurations of an environment, a project, its group, an "
        "environment zoo and the global context (repositories and their order, bind-only, inheritance, bindings by name and "
        "inline, equal names and equal arguments, spellings) x queries; every sequence (up to a depth) of edits of a "
        "configuration through the api, with lookups and reloads in between; every kind of file-system location. The versions "
        "that match must be those of the repository that a model of the documented search order names. non-trivial: distinct "
        "(configuration, query) for which more than one repository of the search order has the package, or it is bound")

VERIF = Path(__file__).resolve().parents[2]


def key(name):
    return re.sub(r"[-_.]+", "-", name).lower()


# -- the repositories: {key: versions that python 3.12 can use}
SOURCES = {
    "a": {"my-pkg": ["1.5", "1.0"], "other": ["1.0"]},
    "b": {"my-pkg": ["2.0"]},
    "c": {"other": ["3.0", "3.1a1"]},
    "d": {"my-pkg": ["4.0rc1"]},
    "e": {},
}
FILES = {
    "a": [("my_pkg", "1.0", None), ("my_pkg", "1.5", ">=3"), ("other", "1.0", None)],
    "b": [("My.Pkg", "2.0", ">=3.8"), ("My.Pkg", "2.5", ">=4")],
    "c": [("Other", "3.0", None), ("other", "3.1a1", None)],
    "d": [("MY_PKG", "4.0rc1", None)],
    "e": [],
}
QUERIES = ["my-pkg", "My.Pkg", "my_pkg>1.0", "MY_PKG<2", "other", "OTHER>3", "app", "Sib.Ling", "absent", "@url"]


def write_sources(root: Path):
    from mc import pyenv
    for s, files in FILES.items():
        (root / s).mkdir(parents=True)
        for name, version, requires_python in files:
            wheel(root / s, name, version, requires_python)
    (root / "e/readme.txt").write_text("x")
    wheel(root / "u", "my_pkg", "9.0")


def wheel(folder: Path, name, version, requires_python=None, requires=()):
    from mc import pyenv
    folder.mkdir(exist_ok=True, parents=True)
    di = f"{name}-{version}.dist-info"
    return pyenv.write_wheel(folder / f"{name}-{version}-py3-none-any.whl", {
        f"{key(name)}.py": b"", f"{di}/METADATA": pyenv.metadata(name, version, requires, requires_python),
        f"{di}/WHEEL": pyenv.wheel_text()}, di)


# -- configurations: (repos ((name, source, bind only), ..), inheritance or None, bindings ((package, ("name", n) | ("inline", s)), ..))
EMPTY = ((), None, ())


def render(cfg, root):
    repos, inheritance, bindings = cfg
    lines = [f'inheritance = "{inheritance}"'] if inheritance else []
    for name, source, bind_only in repos:
        lines += [f'[repos."{name}"]', 'type = "file-system"', f'path = "{root / "src" / source}"']
        if bind_only:
            lines.append("bind-only = true")
    if bindings:
        lines.append("[package-bindings]")
    for package, (kind, v) in bindings:
        value = f'"{v}"' if kind == "name" else f'{{ type = "file-system", path = "{root / "src" / v}" }}'
        lines.append(f'"{package}" = {value}')
    return "\n".join(lines) + "\n"


# -- the model
def parse_query(q):
    m = re.fullmatch(r"([A-Za-z0-9._-]+)(.*)", q)
    return key(m[1]), SpecifierSet(m[2])


def versions(available, spec):
    allowed = [v for v in available if spec.contains(v, prereleases=True)]
    finals = [v for v in allowed if not PV(v).is_prerelease]
    return sorted(finals or allowed, key=PV, reverse=True)


def lookup(levels, query):
    """levels, closest first: ("projects", {key: version}) or ("config", cfg); the model of the documented search"""
    names = set()
    if query == "@url":
        return ["9.0"] if levels[-1] == "global" else []
    k, spec = parse_query(query)
    for level in levels:
        if level == "global":
            continue
        kind, what = level
        if kind == "projects":
            if k in what:
                return [what[k]]
            continue
        repos, _, bindings = what
        for package, (how, v) in bindings:
            if key(package) == k:
                if how == "inline":
                    return versions(SOURCES[v].get(k, ()), spec)
                named = [s for n, s, _ in repos if n == v]
                return versions(SOURCES[named[0]].get(k, ()), spec) if named else "undefined"
        for _, source, bind_only in repos:
            if not bind_only and (found := versions(SOURCES[source].get(k, ()), spec)):
                return found
    return []


def cut(levels):
    """what of the chain of (wraps, cfg) of a context is used; the first is the context itself, the last the global one"""
    result = []
    for i, (projects, cfg) in enumerate(levels):
        if projects:
            result.append(("projects", projects))
        result.append(("config", cfg))
        mode = cfg[1] or "context"
        if i == len(levels) - 1:
            return result + ["global"]
        if mode == "none":
            return result
        if mode == "global":
            return result + [("config", levels[-1][1]), "global"]


def nontrivial(levels, query):
    if query == "@url":
        return True
    k, spec = parse_query(query)
    n = 0
    for level in levels:
        if level != "global" and level[0] == "config":
            if any(key(p) == k for p, _ in level[1][2]):
                return True
            n += sum(1 for _, s, _ in level[1][0] if versions(SOURCES[s].get(k, ()), spec))
    return n > 1


# -- the enumerated configurations
def repo_lists(sources, most):
    for n in range(most + 1):
        for pick in itertools.permutations(sources, n):
            for flags in itertools.product((False, True), repeat=n):
                yield tuple((f"r{s}", s, f) for s, f in zip(pick, flags))


def env_configs(thorough):
    for repos in repo_lists("abcd" if not thorough else "abcde", 2 if not thorough else 3):
        pkg = [None, ("inline", "a"), ("inline", "b")] + [("name", n) for n, _, _ in repos]
        oth = [None, ("inline", "c")] + [("name", n) for n, _, _ in repos[:1]]
        for bp, bo in itertools.product(pkg, oth):
            bindings = ((("my.PKG", bp),) if bp else ()) + ((("other", bo),) if bo else ())
            for inheritance in (None, "global", "none"):
                yield repos, inheritance, bindings
    # equal arguments under several names, names that the inherited repositories have, bindings to undefined names
    for inheritance in ("context", "global", "none"):
        yield (("x", "a", True), ("y", "a", False), ("z", "b", False)), inheritance, (("other", ("name", "x")),)
        yield (("x", "a", False), ("y", "a", True)), inheritance, (("my-pkg", ("name", "y")),)
        yield (("x", "b", False), ("y", "a", True), ("x2", "b", True)), inheritance, (("MY_PKG", ("name", "y")),)
        for name in ("global", "base", "shared", "url", "pypi"):
            yield ((name, "b", True),), inheritance, ()
            yield ((name, "b", False),), inheritance, ()
            yield ((name, "b", True),), inheritance, (("my-pkg", ("name", name)),)
        yield (("x", "b", False),), inheritance, (("my-pkg", ("name", "nowhere")),)


GLOBALS = [
    ((("ra", "a", False),), None, ()),
    ((("gb", "b", True), ("gc", "c", False)), None, (("Other", ("name", "gb")),)),
    EMPTY,
    ((("gc", "c", False), ("ra", "a", False)), None, (("my-pkg", ("inline", "b")), ("other", ("inline", "a")))),
    ((("ra", "b", False), ("gd", "d", False)), "context", ()),
]
SOME = [
    EMPTY,
    ((("ra", "a", False),), None, ()),
    ((("rb", "b", True),), None, (("My.pkg", ("name", "rb")),)),
    ((("rc", "c", False),), "global", ()),
    ((("rb", "b", False),), "none", ()),
    ((), "none", ()),
    ((("rb", "b", False), ("ra", "a", False)), "context", (("other", ("inline", "c")), ("my_pkg", ("inline", "a")))),
    ((), "global", (("other", ("inline", "a")),)),
]


def project_cases(thorough):
    some = SOME if thorough else SOME[:7]
    for p in some:
        for g in [None] + ([SOME[i] for i in (0, 2, 3, 4, 6)] if thorough else [SOME[i] for i in (1, 2, 4, 6)]):
            for e in ([SOME[i] for i in (0, 1, 2, 3, 5)] if thorough else [SOME[i] for i in (0, 1, 3, 5)]):
                for z in [None, SOME[0], SOME[3], SOME[6]]:
                    yield p, g, e, z


# -- the worker: a process of its own for each global configuration
class Scratch:
    def __init__(self, global_cfg, use_home):
        self.root = Path(tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH")))
        home = self.root / "home" / ("pkm" if not use_home else "")
        os.environ.pop("PKM_HOME", None)
        os.environ["XDG_DATA_HOME"] = str(self.root / ("home" if not use_home else "unused"))
        if use_home:
            os.environ["PKM_HOME"] = str(home)
        (home / "etc/pkm").mkdir(parents=True)
        (home / "etc/pkm/general.toml").write_text('[concurrency]\nmode = "none"\n')
        (home / "etc/pkm/repositories.toml").write_text(render(global_cfg, self.root))
        from mc import pyenv
        write_sources(self.root / "src")
        self.work = self.root / "work"
        self.queries = None
        pyenv.write_env(self.work / "env")
        pyenv.write_env(self.work / "grp/app/.venv")
        pyenv.write_env(self.work / "zoo/app")
        (self.work / "zoo/.zoo/shared").mkdir(parents=True)
        for name in ("app", "Sib_Ling"):
            (self.work / "grp" / name).mkdir(exist_ok=True)
            (self.work / "grp" / name / "pyproject.toml").write_text(
                f'[project]\nname = "{name}"\nversion = "7.{len(name)}"\n[build-system]\nrequires = ["pkm"]\n'
                f'build-backend = "pkm.api.buildsys"\n')
        self.qenv = pyenv.load_env(self.work / "env")
        for e in ("grp/app/.venv", "zoo/app"):
            pyenv.load_env(self.work / e)

    def write(self, context, cfg):
        f = self.work / context / "etc/pkm/repositories.toml"
        if cfg is None or cfg == EMPTY:
            f.unlink(missing_ok=True)
        else:
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text(render(cfg, self.root))

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def ask(context, query, s: Scratch):
    from mc.core import attempt
    if query == "@url":
        query = f"my-pkg @ file://{s.root}/src/u/my_pkg-9.0-py3-none-any.whl"
    r = attempt(lambda: context().attached_repository.match(query, s.qenv))
    if r[0] != "ok":
        return r[:2] if r[1] == "NoSuchElementException" else r
    if query.startswith("my-pkg @"):
        return ["9.0"] if [p.name_key for p in r[1]] == ["my_pkg"] else [str(p.version) for p in r[1]]
    return [str(p.version) for p in r[1]]


def agrees(expected, got):
    if expected == "undefined":
        return got == ("err", "NoSuchElementException")
    return got == expected


def context_of(s: Scratch, case):
    """-> the context object and its levels; case: ("env", e) | ("zenv", zoo text, z, e) | ("prj", p, g, e, z)"""
    from pkm.api.environments.environment import Environment
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    from pkm.api.projects.project import Project
    from pkm.api.projects.project_group import ProjectGroup
    if case[0] == "env":
        s.write("env", case[1])
        return lambda: Environment(s.work / "env"), [({}, case[1])]
    if case[0] == "zenv":
        (s.work / "zoo/env-zoo.toml").write_text(case[1])
        s.write("zoo", case[2])
        s.write("zoo/app", case[3])
        return lambda: EnvironmentsZoo.load(s.work / "zoo").load_environment("app"), [({}, case[3]), ({}, case[2])]
    if case[0] == "zoo":
        (s.work / "zoo/env-zoo.toml").write_text(case[1])
        s.write("zoo", case[2])
        return lambda: EnvironmentsZoo.load(s.work / "zoo"), [({}, case[2])]
    if case[0] == "grp":
        (s.work / "grp/pyproject-group.toml").write_text('children = ["app", "Sib_Ling"]\n')
        s.write("grp", case[1])
        return lambda: ProjectGroup.load(s.work / "grp"), [({"app": "7.3", "sib-ling": "7.8"}, case[1])]
    _, p, g, e, z = case
    group_file, envs_file = s.work / "grp/pyproject-group.toml", s.work / "grp/app/etc/pkm/environments.toml"
    group_file.unlink(missing_ok=True)
    envs_file.unlink(missing_ok=True)
    levels = [({"app": "7.3"}, p)]
    s.write("grp/app", p)
    if g is not None:
        group_file.write_text('children = ["app", "Sib_Ling"]\n')
        levels.append(({"app": "7.3", "sib-ling": "7.8"}, g))
    s.write("grp", g)
    if z is not None:
        envs_file.parent.mkdir(parents=True, exist_ok=True)
        envs_file.write_text(f'[attached-env]\nzoo = "{s.work / "zoo"}"\n')
        (s.work / "zoo/env-zoo.toml").write_text("[package-sharing]\nenabled = false\n")
    s.write("zoo", z)
    s.write("zoo/app" if z is not None else "grp/app/.venv", e)
    levels.append(({}, e))
    if z is not None:
        levels.append(({}, z))
    return lambda: Project.load(s.work / "grp/app"), levels


def run_config_case(s: Scratch, case, global_cfg, part: Part, tag):
    from mc.core import attempt
    load, levels = context_of(s, case)
    r = attempt(load)
    levels = cut(levels + [({}, global_cfg)])
    for q in QUERIES:
        expected = lookup(levels, q)
        got = ask(lambda: r[1], q, s) if r[0] == "ok" else r
        part.transitions += 1
        nt = nontrivial(levels, q)
        part.case((case, global_cfg, q), nontrivial=nt, sample=[repr(case), q] if nt else None,
                  outcome=case[0] if nt else None)
        if not agrees(expected, got):
            part.violation(f"{case[0]} {q} {case[1:]} global {global_cfg}", {"kind": "config", "case": [case, global_cfg, q, tag]},
                           f"context {case} with the global configuration {global_cfg}: match({q!r}) -> {got}, the "
                           f"configured search order gives {expected}")


# -- histories of edits
def edit_ops(depth_small):
    ops = [("add", n, s, b) for n, s, b in (("r1", "a", False), ("r1", "b", False), ("r2", "b", True), ("r2", "a", False),
                                            ("r.3", "c", False))]
    ops += [("remove", "r1"), ("remove", "r2")]
    ops += [("bind", ("my-pkg",), "r2"), ("bind", ("My_Pkg", "other"), "r1"), ("bind", ("MY.pkg",), ("inline", "b")),
            ("bind", ("other",), ("inline", "c")), ("unbind", ("my_pkg",)), ("unbind", ("OTHER", "my-pkg"))]
    ops += [("reload",), ("bad",)]
    if depth_small:
        ops = [o for o in ops if o not in (("add", "r2", "a", False), ("bind", ("other",), ("inline", "c")), ("bad",))]
    return ops


def apply_model(cfg, op):
    repos, inheritance, bindings = cfg
    repos, bindings = dict((n, (s, b)) for n, s, b in repos), dict(bindings)
    if op[0] == "add":
        repos[op[1]] = (op[2], op[3])
    elif op[0] == "remove":
        repos.pop(op[1], None)
        bindings = {p: t for p, t in bindings.items() if t != ("name", op[1])}
    elif op[0] in ("bind", "unbind"):
        for p in op[1]:
            bindings = {q: t for q, t in bindings.items() if key(q) != key(p)}
        if op[0] == "bind":
            for p in op[1]:
                bindings[p] = op[2] if isinstance(op[2], tuple) else ("name", op[2])
    return tuple((n, s, b) for n, (s, b) in repos.items()), inheritance, tuple(bindings.items())


def apply_real(rm, op, s: Scratch):
    from pkm.api.repositories.repositories_configuration import RepositoryInstanceConfig
    if op[0] == "add":
        rm.add_repository(op[1], "file-system", {"path": str(s.root / "src" / op[2])}, op[3])
    elif op[0] == "remove":
        rm.remove_repository(op[1])
    elif op[0] == "bind":
        to = op[2] if isinstance(op[2], str) else \
            RepositoryInstanceConfig("file-system", True, {"path": str(s.root / "src" / op[2][1])})
        rm.register_bindings(list(op[1]), to)
    elif op[0] == "unbind":
        rm.register_bindings(list(op[1]), None)
    elif op[0] == "bad":
        try:
            rm.add_repository("r9", "no-such-type", {"path": "x"})
        except Exception:  # noqa
            return
        raise AssertionError("a repository of an unknown type was added")


def read_back(path: Path, s: Scratch):
    """the configuration in a file, through a reader that is not pkm's"""
    if not path.exists():
        return EMPTY
    data = tomllib.loads(path.read_text())

    def src(d):
        assert d["type"] == "file-system", d
        return Path(d["path"]).relative_to(s.root / "src").as_posix()

    repos = tuple((n, src(d), d.get("bind-only", False)) for n, d in data.get("repos", {}).items())
    bindings = tuple((p, ("name", t) if isinstance(t, str) else ("inline", src(t)))
                     for p, t in data.get("package-bindings", {}).items())
    return repos, data.get("inheritance"), bindings


def same_config(a, b):
    return a[0] == b[0] and (a[1] or "context") == (b[1] or "context") and \
        sorted((key(p), t) for p, t in a[2]) == sorted((key(p), t) for p, t in b[2])


HISTORY_QUERIES = ["My-Pkg", "other", "my_pkg>1.0"]


def run_history(s: Scratch, start, ops, global_cfg, where, check_from=0):
    """-> error or None; the lookups are done after each operation (they fill the caches that the next ones must not see)"""
    from mc.core import attempt
    cfg = start
    case = ("env", cfg) if where == "env" else ("prj", cfg, None, EMPTY, None)
    load, _ = context_of(s, case)
    ctx = load()
    file = s.work / ("env" if where == "env" else "grp/app") / "etc/pkm/repositories.toml"
    for i, op in enumerate(ops):
        if op == ("reload",):
            ctx = load()
        else:
            r = attempt(lambda: apply_real(ctx.repository_management, op, s))
            if r[0] != "ok":
                return f"after {ops[:i]}: {op} -> {r}"
            cfg = apply_model(cfg, op)
        levels = cut(([({}, cfg)] if where == "env" else [({"app": "7.3"}, cfg), ({}, EMPTY)]) + [({}, global_cfg)])
        for q in HISTORY_QUERIES:
            expected, got = lookup(levels, q), ask(lambda: ctx, q, s)
            if not agrees(expected, got):
                return f"after {ops[:i + 1]} (configuration {cfg}): match({q!r}) -> {got}, expected {expected}"
        if i >= check_from:
            try:
                written = read_back(file, s)
            except Exception as e:  # noqa
                return f"after {ops[:i + 1]}: {file.name} cannot be read: {type(e).__name__} {e}"
            if not same_config(written, cfg):
                return f"after {ops[:i + 1]}: the file has {written}, the configuration is {cfg}"
            defined = attempt(lambda: [(n, c.type, bool(c.bind_only))
                                       for n, c in ctx.repository_management.defined_repositories()])
            if defined != ("ok", [(n, "file-system", b) for n, _, b in cfg[0]]):
                return f"after {ops[:i + 1]}: defined_repositories() -> {defined}, the configuration is {cfg}"
    return None


def histories(thorough):
    starts = [EMPTY, ((("r1", "a", False),), "none", (("my-pkg", ("inline", "b")),)),
              ((("r2", "b", True), ("r1", "a", False)), "global", (("My.Pkg", ("name", "r2")),))]
    for start in starts:
        for ops in itertools.product(edit_ops(False), repeat=2):
            yield start, ops, "prj"
        for ops in itertools.product(edit_ops(not thorough), repeat=3):
            yield start, ops, "env"
    if thorough:
        for ops in itertools.product(edit_ops(True), repeat=4):
            yield starts[0], ops, "env"


# -- locations of file-system repositories
def locations(root: Path):
    """-> {name: (path, {key: versions})}"""
    import io
    import tarfile
    result = {}

    def project(d: Path, name, version, requires_python=None):
        d.mkdir(parents=True)
        rp = f'requires-python = "{requires_python}"\n' if requires_python else ""
        (d / "pyproject.toml").write_text(f'[project]\nname = "{name}"\nversion = "{version}"\n{rp}')
        return d

    def sdist(d: Path, name, version):
        d.mkdir(parents=True, exist_ok=True)
        with tarfile.open(d / f"{name}-{version}.tar.gz", "w:gz") as t:
            data = f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n\n".encode()
            info = tarfile.TarInfo(f"{name}-{version}/PKG-INFO")
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
        return d / f"{name}-{version}.tar.gz"

    for i, name in enumerate(("foo", "Foo_Bar", "foo.bar", "FOO-bar-Baz")):
        result[f"project {name}"] = project(root / f"p{i}", name, "1.2"), {key(name): ["1.2"]}
    result["project for python 4"] = project(root / "p9", "foo", "1.2", ">=4"), {}
    g = root / "g"
    project(g / "one", "One", "1.0")
    project(g / "sub/two", "Two_2", "2.0")
    wheel(g, "foo_bar", "3.0")
    (g / "sub/pyproject-group.toml").write_text('children = ["two"]\n')
    (g / "pyproject-group.toml").write_text('children = ["one", "sub"]\n')
    result["group"] = g, {"one": ["1.0"], "two-2": ["2.0"], "foo-bar": ["3.0"]}
    result["nested group"] = g / "sub", {"two-2": ["2.0"]}
    result["wheel"] = wheel(root / "w1", "Foo_Bar", "1.0"), {"foo-bar": ["1.0"]}
    result["wheel for python 4"] = wheel(root / "w2", "Foo_Bar", "1.0", ">=4"), {}
    result["sdist"] = sdist(root / "s1", "foo", "1.0"), {"foo": ["1.0"]}
    result["sdist with hyphens"] = sdist(root / "s2", "Foo-bar", "1.0rc1"), {"foo-bar": ["1.0rc1"]}
    d = root / "foo-bar"  # named like one of the packages
    for v in ("1.0", "1.10", "1.9"):
        wheel(d, "foo_bar", v)
    wheel(d, "foo_bar", "1.11", ">=4")
    sdist(d, "Foo.Bar", "1.2")
    sdist(d, "foo", "0.5.dev1")
    (d / "notes.txt").write_text("")
    (d / "deeper").mkdir()
    wheel(d / "deeper", "deep", "1.0")
    result["directory"] = d, {"foo-bar": ["1.10", "1.9", "1.2", "1.0"], "foo": ["0.5.dev1"]}
    (root / "foo").mkdir()
    result["empty directory"] = root / "foo", {}
    result["missing"] = root / "nothing", {}
    return result


LOCATION_QUERIES = ["foo", "Foo", "foo-bar", "FOO_BAR", "foo.bar>1.0,<1.10", "foo_bar>=1.11", "foo-bar-baz", "One", "two_2", "Two.2", "deep",
                    "deeper", "foo<1"]


def run_locations(s: Scratch, global_cfg, part: Part):
    locs = locations(s.root / "locations")
    for name, (path, available) in locs.items():
        s.write("env", None)
        f = s.work / "env/etc/pkm/repositories.toml"
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_text(f'inheritance = "none"\n[repos.r]\ntype = "file-system"\npath = "{path}"\n')
        from pkm.api.environments.environment import Environment
        env = Environment(s.work / "env")
        for q in LOCATION_QUERIES:
            k, spec = parse_query(q)
            expected = versions(available.get(k, ()), spec)
            got = ask(lambda: env, q, s)
            if isinstance(got, list):
                got = [str(PV(v)) for v in got]
            part.transitions += 1
            part.case(("location", name, q), nontrivial=bool(available), outcome="location")
            if got != expected:
                part.violation(f"location {name} {q}", {"kind": "location", "case": [name, q]},
                               f"file-system repository on a {name}: match({q!r}) -> {got}, it has {available}")


def publishers(s: Scratch, part: Part):
    """repositories to publish to are found by their name along the search order"""
    def cfg(*names):
        return "\n".join(f'[repos.{n}]\ntype = "pypi"\nurl = "{u}"\npublish-url = "{p}"\nbind-only = true' if p else
                         f'[repos.{n}]\ntype = "pypi"\nurl = "{u}"\nbind-only = true' for n, u, p in names) + "\n"
    from mc.core import attempt
    from pkm.api.environments.environment import Environment
    from pkm.api.projects.project import Project
    u, v = "http://localhost:1/u", "http://localhost:1/v"
    options = [(), (("one", u, u),), (("two", u, u),), (("one", u, u), ("two", u, u)), (("two", u, None), ("one", v, v))]
    for e, p in itertools.product(options, repeat=2):
        for inheritance in ("context", "none", "global"):
            (s.work / "grp/pyproject-group.toml").unlink(missing_ok=True)
            (s.work / "grp/app/etc/pkm/environments.toml").unlink(missing_ok=True)
            for where, what in (("grp/app/.venv", e), ("grp/app", p)):
                f = s.work / where / "etc/pkm/repositories.toml"
                f.parent.mkdir(parents=True, exist_ok=True)
                f.write_text((f'inheritance = "{inheritance}"\n' if where == "grp/app" else "") + cfg(*what))
            project = attempt(lambda: Project.load(s.work / "grp/app"))
            expected = {}
            for what in [p] + ([e] if inheritance == "context" else []):
                for n, _, publish in what:
                    expected.setdefault(n, publish)
            got = {}
            for n in ("one", "two", "three"):
                r = attempt(lambda: project[1].repository_management.publisher_for(n))
                got[n] = "absent" if r[:2] == ("err", "NoSuchElementException") else \
                    r if r[0] != "ok" else r[1] and r[1].repository_name
            want = {n: (n if expected[n] else None) if n in expected else "absent" for n in ("one", "two", "three")}
            part.transitions += 1
            part.case(("publishers", e, p, inheritance), nontrivial=bool(e or p), outcome="publishers")
            listed = attempt(lambda: {n: q.repository_name for n, q in project[1].repository_management.publishable_repositories().items()})
            if got != want or listed != ("ok", {n: n for n in expected if expected[n]}):
                part.violation(f"publishers {e} {p} {inheritance}", {"kind": "publishers"},
                               f"project repositories {p} ({inheritance}), environment {e}: publishers {got} {listed}, expected {want}")
    for where in ("grp/app/.venv", "grp/app"):
        (s.work / where / "etc/pkm/repositories.toml").unlink()


ZOO_TEXTS = ["", "[package-sharing]\nenabled = true\n", "[package_sharing]\nenabled = false\n"]


def config_cases(kind, thorough):
    if kind == "env":
        return [("env", c) for c in env_configs(thorough)]
    if kind == "prj":
        return [("prj", *c) for c in project_cases(thorough)]
    return [("zenv", t, z, e) for t in ZOO_TEXTS for z in SOME for e in SOME[:6]] + \
        [("zoo", t, z) for t in ZOO_TEXTS for z in SOME] + [("grp", g) for g in SOME]


def work(job, part: Part):
    kind, gi, i, n, thorough = job
    s = Scratch(GLOBALS[gi], use_home=gi % 2 == 1)
    try:
        if kind == "history":
            for h in list(histories(thorough))[i::n]:
                e = run_history(s, *h[:2], GLOBALS[gi], h[2])
                part.transitions += len(h[1])
                part.states += 1
                part.case(("history", h), sample=["history", repr(h)], outcome="history")
                if e:
                    part.violation(f"history {h}", {"kind": "history", "case": [h, gi]}, f"starting with {h[0]}: {e}")
        elif kind == "locations":
            run_locations(s, GLOBALS[gi], part)
            publishers(s, part)
        else:
            for case in config_cases(kind, thorough)[i::n]:
                part.states += 1
                run_config_case(s, case, GLOBALS[gi], part, gi)
    finally:
        s.close()


def worker():
    """the main function of a worker process: a job on stdin -> a pickled Part on stdout"""
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    job = json.loads(sys.stdin.read())
    pickle.dump(_run_shard(work, job), out)
    out.close()


def in_process(job, part: Part):
    r = subprocess.run([sys.executable, "-c", "from mc.checks import c15; c15.worker()"], input=json.dumps(job).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF, timeout=3000)
    if r.returncode != 0:
        raise RuntimeError(r.stderr.decode()[-3000:])
    other, error = pickle.loads(r.stdout)
    if error is not None:
        raise RuntimeError(error)
    for attr in ("evaluations", "states", "transitions", "traces"):
        setattr(part, attr, getattr(part, attr) + getattr(other, attr))
    part.distinct |= other.distinct
    part.samples += other.samples
    part.violations += other.violations
    for k, v in other.outcomes.items():
        part.outcomes[k] = part.outcomes.get(k, 0) + v


def run(ck: Check):
    jobs = [("locations", 0, 0, 1, ck.thorough)]
    for gi in range(len(GLOBALS)):
        split = 3 if not ck.thorough else 8
        jobs += [("prj", gi, i, split, ck.thorough) for i in range(split)]
        jobs += [("env", gi, i, split, ck.thorough) for i in range(split)]
        jobs += [("zoo", gi, 0, 1, ck.thorough)]
    jobs += [("history", 4, i, 10, ck.thorough) for i in range(10)]
    parallel(ck, in_process, jobs)
    ck.traces = ck.evaluations
    ck.extra["queries"] = QUERIES
    ck.extra["history_depth"] = 4 if ck.thorough else 3
    ck.assumptions += ["an environment of CPython 3.12 on linux; repositories that are asked over the network are only configured bind-only"]


def replay(stored):
    case = stored["case"] if "kind" in stored else stored["case"]["case"]
    kind = stored.get("kind") or stored["case"]["kind"]

    def tup(x):
        return tuple(tup(i) for i in x) if isinstance(x, list) else x
    part = Part()
    if kind == "config":
        c, g, q, gi = tup(case)
        s = Scratch(g, use_home=gi % 2 == 1)
        try:
            run_config_case(s, c, g, part, gi)
        finally:
            s.close()
    elif kind == "history":
        h, gi = tup(case)
        s = Scratch(GLOBALS[gi], use_home=False)
        try:
            return run_history(s, *h[:2], GLOBALS[gi], h[2])
        finally:
            s.close()
    else:
        s = Scratch(GLOBALS[0], use_home=False)
        try:
            run_locations(s, GLOBALS[0], part)
            publishers(s, part)
        finally:
            s.close()
    return part.violations[0][1]["message"] if part.violations else None
