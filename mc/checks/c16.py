"""C16 project operations end to end: every history (to a depth) of pkm install / uninstall / publish / check out again."""
import itertools
import re
import tomllib
from pathlib import Path

from packaging.requirements import InvalidRequirement, Requirement
from packaging.specifiers import InvalidSpecifier, SpecifierSet
from packaging.version import Version as PV

from mc import fsbox, pyenv
from mc.core import Check, Part, attempt, parallel
from mc.histories import key, prepare_home, quiet

PROPERTY = "C16"
LEVEL = "model_checking"
RULE = ("breadth-first over the states (pyproject, lock, environment, published versions) of a project: every operation (pkm install "
        "with and without packages, versions, extras, markers, spellings, --update, --force, --optional; uninstalling; publishing newer "
        "versions; checking out again) is executed by the real command line / controller, and the three files are compared with "
        "what a model demands. non-trivial: distinct (state, operation) that changed something or failed")

# -- universes: the stages of what is published; {name: {version: requirements}}
UNIVERSES = {
    "chain": [
        {"aa": {"1.0.0": ["bb"]}, "bb": {"1.0.0": []}, "Dd.Dd": {"1.0.0": ["aa[x] ; os_name == 'posix'"]}},
        {"aa": {"1.0.0": ["bb"], "1.1.0": ["bb>=1.1"]}, "bb": {"1.0.0": [], "1.1.0": []}, "cc": {"1.0.0": ["bb<1.1"]},
         "Dd.Dd": {"1.0.0": ["aa[x] ; os_name == 'posix'"]}},
        {"aa": {"1.0.0": ["bb"], "1.1.0": ["bb>=1.1"], "2.0.0": ["bb", "cc ; extra == 'x'"]}, "bb": {"1.0.0": [], "1.1.0": [], "2.0.0": []},
         "cc": {"1.0.0": ["bb<1.1"]}, "Dd.Dd": {"1.0.0": ["aa[x] ; os_name == 'posix'"], "1.0.1": ["aa"]}},
    ],
    "extras": [
        {"ee": {"0.9.0": ["ff ; extra == 'x'", "win ; os_name == 'nt'"]}, "ff": {"1.0.0": []}, "gg": {"1.0.0": ["ee[x]"]},
         "hh": {"3.0.0+cu.1": []}, "po": {"1!2.5.post1": ["hh>=3"]}},
        {"ee": {"0.9.0": ["ff ; extra == 'x'"], "0.10.0": ["ff<1 ; extra == 'x'", "hh ; extra == 'y'"]}, "ff": {"1.0.0": [], "0.5.0": []},
         "gg": {"1.0.0": ["ee[x]"], "1.1.0": ["ee[y]", "ff"]}, "hh": {"3.0.0+cu.1": []},
         "po": {"1!2.5.post1": ["hh>=3"], "1!3.0.post1": []}},
    ],
}
#: what each test project starts with
HEAD = '# a project\n[project]\nname = "prj"\nversion = "1.0.0"\n'
TAIL = '[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n'
FULL = '''# a project
[project]  # the table
name = "Prj"
version = "1.0.0"
description = "what it is"
requires-python = ">=3.8"
keywords = ["k1", "k2"]
authors = [{name = "Some One", email = "some@one.org"}, {name = "Other"}]
urls = {home = "http://home"}
dependencies = [
    # needed for bar
    "bb <3",
    "win ==1.0; os_name == 'nt'",
]

[project.optional-dependencies]
dev = ["aa ==1.0.0"]
"all" = ["aa", "bb"]

[project.scripts]
prj = "prj:main"

[tool.other]
key = [1, 2, {a = "b"}]  # kept

''' + TAIL
PROJECTS = {"plain": HEAD + "dependencies = []\n" + TAIL, "absent": HEAD + TAIL, "full": FULL,
            "python": HEAD.replace('"prj"', '"P.r_j"') + 'requires-python = ">=3.9,<4"\ndependencies = ["ee[x] <1"]\n' + TAIL}

OPS = {
    "chain": [("install",), ("install", "aa"), ("install", "bb"), ("install", "CC"), ("install", "dd_dd"), ("install", "aa==1.0.0"),
              ("install", "Bb<1.1,>=1"), ("install", "aa>=1.1"), ("install", "zz"), ("install", "-u", "aa"), ("install", "-u", "BB"),
              ("install", "-f", "bb"), ("install", "aa", "cc"), ("install", "-o", "grp", "bb==1.1.0"), ("install", "-o", "grp", "cc"),
              ("install", "-o", "grp"), ("install", "-o", "Dev"), ("install", "-o", "gr_p", "aa ; os_name == 'posix'"),
              ("install", "-o", "grp", "win>=1 ; os_name == 'nt' or os_name == 'os2'"), ("install", "win ; os_name == 'nt'"), ("install", "bb ; os_name == 'posix'"),
              ("uninstall", "aa"), ("uninstall", "bb"), ("uninstall", "D-d.dd", "cc"), ("uninstall", "zz"), ("publish",), ("fresh",)],
    "extras": [("install",), ("install", "ee"), ("install", "ee[x]"), ("install", "EE[X,y]"), ("install", "ee[y]>=0.9"), ("install", "gg"),
               ("install", "-u", "ee"), ("install", "-u", "ee[x]"), ("install", "ff<1"), ("install", "-o", "grp", "ee[x]"), ("install", "-o", "grp"),
               ("install", "gg==1.0.0", "ff"), ("install", "po"), ("install", "hh"), ("uninstall", "ee"), ("uninstall", "ff"), ("uninstall", "gg"), ("publish",), ("fresh",)],
}
STARTS = [("chain", "plain"), ("chain", "full"), ("chain", "absent"), ("extras", "plain"), ("extras", "python")]
DEPTH = {"quick": {s: 3 if s[1] == "plain" else 2 for s in STARTS},
         "thorough": {s: 4 if s[1] == "plain" else 3 for s in STARTS}}
#: the last operations of a history in the quick tier
LAST = {("install",), ("install", "aa"), ("install", "-u", "aa"), ("install", "aa", "cc"), ("install", "-o", "grp"), ("uninstall", "aa"),
        ("uninstall", "bb"), ("uninstall", "D-d.dd", "cc"), ("install", "ee"), ("install", "ee[x]"), ("install", "-u", "ee"), ("uninstall", "ee"), ("install", "gg"),
        ("install", "win ; os_name == 'nt'"), ("install", "-f", "bb"), ("install", "Bb<1.1,>=1")}
HERE = "/the/place/of/the/project"
FOREIGN = '[[lock]]\nenv_markers_hash = "foreign"\npackage = {name = "cc", version = "1.0.0"}\n\n' \
          '[[lock]]\nenv_markers_hash = "foreign"\npackage = {name = "Ff", version = "1.0.0"}\n'


# -- the model
class Published:
    def __init__(self, stage):
        self.versions = {key(n): sorted(vs, key=PV, reverse=True) for n, vs in stage.items()}
        self.requirements = {(key(n), v): [Requirement(r) for r in rs] for n, vs in stage.items() for v, rs in vs.items()}

    def needs(self, k, version, extras):
        return [r for r in self.requirements.get((k, version), ()) if applies(r, extras)]

    def solutions(self, roots, fixed, budget=20000):
        """all selections of exactly the packages that roots need; packages in fixed only have that version"""
        count = [0]

        def search(chosen, extras, pending):
            count[0] += 1
            assert count[0] < budget
            if not pending:
                yield dict(chosen)
                return
            r, rest = pending[0], pending[1:]
            k = key(r.name)
            wanted = {key(e) for e in r.extras}
            options = [chosen[k]] if k in chosen else [fixed[k]] if k in fixed else self.versions.get(k, ())
            for v in options:
                if not r.specifier.contains(v):
                    continue
                before = extras.get(k, frozenset())
                now = before | wanted
                new = self.needs(k, v, now) if k not in chosen or now != before else []
                yield from search({**chosen, k: v}, {**extras, k: now}, rest + new)

        return search({}, {}, list(roots))


def applies(r: Requirement, extras=()):
    return r.marker is None or any(r.marker.evaluate({"os_name": "posix", "extra": e}) for e in [*extras, ""])


def prune(data):
    """without empty tables and lists: pkm writes some more of them"""
    if isinstance(data, dict):
        data = {k: prune(v) for k, v in data.items()}
        return {k: v for k, v in data.items() if v not in ({}, [])}
    return data


def comments(text):
    return sorted(line.split("#", 1)[1].strip() for line in text.splitlines() if "#" in line)


def canon(text):
    """a requirement in a form in which equal ones are equal"""
    r = Requirement(text)
    return (key(r.name), frozenset(key(e) for e in r.extras), frozenset((s.operator, str(PV(s.version)) if "*" not in s.version else s.version)
                                                                        for s in r.specifier),
            re.sub(r"\s+", "", str(r.marker)).replace('"', "'") if r.marker else "")


class State:
    def __init__(self, snap, stage):
        self.snap, self.stage = snap, stage
        self.text = snap["pyproject.toml"][2].decode()
        self.data = tomllib.loads(self.text)
        lock = snap.get("etc/pkm/packages-lock.toml")
        self.lock_bytes = lock and lock[2]
        self.lock = {(e["env_markers_hash"], key(e["package"]["name"]), e["package"]["version"])
                     for e in (tomllib.loads(lock[2].decode()).get("lock", []) if lock else [])}
        self.site = {p: v for p, v in snap.items() if p.startswith(SITE + "/") and "__pycache__" not in p}
        self.installed, self.metadata, self.request = {}, {}, None
        for p, v in self.site.items():
            if p.endswith(".dist-info/METADATA"):
                head = [line.split(": ", 1) for line in v[2].decode().split("\n\n")[0].splitlines() if ": " in line]
                k = key(dict(head)["Name"])
                assert k not in self.installed, f"{k} is installed twice"
                self.installed[k] = dict(head)["Version"]
                self.metadata[k] = [b for a, b in head if a == "Requires-Dist"]
                requested = self.site.get(p[:-len("METADATA")] + "REQUESTED")
                if k == self.me:
                    self.request = requested and requested[2].decode().strip()
                elif requested:
                    self.installed[k] += " REQUESTED"

    @property
    def me(self):
        return key(self.data["project"]["name"])

    def texts(self, group=None):
        p = self.data["project"]
        return p.get("dependencies", []) if group is None else [
            t for g, ts in p.get("optional-dependencies", {}).items() if key(g) == key(group) for t in ts]

    def groups(self):
        return {g: v for g, v in self.data["project"].get("optional-dependencies", {}).items() if v}

    def roots(self, groups=()):
        rs = [Requirement(t) for t in self.texts()] + [Requirement(t) for g in groups for t in self.texts(g)]
        return [r for r in rs if applies(r)]

    def requested_groups(self):
        if not self.request:
            return ()
        extras = {key(e) for e in Requirement(self.request).extras}
        return tuple(g for g in self.groups() if key(g) in extras)

    def id(self):
        return (self.text, tuple(sorted(self.lock)), tuple(sorted(self.installed.items())), self.request,
                tuple(sorted((k, tuple(v)) for k, v in self.metadata.items())), self.stage)


SITE = ".venv/lib/site-packages"


def closure(pub, installed, roots):
    """what of installed is needed -> (keys, complaint or None)"""
    needed, extras, pending = set(), {}, list(roots)
    while pending:
        r = pending.pop()
        k = key(r.name)
        if k not in installed:
            return needed, f"{r} is needed but not installed"
        if not r.specifier.contains(installed[k], prereleases=True):
            return needed, f"{r} is needed but {installed[k]} is installed"
        now = extras.get(k, frozenset()) | {key(e) for e in r.extras}
        if k not in needed or now != extras[k]:
            needed.add(k)
            extras[k] = now
            pending += pub.needs(k, installed[k], now)
    return needed, None


class World:
    def __init__(self, base, universe):
        self.box = fsbox.worker_box(base)
        self.root = self.box.work / "prj"
        self.stages = [Published(s) for s in UNIVERSES[universe]]
        self.pub = self.box.root / f"pub-{universe}"
        if not self.pub.exists():
            for i, stage in enumerate(UNIVERSES[universe]):
                (self.pub / str(i)).mkdir(parents=True)
                for n, vs in stage.items():
                    for v, rs in vs.items():
                        f = n.replace(".", "_")
                        di = f"{f}-{v}.dist-info"
                        extras = sorted({m for r in rs for m in re.findall(r"extra == '(\w+)'", r)})
                        pyenv.write_wheel(self.pub / str(i) / f"{f}-{v}-py3-none-any.whl", {
                            f"{f.lower()}.py": f"V = '{v}'\n".encode(), f"{di}/METADATA": pyenv.metadata(n, v, rs, extras=extras),
                            f"{di}/WHEEL": pyenv.wheel_text()}, di)

    def start(self, project):
        self.box.clear()
        (self.root / "src/prj").mkdir(parents=True)
        (self.root / "src/prj/__init__.py").write_text("def main(): pass\n")
        (self.root / "pyproject.toml").write_text(PROJECTS[project])
        (self.root / "etc/pkm").mkdir(parents=True)
        (self.root / "etc/pkm/packages-lock.toml").write_text(FOREIGN)
        pyenv.write_env(self.root / ".venv")
        pyenv.load_env(self.root / ".venv")
        return State(self.snapshot(), 0)

    def moved(self, snap, old, new):
        """every worker has the project at another path"""
        def move(x):
            return x.replace(old.encode(), new.encode()) if isinstance(x, bytes) else x.replace(old, new) if isinstance(x, str) else x

        return {p: tuple(map(move, v)) for p, v in snap.items()}

    def snapshot(self):
        return self.moved(fsbox.snapshot(self.root), str(self.box.work), HERE)

    def put(self, state: State):
        self.box.clear()
        self.root.mkdir()
        fsbox.restore(self.root, self.moved(state.snap, HERE, str(self.box.work)))
        (self.root / "etc/pkm/repositories.toml").write_text(
            f'inheritance = "none"\n[repos.local]\ntype = "file-system"\npath = "{self.pub / str(state.stage)}"\n')

    def run(self, state: State, op):
        """-> (result, State)"""
        stage = state.stage
        if op[0] == "publish":
            return ("ok", None), State(state.snap, min(stage + 1, len(self.stages) - 1))
        if op[0] == "fresh":
            return ("ok", None), checkout(state, stage)
        self.put(state)
        if op[0] == "install":
            from pkm_cli.main import main
            r = attempt(lambda: quiet(lambda: main(["pkm", "-c", str(self.root), *op])), 30)
        else:
            from pkm.api.projects.project import Project
            from pkm_cli.controllers.prj_controller import PrjController
            r = attempt(lambda: quiet(lambda: PrjController(Project.load(self.root)).uninstall_dependencies(list(op[1:]))), 30)
        return r, State(self.snapshot(), stage)

    def with_object(self, project, op):
        """an operation like that of the command line, on a project object that the caller keeps"""
        from pkm.api.dependencies.dependency import Dependency
        from pkm_cli.controllers.prj_controller import PrjController
        options, packages = split(op)
        controller = PrjController(project)
        if op[0] == "uninstall":
            func = lambda: controller.uninstall_dependencies(packages)  # noqa
        elif packages:
            func = lambda: controller.install_dependencies([Dependency.parse(p) for p in packages], options.get("-o"), "-u" in options)  # noqa
        else:
            func = lambda: controller.install_project(optional_group=options.get("-o"))  # noqa
        return attempt(lambda: quiet(func), 30)

    def run_same_object(self, state: State, op):
        """the operation fails: is the project that the caller holds as it was? -> the data it would save"""
        from pkm.api.projects.project import Project
        self.put(state)
        project = Project.load(self.root)
        r = self.with_object(project, op)
        project.config.save()
        return r, tomllib.loads((self.root / "pyproject.toml").read_text())

    def run_one_object(self, state: State, ops):
        """-> [(result, State)]"""
        from pkm.api.projects.project import Project
        self.put(state)
        project, out = Project.load(self.root), []
        for op in ops:
            r = self.with_object(project, op)
            out.append((r, State(self.snapshot(), state.stage)))
        return out


def check_one_object(expected, got):
    """-> complaint or None"""
    for (op, (ok, at)), (r, after) in zip(expected, got):
        if r[0] != ok:
            return f"{' '.join(op)} is {r}, with a new object it is {ok}"
        if comparable(after.id()) != comparable(at):
            return f"{' '.join(op)} leads to {after.id()[:5]}, with a new object to {at[:5]}"
    return None


def comparable(state_id):
    """an id without the formatting of pyproject.toml"""
    data = prune(tomllib.loads(state_id[0]))
    return repr((rest_of(data), *state_id[1:])), repr([data["project"].get(k) for k in ("dependencies", "optional-dependencies")])


def split(op):
    options, rest = {}, list(op[1:])
    while rest and rest[0].startswith("-"):
        o = rest.pop(0)
        options[o] = rest.pop(0) if o == "-o" else True
    return options, rest


# -- what an operation has to do
def check_op(w: World, before: State, op, r, after: State):
    """-> list of complaints"""
    pub, bad = w.stages[before.stage], []
    if r[0] == "timeout":
        return ["does not terminate"]
    if op[0] in ("publish", "fresh"):
        return []
    if any(v.endswith(" REQUESTED") for v in after.installed.values()):
        bad.append(f"dependencies are marked as requested: {after.installed}")
    for p, v in after.snap.items():
        if not p.startswith(".venv/") and p not in ("pyproject.toml", "etc/pkm/packages-lock.toml", "etc/pkm/repositories.toml") and \
                before.snap.get(p) != v:
            bad.append(f"{p} was changed")
    try:
        return bad + (check_install if op[0] == "install" else check_uninstall)(pub, before, op, r, after, w)
    except (InvalidRequirement, InvalidSpecifier) as e:
        return bad + [f"writes requirements that are not valid: {e}"]


def rest_of(data):
    data = prune(data)
    if data.get("tool", {}).get("pkm", {}).get("distribution") == {"type": "lib"}:  # the default
        data = prune({**data, "tool": {**data["tool"], "pkm": {**data["tool"]["pkm"], "distribution": {}}}})
    project = {k: v for k, v in data.get("project", {}).items() if k not in ("dependencies", "optional-dependencies")}
    if python := project.get("requires-python"):
        python = sorted(str(s) for s in SpecifierSet("~=3.9" if canon(f"p {python}") == canon("p >=3.9,<4") else python))
    return {**data, "project": {**project, "name": key(project["name"]), "requires-python": python}}


def majors(version):
    """versions of the next major release"""
    v = PV(version)
    return [f"{v.epoch}!{v.major + 1}{tail}" for tail in ("", ".0", ".0.1", ".0.post1", "+local")]


def check_saved(before: State, after: State):
    bad = []
    if rest_of(before.data) != rest_of(after.data):
        bad.append(f"other parts of pyproject.toml changed: {rest_of(before.data)} -> {rest_of(after.data)}")
    lost = [c for c in comments(before.text) if c not in comments(after.text) and c != "needed for bar"]
    if lost:
        bad.append(f"comments of pyproject.toml are lost: {lost}")
    foreign = {e for e in before.lock if e[0] == "foreign"}
    mine = {e for e in after.lock if e[0] != "foreign"}
    if {e for e in after.lock if e[0] == "foreign"} != foreign:
        bad.append("the locks of another environment changed")
    if {(k, v) for _, k, v in mine} != set(after.installed.items()) or len({h for h, _, _ in mine}) > 1:
        bad.append(f"installed is {after.installed} but locked is {sorted(mine)}")
    return bad


def check_env(pub, after: State, groups, exact):
    bad = []
    # what is installed says what the project needs (versions are written to pyproject.toml after installing)
    same = canon if exact else lambda t: canon(t)[:2]
    says = sorted(map(repr, map(same, [t for t in after.metadata.get(after.me, ()) if not re.search(r"extra *==", t)])))
    if after.me in after.installed and says != sorted(map(repr, map(same, after.texts()))):
        bad.append(f"the installed project has the requirements {after.metadata[after.me]}, it should be {after.texts()}")
    editable = [v[2] for p, v in after.site.items() if p.endswith(".pth") and p.count("/") == 3]
    if after.installed.get(after.me) != "1.0.0" or not any(b"/prj/src\n" in t + b"\n" for t in editable):
        bad.append(f"the project itself is not installed: {after.installed}")
    needed, complaint = closure(pub, after.installed, after.roots(groups))
    if complaint:
        bad.append(complaint)
    for k, v in after.installed.items():
        if k == after.me:
            continue
        module = f"{SITE}/{k.replace('-', '_')}.py"
        if after.site.get(module, (0, 0, b""))[2] != f"V = '{v}'\n".encode():
            bad.append(f"the files of {k} {v} are not installed")
    extra = [p for p in after.site if p.endswith(".py") and p.count("/") == 3 and key(p.split("/")[-1][:-3]) not in after.installed]
    if extra:
        bad.append(f"files of packages that are not installed: {extra}")
    return needed, bad


def check_install(pub: Published, before: State, op, r, after: State, w: World):
    options, packages = split(op)
    group = options.get("-o")
    given = [Requirement(p) for p in packages]
    names = {key(g.name) for g in given}
    kept = [t for t in before.texts(group) if key(Requirement(t).name) not in names]
    roots = [q for q in [*map(Requirement, kept), *given] if applies(q)]
    if group:
        roots += before.roots()
    solvable = next(pub.solutions(roots, {}), None) is not None

    if r[0] != "ok":
        bad = []
        if solvable:
            bad.append(f"fails although there is a solution: {r[1:]}")
        if r[1] != "UnsolvableProblemException" and not solvable:
            bad.append(f"fails with {r[1:]}")
        if before.text != after.text:
            bad.append("failed but changed pyproject.toml")
        if before.lock_bytes != after.lock_bytes:
            bad.append("failed but changed the lock")
        if before.site != after.site and "-f" not in options:
            bad.append("failed but changed the environment")
        if not solvable and not options.get("-f"):
            again, data = w.run_same_object(before, op)
            if again[0] == "ok":
                bad.append("fails on the command line but not through the api")
            elif prune(data) != prune(before.data) and rest_of(data) != rest_of(before.data):
                bad.append(f"failed but changed the configuration of the project: {prune(before.data)} -> {prune(data)}")
            elif [canon(t) for t in data["project"].get("dependencies", [])] != [canon(t) for t in before.texts()]:
                bad.append(f"failed but changed the dependencies of the project: {before.texts()} -> {data['project'].get('dependencies')}")
        return bad
    if not solvable:
        return [f"succeeded although there is no solution: {after.installed}"]

    # pyproject.toml
    bad = []
    if packages:
        bad += check_saved(before, after)
        want = {canon(t) for t in kept}
        got = list(after.texts(group))
        for g in given:
            mine = [t for t in got if key(Requirement(t).name) == key(g.name)]
            if len(mine) != 1:
                bad.append(f"{g} is {mine} in pyproject.toml")
                continue
            got.remove(mine[0])
            c, m = canon(str(g)), canon(mine[0])
            if g.specifier or not applies(g):
                if c != m:
                    bad.append(f"{g} is {mine[0]!r} in pyproject.toml")
            else:
                v = after.installed.get(key(g.name))
                if (c[0], c[1], c[3]) != (m[0], m[1], m[3]) or (v and v not in Requirement(mine[0]).specifier):
                    bad.append(f"{g} is {mine[0]!r} in pyproject.toml, {v} is installed")
                elif v and any(n in Requirement(mine[0]).specifier for n in majors(v)):
                    bad.append(f"{g} is {mine[0]!r} in pyproject.toml, which allows the next major version of {v}")
        if {canon(t) for t in got} != want or len(got) != len(kept):
            bad.append(f"the other dependencies changed: {kept} -> {got}")
        for g in set(before.groups()) | set(after.groups()) | {None}:
            if (g and key(g)) != (group and key(group)) and list(map(canon, before.texts(g))) != list(map(canon, after.texts(g))):
                bad.append(f"the dependencies of {g or 'the project'} changed: {before.texts(g)} -> {after.texts(g)}")
    elif before.text != after.text or before.lock_bytes != after.lock_bytes:
        bad.append("installing the project changed its files")

    # the environment
    groups = (group,) if group else ()
    needed, complaints = check_env(pub, after, groups, not packages)
    bad += complaints
    pinned = {k: v for k, v in before.installed.items() if k != before.me and not ({"-u", "-f"} & set(options) and k in names)}
    easy = list(itertools.islice(pub.solutions(roots, pinned), 2000))
    if easy:
        changed = {k: (v, after.installed.get(k)) for k, v in pinned.items() if after.installed.get(k) != v}
        if changed:
            bad.append(f"changed without need: {changed}")
    extra = set(after.installed) - set(before.installed) - needed - {after.me}
    if extra and not bad:
        bad.append(f"installed without need: {sorted(extra)}")
    locked = {}
    for h, k, v in sorted(before.lock, key=lambda e: e[0] == "foreign", reverse=True):
        locked[k] = v
    for g in given:
        k = key(g.name)
        if not applies(g) or k in pinned or (k in locked and "-u" not in options):
            continue
        allowed = [v for v in pub.versions.get(k, ()) if all(q.specifier.contains(v) for q in roots if key(q.name) == k)]
        if allowed and any(s.get(k) == allowed[0] and set(s) <= set(pinned) | names for s in easy) and len(names) == 1 \
                and after.installed.get(k) != allowed[0]:
            bad.append(f"{k} {after.installed.get(k)} is installed, {allowed[0]} was possible")
    if not before.installed:  # another checkout: what is locked is installed
        selection = {k: v for k, v in locked.items() if k not in names or "-u" not in options}
        chosen, complaint = closure(pub, selection, roots) if all(key(q.name) in selection for q in roots) else (None, "unlocked")
        if complaint is None:
            got = {k: v for k, v in after.installed.items() if k != after.me}
            if got != {k: selection[k] for k in chosen}:
                bad.append(f"locked is {selection}, installed in another checkout is {got}")
    elif not packages and not group and before.installed.get(before.me) and {k for k in before.installed} and \
            closure(pub, before.installed, before.roots())[1] is None and before.installed != after.installed:
        bad.append(f"installing again changed {before.installed} -> {after.installed}")
    return bad


def check_uninstall(pub: Published, before: State, op, r, after: State, w: World):
    if r[0] != "ok":
        return [f"fails: {r[1:]}"]
    names = {key(n) for n in op[1:]}
    bad = check_saved(before, after)
    for g in set(before.groups()) | {None}:
        want = [canon(t) for t in before.texts(g) if key(Requirement(t).name) not in names]
        if [canon(t) for t in after.texts(g)] != want:
            bad.append(f"the dependencies of {g or 'the project'} are {after.texts(g)} after uninstalling {sorted(names)}, were {before.texts(g)}")
    if before.me not in before.installed:
        return bad
    if (before.request and canon(before.request)) != (after.request and canon(after.request)):
        bad.append(f"uninstalling changed what was requested: {before.request} -> {after.request}")
    gone = set(before.installed) - set(after.installed)
    changed = {k: v for k, v in after.installed.items() if before.installed.get(k) != v}
    if changed:
        bad.append(f"uninstalling changed {changed}")
    needed, complaint = closure(pub, before.installed, after.roots(before.requested_groups()))
    if complaint:
        return bad  # the environment did not have what the project needs before
    affected, stack = set(), [k for k in names if k in before.installed]
    stack += [key(q.name) for q in before.roots(before.requested_groups()) if key(q.name) in names]
    while stack:
        k = stack.pop()
        if k in affected or k not in before.installed:
            continue
        affected.add(k)
        stack += [key(q.name) for q in pub.requirements.get((k, before.installed[k]), ()) if q.marker is None or applies(q, ("x", "y"))]
    if gone & needed:
        bad.append(f"uninstalling {sorted(names)} removed {sorted(gone & needed)}, which the project still needs")
    if not gone <= affected:
        bad.append(f"uninstalling {sorted(names)} removed {sorted(gone - affected)}")
    if still := (names & set(before.installed)) - needed - gone:
        bad.append(f"{sorted(still)} still installed after uninstalling")
    return bad


# -- exploration
_LEVEL = []  # (universe, project, State, history) of the states to expand, inherited by the workers


def checkout(state: State, stage: int):
    """another checkout, without anything installed"""
    return State({p: v for p, v in state.snap.items() if not p.startswith((SITE + "/", ".venv/bin/prj"))}, stage)


def expand(shard, part: Part):
    base, jobs = shard
    found, results = [], []
    for i, op in jobs:
        universe, project, state, history = _LEVEL[i]
        w = World(base, universe)
        if isinstance(op, list):
            r = w.run_one_object(state, [o for o, _ in op])
            part.transitions += len(op)
            part.case((project, state.id(), tuple(o for o, _ in op), "one object"), outcome="one object")
            if bad := check_one_object(op, r):
                hist = [o for o, _ in op]
                part.violation(f"{universe} {project} {hist} one object", {"history": [universe, project, hist], "one_object": True},
                               f"{project} project, {' / '.join(' '.join(o) for o in hist)} with one project object: {bad}")
            continue
        hist = (*history, op)
        if op == "again":  # long after, another checkout gets what is locked
            last = checkout(state, len(w.stages) - 1)
            for again in [("install",)] + [("install", "-o", g) for g in state.requested_groups()]:
                r, after = w.run(last, again)
                part.transitions += 1
                part.case((project, last.id(), again), outcome="another checkout")
                if bad := check_op(w, last, again, r, after):
                    part.violation(f"{universe} {project} {history} again {again}",
                                   {"history": [universe, project, [*history, ["again", *again]]]},
                                   f"{project} project, {' / '.join(' '.join(o) for o in history)}, checked out after newer versions "
                                   f"were published, {' '.join(again)}: " + "; ".join(bad))
            continue
        r, after = w.run(state, op)
        part.transitions += 1
        bad = check_op(w, state, op, r, after)
        changed = r[0] != "ok" or after.id() != state.id()
        results.append((i, op, r[0], after.id()))
        part.case((project, state.id(), op), nontrivial=changed, sample=[project, *hist], outcome=f"{op[0]} {'ok' if r[0] == 'ok' else 'fails'}")
        if bad:
            part.violation(f"{universe} {project} {hist}", {"history": [universe, project, hist]},
                           f"{project} project, {' / '.join(' '.join(o) for o in hist)}: " + "; ".join(bad))
        elif r[0] == "ok" and changed:
            found.append((universe, project, after, hist))
    part.samples.append({"found": found, "results": results})


def level(ck: Check, base, jobs):
    """runs the jobs of one level -> (the states they lead to, their results), in the order of the jobs"""
    collected, results = [], []

    class Merge:
        violations = ck.violations
        exhaustive = True

        @staticmethod
        def merge(part):
            for s in part.samples:
                if isinstance(s, dict) and "found" in s:
                    collected.extend(s["found"])
                    results.extend(s["results"])
            part.samples = [s for s in part.samples if not (isinstance(s, dict) and "found" in s)]
            ck.merge(part)

    n = max(8, min(64, len(jobs) // 20))
    parallel(Merge, expand, [(base, jobs[len(jobs) * k // n:len(jobs) * (k + 1) // n]) for k in range(n)])
    ck.exhaustive = ck.exhaustive and Merge.exhaustive
    return collected, results


def run(ck: Check):
    prepare_home()
    import pkm_cli.main  # noqa
    pyenv.remember_introspections()
    with fsbox.base_dir() as base:
        for start in STARTS:
            base_start = level_start(ck, base, start)
            seen, frontier = {base_start[2].id()}, [base_start]
            outcome = {}
            depth = DEPTH["thorough" if ck.thorough else "quick"][start]
            for d in range(depth):
                ops = OPS[start[0]] if d < depth - 1 or ck.thorough else [o for o in OPS[start[0]] if o in LAST]
                _LEVEL[:] = frontier
                new, results = level(ck, base, [(i, op) for i in range(len(frontier)) for op in ops])
                for i, op, ok, after_id in results:
                    outcome[frontier[i][2].id(), op] = (ok, after_id)
                frontier = []
                for u, p, state, hist in new:
                    if state.id() not in seen:
                        seen.add(state.id())
                        frontier.append((u, p, state, hist))
                ck.states += len(frontier)
                _LEVEL[:] = [f for f in frontier if f[2].installed and f[3][-1][0] in ("install", "uninstall")]
                level(ck, base, [(i, "again") for i in range(len(_LEVEL))])
                ck.extra.setdefault("levels", []).append(f"{' '.join(start)} depth {d + 1}: {len(ops)} operations, {len(frontier)} new states")
                if ck.violations:
                    break
            else:  # histories with one project object do what each of their operations does with a new one
                jobs = []
                for n in range(2, depth + 1 if ck.thorough else 3):
                    for ops in itertools.product([o for o in OPS[start[0]] if o[0] in ("install", "uninstall") and "-f" not in o], repeat=n):
                        expected, at = [], base_start[2].id()
                        for op in ops:
                            ok, after_id = outcome.get((at, op), (None, None))
                            at = after_id if ok == "ok" else at
                            expected.append((op, (ok, at)))
                        if all(e[1][0] for e in expected) and (n == 2 or len(jobs) < 6000):
                            jobs.append((0, expected))
                _LEVEL[:] = [base_start]
                level(ck, base, jobs)
    ck.traces = ck.evaluations
    ck.assumptions += ["projects that pkm builds itself, on CPython 3.12 for linux; operations of one process at a time"]


def first(shard, part: Part):
    base, (universe, project) = shard
    part.samples.append({"found": [(universe, project, World(base, universe).start(project), ())]})


def level_start(ck: Check, base, start):
    out = []

    class Merge:
        violations = ck.violations

        @staticmethod
        def merge(part):
            out.extend(part.samples[0]["found"])

    parallel(Merge, first, [(base, start)])
    return out[0]


def replay(case):
    prepare_home()
    universe, project, history = case["history"]
    history = [tuple(op) for op in history]
    with fsbox.base_dir() as base:
        w = World(base, universe)
        start = state = w.start(project)
        expected = []
        for op in history:
            if op[0] == "again":
                state, op = checkout(state, len(w.stages) - 1), op[1:]
            r, after = w.run(state, op)
            bad = check_op(w, state, op, r, after)
            print(" ".join(op), r[:2], after.installed)
            if bad:
                return "; ".join(bad)
            if r[0] == "ok":
                state = after
            expected.append((op, (r[0], state.id())))
        if case.get("one_object"):
            return check_one_object(expected, w.run_one_object(start, history))
    return None
