"""C24 project groups: every layout of groups and projects, every way to name a child, histories of additions and removals."""
import itertools
import json
import os
import pickle
from pathlib import Path

from mc import fsbox, pyenv
from mc.core import Check, Part, attempt, parallel
from pkm.api.projects.project import Project
from pkm.api.projects.project_group import ProjectGroup

PROPERTY = "C24"
LEVEL = "model_checking"
RULE = ("every layout of up to 3 nested groups over 5 projects within the bounds, every way to get to a project or a group (absolute, relative, via a link, "
        "listed by its group, pickled); every sequence of additions and removals up to a depth, read back by the same object and from the "
        "files. non-trivial: distinct (layout, history)")
PROJECTS = {"g/a": "a", "g/s/b": "b", "g/s/t/c": "c", "out/d": "d", "g/x y/E_e": "E-e"}
GROUPS = ("g", "g/s", "g/s/t")
# what the groups may list (relative to the top directory)
LISTS = {
    "g": ([], ["g/a"], ["g/s"], ["g/a", "g/s"], ["g/s", "g/a", "out/d"], ["g/s/b", "g/s/t"], ["g/x y/E_e", "g/missing", "g/empty", "g/s"], ["g/s/t/c", "g/a"]),
    "g/s": (None, [], ["g/s/b"], ["g/s/t", "g/s/b"], ["g/s/b", "out/d"]),
    "g/s/t": (None, ["g/s/t/c"], ["g/s/t/c", "g/a"]),
}
FORMS = ("relative", "dotted", "absolute", "link")
PARENTS = (None, "up", "absolute")  # the parent that g/s says it has


def written(top: Path, group, child, form):
    if form == "absolute":
        return str(top / child)
    rel = os.path.relpath(top / child, top / group)
    if form == "dotted":
        return "./" + os.path.join(rel, ".", "")
    if form == "link":
        return os.path.join(os.path.relpath(top / "link", top / group), child[2:]) if child.startswith("g/") else rel
    return rel


class Layout:
    """the files, and what they mean"""

    def __init__(self, top: Path, lists, form="relative", parent=None, project_group=None):
        self.top, self.lists = top, {g: list(c) for g, c in lists.items() if c is not None}
        self.parent = parent
        for p, name in PROJECTS.items():
            (top / p).mkdir(parents=True)
            more = f'\n[tool.pkm.project]\ngroup = "{project_group[1]}"\n' if project_group and project_group[0] == p else ""
            (top / p / "pyproject.toml").write_text(f'[project]\nname = "{Path(p).name}"\nversion = "1.0"\n{more}')
        (top / "g/empty").mkdir()
        (top / "link").symlink_to(top / "g")
        for g, children in self.lists.items():
            extra = {None: "", "up": 'parent = "../pyproject-group.toml"\n', "absolute": f'parent = "{top}/g/pyproject-group.toml"\n'}[
                parent if g == "g/s" else None]
            items = ", ".join(json.dumps(written(top, g, c, form)) for c in children)
            (top / g / "pyproject-group.toml").write_text(
                f'name = "group-{Path(g).name}"\nchildren = [{items}]\n{extra}[tool.other]\nkey = "kept"\n')

    # -- model: directories below the top
    def is_project(self, p):
        return p in PROJECTS

    def children(self, g):
        return [c for c in self.lists[g] if c in PROJECTS or c in self.lists]

    def recursive(self, g):
        return [x for c in self.children(g) for x in ([c] if c in PROJECTS else self.recursive(c))]

    def group_of(self, p):
        """the closest group above that lists it"""
        if p == "g/s" and self.parent:
            return "g"
        at = p
        while at := os.path.dirname(at):
            if p in self.lists.get(at, ()):
                return at
        return None

    def root_of(self, g):
        up = self.group_of(g)
        return (self.root_of(up) or up) if up else None


def rel(top, path):
    return os.path.relpath(os.path.realpath(path), os.path.realpath(top)) if path is not None else None


def path_of(x):
    return x.path if x is not None else None


def check_tree(lay: Layout, group: ProjectGroup, g):
    top, errors = lay.top, []
    r = attempt(lambda: [(type(c).__name__, rel(top, c.path), rel(top, path_of(c.group if isinstance(c, Project) else c.parent)))
                         for c in group.children])
    want = [("Project" if c in PROJECTS else "ProjectGroup", c, g) for c in lay.children(g)]
    if r != ("ok", want):
        errors.append(f"the children of {g} are {r[1:]}, expected {want}")
    r = attempt(lambda: [(p.name, rel(top, p.path)) for p in group.project_children_recursive])
    want = [(PROJECTS[c], c) for c in lay.recursive(g)]
    if r != ("ok", want):
        errors.append(f"the projects of {g} are {r[1:]}, expected {want}")
    r = attempt(lambda: (rel(top, path_of(group.parent)), rel(top, path_of(group.root))))
    if r != ("ok", (lay.group_of(g), lay.root_of(g))):
        errors.append(f"the parent and root of {g} are {r[1:]}, expected {lay.group_of(g)}, {lay.root_of(g)}")
    r = attempt(lambda: group.config.name)
    if r != ("ok", f"group-{Path(g).name}"):
        errors.append(f"the name of {g} is {r[1:]}")
    return errors


def ways(top, p):
    """(name, directory to be in, path)"""
    yield "absolute", top, top / p
    yield "relative", top, Path(p)
    yield "here", top / p, Path(".")
    yield "up", top / "out", Path("..") / p
    if p == "g" or p.startswith("g/"):
        yield "link", top, top / ("link" + p[1:])
        yield "relative link", top / "out", Path("../link" + p[1:])


def check_all(lay: Layout, all_ways=True):
    top, errors = lay.top, []
    for p in (*PROJECTS, *lay.lists):
        for name, cwd, path in ways(top, p):
            if not all_ways and name not in ("absolute", "here"):
                continue
            os.chdir(cwd)
            if p in PROJECTS:
                r = attempt(lambda: rel(top, path_of(Project.load(path).group)))
                if r != ("ok", lay.group_of(p)):
                    errors.append(f"{name}: the group of {p} is {r[1:]}, expected {lay.group_of(p)}")
            else:
                if not attempt(lambda: ProjectGroup.is_valid(path))[1]:
                    errors.append(f"{name}: {p} is no group")
                errors += [f"{name}: {e}" for e in check_tree(lay, ProjectGroup.load(path), p)]
            os.chdir(top)
    return errors


def check_repository(lay: Layout, g):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.repositories.file_system_repository import FileSystemRepositoryBuilder
    errors = []
    env = environment()
    r = attempt(lambda: FileSystemRepositoryBuilder().build("r", str(lay.top / g)))
    if r[0] != "ok":
        return [f"the repository at {g}: {r}"]
    for p, name in PROJECTS.items():
        for spec in ("", " ==1.0", " >=2"):
            q = attempt(lambda: [(x.name, rel(lay.top, x.path)) for x in r[1].match(Dependency.parse(name + spec), env)])
            want = [] if spec == " >=2" else [(name, p)] * lay.recursive(g).count(p)
            if q != ("ok", want):
                errors.append(f"the repository at {g} has {q[1:]} for {name}{spec}, expected {want}")
    return errors


_n = itertools.count()
_env = []


def _box():
    return fsbox.worker_box(_base[0])


_base = []


def environment():
    if not _env:
        root = _box().root / "env"
        pyenv.write_env(root)
        _env.append(pyenv.load_env(root))
        _env[0].interpreter_version  # noqa (it is found out now)
    return _env[0]


def scratch(base):
    _base[:] = [base]
    box = fsbox.worker_box(base)
    environment()
    box.clear()
    top = box.work / f"c{next(_n)}"
    top.mkdir()
    os.chdir(top)
    return box, top


def layout_run(shard, part: Part):
    base, items = shard
    for lists, form, parent, pg in items:
        os.chdir("/")
        box, top = scratch(base)
        lay = Layout(top, lists, form, parent)
        with box:
            errors = check_all(lay)
            for g in lay.lists:
                errors += check_repository(lay, g)
                again = attempt(lambda: pickle.loads(pickle.dumps(ProjectGroup.load(top / g))))
                errors += [f"pickled: {e}" for e in check_tree(lay, again[1], g)] if again[0] == "ok" else [f"pickled: {again}"]
        case = [lists, form, parent, pg]
        part.case(json.dumps(case), nontrivial=True, sample={"layout": case})
        if errors:
            text = f"{ {g: c for g, c in lists.items() if c is not None} } {form} {parent or ''}"
            part.violation(f"{text}: {errors[0]}"[:300].replace(str(top), "TOP"), {"layout": case}, f"{text}: " + "; ".join(errors[:4]))
    os.chdir("/")


# -- additions and removals

OPS = [(g, "add", c, how) for g, c in (("g", "g/a"), ("g", "g/s"), ("g", "out/d"), ("g/s", "g/s/b")) for how in ("absolute", "relative", "object")]
OPS += [("g", "remove", "g/a", h) for h in ("absolute", "relative", "name", "link")]
OPS += [("g", "remove", "g/s", h) for h in ("absolute", "name")] + [("g", "remove", "out/d", "name"), ("g/s", "remove", "g/s/b", "relative")]
STARTS = ({"g": [], "g/s": ["g/s/b"]}, {"g": ["g/a", "g/s", "out/d"], "g/s": []})


def act(lay, groups, op, cwd):
    """-> errors"""
    g, kind, child, how = op
    top, group = lay.top, groups[g]
    os.chdir(top / cwd)
    path = {"absolute": top / child, "relative": Path(os.path.relpath(top / child, top / cwd)), "link": top / ("link" + child[1:])}.get(how)
    if kind == "add":
        if how == "object":
            path = Project.load(top / child) if child in PROJECTS else top / child
        r = attempt(lambda: group.add(path))
        if child not in lay.lists[g]:
            lay.lists[g].append(child)
        return [] if r[0] == "ok" else [f"{op}: {r}"]
    if how == "name":
        path = PROJECTS.get(child) or "group-" + Path(child).name
    there = child in lay.lists[g]
    r = attempt(lambda: group.remove(path))
    if there:
        lay.lists[g].remove(child)
    if how == "name" and not there:
        return [] if r[0] == "err" and r[1] in ("ValueError", "NoSuchElementException", "KeyError") else [f"{op}: removing what is not there: {r}"]
    return [] if r[0] == "ok" else [f"{op}: {r}"]


def run_history(base, start, form, ops, cwd, keep):
    import tomllib
    os.chdir("/")
    box, top = scratch(base)
    lay = Layout(top, start, form)
    projects = {p: (top / p / "pyproject.toml").read_text() for p in PROJECTS}
    with box:
        groups = {g: ProjectGroup.load(top / g) for g in lay.lists}
        if keep:
            for g in groups.values():
                attempt(lambda: (g.children, g.project_children_recursive, g.parent))
        for i, op in enumerate(ops):
            errors = act(lay, groups, op, cwd)
            os.chdir(top)
            if not keep:
                groups = {g: ProjectGroup.load(top / g) for g in lay.lists}
            else:  # the group that was changed knows about it
                g = op[0]
                r = attempt(lambda: [rel(top, c.path) for c in groups[g].children])
                if r != ("ok", lay.children(g)):
                    errors.append(f"the same object says that {g} has {r[1:]}, expected {lay.children(g)}")
            errors += check_all(lay, all_ways=False)
            for g in lay.lists:
                data = tomllib.loads((top / g / "pyproject-group.toml").read_text())
                if {k: v for k, v in data.items() if k != "children"} != {"name": f"group-{Path(g).name}", "tool": {"other": {"key": "kept"}}}:
                    errors.append(f"the settings of {g} are now {data}")
            for p, text in projects.items():
                if (top / p / "pyproject.toml").read_text() != text:
                    errors.append(f"the project {p} was changed")
            if errors:
                os.chdir("/")
                return i, [e.replace(str(top), "TOP") for e in errors]
        os.chdir("/")
    return None


def history_run(shard, part: Part):
    base, items = shard
    for start, form, ops, cwd, keep in items:
        part.case(json.dumps([start, form, ops, cwd, keep]), nontrivial=True, sample={"start": start, "history": ops, "in": cwd})
        part.evaluations += len(ops) - 1
        if failed := run_history(base, start, form, ops, cwd, keep):
            ops = ops[:failed[0] + 1]
            text = f"{start} {form}, in {cwd}: " + " | ".join(" ".join(o) for o in ops)
            part.violation(f"{text}: {failed[1][0]}"[:300], {"start": start, "form": form, "ops": ops, "cwd": cwd, "keep": keep},
                           f"{text}: " + "; ".join(failed[1][:4]))


def layouts():
    for cs in itertools.product(*LISTS.values()):
        lists = dict(zip(LISTS, cs))
        for form in FORMS:
            for parent in PARENTS:
                if parent is None or lists["g/s"] is not None and form == "relative":
                    yield lists, form, parent, None


def histories(thorough):
    for depth in range(1, 4 if thorough else 3):
        for ops in itertools.product(OPS, repeat=depth):
            for start in STARTS:
                for form, cwd, keep in itertools.product(("relative", "absolute", "link"), ("g", "out"), (False, True)):
                    if depth == 1 or depth == 2 and form != "link" and (thorough or keep != (form == "absolute")) or (form, keep) == ("relative", True):
                        yield start, form, list(ops), cwd, keep


def prepare():
    # Projects look for their attached settings, nothing is installed
    pass


def run(ck: Check):
    prepare()
    with fsbox.base_dir() as base:
        for func, items in ((layout_run, list(layouts())), (history_run, list(histories(ck.thorough)))):
            parallel(ck, func, [(base, items[i::64]) for i in range(64)])
    ck.traces = ck.evaluations


def replay(case):
    with fsbox.base_dir() as base:
        part = Part()
        if "layout" in case:
            layout_run((base, [case["layout"]]), part)
        else:
            history_run((base, [(case["start"], case["form"], [tuple(o) for o in case["ops"]], case["cwd"], case["keep"])]), part)
        return part.violations[0][1]["message"] if part.violations else None
