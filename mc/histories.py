"""Explicit-state exploration of installation histories on a real scratch environment (used by C10 and C11).

A state is what is installed: {package: (version, user request)}. Every operation is executed by the real code on the
real directory tree of the state; the reached tree is read back, compared with what the model demands of the operation
and, when its state is new, explored further. The model knows the universe of packages and computes closures of
dependencies and the solvability of requests by brute force."""
import contextlib
import io
import itertools
import os
import re
import warnings
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Dict, List, Optional, Tuple

from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from mc import fsbox, pyenv
from mc.core import Part, attempt
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation_info import StoreMode
from pkm.api.packages.package_metadata import PackageMetadata  # noqa
from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import Version
from pkm.resolution.pubgrub import UnsolvableProblemException


def key(name):
    return re.sub(r"[-_.]+", "-", name).lower()


MARKERS = {"": lambda ex: True, "os_name == 'posix'": lambda ex: True, "os_name == 'nt'": lambda ex: False,
           "extra == 'e'": lambda ex: "e" in ex, "extra == 'f'": lambda ex: "f" in ex,
           "extra == 'e' and os_name == 'nt'": lambda ex: False}


@dataclass(frozen=True)
class Dep:
    """a dependency of the model, built from its own text by a tiny reader (name[extras] spec ; marker)"""
    text: str

    @property
    def parts(self):
        return _parts(self.text)

    @property
    def key(self):
        return self.parts[0]

    @property
    def extras(self):
        return self.parts[1]

    def allows(self, version):
        return _allows(self.parts[2], version)

    def applies(self, extras):
        return MARKERS[self.parts[3]](extras)

    @property
    def unspecified(self):
        return not self.parts[2]


_cache: Dict[str, Any] = {}


def _parts(text):
    if text not in _cache:
        m = re.fullmatch(r"\s*([A-Za-z0-9._-]+)\s*(?:\[([^]]*)\])?\s*([^;]*?)\s*(?:;(.*))?", text)
        extras = tuple(sorted({e.strip().lower() for e in (m[2] or "").split(",") if e.strip()}))
        _cache[text] = (key(m[1]), extras, m[3].strip(), (m[4] or "").strip())
    return _cache[text]


_allowed: Dict[Any, bool] = {}


def _allows(spec, version):
    if (spec, version) not in _allowed:
        _allowed[spec, version] = not spec or spec[0] == "@" or SpecifierSet(spec).contains(PV(version), prereleases=True)
    return _allowed[spec, version]


@dataclass
class Universe:
    """packages: display name -> version -> dependency texts; foreign: the same, but not in the repository"""
    name: str
    packages: Dict[str, Dict[str, List[str]]]
    actions: List[tuple]
    depth: int = 2
    foreign: Dict[str, Dict[str, List[str]]] = field(default_factory=dict)
    initial: List[List[Tuple[str, str, Optional[str]]]] = field(default_factory=lambda: [[]])

    def __post_init__(self):
        self.display, self.deps, self.repo = {}, {}, {}
        for src, in_repo in ((self.packages, True), (self.foreign, False)):
            for n, vs in src.items():
                self.display[key(n)] = n
                for v, ds in vs.items():
                    self.deps[key(n), v] = [Dep(d) for d in ds]
                    if in_repo:
                        self.repo.setdefault(key(n), []).append(v)
        self._solutions = {}

    def applicable(self, k, v, extras, overrides):
        out = []
        for d in self.deps[k, v]:
            if d.applies(extras):
                out.append(overrides.get(d.key, d))
        return out

    def closure(self, state: Dict[str, str], deps, overrides=None, check=True):
        """keys reachable from deps in the state; None if some dependency is not satisfied (when check)"""
        overrides = overrides or {}
        seen, todo, keys = set(), list(deps), set()
        while todo:
            d = todo.pop()
            v = state.get(d.key)
            if v is None or not d.allows(v):
                if check:
                    return None
                if v is None:
                    continue
            keys.add(d.key)
            if (d.key, d.extras) in seen:
                continue
            seen.add((d.key, d.extras))
            todo += self.applicable(d.key, v, d.extras, overrides)
        return keys

    def solvable(self, deps, candidates: Dict[str, List[str]], overrides=None, need=None):
        """is there a choice of one candidate per package such that the closure of deps is satisfied
        (and need(choice) holds)?"""
        overrides = overrides or {}

        def search(choice, todo, seen):
            while todo:
                d, todo = todo[0], todo[1:]
                if d.key in choice:
                    if not d.allows(choice[d.key]):
                        return False
                    if (d.key, d.extras) in seen:
                        continue
                    seen = seen | {(d.key, d.extras)}
                    todo = todo + self.applicable(d.key, choice[d.key], d.extras, overrides)
                    continue
                for v in candidates.get(d.key, ()):
                    if d.allows(v) and search({**choice, d.key: v}, [d] + todo, seen):
                        return True
                return False
            return need is None or need(choice)

        return search({}, list(deps), frozenset())


class MemPackage(AbstractPackage):
    def __init__(self, name, version, artifact, path):
        super().__init__(PackageDescriptor(name, Version.parse(version)), [artifact])
        self._file = path

    def _retrieve_artifact(self, artifact):
        return self._file


class MemRepo(AbstractRepository):
    def __init__(self, universe: Universe, wheels: Path):
        super().__init__("memory")
        self._packages = {}
        for n, vs in universe.packages.items():
            self._packages[key(n)] = [MemPackage(n, v, PackageArtifact(wheel(universe, n, v, wheels).name),
                                                 wheel(universe, n, v, wheels))
                                      for v in sorted(vs, key=PV, reverse=True)]

    def _do_match(self, dependency, env):
        return [p for p in self._packages.get(key(dependency.package_name), ()) if dependency.version_spec.allows_version(p.version)]


def module_of(name):
    return key(name).replace("-", "_")


def wheel(u: Universe, name, version, wheels: Path) -> Path:
    src = next(s[name][version] for s in (u.packages, u.foreign) if version in s.get(name, ()))
    dist = re.sub(r"[-_.]+", "_", name)
    folder = wheels / str(abs(hash((name, version, tuple(src)))))
    path = folder / f"{dist}-{version}-py3-none-any.whl"
    if not path.exists():
        folder.mkdir(parents=True, exist_ok=True)
        di = f"{dist}-{version}.dist-info"
        extras = sorted({m for d in src for m in re.findall(r"extra == '(\w+)'", d)})
        pyenv.write_wheel(path, {f"{module_of(name)}.py": f"V = '{version}'\n".encode(),
                                 f"{di}/METADATA": pyenv.metadata(name, version, src, None, extras),
                                 f"{di}/WHEEL": pyenv.wheel_text()}, di)
    return path


def quiet(func):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return func()


def read_state(site: Path):
    """-> ({key: (version, request text or None)}, errors), read from the directory tree alone"""
    out, errors = {}, []
    modules = {f[:-3] for f in os.listdir(site) if f.endswith(".py")}
    for d in sorted(os.listdir(site)):
        if not d.endswith(".dist-info"):
            continue
        meta = site / d / "METADATA"
        if not meta.exists():
            errors.append(f"{d} has no METADATA")
            continue
        head = dict(line.split(": ", 1) for line in meta.read_text().split("\n\n")[0].splitlines() if ": " in line)
        k, v = key(head["Name"]), head["Version"]
        if k in out:
            errors.append(f"{k} is installed twice")
        requested = site / d / "REQUESTED"
        out[k] = (v, requested.read_text().strip() if requested.exists() else None)
        mod = site / f"{module_of(k)}.py"
        if not mod.exists() or mod.read_text() != f"V = '{v}'\n":
            errors.append(f"the files of {k} {v} are not those of that version")
        modules.discard(module_of(k))
    for m in sorted(modules):
        errors.append(f"files of {m} are left without metadata")
    return out, errors


@dataclass
class Node:
    packages: Dict[str, Tuple[str, Optional[str]]]
    snap: Any
    history: List[tuple]
    depth: int

    @property
    def versions(self):
        return {k: v for k, (v, _) in self.packages.items()}

    @property
    def requests(self):
        return {k: Dep(r) for k, (_, r) in self.packages.items() if r is not None}


def canonical(u: Universe, packages):
    def req(k, r):
        if r is None:
            return None
        d = Dep(r)
        vs = sorted({v for (kk, v) in u.deps if kk == k})
        return d.key, d.extras, tuple(v for v in vs if d.allows(v))

    return tuple(sorted((k, v, req(k, r)) for k, (v, r) in packages.items()))


SITE = "lib/site-packages"


def prepare_home():
    """in the parent process: installations of the checks run one after another in the process itself"""
    from pkm.api.pkm import pkm
    scratch = Path(os.environ["MC_SCRATCH"])
    home = Path(os.environ["XDG_DATA_HOME"]) / "pkm"
    (home / "etc/pkm").mkdir(parents=True)
    (home / "etc/pkm/general.toml").write_text('[concurrency]\nmode = "none"\n')
    for p in (scratch, home.parent, home, home / "etc", home / "etc/pkm", home / "etc/pkm/general.toml"):
        os.chmod(p, 0o777)
    assert pkm.home.resolve() == home.resolve() and pkm.config.concurrency_mode == "none"


class World:
    """one worker's scratch world for one universe"""

    def __init__(self, base, u: Universe):
        self.u = u
        self.box = fsbox.worker_box(base)
        self.root = self.box.work / "env"
        self.repo = MemRepo(u, self.box.root / "wheels")

    def fresh(self, node: Optional[Node]):
        self.box.clear()
        pyenv.write_env(self.root)
        if node is not None:
            (self.root / SITE).rmdir()
            (self.root / SITE).mkdir()
            fsbox.restore(self.root / SITE, node.snap)
        return pyenv.load_env(self.root)

    def initial(self, what) -> Node:
        env = self.fresh(None)
        from pkm.api.distributions.wheel_distribution import WheelDistribution
        for name, version, request in what:
            w = wheel(self.u, name, version, self.box.root / "wheels")
            quiet(lambda: WheelDistribution(PackageDescriptor(name, Version.parse(version)), w).install_to(
                env.installation_target, Dependency.parse(request) if request else None))
        packages, errors = read_state(self.root / SITE)
        assert not errors, errors
        return Node(packages, fsbox.snapshot(self.root / SITE), [("have", *w) for w in what], 0)

    def run(self, node: Node, action):
        """-> (outcome, value, packages, read errors, env)"""
        env = self.fresh(node)
        kind, args = action[0], action[1:]

        def call():
            if kind == "install":
                deps, opts = args
                kw = dict(opts)
                if "override" in kw:
                    kw["dependencies_override"] = {k: Dependency.parse(v) for k, v in kw.pop("override")}
                if "store" in kw:
                    kw["store_modes"] = {k: StoreMode[v] for k, v in kw.pop("store")}
                if "updates" in kw:
                    kw["updates"] = list(kw["updates"])
                return env.install([Dependency.parse(d) for d in deps], self.repo, **kw)
            if kind == "uninstall":
                return env.uninstall(list(args[0]))
            if kind == "update_at":
                ((name, version),) = args[0]
                p = next(p for p in self.repo._packages[key(name)] if str(p.version) == version)
                return p.update_at(env.installation_target, *map(Dependency.parse, args[1:]))
            if kind == "force":
                return env.uninstall(list(args[0]), force=True)
            raise ValueError(kind)

        r = attempt(lambda: quiet(call), 20)
        packages, errors = read_state(self.root / SITE)
        return r, packages, errors, env


def show(action):
    kind = action[0]
    if kind == "have":
        return f"have {action[1]}=={action[2]}" + (f" ({action[3]})" if action[3] else "")
    if kind == "update_at":
        return f"{kind} {action[1]} {action[2:]}"
    s = f"{kind} {', '.join(action[1])}"
    if len(action) > 2 and action[2]:
        s += " " + ", ".join(f"{k}={v}" for k, v in action[2])
    return s


def explore(world: World, part: Part, check_install=None, check_uninstall=None, check_state=None, actions=None, depth=None, start=None):
    """breadth-first exploration of all histories of the universe's actions up to the depth"""
    u = world.u
    seen, queue = {}, []
    for n in start if start is not None else [world.initial(what) for what in u.initial]:
        c = canonical(u, n.packages)
        if c not in seen:
            seen[c] = n
            queue.append(n)
    depth = depth or u.depth
    acts = actions or u.actions

    def report(node, action, errors):
        hist = "; ".join(show(a) for a in node.history + ([action] if action else []))
        part.violation(f"{u.name}: {hist}: {errors[0]}"[:300],
                       dict(universe=u.name, packages=u.packages, foreign=u.foreign, initial=node.history, action=action),
                       f"universe {u.packages}" + (f" (not in the repository: {u.foreign})" if u.foreign else "") +
                       f"\n  history: {hist}\n  " + "\n  ".join(errors[:6]))

    while queue:
        node = queue.pop(0)
        part.states += 1
        if check_state:
            errors = check_state(world, node)
            part.case((u.name, str(u.packages), canonical(u, node.packages)), bool(node.packages))
            if errors:
                report(node, None, errors)
        if node.depth >= depth:
            continue
        for action in acts:
            r, packages, rerrors, env = world.run(node, action)
            part.transitions += 1
            part.traces += 1
            errors = list(rerrors)
            checker = check_install if action[0] in ("install", "update_at") else check_uninstall
            if r[0] == "timeout":
                errors.append("the operation does not end")
            if checker:
                errors += checker(world, node, action, r, packages, env)
                part.case((u.name, str(u.packages), canonical(u, node.packages), action),
                          packages != node.packages or r[0] != "ok", outcome=f"{action[0]} {r[0] if r[0] == 'ok' else r[1]}")
            if errors:
                if checker:
                    report(node, action, errors)
                continue
            c = canonical(u, packages)
            if c not in seen:
                n = Node(packages, fsbox.snapshot(world.root / SITE), node.history + [action], node.depth + 1)
                seen[c] = n
                queue.append(n)
