"""C14 the packages lock: every history of locking, saving, unlocking and resolving over several environments."""
import functools
import itertools
import re
import shutil
import tempfile
from collections import deque
from pathlib import Path

from packaging.utils import canonicalize_version

from mc import pyenv
from mc.core import Check, Part, attempt, parallel, shard_list
from mc.histories import quiet
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import Version
from pkm.resolution.dependency_resolver import resolve_dependencies
from pkm.resolution.packages_lock import LockPrioritizingRepository, PackagesLock

PROPERTY = "C14"
LEVEL = "model_checking"
RULE = ("breadth-first over lock files: every sequence (up to a depth) of locking an environment (of several, some with equal "
        "markers) with one of several sets of installed packages, unlocking packages, saving and loading; in each state the "
        "queries of every environment are compared with a model of the lock. Resolution part: every sequence of (environment, "
        "published versions, requirements) -> resolve with the lock, install, lock; an environment whose locked packages still "
        "satisfy the requirements must resolve to exactly them. non-trivial: distinct states with locks; distinct resolutions "
        "in which something newer than the lock is published or another environment is locked to something else")


def key(name):
    return re.sub(r"[-_.]+", "-", name).lower()


def V(t):
    return Version.parse(t)


@functools.lru_cache(None)
def norm(t):
    """equal versions have the same text"""
    return canonicalize_version(str(t))


# (name, changes) -> environments; A and A2 have the same markers
def _python39(data):
    data["sys"]["version_info"] = [3, 9, 1, "final", 0]
    data["sys"]["implementation"] = {"name": "cpython", "version": [3, 9, 1, "final", 0]}
    data["platform"]["python_version"] = "3.9.1"
    data["platform"]["python_version_tuple"] = ["3", "9", "1"]


ENVS = {"A": {}, "A2": {}, "W": {"windows": True}, "P": {"changes": _python39}}
SAME = {"A": "A", "A2": "A", "W": "W", "P": "P"}
SITE = "lib/site-packages"


class Scratch:
    def __init__(self):
        import os
        self.root = Path(tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH")))
        self.envs, self.now = {}, {}
        for e, kw in ENVS.items():
            pyenv.write_env(self.root / e, **kw)
            pyenv.load_env(self.root / e)
        self.lock_file = self.root / "prj/etc/pkm/packages-lock.toml"

    def env(self, e, installed=None) -> Environment:
        """the environment as a new process sees it, with the given packages installed"""
        if installed is not None and self.now.get(e) != installed:
            site = self.root / e / SITE
            shutil.rmtree(site)
            site.mkdir()
            for name, version in installed:
                di = site / f"{re.sub('[-.]', '_', name)}-{version}.dist-info"
                di.mkdir()
                (di / "METADATA").write_bytes(pyenv.metadata(name, version))
                (di / "WHEEL").write_bytes(pyenv.wheel_text())
                (di / "RECORD").write_bytes(b"")
            self.now[e] = installed
            self.envs.pop(e, None)
        if e not in self.envs:
            self.envs[e] = Environment(self.root / e)
        return self.envs[e]

    def load(self, text) -> PackagesLock:
        if self.lock_file.exists():
            self.lock_file.unlink()
        if text is not None:
            self.lock_file.parent.mkdir(parents=True, exist_ok=True)
            self.lock_file.write_text(text)
        return PackagesLock.load(self.lock_file)

    def save(self, lock: PackagesLock) -> str:
        lock.save()
        return self.lock_file.read_text()

    def close(self):
        shutil.rmtree(self.root)


class Pkg(Package):
    def __init__(self, name, version, deps=()):
        self._desc = PackageDescriptor(name, V(version))
        self._deps = [Dependency.parse(d) for d in deps]

    @property
    def descriptor(self):
        return self._desc

    def dependencies(self, target, extras=None):
        return [d for d in self._deps if d.is_applicable_for(target.env, extras or ())]

    def is_compatible_with(self, env):
        return True

    def install_to(self, *args, **kwargs):
        raise NotImplementedError()


class Repo(AbstractRepository):
    def __init__(self, packages):
        super().__init__("mem")
        self.by_key = {}
        for p in packages:
            self.by_key.setdefault(key(p.name), []).append(p)

    def _do_match(self, dep, env):
        return self._sorted_by_version([p for p in self.by_key.get(key(dep.package_name), ())
                                        if dep.version_spec.allows_version(p.version)])


# ------------------------------------------------------------------ part A: the lock itself

SELECTIONS = [
    (), (("a", "1.0"),), (("a", "2.0"),), (("a", "1.0"), ("b-c", "1.0")), (("A", "2.0"), ("b_c", "2.0")),
    (("B.c", "1.0"),), (("a", "1.0+x.1"), ("d", "1!2.0.post1")), (("d", "3.0rc1"),), (("a", "1.0.0"), ("b-c", "3.0")),
]
CANDIDATES = {"a": ["3.0", "2.0", "1.5", "1.0+x.1", "1.0"], "b-c": ["3.0", "2.0", "1.0"], "d": ["1!2.0.post1", "1!2.0"]}
UNLOCKS = [("a",), ("b-c",), ("B_C", "a"), ("b.c",), ("A", "zzz")]
QUERIES = [("a", ["a", "A"]), ("b-c", ["b-c", "b_c", "B.c", "B-C"]), ("d", ["d"])]


def model_update(model, e, sel):
    out = {k: dict(m) for k, m in model.items() if k != SAME[e]}
    if sel:
        out[SAME[e]] = {key(n): v for n, v in sel}
    return out


def model_unlock(model, names):
    gone = {key(n) for n in names}
    out = {e: {k: v for k, v in m.items() if k not in gone} for e, m in model.items()}
    return {e: m for e, m in out.items() if m}


def frozen(model):
    return tuple(sorted((e, tuple(sorted((k, norm(v)) for k, v in m.items()))) for e, m in model.items()))


def check_lock(s: Scratch, lock: PackagesLock, model, candidates):
    """compare all queries with the model"""
    for e in ENVS:
        env = s.env(e)
        own = model.get(SAME[e], {})
        r = attempt(lambda: {key(d.name): norm(d.version) for d in lock.env_specific_locks(env)})
        want = {k: norm(v) for k, v in own.items()}
        if r != ("ok", want):
            return f"the locks of {e} are {r[1]} instead of {want}"
        for k, spellings in QUERIES:
            first = [norm(own[k])] if k in own else []
            others = sorted(norm(m[k]) for x, m in model.items() if x != SAME[e] and k in m)
            for name in spellings:
                r = attempt(lambda: [norm(d.version) for d in lock.locked_versions(env, name)])
                if r[0] != "ok" or r[1][:len(first)] != first or sorted(r[1][len(first):]) != others:
                    return f"the locked versions of {name} for {e} are {r[1]} instead of {first + others}"
            given = [p for p in candidates[k]]
            for name in spellings[:2]:
                repo = LockPrioritizingRepository("locked", Repo(given), lock)
                for way in ("sort", "match"):
                    if way == "sort":
                        r = attempt(lambda: [norm(p.version) for p in lock.sort_packages_by_lock_preference(env, list(given))])
                    else:
                        r = attempt(lambda: [norm(p.version) for p in repo.match(name, env)])
                    plain = [norm(p.version) for p in given]
                    if r[0] != "ok":
                        return f"{way} of {name} for {e}: {r[1]}: {r[2]}"
                    a = [v for v in plain if first and v == first[0]]
                    b = [v for v in plain if v in others and v not in a]
                    c = [v for v in plain if v not in a and v not in b]
                    got = r[1]
                    if got[:len(a)] != a or sorted(got[len(a):len(a) + len(b)]) != sorted(b) or got[len(a) + len(b):] != c:
                        return (f"{way} of {name} for {e}: the preference is {got}; its own lock is {first}, "
                                f"others lock {others}, published are {plain}")
    return None


def apply_a(s: Scratch, text, op):
    """-> text of the lock file after the operation"""
    if op[0] == "lock":
        env = s.env(op[1], SELECTIONS[op[2]])
        lock = s.load(text)
        if lock.update_lock(env) is not lock:
            raise AssertionError("update_lock does not return the lock")
    else:
        lock = s.load(text)
        if lock.unlock_packages(UNLOCKS[op[1]]) is not lock:
            raise AssertionError("unlock_packages does not return the lock")
    return s.save(lock), lock


OPS_A = [("lock", e, i) for e in ENVS for i in range(len(SELECTIONS))] + [("unlock", i) for i in range(len(UNLOCKS))]


def shard_a(spec, part: Part):
    """all states whose first operation is given (states are lock files)"""
    firsts, depth = spec
    s = Scratch()
    candidates = {k: [Pkg(k, v) for v in vs] for k, vs in CANDIDATES.items()}
    try:
        seen = set()
        queue = deque([(None, {}, ())])
        while queue:
            text, model, hist = queue.popleft()
            for op in (firsts if not hist else OPS_A):
                h = hist + (op,)
                part.transitions += 1
                part.traces += 1
                r = attempt(lambda: apply_a(s, text, op))
                if r[0] != "ok":
                    part.violation(f"lock {op[0]} fails", {"part": "A", "hist": h}, f"{h}: {r[1]}: {r[2]}")
                    continue
                new_text, lock = r[1]
                new_model = model_update(model, op[1], SELECTIONS[op[2]]) if op[0] == "lock" else \
                    model_unlock(model, UNLOCKS[op[1]])
                f = frozen(new_model)
                # what the object knows is what its file says (checked once for each state, the file is what goes on)
                first_time = f not in seen
                if first_time or op[0] == "unlock":
                    error = check_lock(s, lock, new_model, candidates)
                    if error:
                        part.violation(f"lock after {op[0]}", {"part": "A", "hist": h}, f"after {show_a(h)}: {error}")
                        continue
                    r = attempt(lambda: s.load(new_text))
                    error = f"{r[1]}: {r[2]}" if r[0] != "ok" else check_lock(s, r[1], new_model, candidates)
                    if error:
                        part.violation(f"loaded lock after {op[0]}", {"part": "A", "hist": h},
                                       f"after {show_a(h)}, save and load: {error}")
                        continue
                part.case(("A", f), bool(new_model), {"history": show_a(h)})
                if first_time:
                    seen.add(f)
                    part.states += 1
                    if len(h) < depth:
                        queue.append((new_text, new_model, h))
    finally:
        s.close()


def show_a(h):
    return "; ".join(f"lock {o[1]} with {dict(SELECTIONS[o[2]])}" if o[0] == "lock" else f"unlock {', '.join(UNLOCKS[o[1]])}" for o in h)


# ------------------------------------------------------------------ part B: resolutions follow the lock

# packages: {name: {version: [dependencies]}}; versions are published one after another
def universes(thorough):
    specs = ["b-c", "B.c<3", "b_c==2.0", "b-c>=2.0"]
    for s1, s2, s3 in itertools.product(specs, specs, specs if thorough else specs[:2]):
        yield {"a": {"1.0": [s1], "2.0": [s2], "3.0": [s3]}, "b-c": {"1.0": [], "2.0": [], "3.0": []}}, ["a"]
    for s1, s2 in itertools.product(specs, specs):
        yield ({"a": {"1.0": [s1], "2.0": [s2]}, "b-c": {"1.0": [], "2.0": ["d"], "3.0": ["d>=2.0"]},
                "d": {"1.0": [], "2.0": []}}, ["a", "d<3"])
        yield ({"a": {"1.0": [s1, "w; os_name == 'nt'"], "2.0": [s2, "w; os_name == 'nt'"]},
                "b-c": {"1.0": [], "2.0": [], "3.0": []}, "w": {"1.0": ["b-c<2.0"], "2.0": ["b_c<3.0"]}}, ["a"])
        if thorough:
            for s3, s4 in itertools.product(specs, specs):
                yield ({"a": {"1.0": [s1], "2.0": [s2]}, "d": {"1.0": [s3], "2.0": [s4]},
                        "b-c": {"1.0": [], "2.0": [], "3.0": []}}, ["a", "d"])


LEVELS = [1, 2, 3]


def published(universe, level):
    return [Pkg(n, v, deps) for n, vs in universe.items() for i, (v, deps) in enumerate(vs.items())
            if i < level]


def candidates_of(universe, level):
    return {key(n): {v: deps for i, (v, deps) in enumerate(vs.items()) if i < level} for n, vs in universe.items()}


def satisfied(universe, level, roots, versions, env):
    """whether the versions (key -> version) are a closed, consistent, published selection for the roots; -> the needed keys or None"""
    cand = candidates_of(universe, level)
    needed, todo = set(), [Dependency.parse(r) for r in roots]
    while todo:
        d = todo.pop()
        if not d.is_applicable_for(env, ()):
            continue
        k = key(d.package_name)
        if k not in versions or versions[k] not in cand.get(k, {}) or not d.version_spec.allows_version(V(versions[k])):
            return None
        if k not in needed:
            needed.add(k)
            todo += [Dependency.parse(t) for t in cand[k][versions[k]]]
    return needed


def resolve(s, universe, level, roots, lock, env):
    root = Pkg("root", "1.0", roots)
    repo = LockPrioritizingRepository("locked", Repo(published(universe, level) + [root]), lock)
    packages = resolve_dependencies(root.descriptor.to_dependency(), env.installation_target, repo)
    return {key(p.name): str(p.version) for p in packages if key(p.name) != "root"}


def step_b(s, universe, roots, text, locks, op, part=None, h=()):
    """resolve, install and lock; -> (text, locks, error)"""
    e, level = op
    env = s.env(e)
    lock = s.load(text)
    r = attempt(lambda: quiet(lambda: resolve(s, universe, level, roots, lock, env)))
    if r[0] != "ok":
        if r[1] == "UnsolvableProblemException":
            return None, None, None
        return None, None, f"the resolution fails with {r[1]}: {r[2]}"
    got = r[1]
    own = locks.get(SAME[e], {})
    error = None
    needed = satisfied(universe, level, roots, own, env)
    if needed is not None:
        want = {k: own[k] for k in needed}
        if got != want:
            error = f"{e} resolves to {got} although its lock {own} still satisfies {roots} (others are locked to {others_of(locks, e)})"
    elif not own:
        distinct = {frozenset(m.items()) for m in others_of(locks, e).values()}
        if len(distinct) == 1:
            other = dict(next(iter(distinct)))
            needed = satisfied(universe, level, roots, other, env)
            if needed is not None and got != {k: other[k] for k in needed}:
                error = f"{e} (not locked) resolves to {got} although the lock of another environment {other} satisfies {roots}"
    if part is not None:
        newest = {key(n): list(vs)[min(level, len(vs)) - 1] for n, vs in universe.items()}
        part.case(("B", str(universe), str(locks), op), bool(locks) and (any(got[k] != newest[k] for k in got) or bool(others_of(locks, e))))
    if error:
        return None, None, error
    # what was resolved is installed in the environment, together with the project itself
    installed = tuple(sorted(got.items())) + (("prj", "1.0"),)
    lock = s.load(text)
    new_text = s.save(lock.update_lock(s.env(e, installed)))
    new_locks = {**locks, SAME[e]: {**got, "prj": "1.0"}}
    return new_text, new_locks, None


def others_of(locks, e):
    return {x: {k: v for k, v in m.items() if k != "prj"} for x, m in locks.items() if x != SAME[e]}


OPS_B = [(e, level) for e in ("A", "W") for level in LEVELS] + [("A2", 3), ("P", 2)]


def shard_b(spec, part: Part):
    items, depth = spec
    s = Scratch()
    try:
        for universe, roots in items:
            seen = set()
            queue = deque([(None, {}, ())])
            while queue:
                text, locks, hist = queue.popleft()
                for op in OPS_B:
                    h = hist + (op,)
                    r = attempt(lambda: step_b(s, universe, roots, text, locks, op, part, h))
                    error = r[1][2] if r[0] == "ok" else f"{r[1]}: {r[2]}"
                    if error:
                        part.violation("resolution ignores the lock", {"part": "B", "universe": universe, "roots": roots, "hist": h},
                                       f"{universe} after {h}: {error}")
                        continue
                    new_text, new_locks, _ = r[1]
                    if new_text is None:
                        continue
                    f = frozen(new_locks)
                    part.transitions += 1
                    part.traces += 1
                    if f in seen:
                        continue
                    seen.add(f)
                    part.states += 1
                    if len(h) < depth:
                        queue.append((new_text, new_locks, h))
    finally:
        s.close()


def shard(spec, part: Part):
    kind, rest = spec
    (shard_a if kind == "A" else shard_b)(rest, part)


def run(ck: Check):
    pyenv.base_introspection()
    t = ck.thorough
    shards = [("A", (x, 3 if t else 2)) for x in shard_list(OPS_A, 41)]
    shards += [("B", (x, 5 if t else 3)) for x in shard_list(list(universes(t)), 64)]
    parallel(ck, shard, shards)
    ck.extra["environments"] = list(ENVS)
    ck.extra["bounds"] = {"lock operations": 3 if t else 2, "resolutions": 5 if t else 3, "universes": len(list(universes(t)))}


def replay(case):
    pyenv.base_introspection()
    s = Scratch()
    try:
        if case["part"] == "A":
            candidates = {k: [Pkg(k, v) for v in vs] for k, vs in CANDIDATES.items()}
            text, model = None, {}
            for op in case["hist"]:
                text, lock = apply_a(s, text, op)
                model = model_update(model, op[1], SELECTIONS[op[2]]) if op[0] == "lock" else model_unlock(model, UNLOCKS[op[1]])
                error = check_lock(s, lock, model, candidates) or check_lock(s, s.load(text), model, candidates)
            return error
        text, locks, error = None, {}, None
        for op in case["hist"]:
            text, locks, error = step_b(s, case["universe"], case["roots"], text, locks, op)
        return error
    finally:
        s.close()
