"""C07 dependency resolution: resolve_dependencies on every package universe of bounded shapes, against brute force."""
import contextlib
import io
import itertools
import re
import warnings

from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier
from pkm.resolution.dependency_resolver import resolve_dependencies
from pkm.resolution.pubgrub import UnsolvableProblemException

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("exhaustive over families of package universes in which names are spelled in different ways, dependencies carry "
        "extras, markers and urls, packages are malformed or incompatible and dependencies are overridden: the real "
        "resolver runs on each and its list of packages is compared with a brute-force search. non-trivial: distinct "
        "universes in which a dependency carries an extra, a marker, a url, an override or another spelling, or a version "
        "is unusable")


def key(name):
    return re.sub(r"[-_.]+", "-", name).lower()


class Env:
    markers = {"os_name": "posix", "sys_platform": "linux", "platform_machine": "x86_64",
               "platform_python_implementation": "CPython", "platform_release": "5", "platform_system": "Linux",
               "platform_version": "#1", "python_version": "3.8", "python_full_version": "3.8.1",
               "implementation_name": "cpython", "implementation_version": "3.8.1"}
    markers_hash = "h"


class Target:
    env = Env()


# marker -> (text, value: function of the requested extras)
MARKERS = {
    "": (None, lambda ex: True),
    "T": ("os_name == 'posix'", lambda ex: True),
    "F": ("os_name == 'nt'", lambda ex: False),
    "x": ("extra == 'x'", lambda ex: "x" in ex),
    "y": ("extra == 'y'", lambda ex: "y" in ex),
    "all": ("extra == 'all'", lambda ex: "all" in ex),
    "xT": ("extra == 'x' and os_name == 'posix'", lambda ex: "x" in ex),
    "xF": ("extra == 'x' and os_name == 'nt'", lambda ex: False),
    "xory": ("extra == 'x' or extra == 'y'", lambda ex: "x" in ex or "y" in ex),
    "Forx": ("os_name == 'nt' or extra == 'x'", lambda ex: "x" in ex),
}


def D(name, spec="", extras=None, marker=""):
    return name, spec, extras, marker


_deps = {}


def dependency(d) -> Dependency:
    name, spec, extras, marker = d
    text = name + (f"[{','.join(extras)}]" if extras is not None else "") + f" {spec}" + \
        (f" ; {MARKERS[marker][0]}" if marker else "")
    if text not in _deps:
        _deps[text] = Dependency.parse(text)
    return _deps[text]


class FakePackage(Package):
    def __init__(self, name, version, deps, kind):
        self._desc = PackageDescriptor(name, Version.parse(version))
        self._deps, self._kind = deps, kind

    @property
    def descriptor(self):
        return self._desc

    def dependencies(self, target, extras=None):
        if self._kind == "ValueError":
            raise ValueError("malformed")
        if self._kind == "IOError":
            raise IOError("unreadable")
        return [dependency(d) for d in self._deps]

    def is_compatible_with(self, env):
        return self._kind != "incompatible"

    def install_to(self, *args, **kwargs):
        raise NotImplementedError()


class FakeRepository(AbstractRepository):
    """finds packages by their name, however it is spelled"""

    def __init__(self, universe):
        super().__init__("fake")
        self.by_key = {}
        for name, versions in universe.items():
            for v, (kind, deps) in versions.items():
                self.by_key.setdefault(key(name), []).append(FakePackage(name, v, deps, kind))

    def _do_match(self, dep, env):
        found = self.by_key.get(key(dep.package_name), [])
        if url := dep.required_url():
            return [p for p in found if p.version == url]
        return self._sorted_by_version(
            [p for p in found if "://" not in str(p.version) and dep.version_spec.allows_version(p.version)])

    def accepted_url_protocols(self):
        return ["https"]


_allow = {}


def allows(spec, v):
    if (spec, v) not in _allow:
        if spec.startswith("@"):
            _allow[spec, v] = spec[1:].strip() == v
        else:
            _allow[spec, v] = not spec or "://" not in v and bool(VersionSpecifier.parse(spec).allows_version(Version.parse(v)))
    return _allow[spec, v]


def closure(full, U, root, overrides):
    """everything that installing root needs when packages have the versions `full` -> {name key: version} or error text"""
    sol, seen, todo = {}, set(), [(None, root)]
    while todo:
        src, d = todo.pop()
        name, spec, extras, _ = d
        k = key(name)
        v = full.get(k)
        if v is None:
            return f"{src} needs {name} {spec}, which is not selected"
        if not allows(spec, v):
            return f"{src} needs {name} {spec}, but {v} is selected"
        kind, deps = U[k][v]
        if kind:
            return f"{name} {v} is {kind}"
        sol[k] = v
        node = (k, tuple(sorted(set(extras or ()))))
        if node in seen:
            continue
        seen.add(node)
        for dep in deps:
            if MARKERS[dep[3]][1](list(node[1])):
                o = overrides.get(key(dep[0]))
                todo.append((f"{k} {v}", o if o else dep))
    return sol


def judge(case):
    """case: universe {name: {version: [kind, deps]}}, root, overrides -> (error or None, outcome)"""
    # the root is a package with a single version, like the installation requests of pkm
    universe = {**case["universe"], "Request.0": {"0": ("", [tuple(case["root"])])}}
    root = D("request_0", "==0")
    overrides = {key(n): tuple(d) for n, d in case["overrides"].items()}
    U = {key(n): vs for n, vs in universe.items()}

    def go():
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return resolve_dependencies(dependency(root), Target(), FakeRepository(universe),
                                            {n: dependency(d) for n, d in case["overrides"].items()} or None)
            except UnsolvableProblemException as e:
                return e

    r = attempt(go, 10)
    names = sorted(U)
    options = [[v for v in U[n] if not U[n][v][0]] + [None] for n in names]

    def solutions():
        for combo in itertools.product(*options):
            full = {n: v for n, v in zip(names, combo) if v is not None}
            s = closure(full, U, root, overrides)
            if isinstance(s, dict) and s == full:
                yield s

    has_url = any("://" in v for n in U for v in U[n])
    if r[0] != "ok":
        return f"the resolver failed: {r[:3]}", "crash"
    if isinstance(r[1], UnsolvableProblemException):
        want = next(solutions(), None)
        if want is not None and not has_url:
            return f"reported as unsolvable, but {want} solves it", "unsolvable"
        return None, "unsolvable"
    packages = [(key(p.name), str(p.version)) for p in r[1]]
    if len({n for n, _ in packages}) != len(packages):
        return f"several versions of one package: {packages}", "solved"
    if any(not isinstance(p, FakePackage) for p in r[1]):
        return f"packages that are not of the repository: {r[1]}", "solved"
    sol = dict(packages)
    want = closure(sol, U, root, overrides)
    if want != sol:
        return f"resolved to {sol}: {want if isinstance(want, str) else f'needs exactly {want}'}", "solved"
    # if the newest versions fit together they are the answer
    if not has_url:
        first = {n: next(iter(sorted(vs, key=Version.parse, reverse=True)), None) for n, vs in
                 ((n, [v for v in U[n] if U[n][v][0] != "incompatible"]) for n in names)}
        pref = closure({n: v for n, v in first.items() if v}, U, root, overrides)
        if isinstance(pref, dict) and pref != sol:
            return f"resolved to {sol}, but the newest versions {pref} fit together", "solved"
    return None, "solved"


# ---- families: generators of (nontrivial, case)
def case(universe, root, overrides=None):
    return {"universe": universe, "root": root, "overrides": overrides or {}}


SPELL = ["foo-bar", "foo_bar", "Foo.Bar", "foo--bar", "FOO-_bar"]


def fam_spelling(thorough):
    for s0, s1, s2 in itertools.product(SPELL, repeat=3):
        if not thorough and s0 not in SPELL[:3]:
            continue
        for c1, c2, c3 in itertools.product(["", "==1", "==2"], ["", "==1", "<2"], ["", "==2"]):
            U = {s0: {"1": ("", []), "2": ("", [D("Dep_1")])}, "dep.1": {"1": ("", [])},
                 "b": {"1": ("", [D(s2, c2)]), "2": ("", [D(s2, c3)])},
                 "root": {"1": ("", [D(s1, c1), D("b")])}}
            yield case(U, D("root", "==1"))


def fam_extras(thorough):
    forms = [None, [], ["x"], ["y"], ["x", "y"], ["y", "x"], ["x", "x"]]
    a_deps = [[D("c", "==1", None, "x"), D("c", "==2", None, "y")],
              [D("c", "", None, "xT"), D("d", "", None, "xF")],
              [D("c", "<2", None, "xory"), D("d", "==1", None, "Forx")],
              [D("c", "==2", None, "T"), D("d", "", None, "y")],
              [D("a", "", ["x", "y"], "all"), D("c", "", None, "x"), D("d", "", None, "y")],
              []]
    for f1, f2 in itertools.product(forms + [["all"]], forms):
        for d1, d2 in itertools.product(a_deps, repeat=2):
            for s1, s2 in itertools.product(["", "==1"], ["", "==2", "==1"]):
                if not thorough and s1 and s2 == "==2":
                    continue
                U = {"a": {"1": ("", d1), "2": ("", d2)}, "c": {"1": ("", []), "2": ("", [])}, "d": {"1": ("", [D("A")])},
                     "b": {"1": ("", [D("a", s2, f2)])}, "root": {"1": ("", [D("a", s1, f1), D("b")])}}
                yield case(U, D("root", "==1"))
                if f2 is None and not s2:
                    yield case(U, D("a", s1, f1))


def fam_markers(thorough):
    M = ["", "T", "F", "x"]
    for m in itertools.product(M, repeat=4):
        for s in itertools.product(["", "==1", "==2"], repeat=2):
            U = {"a": {"1": ("", [D("b", s[0], None, m[0])]), "2": ("", [D("b", s[1], None, m[1])])},
                 "b": {"1": ("", [D("a", "==2", None, m[2])]), "2": ("", [D("a", "==1", None, m[3])])}}
            for ex in (None, ["x"]):
                yield case(U, D("a", "", ex))
                if thorough:
                    yield case(U, D("b", "", ex))
                    yield case(U, D("a", "==1", ex))


def fam_overrides(thorough):
    for name, oname in itertools.product(SPELL[:4], SPELL[:4]):
        for o in [D(name, "==1"), D(name, "==2"), D("other", ""), D(name, "", ["x"]), D(name, "==9")]:
            for c, m in itertools.product(["", "==2", "==7"], ["", "F", "T"]):
                U = {"foo.bar": {"1": ("", []), "2": ("", [D("e", "", None, "x")])}, "e": {"1": ("", [])},
                     "other": {"1": ("", [])}, "b": {"1": ("", [D(SPELL[1], c, None, m)])},
                     "root": {"1": ("", [D("b"), D(SPELL[0], "", None, m)])}}
                yield case(U, D("root"), {oname: o})


def fam_unusable(thorough):
    kinds = ["", "ValueError", "IOError", "incompatible"]
    for k in itertools.product(kinds, repeat=5):
        for c1, c2 in itertools.product(["", "==2"], ["", "==1"]):
            U = {"a": {"1": (k[0], []), "2": (k[1], [D("b", c1)]), "3": (k[4], [D("b", c2)])},
                 "b": {"1": (k[2], []), "2": (k[3], [])}}
            yield case(U, D("a"))
            if thorough:
                yield case({**U, "r": {"1": ("", [D("a", ">=2"), D("b", c2)])}}, D("r"))
    # missing packages and versions
    for d1, d2 in itertools.product([[], [D("zz")], [D("b", "==9")], [D("zz", "", None, "F")], [D("b")]], repeat=2):
        yield case({"a": {"1": ("", d1), "2": ("", d2)}, "b": {"1": ("", [])}}, D("a"))
    yield case({}, D("a"))
    yield case({"a": {}}, D("a"))


URL = "https://h/foo-1.zip"


def fam_urls(thorough):
    for s1, s2, s3 in itertools.product(["@ " + URL, "@ https://h/foo-2.zip", "", "==1"], repeat=3):
        for ex in (None, ["x"]):
            U = {"Foo": {"1": ("", []), URL: ("", [D("c", "", None, "x")]), "https://h/foo-2.zip": ("ValueError", [])},
                 "c": {"1": ("", [D("foo", s3)])}, "b": {"1": ("", [D("foo", s2)])},
                 "root": {"1": ("", [D("FOO", s1, ex), D("b")])}}
            yield case(U, D("root"))
            yield case(U, D("foo", s1, ex))


def fam_names(thorough):
    """named versions next to standard ones, equal versions spelled differently, several dependencies on one package"""
    for s1, s2 in itertools.product(["", "==1.0", "==1", "===1.0", ">=1,<3", "!=2.0", "<2", ">2"], repeat=2):
        U = {"a": {"1.0": ("", []), "2": ("", [D("b", s2)]), "0!3.0.0": ("", [D("b", "==1")])},
             "b": {"1": ("", []), "2.0.0": ("", [D("a", "<3")])},
             "root": {"1": ("", [D("a", s1), D("A", s2), D("b", "", None, "T"), D("b", ">=0")])}}
        yield case(U, D("root"))
        yield case(U, D("a", s1))


FAMILIES = {f.__name__[4:]: f for f in (fam_spelling, fam_extras, fam_markers, fam_overrides, fam_unusable, fam_urls,
                                        fam_names)}


def shard(args, part: Part):
    cases = args
    for name, c in cases:
        err, outcome = judge(c)
        part.case(repr(c), sample=c, outcome=f"{name}:{outcome}")
        if err:
            part.violation(f"{name} {c}", c, f"{name}: {c}: {err}")


def prerelease(ck):
    """a pre-release that is asked for by its exact version, next to final releases (known finding)"""
    for spec in ("==2.0rc1", ">=2.0rc1"):
        c = case({"a": {"1.0": ("", []), "2.0rc1": ("", [])}}, D("a", spec))
        err, outcome = judge(c)
        ck.case(repr(c), outcome=f"prerelease:{outcome}")
        if err:
            ck.violation(f"prerelease pinned next to finals {spec}", c, err)
    # without finals the pre-releases are the candidates
    for spec in ("", "==2.0rc1", ">=1"):
        c = case({"a": {"1.0a1": ("", []), "2.0rc1": ("", [])}}, D("a", spec))
        err, outcome = judge(c)
        ck.case(repr(c), outcome=f"prerelease:{outcome}")
        if err:
            ck.violation(f"prereleases only {spec}", c, err)


def run(ck: Check):
    cases = [(n, c) for n, f in FAMILIES.items() for c in f(ck.thorough)]
    ck.extra["universes"] = {n: sum(1 for m, _ in cases if m == n) for n in FAMILIES}
    parallel(ck, shard, shard_list(cases, 32))
    prerelease(ck)
    ck.assumptions = ["a stub environment and in-memory packages stand for real ones (their real counterparts are the "
                      "subject of other properties)"]


def replay(case):
    return judge(case)[0]
