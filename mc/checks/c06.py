"""C06 dependency solver: the real PubGrub solver on every package universe of bounded shapes, against brute force."""
import contextlib
import io
import itertools
import warnings

from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import AllowAllVersions, VersionMatch, VersionSpecifier
from pkm.resolution.pubgrub import MalformedPackageException, Problem, Solver, Term, UnsolvableProblemException

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("exhaustive over families of package universes (number of packages and versions, every dependency edge "
        "independently one of a set of constraints, versions listed ascending or descending, malformed and missing "
        "packages, several constraints on one package, url versions): the real solver runs on each and its answer is "
        "compared with a brute-force search. non-trivial: distinct universes in which the solver must choose (some "
        "package of the closure has more than one version)")

R0 = Version.parse("1")
_spec = {}


def spec(text):
    if text not in _spec:
        _spec[text] = VersionMatch(Version.parse(text[1:].strip())) if text.startswith("@") else VersionSpecifier.parse(text)
    return _spec[text]


_ver = {}


def ver(text):
    if text not in _ver:
        _ver[text] = Version.parse(text)
    return _ver[text]


class Universe(Problem):
    """pk: {name: {version text: [(dep, spec text)] or None when malformed}}; order of versions = preference"""

    def __init__(self, pk, root, urls=()):
        self.pk, self.root, self.urls = pk, root, urls

    def get_dependencies(self, package, version):
        if package == "root":
            return [Term(p, spec(s)) for p, s in self.root]
        deps = self.pk[package][str(version)]
        if deps is None:
            raise MalformedPackageException(f"{package} {version}")
        return [Term(p, spec(s)) for p, s in deps]

    def get_versions(self, package):
        if package == "root":
            return [R0]
        return [ver(v) for v in self.pk.get(package, ()) if "://" not in v]

    def has_version(self, package, version):
        return str(version) in self.pk.get(package, ())


_allow = {}


def allows(s, v):
    k = (s, v)
    if k not in _allow:
        _allow[k] = bool(spec(s).allows_version(ver(v)))
    return _allow[k]


def closure_ok(pk, root, sol):
    """sol covers exactly the packages reachable from root, and respects every constraint -> error text or None"""
    seen, todo = set(), [("root", d) for d in root]
    while todo:
        src, (p, s) = todo.pop()
        if p not in sol:
            return f"{src} needs {p} {s}, which is not selected"
        v = sol[p]
        if not allows(s, v):
            return f"{src} needs {p} {s}, but {v} is selected"
        if p not in seen:
            seen.add(p)
            if v not in pk.get(p, ()):
                return f"{p} {v} does not exist"
            if pk[p][v] is None:
                return f"{p} {v} is malformed"
            todo += [(f"{p} {v}", d) for d in pk[p][v]]
    if set(sol) != seen:
        return f"{set(sol) - seen} selected without being required"
    return None


def brute(pk, root):
    """-> a solution or None: every mapping of packages to versions whose closure is consistent"""
    names = sorted(pk)
    # a url version is only available to a constraint that names it
    for combo in itertools.product(*[[v for v, d in pk[p].items() if d is not None] or [None] for p in names]):
        full = {p: v for p, v in zip(names, combo) if v is not None}
        sol, todo, ok = {}, list(root), True
        cons = []
        while todo and ok:
            p, s = todo.pop()
            v = full.get(p)
            cons.append((p, s))
            if v is None or not allows(s, v):
                ok = False
            elif p not in sol:
                sol[p] = v
                todo += pk[p][v]
        if ok and all("://" not in v or (p, "@" + v) in cons for p, v in sol.items()):
            return sol
    return None


def first_choice(pk, root):
    """the selection of the first version of everything reachable"""
    pk = {p: {v: d for v, d in vs.items() if "://" not in v} for p, vs in pk.items()}
    sol, todo = {}, [p for p, _ in root]
    while todo:
        p = todo.pop()
        if p in sol:
            continue
        vs = list(pk.get(p, ()))
        if not vs or pk[p][vs[0]] is None:
            return None
        sol[p] = vs[0]
        todo += [q for q, _ in pk[p][vs[0]]]
    return sol if closure_ok(pk, root, sol) is None and not any("://" in v for v in sol.values()) else None


def solve(pk, root):
    def go():
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return Solver(Universe(pk, root), "root").solve()
            except UnsolvableProblemException as e:
                return e
    return attempt(go, 10)


def judge(pk, root):
    """-> (error or None, outcome, nontrivial)"""
    r = solve(pk, root)
    want = brute(pk, root)
    nontrivial = any(len(v) > 1 for v in pk.values())
    # a url version is no candidate until something names it: completeness is not claimed when packages name urls
    by_url = any(s.startswith("@") for vs in pk.values() for deps in vs.values() for _, s in deps or ())
    if r[0] != "ok":
        return f"the solver failed: {r[:3]}", "crash", nontrivial
    if isinstance(r[1], UnsolvableProblemException):
        if want is not None and not by_url:
            return f"reported as unsolvable, but {want} solves it", "unsolvable", nontrivial
        if not str(r[1]):
            return "empty report", "unsolvable", nontrivial
        return None, "unsolvable", nontrivial
    sol = {p: str(v) for p, v in r[1].items()}
    if sol.pop("root", None) is None:
        return f"root missing in {sol}", "solved", nontrivial
    if want is None:
        return f"solved as {sol}, but there is no solution", "solved", nontrivial
    err = closure_ok(pk, root, sol)
    if err:
        return f"selected {sol}: {err}", "solved", nontrivial
    pref = first_choice(pk, root)
    if pref is not None and pref != sol:
        return f"selected {sol}, but the preferred versions {pref} fit together", "solved", nontrivial
    return None, "solved", nontrivial


# ---- families: (name, thorough only, list of slots); a slot is (source, dep, options)
def family(name, versions, edges, root_options, order="desc"):
    """edges: list of (package, dep, options); every version of package takes every option independently"""
    return name, versions, edges, root_options, order


def V(n, order):
    vs = [str(i) for i in range(1, n + 1)]
    return vs[::-1] if order == "desc" else vs


N = None  # no dependency
E2 = [N, "==1", "==2"]
E2W = [N, "*", "==1", "==2", "<2", "==9"]
E3 = [N, "==1", ">=2", "<=2", "!=2"]


def families(thorough):
    r = lambda *sets: [[(p, s) for p, s in zip("abcdef", t) if s is not None] for t in itertools.product(*sets)]  # noqa
    out = []
    # two packages with two versions depending on each other in all ways
    out.append(family("mutual2x2", {"a": 2, "b": 2}, [("a", "b", E2W + [">=2"]), ("b", "a", E2W + [">=2"])],
                      r(["*", "<2"], [N, "*", "==1"])))
    # chain and cycle of three
    out.append(family("tri", {"a": 2, "b": 2, "c": 2},
                      [("a", "b", E2), ("a", "c", E2), ("b", "c", E2), ("b", "a", [N, "==1"]), ("c", "a", [N, "==2"])],
                      r(["*"], [N, "*"], [N, "*"])))
    # diamond
    out.append(family("diamond", {"a": 2, "b": 2, "c": 2, "d": 2},
                      [("a", "c", E2), ("b", "d", E2), ("a", "d", [N, "==1"]), ("b", "c", [N, "==2"]),
                       ("c", "d", E2)], r(["*"], ["*"])))
    # three versions: ranges of dependants are merged
    out.append(family("three", {"a": 3, "b": 3}, [("a", "b", E3), ("b", "a", [N, "<3", ">=2"])], r(["*", "!=2"], [N, "*", ">=2"])))
    out.append(family("three-asc", {"a": 3, "b": 3, "c": 2}, [("a", "b", [N, "==1", ">=2"]), ("b", "c", E2),
                                                              ("c", "a", [N, ">1"])], r(["*", "<3"], [N, "*"]), "asc"))
    # a missing package and a package without versions
    out.append(family("missing", {"a": 2, "b": 2, "m": 0}, [("a", "b", E2), ("a", "m", [N, "*"]), ("b", "m", [N, "==1"]),
                                                            ("b", "z", [N, "*"])], r(["*"], [N, "*", "==1"])))
    # malformed versions ("M" in an option list makes the whole version malformed)
    out.append(family("malformed", {"a": 3, "b": 2, "c": 2}, [("a", "b", ["M", N, "==1", "==2"]), ("b", "c", ["M", N, "==1"]),
                                                              ("c", "b", ["M", N, "==2"])], r(["*", "<3"], [N, "*"])))
    # several constraints of one version on the same package
    out.append(family("double", {"a": 2, "b": 3}, [("a", "b", [N, ">=2", "<3"]), ("a", "b", [N, "<2", "!=2", "==3"]),
                                                   ("b", "a", [N, "==1"])], r(["*"], [N, ">1"])))
    # one version of a package depends on its own package
    out.append(family("self", {"a": 3, "b": 2}, [("a", "a", [N, "*", "==2", ">=2"]), ("a", "b", E2), ("b", "a", E2)],
                      r(["*"], [N, "*"])))
    # pre-releases, epochs and urls as versions
    out.append(family("kinds", {"a": ["2.0", "2.0a1", "1!0.1"], "b": ["https://h/b.zip", "1.0", "https://h/c.zip"]},
                      [("a", "b", [N, "@https://h/b.zip", "*", "==1.0", "@https://h/none.zip"]),
                       ("b", "a", [N, "<2", ">=2", "==1!0.1"])], r(["*"], [N, "@https://h/b.zip", "@https://h/c.zip"])))
    if thorough:
        out.append(family("tri-full", {"a": 2, "b": 2, "c": 2},
                          [(x, y, E2) for x in "abc" for y in "abc" if x != y], r(["*"])))
        out.append(family("mutual3x3", {"a": 3, "b": 3}, [("a", "b", E3 + ["==9"]), ("b", "a", E3)],
                          r(["*"], [N, "*"])))
        out.append(family("wide", {"a": 2, "b": 2, "c": 2, "d": 2},
                          [("a", "b", E2), ("a", "c", E2), ("b", "d", E2), ("c", "d", E2), ("d", "b", [N, "==1"])],
                          r(["*"]), "asc"))
        out.append(family("chain5", {"a": 2, "b": 2, "c": 2, "d": 2, "e": 2},
                          [("a", "b", E2), ("b", "c", E2), ("c", "d", E2), ("d", "e", E2), ("e", "b", [N, "==1"])],
                          r(["*"], [N, "*"])))
    return out


def universe_at(fam, idx, root):
    """decodes universe number idx of a family"""
    name, versions, edges, _, order = fam
    pk = {}
    vlist = {p: (V(n, order) if isinstance(n, int) else list(n)) for p, n in versions.items()}
    for p, vs in vlist.items():
        pk[p] = {v: [] for v in vs}
    for p, d, opts in edges:
        for v in vlist[p]:
            idx, k = divmod(idx, len(opts))
            o = opts[k]
            if o == "M":
                pk[p][v] = None
            elif o is not None and pk[p][v] is not None:
                pk[p][v].append((d, o))
    return pk


def size(fam):
    n = 1
    for p, d, opts in fam[2]:
        k = fam[1][p] if isinstance(fam[1][p], int) else len(fam[1][p])
        n *= len(opts) ** k
    return n


def shard(args, part: Part):
    thorough, todo = args
    fams = families(thorough)
    for fi, lo, hi, step in todo:
        fam = fams[fi]
        for idx in range(lo, hi, step):
            pk = universe_at(fam, idx, None)
            for root in fam[3]:
                err, outcome, nontrivial = judge(pk, root)
                part.case((fi, idx, tuple(root)), nontrivial, sample={"root": root, "packages": pk}, outcome=f"{fam[0]}:{outcome}")
                if err:
                    part.violation(f"{fam[0]} root={root} packages={pk}", {"pk": pk, "root": root},
                                   f"root needs {root}, packages {pk}: {err}")


def run(ck: Check):
    fams = families(ck.thorough)
    sizes = {f[0]: size(f) * len(f[3]) for f in fams}
    ck.extra["universes"] = sizes
    shards = []
    for k in range(32):
        shards.append((ck.thorough, [(i, k, size(f), 32) for i, f in enumerate(fams)]))
    parallel(ck, shard, shards)


def replay(case):
    pk = {p: {v: None if d is None else [tuple(x) for x in d] for v, d in vs.items()} for p, vs in case["pk"].items()}
    return judge(pk, [tuple(x) for x in case["root"]])[0]
