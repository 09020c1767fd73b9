"""C11 uninstallation and the queries about what is needed: every history of operations up to a depth on real environments."""
import itertools

from mc import fsbox, pyenv
from mc.checks import c10
from mc.checks.c10 import I, U
from mc.core import Check, Part, parallel, shard_list
from mc.histories import Dep, Node, Universe, World, canonical, explore, key, prepare_home

PROPERTY = "C11"
LEVEL = "model_checking"
RULE = ("breadth-first over all histories of installations, uninstallations (of one or more packages, however spelled, "
        "installed or not) and forced removals up to a depth, over families of package universes and initial environments "
        "(also such with broken requirements). Every uninstallation is executed by the real code on a real environment and "
        "compared with reachability in the model; in every reached state the queries for requested packages, orphans and "
        "installation trees are compared with the model. non-trivial: distinct (state, removal) that changes the environment, "
        "distinct non-empty states")


def F(*names):
    return ("force", names)


def check_uninstall(w: World, node: Node, action, r, packages, env):
    u = w.u
    kind, names = action[0], action[1]
    before, old = node.packages, node.versions
    new = {k: v for k, (v, _) in packages.items()}
    given = {key(n) for n in names}
    errors = []
    if r[0] == "err":
        return [f"fails with {r[1]}: {r[2]}"]
    if r[0] != "ok":
        return errors
    returned = r[1]

    if kind == "force":
        want = {k: v for k, v in before.items() if k not in given}
        if packages != want:
            errors.append(f"{packages} is installed after the forced removal instead of {want}")
        must_gone = given & set(old)
    else:
        requests = [d for k, d in node.requests.items() if k not in given]
        needed = u.closure(old, requests, check=False)
        was_needed = u.closure(old, list(node.requests.values()), check=False)
        related = u.closure(old, [Dep(n) for n in given] + [d for k, d in node.requests.items() if k in given], check=False)
        must_gone = ((given & set(old)) | (was_needed - needed)) - needed
        may_go = (related | given) - needed
        for k in sorted(old):
            if k in needed and k not in new:
                errors.append(f"{k} was removed although {[d.text for d in requests]} needs it")
            elif k in must_gone and k in new:
                errors.append(f"{k} was not removed although nothing requested needs it any more")
            elif k not in new and k not in may_go:
                errors.append(f"{k} was removed although it has nothing to do with {', '.join(names)}")
        for k, v in new.items():
            if k not in old:
                errors.append(f"{k} appeared")
            elif v != old[k]:
                errors.append(f"{k} changed from {old[k]} to {v}")
        marks = {k: (None if k in given else q) for k, (_, q) in before.items() if k in new}
        got = {k: q for k, (_, q) in packages.items()}
        if marks != got and not errors:
            errors.append(f"the user requests are {got} instead of {marks}")
    if not isinstance(returned, (set, list, tuple, frozenset)):
        errors.append(f"returned {returned!r}")
    else:
        gone = {n for n in names if key(n) in old and key(n) not in new}
        if not set(returned) <= set(names) and {key(n) for n in returned} != {key(n) for n in gone}:
            errors.append(f"reports {sorted(returned)} as removed")
        elif {key(n) for n in returned} != {key(n) for n in gone}:
            errors.append(f"reports {sorted(returned)} as removed, removed were {sorted(gone)}")
    reported = {key(p.name): str(p.version) for p in env.site_packages.installed_packages()}
    if reported != new:
        errors.append(f"the environment reports {reported}, installed are {new}")
    return errors


def check_state(w: World, node: Node):
    u = w.u
    env = w.fresh(node)
    sp = env.site_packages
    errors = []
    try:
        want = {k: v for k, v in node.versions.items()}
        got = {key(p.name): str(p.version) for p in sp.installed_packages()}
        if got != want:
            errors.append(f"installed packages are reported as {got} instead of {want}")
        want = set(node.requests)
        got = {key(p.name) for p in sp.find_requested_packages()}
        if got != want:
            errors.append(f"requested packages are reported as {sorted(got)} instead of {sorted(want)}")
        needed = u.closure(node.versions, list(node.requests.values()), check=False)
        want = set(node.versions) - needed
        got = {key(p.name) for p in sp.find_orphan_packages()}
        if got != want:
            errors.append(f"orphans are reported as {sorted(got)} instead of {sorted(want)}")
        for k in [*node.versions, "nope"]:
            for n in {k, k.upper(), k.replace("-", "_")}:
                want = u.closure(node.versions, [Dep(n)], check=False)
                got = [key(p.name) for p in sp.installation_tree_of(n)]
                # extras that were requested for the root may be followed as well
                most = u.closure(node.versions, [Dep(n)] + [d for d in node.requests.values() if d.key == k], check=False)
                if len(got) != len(set(got)) or not want <= set(got) <= most:
                    errors.append(f"the installation tree of {n} is reported as {sorted(got)} instead of {sorted(want)}")
                p = sp.installed_package(n)
                if (p is not None) != (k in node.versions):
                    errors.append(f"installed_package({n}) is {p}")
    except Exception as e:  # noqa
        errors.append(f"a query about the installed packages fails: {type(e).__name__}: {e}")
    return errors


def curated():
    yield Universe("chain", {
        "a": {"1.0": ["b"]}, "b": {"1.0": ["x"], "2.0": ["x"]}, "c": {"1.0": ["b <2", "y"]}, "d": {"1.0": []},
        "x": {"1.0": []}, "y": {"1.0": []}},
        [I("a"), I("c"), I("b"), I("d"), I("x", user_requested=False), I("d", user_requested=False), I("a", "c"),
         U("a"), U("b"), U("c"), U("x"), U("a", "c"), U("c", "a"), U("a", "x"), U("nope"), U("nope", "a"), U("a", "a"), U("b", "x", "a"), U(),
         F("b"), F("x"), F("nope", "a")], 3)
    yield Universe("names", {
        "My-Pkg": {"1.0": ["some.dep"]}, "some-dep": {"1.0": ["Other_one"]}, "other.one": {"1.0": []}, "last": {"1.0": ["my_PKG", "Some.Dep"]}},
        [I("my_pkg"), I("Last"), I("Some_Dep"), U("my.pkg"), U("My-Pkg"), U("MY_PKG"), U("some_dep"), U("Some.Dep"), U("Other-One"), U("last"),
         U("my-pkg", "last"), U("Last", "My.Pkg"), U("my.pkg", "MY-pkg"), U("no_pkg"), F("my_pkg"), F("Some.Dep", "LAST")], 3)
    yield Universe("extras", {
        "a": {"1.0": ["x ; extra == 'e'", "y ; os_name == 'nt'", "z ; os_name == 'posix'"]},
        "b": {"1.0": ["a[e]"]}, "c": {"1.0": ["x ; extra == 'f'", "a[E] ; extra == 'e'"]}, "x": {"1.0": []}, "y": {"1.0": []}, "z": {"1.0": []}},
        [I("a"), I("a[e]"), I("a[E]"), I("b"), I("c[f]"), I("c"), I("c[e]"), I("x"), I("y", "z"), I("y", user_requested=False),
         U("a"), U("b"), U("x"), U("y"), U("z"), U("c"), U("a", "b"), F("x"), F("a")], 3)
    yield Universe("cycle", {
        "a": {"1.0": ["b"]}, "b": {"1.0": ["a", "c"]}, "c": {"1.0": ["d"]}, "d": {"1.0": ["c"]}, "e": {"1.0": ["c"]}},
        [I("a"), I("b"), I("c"), I("e"), I("d", user_requested=False), U("a"), U("b"), U("c"), U("d"), U("e"), U("a", "b"), U("a", "e"), U("c", "e"), F("c"), F("b")], 3)
    broken = {"a": {"1.0": ["b >=2"], "2.0": ["gone"]}, "b": {"1.0": ["x"], "2.0": []}, "x": {"1.0": [], "2.0": []},
              "c": {"1.0": ["x <2", "b"]}, "p": {"1.0": ["x ==3.0 ; os_name == 'posix'"]}}
    yield Universe("broken", broken,
        [U("a"), U("b"), U("c"), U("x"), U("p"), U("a", "c"), U("c", "p"), F("x"), F("b")], 2, initial=[
            [("a", "1.0", "a"), ("b", "1.0", None), ("x", "1.0", None)],
            [("a", "1.0", "a ==2.0"), ("b", "1.0", "b"), ("x", "1.0", None), ("c", "1.0", "c")],
            [("a", "2.0", "a"), ("c", "1.0", "c"), ("x", "2.0", None)],
            [("p", "1.0", "p"), ("x", "2.0", "x <2"), ("c", "1.0", None), ("b", "2.0", None)],
            [("c", "1.0", "c"), ("p", "1.0", None), ("x", "1.0", "x"), ("b", "1.0", None)],
            [("a", "2.0", "a ; os_name == 'nt'"), ("c", "1.0", "c ==1.*"), ("b", "1.0", None), ("x", "2.0", None)],
            [("a", "1.0", "a @ https://example.org/a.whl"), ("c", "1.0", "c"), ("b", "2.0", None), ("x", "1.0", None)],
            [("b", "1.0", "b @ https://example.org/b-1.0.whl"), ("c", "1.0", "c"), ("x", "1.0", None), ("a", "2.0", None)]])
    yield Universe("prereleases", {
        "a": {"1.0": ["b"], "2.0rc1": []}, "b": {"1.0b1": ["x >=1.0.dev1"]}, "x": {"1.0.dev2": []}, "d": {"1.0": ["x"]}},
        [U("a"), U("b"), U("x"), U("d"), U("a", "d")], 2, initial=[
            [("a", "1.0", "a"), ("b", "1.0b1", None), ("x", "1.0.dev2", None), ("d", "1.0", "d")],
            [("a", "2.0rc1", "a"), ("b", "1.0b1", "b"), ("x", "1.0.dev2", "x")],
            [("a", "1.0", None), ("b", "1.0b1", "b >=1.0b1"), ("x", "1.0.dev2", None), ("d", "1.0", None)]])


NAMES = "abcd"


def graphs(thorough):
    """all dependency graphs of 3 packages (thorough: 4 packages with at most 4 edges), every set of requested packages"""
    names = NAMES[:4 if thorough else 3]
    edges = [(p, q) for p in names for q in names if p != q]
    removals = [s for k in range(1, 3) for s in itertools.combinations(names, k)]
    for n in range(0, (4 if thorough else len(edges)) + 1):
        for chosen in itertools.combinations(edges, n):
            u = Universe("graph " + " ".join(p + ">" + q for p, q in chosen),
                         {p: {"1.0": [q for x, q in chosen if x == p]} for p in names}, [U(*s) for s in removals], 1)
            u.initial = [[(p, "1.0", p if p in req else None) for p in names]
                         for k in range(len(names) + 1) for req in itertools.combinations(names, k)]
            yield u


BASE = None
ARGS = {}


def run_curated(items, part: Part):
    for name, init, act in items:
        u = next(x for x in curated() if x.name == name)
        if ARGS["thorough"] and len(u.initial) == 1:
            u.depth += 1
        w = World(BASE, u)
        u.initial = [u.initial[init]]
        n = w.initial(u.initial[0])
        action = u.actions[act]
        explore(w, part, None, check_uninstall, check_state if act == 0 else None, actions=[action], depth=1, start=[n])
        r, packages, errors, _ = w.run(n, action)
        if errors or canonical(u, packages) == canonical(u, n.packages):
            continue
        n2 = Node(packages, fsbox.snapshot(w.root / "lib/site-packages"), n.history + [action], 1)
        explore(w, part, None, check_uninstall, check_state, start=[n2])


def run_graphs(items, part: Part):
    for u in items:
        explore(World(BASE, u), part, None, check_uninstall, check_state)


def run(ck: Check):
    global BASE
    prepare_home()
    pyenv.base_introspection()
    ARGS["thorough"] = ck.thorough
    with fsbox.base_dir() as BASE:
        starts = [(u.name, i, a) for u in curated() for i in range(len(u.initial)) for a in range(len(u.actions))]
        parallel(ck, run_curated, shard_list(starts, len(starts)))
        parallel(ck, run_graphs, shard_list(list(graphs(ck.thorough)), 64))
    ck.assumptions.append("installed packages are wheels with one module in a site with one directory; operations run one after another")


def replay(case):
    global BASE
    prepare_home()
    pyenv.base_introspection()
    with fsbox.base_dir() as BASE:
        u = Universe(case["universe"], case["packages"], [], foreign=case["foreign"])
        return c10.replay_case(BASE, u, case, check_uninstall, check_state)
