"""C10 installation into an environment: every history of operations up to a depth, executed on real environments."""
import itertools

from mc import fsbox, pyenv
from mc.core import Check, Part, parallel, shard_list
from mc.histories import (Dep, Node, Universe, World, canonical, explore, key, prepare_home, quiet)

PROPERTY = "C10"
LEVEL = "model_checking"
RULE = ("breadth-first over all histories of installations (with updates, overrides, store modes and different spellings of "
        "names) and uninstallations up to a depth, over families of package universes and initial environments; states are "
        "the installed packages with their versions and user requests. Every installation is executed by the real code on a "
        "real environment and its result compared with a brute-force model of what it may and must change. non-trivial: "
        "distinct (state, installation) that changes the environment or fails")


def I(*deps, **opts):
    return ("install", deps, tuple(sorted(opts.items())))


def U(*names):
    return ("uninstall", names)


def A(name, version, *request):
    return ("update_at", ((name, version),), *request)


def check_install(w: World, node: Node, action, r, packages, env):
    u = w.u
    if action[0] == "update_at":
        ((n, v),) = action[1]
        q = action[2] if len(action) > 2 else node.packages.get(key(n), (None, None))[1]
        want = {**node.packages, key(n): (v, q)}
        if r[0] != "ok":
            return [f"fails with {r[1]}: {r[2]}"]
        if canonical(u, packages) != canonical(u, want):
            return [f"{packages} is installed instead of {want}"]
        return []
    deps, opts = [Dep(d) for d in action[1]], dict(action[2])
    deps = [d for d in deps if d.applies(())]
    overrides = {key(k): Dep(v) for k, v in opts.get("override", ())}
    user = opts.get("user_requested", True)
    updates = {key(n) for n in opts.get("updates", ())}
    before, old = node.packages, node.versions
    new = {k: v for k, (v, _) in packages.items()}
    new_keys = {d.key for d in deps}
    old_requests = {k: d for k, d in node.requests.items()}
    remaining = [d for k, d in old_requests.items() if k not in new_keys]
    replaced = [d for k, d in old_requests.items() if k in new_keys]
    errors = []
    marked = deps
    deps = [overrides.get(d.key, d) for d in deps]  # an override replaces a dependency wherever it occurs
    new_keys |= {d.key for d in deps}

    # what solutions exist?
    candidates = {}
    for k in set(u.repo) | set(old):
        vs = list(u.repo.get(k, ()))
        if k in old and old[k] not in vs:
            vs.append(old[k])
        candidates[k] = vs
    remaining_o = [overrides.get(d.key, d) for d in remaining]
    intact = {k for k, d in old_requests.items() if u.closure(old, [d], {}) is not None}

    if r[0] == "err":
        if r[1] != "UnsolvableProblemException":
            errors.append(f"the installation fails with {r[1]}: {r[2]}")
        if packages != before:
            errors.append(f"the installation failed, but the environment changed from {before} to {packages}")
        hard = deps + remaining_o + ([] if user else replaced)
        if not errors and u.solvable(hard, candidates, overrides):
            errors.append(f"reported as unsolvable, but {[d.text for d in hard]} can be satisfied")
        return errors
    if r[0] != "ok":
        return errors

    # the new dependencies work
    for d in deps:
        if u.closure(new, [d], overrides) is None:
            errors.append(f"{d.text} was installed, but it (or one of its dependencies) is not satisfied by {new}")
    # what the user requested before still works
    for d in remaining:
        if d.key in intact and u.closure(new, [d], {}) is None and u.closure(new, [overrides.get(d.key, d)], overrides) is None:
            errors.append(f"{d.text} was requested and worked before, now it (or one of its dependencies) is not satisfied by {new}")
    # the marks of user requests
    marks = {k: q for k, (_, q) in before.items() if q is not None and k in new}
    if user:
        for d in marked:
            marks[d.key] = d.text
    for k, q in old_requests.items():
        if k not in new:
            errors.append(f"the requested package {k} was removed")
    got = {k: q for k, (_, q) in packages.items() if q is not None}
    want_c, got_c = (dict((c[0], c[2]) for c in canonical(u, {k: (new.get(k, "0"), q) for k, q in m.items()})) for m in (marks, got))
    if len({d.key for d in marked}) == len(marked) and want_c != got_c and not errors:
        errors.append(f"the user requests are {got} instead of {marks}")
    # nothing else is added
    reach = u.closure(new, deps + list(old_requests.values()), overrides, check=False)
    plain = u.closure(new, deps + list(old_requests.values()), {}, check=False)
    if extra := sorted(set(new) - set(old) - reach - plain):
        errors.append(f"{extra} got installed although nothing needs them")
    # what is installed is kept as it is, when this is possible
    fixed = {k: v for k, v in old.items() if k not in updates}
    best = {k: [max(u.repo[k], key=lambda v: tuple(map(int, v.split("."))))] for k in u.repo}
    cand = {}
    for k in candidates:
        if k in fixed:
            cand[k] = [fixed[k]]
        elif any(d.key == k and d.unspecified for d in deps) or (k in updates and k in best):
            cand[k] = best.get(k, [])
        else:
            cand[k] = candidates[k]
    all_kept = [overrides.get(d.key, d) for d in remaining if d.key in intact]
    possible = u.solvable(deps + all_kept, cand, overrides)
    if possible:
        for k, v in fixed.items():
            if new.get(k) != v:
                errors.append(f"{k} {v} became {new.get(k)}, although {[d.text for d in deps]} can be installed without changing it")
        for d in deps:
            if (d.unspecified and d.key not in fixed) and new.get(d.key) not in best[d.key]:
                errors.append(f"{d.key} {new.get(d.key)} was installed although its version {best[d.key][0]} works")
    if possible:
        for k in old:
            if k not in new:
                errors.append(f"{k} was removed")
    # store modes
    for n, mode in opts.get("store", ()):
        p = env.site_packages.installed_package(n)
        if p is not None and key(n) in new_keys and old.get(key(n)) != new.get(key(n)) and p.installation_info.store_mode.name != mode:
            errors.append(f"{n} is installed with store mode {p.installation_info.store_mode.name} instead of {mode}")
    # what the environment reports
    reported = {key(p.name): str(p.version) for p in env.site_packages.installed_packages()}
    if reported != new:
        errors.append(f"the environment reports {reported}, installed are {new}")
    return errors


# --------------------------------------------------------------------------------------------------------- universes
def curated():
    yield Universe("chain", {
        "a": {"1.0": ["b"], "2.0": ["b >=2"]}, "b": {"1.0": [], "2.0": [], "3.0": ["x"]}, "c": {"1.0": ["b <2"], "2.0": ["b <3"]},
        "d": {"1.0": []}, "x": {"1.0": []}},
        [I("a"), I("a ==1.0"), I("b"), I("b <2"), I("b ==2.0"), I("c"), I("c ==1.0"), I("a", "c"), I("d"), I("b", user_requested=False),
         I("a", updates=("a",)), I("a", updates=("a", "b")), I("d", updates=("b",)), I("d", updates=("a",)), I("b", updates=("b",)),
         I("c", updates=("x", "b")), I("nope"), I("a >=3"), A("b", "2.0"), A("a", "1.0"), A("c", "1.0", "c"), A("b", "1.0", "b <2"), U("a"), U("b")], 2)
    yield Universe("names", {
        "My-Pkg": {"1.0": ["some.dep"], "2.0": ["Some_Dep >=2"]}, "some-dep": {"1.0": [], "2.0": []}, "other": {"1.0": ["my.pkg <2"]}},
        [I("my_pkg"), I("My.Pkg ==1.0"), I("MY-PKG <2"), I("other"), I("Some.Dep <2"), I("my-pkg", updates=("my-pkg",)),
         I("My_Pkg", updates=("My.Pkg",)), I("other", updates=("Some-Dep",)), I("other", updates=("some_dep",)),
         I("My-Pkg", store=(("My-Pkg", "EDITABLE"),)), I("My-Pkg", store=(("my_pkg", "COPY"),)), I("my_pkg ==1.0", store=(("my_pkg", "EDITABLE"),)),
         I("My-Pkg", user_requested=False, store=(("my-pkg", "EDITABLE"),)), I("other", "My.Pkg", updates=("my_pkg",)), U("my.pkg")], 2)
    yield Universe("extras", {
        "a": {"1.0": ["x ; extra == 'e'", "y ; os_name == 'nt'", "z ; os_name == 'posix'"],
              "2.0": ["x >=2 ; extra == 'e'", "w ; extra == 'f'", "z"]},
        "b": {"1.0": ["a[e]"]}, "c": {"1.0": ["a[E,f] <2", "x<2"]}, "x": {"1.0": [], "2.0": []}, "y": {"1.0": []},
        "z": {"1.0": [], "2.0": []}, "w": {"1.0": []}},
        [I("a"), I("a[e]"), I("a[f]"), I("a[E,F]"), I("a ==1.0"), I("b"), I("c"), I("x <2"), I("y ; os_name == 'nt'", "z"), I("z ==1.0"),
         I("b", updates=("a",)), I("x", user_requested=False), U("a"), U("b")], 2)
    yield Universe("cycle", {
        "a": {"1.0": ["b ==1.0"], "2.0": ["b ==2.0"]}, "b": {"1.0": ["a ==1.0"], "2.0": ["a"]}, "c": {"1.0": ["a"], "2.0": ["b >=2"]}},
        [I("a"), I("b"), I("a ==1.0"), I("b ==1.0"), I("c"), I("c ==1.0"), I("c", updates=("a",)), I("b", updates=("b",)), U("a"), U("c")], 2)
    yield Universe("minor", {
        "a": {"1.0.0": [], "1.1.0": [], "1.1.5": ["k <2"], "2.0.0": ["k >=2"], "2.0.1": ["k >=2"]}, "c": {"1.0": ["a <2"], "2.0": ["a"]},
        "k": {"1.0": [], "2.0": []}},
        [I("a"), I("a <2"), I("c"), I("k"), I("k ==1.0"), I("c ==1.0"), I("a", "k <2"), I("a", updates=("a",)), I("a", updates=("a", "k")), U("c")], 2)
    yield Universe("foreign", {
        "a": {"1.0": ["b"], "2.0": ["b ==2.0"]}, "b": {"1.0": [], "2.0": []}, "c": {"1.0": ["b ==1.0"]}, "e": {"1.0": ["p"], "2.0": ["p <3"]},
        "p": {"1.0": [], "2.0": []}},
        [I("a"), I("a ==2.0"), I("b"), I("b ==2.0"), I("c"), I("p"), I("p <5"), I("e"), I("e ==2.0"), I("q"), I("b", updates=("b",)), I("e", updates=("p",)), U("q")],
        2, foreign={"q": {"1.0": ["b"]}, "p": {"3.0": ["b"], "2.5": []}},
        initial=[[("q", "1.0", "q"), ("b", "1.0", None)], [("q", "1.0", None), ("b", "1.0", None)],
                 [("p", "3.0", "p"), ("b", "1.0", None)], [("p", "2.5", None), ("e", "1.0", "e")],
                 [("q", "1.0", "q ==1.0"), ("b", "1.0", "b <2"), ("p", "2.5", "p")]])
    yield Universe("override", {
        "a": {"1.0": ["b ==1.0"], "2.0": ["b ==2.0"]}, "b": {"1.0": [], "2.0": [], "3.0": []}, "c": {"1.0": ["b <3"]},
        "D-d": {"1.0": ["b ==1.0"]}},
        [I("a"), I("a", override=(("b", "b ==3.0"),)), I("a", override=(("B", "b >=2"),)), I("b"), I("b ==2.0"), I("c"),
         I("c", "a", override=(("b", "b ==2.0"),)), I("b ==3.0", "D-d", override=(("b", "b"),)),
         I("D.d", override=(("b", "c"),)), U("a")], 2)
    yield Universe("several", {
        "a": {"1.0": [], "2.0": ["b"], "3.0": ["b"]}, "b": {"1.0": ["y; extra=='e'".replace("extra==", "extra == ").replace("y;", "y ;")]}, "y": {"1.0": []}},
        [I("a >=2", "a <3"), I("a <3", "a >=2"), I("a", "a ==1.0"), I("b", "b[e]"), I("b[e]", "b"), I("a <2", "a >=2"),
         I("a ==1.0 ; os_name == 'nt'", "a"), I("a"), U("b")], 2)


BASIC = [I("a"), I("a ==1.0"), I("b"), I("b ==1.0"), I("c"), I("b ==2.0", user_requested=False), I("a", updates=("a",)), I("c", updates=("b",)),
         I("a", "c"), U("a"), U("b")]


def grid(thorough):
    a_opts = [[], ["b ==1.0"], ["b ==2.0"], ["b"]]
    c_opts = [["b ==1.0"], ["b ==2.0"], ["a"], ["a ==1.0"], ["a ==1.0", "b"]]
    b_opts = [[], ["c"]]
    for (i, a1), (j, a2), (k, c), (m, b2) in itertools.product(enumerate(a_opts), enumerate(a_opts), enumerate(c_opts), enumerate(b_opts)):
        if not thorough and (m and (k < 2 or i == 0) or i == j):
            continue
        yield Universe(f"grid a1->{','.join(a1)} a2->{','.join(a2)} c->{','.join(c)} b2->{','.join(b2)}",
                       {"a": {"1.0": a1, "2.0": a2}, "b": {"1.0": [], "2.0": b2}, "c": {"1.0": c}}, BASIC, 3 if thorough else 2)


def universes(thorough):
    out = []
    for u in curated():
        # the first operation is split over the workers
        u.depth = 3 if thorough else 2
        out.append(u)
    return out


BASE = None


def run_curated(items, part: Part):
    for name, first in items:
        u = next(x for x in curated() if x.name == name)
        if ARGS["thorough"]:
            u.depth = 3
        w = World(BASE, u)
        explore_from(w, part, first)


def explore_from(w: World, part: Part, first):
    """explores the histories that start with the initial state and operation of these indexes"""
    u = w.u
    init, act = first
    u.initial = [u.initial[init]]
    n = w.initial(u.initial[0])
    action = u.actions[act]
    explore(w, part, check_install, None, actions=[action], depth=1)
    r, packages, errors, _ = w.run(n, action)
    if errors:
        return
    n2 = Node(packages, fsbox.snapshot(w.root / "lib/site-packages"), n.history + [action], 1)
    explore(w, part, check_install, None, start=[n2])


def run_grid(items, part: Part):
    for u in items:
        explore(World(BASE, u), part, check_install, None)


ARGS = {}


def run(ck: Check):
    global BASE
    prepare_home()
    pyenv.base_introspection()
    ARGS["thorough"] = ck.thorough
    with fsbox.base_dir() as BASE:
        starts = [(u.name, (i, a)) for u in curated() for i in range(len(u.initial)) for a in range(len(u.actions))]
        parallel(ck, run_curated, shard_list(starts, len(starts)))
        parallel(ck, run_grid, shard_list(list(grid(ck.thorough)), 64))
    ck.assumptions.append("the repository is held in memory and its packages are wheels with one module; a site with one directory; "
                          "operations run one after another (concurrent execution is C12)")


def replay(case):
    global BASE
    prepare_home()
    pyenv.base_introspection()
    with fsbox.base_dir() as BASE:
        u = Universe(case["universe"], case["packages"], [], foreign=case["foreign"])
        return replay_case(BASE, u, case, check_install)


def replay_case(base, u, case, checker=None, state_checker=None):
    def tup(x):
        return tuple(tup(i) for i in x) if isinstance(x, list) else x

    w = World(base, u)
    hist = [tup(a) for a in case["initial"]]
    n = w.initial([h[1:] for h in hist if h[0] == "have"])
    ops = [h for h in hist if h[0] != "have"]
    for op in ops:
        r, packages, errors, _ = w.run(n, op)
        n = Node(packages, fsbox.snapshot(w.root / "lib/site-packages"), n.history + [op], 0)
    if not case["action"]:
        return "\n".join(state_checker(w, n)) if state_checker else None
    action = tup(case["action"])
    r, packages, errors, env = w.run(n, action)
    return "\n".join(errors + (checker(w, n, action, r, packages, env) if checker else [])) or None
