"""C03 version specifier algebra: explicit-state closure of specifiers under the real set operations."""
import itertools

from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.versions.version import NamedVersion, Version
from pkm.api.versions.version_specifiers import (AllowAllVersions, RestrictAllVersions, VersionMatch,
                                                 VersionSpecifier)

PROPERTY = "C03"
LEVEL = "model_checking"
RULE = ("breadth-first closure of a set of atomic specifiers under the real intersect/union/difference/inverse; a "
        "state is a distinct specifier (by rendering), a transition one operation with an atom on either side. the "
        "reference model of a state is its set of allowed versions over a universe with a version on, below and "
        "between all bounds; every transition compares the implementation with set algebra, and re-checks that the "
        "operands were not changed. non-trivial: transition whose operands and result are neither empty nor full")

S, V = VersionSpecifier.parse, Version.parse


def standard_system():
    vers = ["1", "2", "3"]
    atoms = [S(o + v) for o in ("==", "!=", "<", "<=", ">", ">=") for v in vers]
    atoms += [S("==2a1"), S("<2a1"), S(">=2a1"), S(">1,<2"), S(">=1,<=3"), S(">1,<=3"), S(">=2,<3"), S("==2.*"),
              S("!=2.*"), S("~=2.0"), AllowAllVersions, RestrictAllVersions]
    return atoms, [V(x) for x in ("0.5", "1", "1.5", "2a0", "2a1", "2a2", "2", "2.5", "3a1", "3", "3.5")], "iudxAN"


def release_system():
    """bounds of different length, epoch and kind"""
    atoms = [S(x) for x in ("==1.0", "!=1.0.0", "<1.0.1", ">=1.0.1", ">1.1.dev1", "<=1.1rc1", ">=1!0", "<1!0.5",
                            "==1!0", ">=1.0a1,<1.1", "!=1.1")]
    return atoms, [V(x) for x in ("0.1", "1.0a0", "1.0a1", "1.0rc1", "1", "1.0.0.5", "1.0.1", "1.0.2", "1.1.dev0",
                                  "1.1.dev1", "1.1.dev2", "1.1a1", "1.1rc1", "1.1rc2", "1.1", "2", "1!0", "1!0.1",
                                  "1!0.5", "1!1")], "iudxAN"


def match_system():
    """exclusions of named, url and standard versions (no ranges): all operations"""
    atoms = [S("==1"), S("!=1"), S("==2"), S("!=2"), S("===x"), S("===x").inverse(), S("@ https://h/z"),
             S("@ https://h/z").inverse(), S("===y").inverse(), AllowAllVersions, RestrictAllVersions]
    return atoms, [V(x) for x in ("0.5", "1", "2", "2.5", "x", "y", "z", "https://h/z", "https://h/q")], "iudxAN"


def hetero_system():
    """ranges together with named/url versions: the operations that a range has a meaning for there - intersection,
    overlap and containment"""
    atoms = [S("==1"), S("!=1"), S("<2"), S(">=1"), S(">1,<3"), S("!=2"), S("===x"), S("===x").inverse(),
             S("@ https://h/z"), S("@ https://h/z").inverse(), AllowAllVersions, RestrictAllVersions]
    return atoms, [V(x) for x in ("0.5", "1", "1.5", "2", "2.5", "3", "x", "y", "https://h/z", "https://h/q")], "iA"


def local_system():
    """a local version is also allowed by a match on its public version"""
    atoms = [S("==1+l"), S("!=1+l"), S("==1"), S("!=1"), S("==1+m"), S("!=1+m"), S("==2"), S("!=2")]
    return atoms, [V(x) for x in ("1", "1+l", "1+m", "1+n", "2", "2+l", "3")], "iA"


SYSTEMS = {"standard": (standard_system, 2, 3), "releases": (release_system, 2, 3), "matches": (match_system, 3, 5),
           "hetero": (hetero_system, 3, 5), "local": (local_system, 2, 3)}
LIMIT = {"quick": 700, "thorough": 4000}  # frontier states expanded per level


def mem(s, universe):
    return tuple(bool(s.allows_version(v)) for v in universe)


def apply(op, a, b):
    if op == "i":
        return a.intersect_with(b)
    if op == "u":
        return a.union_with(b)
    if op == "d":
        return a.difference_from(b)
    if op == "x":
        return a.inverse()
    if op == "A":
        return a.allows_all(b)
    return a.allows_any(b)


def model(op, ma, mb):
    if op == "i":
        return tuple(x and y for x, y in zip(ma, mb))
    if op == "u":
        return tuple(x or y for x, y in zip(ma, mb))
    if op == "d":
        return tuple(x and not y for x, y in zip(ma, mb))
    if op == "x":
        return tuple(not x for x in ma)
    if op == "A":
        return all(x or not y for x, y in zip(ma, mb))
    return any(x and y for x, y in zip(ma, mb))


def step(op, a, b, universe, ma, mb):
    """-> (error or None, result)"""
    sa, sb = str(a), str(b)
    want = model(op, ma, mb)
    r = attempt(lambda: apply(op, a, b), 10)
    if r[0] != "ok":
        return f"{r[1]}: {r[2]}", None
    got = r[1]
    res = None
    if op in "AN":
        if bool(got) != want:
            return f"is {got}, expected {want}", None
    else:
        res = got
        m = mem(got, universe)
        if m != want:
            diff = [str(v) for v, x, y in zip(universe, m, want) if x != y]
            return f"= {got!s}, which is wrong for {diff}", None
        if not any(want) and op in "id" and got is not RestrictAllVersions and got.allows_any(AllowAllVersions):
            # emptiness must be recognised (the universe has a version in each gap between bounds)
            return f"= {got!s} allows nothing but is not recognised as empty", None
    if str(a) != sa or str(b) != sb or mem(a, universe) != ma or mem(b, universe) != mb:
        return f"changed its operands to {a!s} and {b!s}", None
    return None, res


_STATE = {}


def cross(idx, part: Part):
    """every operation on every ordered pair of compound specifiers"""
    name, states, universe, ops = _STATE["cross"]
    ms = [mem(b, universe) for b in states]
    for i in idx:
        for j, b in enumerate(states):
            for op in ops:
                if op == "x":
                    continue
                err, res = step(op, states[i], b, universe, ms[i], ms[j])
                part.transitions += 1
                part.case((name, i, op, j))
                if err:
                    part.violation(f"{name} {states[i]} {op} {b}",
                                   {"system": name, "hist": _STATE["hist"][i], "op": op, "hist2": _STATE["hist"][j]},
                                   f"[{name}] ({states[i]}) {op} ({b}) {err}")


def expand(idx, part: Part):
    name, states, atoms, universe, ops = _STATE["cur"]
    ams = [mem(b, universe) for b in atoms]
    found = []
    for i in idx:
        a = states[i]
        ma = mem(a, universe)
        part.states += 1
        for j, b in enumerate(atoms):
            for op in ops:
                if op == "x" and j:
                    continue
                for flip in ((False,) if op == "x" else (False, True)):
                    x, y, mx, my = (b, a, ams[j], ma) if flip else (a, b, ma, ams[j])
                    err, res = step(op, x, y, universe, mx, my)
                    part.transitions += 1
                    nontriv = 0 < sum(mx) < len(mx) and 0 < sum(my) < len(my)
                    part.case((name, str(x), op, str(y)), nontrivial=nontriv)
                    if err:
                        part.violation(f"{name} {x} {op} {y}", {"system": name, "hist": _STATE["hist"][i], "op": op,
                                                               "atom": j, "flip": flip},
                                       f"[{name}] ({x}) {op} ({y}) {err}")
                    elif res is not None:
                        found.append((str(res), i, op, j, flip))
    dedup = {}
    for f in found:
        dedup.setdefault(f[0], f)
    part.samples.append({"found": list(dedup.values())})


def build(atoms, hist):
    """rebuilds a state from its history: first atom index, then (op, atom index, flip)*"""
    s = atoms[hist[0]]
    for op, j, flip in hist[1:]:
        s = apply(op, atoms[j], s) if flip else apply(op, s, atoms[j])
    return s


def run(ck: Check):
    import mc.core as core
    for name, (mk, quick, thorough) in SYSTEMS.items():
        atoms, universe, ops = mk()
        depth = thorough if ck.thorough else quick
        seen, hists = {}, []
        for i, a in enumerate(atoms):
            if str(a) not in seen:
                seen[str(a)] = True
                hists.append([i])
        for level in range(depth):
            limit = LIMIT["thorough" if ck.thorough else "quick"]
            if len(hists) > limit:
                ck.exhaustive = False
                ck.extra.setdefault("capped", []).append(f"{name} level {level}: {limit} of {len(hists)} states")
                hists = hists[:limit]
            if not hists:
                break
            states = []
            for h in hists:
                states.append(build(atoms, h))
            _STATE["cur"] = (name, states, atoms, universe, ops)
            _STATE["hist"] = hists
            sub = Check.__new__(Check)
            collected = []

            class Merge:
                violations = ck.violations

                @staticmethod
                def merge(part):
                    for s in part.samples:
                        if isinstance(s, dict) and "found" in s:
                            collected.extend(s["found"])
                    part.samples = [s for s in part.samples if not (isinstance(s, dict) and "found" in s)]
                    ck.merge(part)

            core.parallel(Merge, expand, shard_list(list(range(len(hists))), 16))
            new = []
            for key, i, op, j, flip in collected:
                if key not in seen:
                    seen[key] = True
                    new.append(hists[i] + [(op, j, flip)])
            ck.extra.setdefault("levels", []).append(f"{name} depth {level}: {len(hists)} states expanded, {len(new)} new")
            if new and len(ck.samples) < 5:
                ck.samples.append(f"{name}: {build(atoms, new[-1])} reached by {new[-1]}")
            hists = new
            if level == 0:
                k = 400 if ck.thorough else 110
                pick = hists if len(hists) <= k else [hists[i * len(hists) // k] for i in range(k)]
                _STATE["hist"] = pick
                _STATE["cross"] = (name, [build(atoms, h) for h in pick], universe, ops)
                core.parallel(ck, cross, shard_list(list(range(len(pick))), 16))
                ck.extra["levels"].append(f"{name} all ordered pairs of {len(pick)} compound specifiers")
        # equality and hashing of every pair of atoms and of equal rebuilds
        for a, b in itertools.product(atoms, repeat=2):
            ck.case((name, "eq", str(a), str(b)))
            if (a == b) and (mem(a, universe) != mem(b, universe) or hash(a) != hash(b)):
                ck.violation(f"{name} eq {a} {b}", {"system": name, "eq": [str(a), str(b)]},
                             f"{a} == {b} but they allow different versions or hash differently")
    ck.traces = ck.transitions


def replay(case):
    mk = SYSTEMS[case["system"]][0]
    atoms, universe, ops = mk()
    a = build(atoms, [case["hist"][0]] + [tuple(x) for x in case["hist"][1:]])
    if "hist2" in case:
        b = build(atoms, [case["hist2"][0]] + [tuple(x) for x in case["hist2"][1:]])
        return step(case["op"], a, b, universe, mem(a, universe), mem(b, universe))[0]
    b = atoms[case["atom"]]
    x, y = (b, a) if case["flip"] else (a, b)
    return step(case["op"], x, y, universe, mem(x, universe), mem(y, universe))[0]
