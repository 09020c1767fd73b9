"""C21 environment zoos: histories of installations in environments that share their packages, on real trees."""
import hashlib
import io
import json
import os
from contextlib import redirect_stderr, redirect_stdout
from pathlib import Path
from types import SimpleNamespace

from mc import fsbox, pyenv
from mc.checks import c20
from mc.core import Check, Part, attempt, parallel
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environments_zoo import EnvironmentsZoo
from pkm.utils.commons import NoSuchElementException

PROPERTY = "C21"
LEVEL = "model_checking"
RULE = ("every sequence of operations (install, uninstall, containers, removing an environment, cleaning what is not used) on the "
        "environments of a zoo up to a depth, in every configuration of sharing; in every state every environment is read back and "
        "its commands are executed; for chosen histories also with every file operation of the last one failing or being the last one of "
        "its process. non-trivial: distinct (configuration, state, operation)")
SITE = c20.SITE
ENVS = {"a": (3, 12, 3), "b": (3, 8, 1)}
MORE = {
    "tagged": {"1.0": ((), {})},
    "mixed": {"1.0": ((), {"run-mixed": "mixed:main"})},
    "extra": {"1.0": (("lib<2", "tagged; extra == 'x'"), {})},
    "Up.Case": {"1.0+Loc.1": (("helper",), {"Run-Up": "up_case:main"})},
}
MODULE = {"Up.Case": "up_case"}
UNSHARED = {"mixed", "app", "helper"}  # with files outside of a single site
CONFIGS = {
    "shared": "[package-sharing]\nenabled = true\n",
    "default": "",
    "excluded": '[package-sharing]\nenabled = true\nexclude = ["lib", "UP_case"]\n',
    "off": "[package-sharing]\nenabled = false\n",
    "linked": "[package-sharing]\nenabled = true\n",  # the zoo is reached by a symbolic link
}
DEPTH = {"shared": 3, "default": 1, "excluded": 2, "off": 1, "linked": 2}
OPS = [(e, "install", *a) for e in "ab" for a in (
    ("lib",), ("lib==1.0",), ("tool", "app"), ("tagged", "mixed"), ("extra[x]",), ("Up.Case",))]
OPS += [(e, "uninstall", a) for e in "ab" for a in ("lib", "tool", "Up.Case", "extra", "tagged")]
OPS += [("a", "app", "Odd.Name"), ("b", "app", "host"), ("a", "drop", "Odd.Name"), ("a", "delete"), ("b", "delete"), (None, "clean")]


def make_wheels(path: Path):
    c20.make_wheels(path)
    for name in MORE:
        for f in path.glob(f"{name.replace('.', '_')}-*"):
            f.unlink()

    def wheel(name, version, tag, code="", files=(), extras=()):
        mod, dist = MODULE.get(name, name), name.replace(".", "_")
        d = f"{dist}-{version}.dist-info"
        content = {f"{mod}.py": c20.MAIN.format(v=version, n=mod).encode() + code.encode(),
                   f"{d}/METADATA": pyenv.metadata(name, version, MORE[name][version][0], extras=extras),
                   f"{d}/WHEEL": pyenv.wheel_text(tag=tag), **dict(files)}
        if scripts := MORE[name][version][1]:
            content[f"{d}/entry_points.txt"] = ("[console_scripts]\n" + "".join(f"{s} = {o}\n" for s, o in scripts.items())).encode()
        pyenv.write_wheel(path / f"{dist}-{version}-{tag}.whl", content, d)

    wheel("tagged", "1.0", "cp312-cp312-any", "TAG = (3, 12)\n")
    wheel("tagged", "1.0", "cp38-cp38-any", "TAG = (3, 8)\n")
    wheel("mixed", "1.0", "py3-none-any", files={"mixed-1.0.data/platlib/mixed_more.py": b"M = 1\n"})
    wheel("extra", "1.0", "py3-none-any", extras=("x",))
    wheel("Up.Case", "1.0+Loc.1", "py3-none-any",
          files={"Up_Case-1.0+Loc.1.data/scripts/up-cmd": b"#!python\nimport up_case\nup_case.main()\n"})


def extend_universe():
    c20.RAW["Up.Case"] = {"up-cmd": "up_case:main"}
    c20.PACKAGES.update(MORE)
    c20.MODULE.update(MODULE)
    c20.NORMAL["up-case"] = "Up.Case"
    c20.NAMES = tuple(dict.fromkeys((*c20.NAMES, *(MODULE.get(n, n) for n in MORE))))
    c20.SCRIPT_OWNER.update({s: n for n, vs in MORE.items() for _, scripts in vs.values() for s in scripts})
    a, _, b = c20.MAIN.partition("for m in (")
    c20.MAIN = a + "for m in " + repr(c20.NAMES) + b[b.index(")") + 1:]


class World:
    def __init__(self, base, config):
        self.base, self.config = base, config
        self.box = fsbox.worker_box(base)
        self.real = self.box.work / "zoo"
        self.root = self.box.work / ("link" if config == "linked" else "zoo")
        self.checked, self.seen = {}, set()
        self.start_server()

    def start_server(self):
        """a process without threads, whose children are those that end early"""
        requests, self.requests = os.pipe()
        self.replies, replies = os.pipe()
        if os.fork():
            os.close(requests), os.close(replies)
            return
        os.close(self.requests), os.close(self.replies)
        try:
            with os.fdopen(requests) as f:
                for line in f:
                    if not (pid := os.fork()):
                        try:
                            op, i = json.loads(line)
                            self.run(None, op, crash=i)
                        finally:
                            os._exit(0)
                    os.write(replies, b"%4d" % os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]))
        finally:
            os._exit(0)

    def crash(self, op, i):
        """-> whether the process has ended at the i-th operation of the operation"""
        os.write(self.requests, json.dumps([op, i]).encode() + b"\n")
        return int(os.read(self.replies, 4)) == 77

    def view(self, e):
        return SimpleNamespace(root=self.root / e, box=self.box)

    def fresh(self, snap=None):
        self.box.clear()
        self.box.clear(self.box.tmp)
        self.real.mkdir()
        if self.root != self.real:
            self.root.symlink_to(self.real)
        if snap is None:
            (self.root / "env-zoo.toml").write_text(CONFIGS[self.config])
            for e, python in ENVS.items():
                pyenv.write_env(self.root / e, python=python)
        else:
            fsbox.restore(self.real, snap)

    def act(self, op):
        e, kind, *args = op
        if kind == "clean":
            for each in sorted(p.name for p in self.root.iterdir() if p.name in ENVS):
                pyenv.load_env(self.root / each)
            EnvironmentsZoo.load(self.root).clean_unused_shared()
        elif kind == "delete":
            EnvironmentsZoo.load(self.root).delete_environment(e)
        else:
            env = pyenv.load_env(self.root / e)
            c20.World.act(None, env, (kind, *args))

    def run(self, snap, op, fault=None, crash=None):
        if snap is not None:
            self.fresh(snap)
        for e in ENVS:
            if (self.root / e).exists():
                pyenv.load_env(self.root / e)
        self.box.fault_at, self.box.crash_at = fault, crash
        with redirect_stderr(io.StringIO()), redirect_stdout(io.StringIO()):
            with self.box:
                r = attempt(lambda: self.act(op), 60)
        self.box.crash_at = None
        return r, self.snapshot()

    def snapshot(self):
        return {p: v for p, v in fsbox.snapshot(self.real).items() if "__pycache__" not in p and p.split("/")[1:2] != ["etc"]}


def part_of(snap, e):
    return {p[len(e) + 1:]: v for p, v in snap.items() if p.startswith(e + "/")}


def artifacts(snap):
    """the shared artifacts: their directories in the zoo"""
    return {p[:-len("/METADATA")].rpartition("/")[0] for p in snap
            if p.startswith(".zoo/shared/") and p.endswith("/METADATA") and "/." not in p[4:]}


def used(snap, root):
    """the directories that the environments link to"""
    out = set()
    for p, v in snap.items():
        if p.split("/")[0] in ENVS and p.endswith(".pth") and v[0] == "f":
            for line in v[2].decode().splitlines():
                if line.startswith("/") and (rel := os.path.relpath(os.path.realpath(line), root)).startswith(".zoo"):
                    out.add(rel)
    return out


def sharing(config, name):
    if config == "off" or name in UNSHARED:
        return False
    return not (config == "excluded" and name in ("lib", "Up.Case"))


def enabled(states, op):
    e, kind, *args = op
    if kind == "clean":
        return True
    if e not in states:
        return False
    if kind == "drop":
        return args[0] in states[e].containers
    if kind == "uninstall":
        return args[0] in {n.split("[")[0] for n in states[e].plain}
    return True


def plain_op(op):
    """as c20 knows it, extras aside"""
    return tuple(a.replace("[x]", "") for a in op[1:])


def check_transition(w: World, before, states, op, r, after, versions):
    e, kind, *args = op
    errors = [f"changed outside of the zoo: {x}" for x in w.box.escapes]
    if r[0] == "timeout":
        return errors + ["does not end"], None
    for other in ENVS:
        if other != e:
            errors += [f"changes the environment {other}: {d}" for d in fsbox.diff(part_of(before, other), part_of(after, other))[:3]]
    errors += [f"changes the zoo: {d}" for d in fsbox.diff(*({p: v for p, v in s.items() if p.split("/")[0] not in (*ENVS, ".zoo")}
                                                                  for s in (before, after)))[:3]]
    kept = artifacts(before) & (used(after, w.real) if kind == "clean" else artifacts(before))
    for d in fsbox.diff(*({p: v for p, v in s.items() if any(p.startswith(k + "/") for k in kept)} for s in (before, after)))[:3]:
        errors.append(f"changes what is shared: {d}")
    if left := os.listdir(w.box.tmp):
        errors.append(f"left in the temporary directory: {len(left)} entries")
    states = {k: s.copy() for k, s in states.items()}
    if kind == "clean":
        if r[0] != "ok":
            return errors + [f"fails: {r[1]} {r[2]}"], None
        if w.config != "off":
            wanted = {a for a in artifacts(before) if any(u == a or u.startswith(a + "/") for u in used(before, w.real))}
            if artifacts(after) != wanted:
                errors.append(f"after cleaning {sorted(artifacts(after))} are there, used are {sorted(wanted)}")
            errors += [f"after cleaning, {p} is there" for p in sorted(after) if p.startswith(".zoo/shared/") and not any(
                (k + "/").startswith(p + "/") or p.startswith(k + "/") for k in wanted)][:3]
        return errors, states
    if kind == "delete":
        if r[0] != "ok":
            return errors + [f"fails: {r[1]} {r[2]}"], None
        errors += [f"{p} is still there" for p in sorted(after) if p.split("/")[0] == e][:3]
        del states[e]
        return errors, states
    want, new = c20.expected(states[e], plain_op(op), versions.get(e, {}))
    if want == "fails":
        if r[0] == "ok":
            return errors + ["succeeds although the requests cannot be satisfied together"], None
        if r[1] != "UnsolvableProblemException":
            errors.append(f"fails with {r[1]}: {r[2]}")
        return errors + [f"it fails and changes something: {d}" for d in fsbox.diff(before, after)[:3]], None
    if r[0] != "ok":
        return errors + [f"fails: {r[1]} {r[2]}"], None
    if kind == "install" and "extra[x]" in args:
        new.plain["extra"] = "extra"
        new.with_extra = True
    if hasattr(new, "with_extra") and "extra" not in new.plain:
        del new.with_extra
    states[e] = new
    return errors, states


def check_env(w: World, e, mine, state):
    """-> (errors, versions, where its shareable packages are)"""
    view, where = w.view(e), {}
    errors, versions = c20.check_state(view, mine, state, linked=c20.NAMES)
    infos = c20.dist_infos(mine, SITE)
    for n, d in infos.items():
        if not c20.owner(f"{SITE}/{d[2]}"):
            errors += c20.record_errors(mine, SITE, d[2])
    if hasattr(state, "with_extra") and "tagged" not in infos:
        errors.append("the extra of extra[x] is not installed")
    if not infos:
        left = {p for p in mine if p.startswith((SITE + "/", "bin/")) and p != "bin/python"}
        errors += [f"nothing is installed, and {p} is there" for p in sorted(left)[:3]]
    status, out, err = c20.run_commands(view, [["probe", "", list(c20.NAMES), {"PATH": "/usr/bin:/bin"}]])[0]
    got = json.loads(out)
    for n, d in infos.items():
        if c20.owner(f"{SITE}/{d[2]}") or not got.get(c20.MODULE.get(n, n)):
            continue
        v, file = got[c20.MODULE.get(n, n)]
        if not isinstance(file, str):
            errors.append(f"{n} is not there")
            continue
        rel = os.path.relpath(os.path.realpath(file), w.real)
        if rel.startswith(".zoo/shared/") != sharing(w.config, n):
            errors.append(f"{n} is {'not ' if sharing(w.config, n) else ''}shared: it is at {rel}")
        elif sharing(w.config, n) and n != "tagged":
            where[n, v] = rel
        if n == "tagged" and f"TAG = {ENVS[e][:2]}" not in (text := Path(file).read_text()):
            errors.append(f"tagged is for another interpreter: {text.splitlines()[-1]}")
    return errors, versions, where


def check_state(w: World, snap, states):
    """-> (errors, versions)"""
    errors, versions, places = [], {}, {}
    for p in sorted(used(snap, w.real)):
        if p not in snap:
            errors.append(f"{p} is used, but not there")
    for e, state in states.items():
        mine = part_of(snap, e)
        key = e, c20.digest(mine), states_key({e: state})
        if errors or key not in w.checked:  # what is shared is known to be as it was
            result = check_env(w, e, mine, state)
            errors += [f"{e}: {x}" for x in result[0]]
            w.checked[key] = *result[1:], dict(state.exposed)
        versions[e], where, state.exposed = w.checked[key][0], w.checked[key][1], dict(w.checked[key][2])
        for k, rel in where.items():
            if places.setdefault(k, rel) != rel:
                errors.append(f"{e}: {' '.join(k)} is at {rel}, while another environment uses {places[k]}")
    return errors, versions


def states_key(states):
    return repr(sorted((e, sorted(s.plain.items()), sorted((k, sorted(v.items())) for k, v in s.containers.items()),
                        sorted(s.exposed.items()), hasattr(s, "with_extra")) for e, s in states.items()))


def step(w: World, part: Part, hist, node, op):
    snap, states, versions = node
    r, after = w.run(snap, op)
    errors, new = check_transition(w, snap, states, op, r, after, versions)
    if (key := (c20.digest(after), None if new is None else states_key(new))) not in w.seen:
        w.seen.add(key)
        part.states += 1
    result = None
    if new is not None and not errors:
        errs, vs = check_state(w, after, new)
        errors += errs
        result = after, new, vs
    part.transitions += 1
    part.case((w.config, c20.digest(snap), op), True, outcome=f"{op[1]} {'ok' if r[0] == 'ok' else r[1]}",
              sample=[w.config, *(list(o) for o in hist)])
    if errors:
        text = " / ".join(" ".join(x or "" for x in o).strip() for o in hist)
        part.violation(f"{w.config}: {text}: {errors[0]}"[:240], {"config": w.config, "history": [list(o) for o in hist]},
                       f"{w.config}: {text}: " + "; ".join(errors[:5]))
        return None
    return result


def initial(w: World):
    w.fresh()
    return w.snapshot(), {e: State() for e in ENVS}, {}


class State(c20.State):
    def copy(self):
        s = State(self.plain, self.containers)
        s.touched, s.exposed = set(self.touched), dict(self.exposed)
        if hasattr(self, "with_extra"):
            s.with_extra = True
        return s


_world = None


def world(base, config):
    global _world
    if _world is None or (_world.base, _world.config) != (base, config):
        _world = World(base, config)
    return _world


_LEVEL = []
_SEEN = set()


def expand(shard, part: Part):
    base, config, jobs, last = shard
    w = world(base, config)
    root = str(w.box.work).encode()
    found, at = {}, None
    for i, op in jobs:
        hist = _LEVEL[i]
        if at != i:
            at, node = i, initial(w)
            for k, o in enumerate(hist):
                node = step(w, Part(), hist[:k + 1], node, o) if node else None
        if node is None or not enabled(node[1], op):
            continue
        nxt = step(w, part, hist + (op,), node, op)
        if nxt is not None and not last:
            key = c20.portable(nxt[0], root), states_key(nxt[1])
            if key not in _SEEN and key not in found:
                found[key] = hist + (op,)
    part.samples.append({"found": found})


ROOTS = [
    (("a", "install", "tagged", "mixed"), ("b", "install", "tagged", "mixed")),
    (("a", "install", "Up.Case"), ("b", "install", "Up.Case"), ("a", "install", "extra[x]")),
    (("b", "app", "host"), ("a", "app", "Odd.Name"), ("b", "install", "lib==1.0")),
]


def explore(ck, base, config, depth, root=()):
    class Merge:
        violations = ck.violations
        exhaustive = True

        @staticmethod
        def merge(part):
            for s in part.samples:
                if isinstance(s, dict) and "found" in s:
                    for key, hist in s["found"].items():
                        collected.setdefault(key, hist)
            part.samples = [s for s in part.samples if not (isinstance(s, dict) and "found" in s)]
            ck.merge(part)

    _LEVEL[:] = [root]
    _SEEN.clear()
    for d in range(depth):
        collected = {}
        jobs = [(i, op) for i in range(len(_LEVEL)) for op in OPS]
        n = max(8, min(256, len(jobs) // 20))
        parallel(Merge, expand, [(base, config, jobs[len(jobs) * k // n:len(jobs) * (k + 1) // n], d == depth - 1) for k in range(n)])
        _SEEN.update(collected)
        _LEVEL[:] = collected.values()
        ck.extra.setdefault("levels", []).append(f"{config} {len(root)} + depth {d + 1}: {len(_LEVEL)} new states")
    ck.exhaustive = ck.exhaustive and Merge.exhaustive


# ---------------------------------------------------------------- failures
FAULTS = [
    (("a", "install", "tool", "app"),),
    (("a", "install", "Up.Case"), ("b", "install", "Up.Case")),
    (("b", "install", "Up.Case"), ("a", "install", "lib==1.0"), ("b", "uninstall", "Up.Case"), (None, "clean")),
    (("a", "install", "extra[x]"), ("b", "install", "tagged", "mixed")),
    (("a", "install", "Up.Case"), ("b", "install", "Up.Case"), ("a", "uninstall", "Up.Case")),
    (("a", "install", "lib"), ("b", "app", "host")),
]


def clean(snap):
    """without what was staged and not used"""
    return {p: v for p, v in snap.items() if not (p.startswith(".zoo/shared/") and (
        "/." in p[4:] or v[0] == "d" and not any(a.startswith(p + "/") or (p + "/").startswith(a + "/") for a in artifacts(snap))))}


def one_fault(w: World, node, op, i, crash, good):
    """-> errors"""
    snap, states, versions = node
    if crash:
        w.fresh(snap)
        if not w.crash(op, i):
            return []
        r, after, w.what = ("err", "the process ended", ""), w.snapshot(), f"operation {i}"
    else:
        r, after = w.run(snap, op, fault=i)
        fired = w.box.fired
        w.what = f"{fired[0]} {fired[1].replace(str(w.box.root), '')}" if fired else "nothing"
    errors = [f"changed outside of the zoo: {x}" for x in w.box.escapes]
    if r[0] == "timeout":
        return errors + ["does not end"]
    for other in ENVS:
        if other != op[0]:
            errors += [f"changes the environment {other}: {d}" for d in fsbox.diff(part_of(snap, other), part_of(after, other))[:3]]
    others = {e: s.copy() for e, s in states.items() if e != op[0]}
    w.box.clear(w.box.tmp)
    if not errors and others:
        errs, versions = check_state(w, after, others)
        errors += [f"then {x}" for x in errs]
        again = ("a" if op[0] == "b" else "b", *op[1:])
        if crash and not errors and again[0] in others and enabled(others, again):
            before = after
            r, after = w.run(None, again)
            errs, new = check_transition(w, before, others, again, r, after, versions)
            if not errs and new:
                errs, _ = check_state(w, after, new)
            return [f"then, in {again[0]}, {x}" for x in errs]
    if crash:
        return errors
    if r[0] != "ok":
        r, after = w.run(None, op)
        if r[0] != "ok":
            return errors + [f"and then it fails for ever: {r[1]} {r[2]}"]
        if op[1] == "uninstall":  # what it was the last user of may be left, by the failure
            return errors + [f"at the end, {p} is there" for p in part_of(after, op[0]) if c20.NORMAL.get(op[2], op[2]).lower().replace(".", "_")
                             in p.lower().replace(".", "_")][:3]
    elif op[1] == "clean":
        return errors
    if c20.digest(clean(after)) != c20.digest(clean(good)):
        errors += [f"at the end not as without the failure: {d}" for d in fsbox.diff(clean(good), clean(after)) if not d.endswith("RECORD")][:4]
    return errors


def fault_run(shard, part: Part):
    base, hist, crash, k, n = shard
    w = world(base, "shared")
    node = initial(w)
    for i, op in enumerate(hist[:-1]):
        node = step(w, Part(), hist[:i + 1], node, op)
        if node is None:
            return
    op = hist[-1]
    r, good = w.run(node[0], op)
    total = w.box.count
    if r[0] != "ok":
        return
    for i in range(k, total, n):
        errors = one_fault(w, node, op, i, crash, good)
        part.transitions += 2
        part.case((hist, crash, i), True, outcome=f"{'crash' if crash else 'fault'} in {op[1]}")
        if errors:
            text = " / ".join(" ".join(x or "" for x in o).strip() for o in hist)
            part.violation(f"{text} {w.what}: {errors[0]}"[:240],
                           {"config": "shared", "history": [list(o) for o in hist], "fault": i, "crash": crash},
                           f"{text}, where {w.what} {'is the last thing that is done' if crash else 'fails'}: " + "; ".join(errors[:5]))


# ---------------------------------------------------------------- the zoo itself
def exports_run(shard, part: Part):
    """commands of the environments that the zoo exports, its listing and activation"""
    base, config, op, env = shard
    w = world(base, config)
    node = initial(w)
    hist = ((env, *op),)
    node = step(w, Part(), hist, node, hist[0])
    if node is None:
        return
    snap, states, versions = node
    mine = part_of(snap, env)
    scripts = sorted(p[4:] for p in mine if p.startswith("bin/") and p != "bin/python")
    by_package = {}
    for n, d in c20.dist_infos(mine, SITE).items():
        if not c20.owner(f"{SITE}/{d[2]}"):
            by_package[n] = [s for s in scripts if s in {**c20.PACKAGES[n][d[0]][1], **c20.RAW.get(n, {})}]
    done = [("one", (s,)) for s in scripts] + [("pair", (s, t)) for s in scripts for t in scripts if s < t] + [("all", (n,)) for n in sorted(by_package)]
    done += [("none", ("nothing",)), ("list", ()), *(("activate", (p,)) for p in (None, "", "/usr/bin", "/a:/b"))]
    for kind, args in done:
        w.fresh(snap)
        for e in ENVS:
            pyenv.load_env(w.root / e)
        want, errors, got = set(), [], []

        def act():
            zoo = EnvironmentsZoo.load(w.root)
            if kind in ("one", "pair"):
                for s in args:
                    zoo.export_script(env, s)
                    want.add(s)
            elif kind == "all":
                zoo.export_all_scripts(env, *args)
                want.update(by_package[args[0]])
            elif kind == "none":
                try:
                    zoo.export_script(env, args[0])
                except NoSuchElementException:
                    got.append("refused")
            elif kind == "list":
                got.extend(sorted(e.path.name for e in zoo.list()))
            else:
                var = {"OTHER": "x", **({"PATH": args[0]} if args[0] is not None else {})}
                before = dict(var)
                for fails in (False, True):
                    try:
                        with zoo.activate(var):
                            got.append(dict(var))
                            if fails:
                                raise KeyError("x")
                    except KeyError:
                        pass
                    if var != before:
                        errors.append(f"leaves {var}")

        with w.box:
            r = attempt(act, 60)
        after = w.snapshot()
        part.transitions += 1
        part.case(("zoo", config, op, env, kind, args), True, outcome=f"zoo {kind}")
        errors += [f"changed outside of the zoo: {x}" for x in w.box.escapes]
        if r[0] != "ok":
            errors.append(f"fails: {r[1]} {r[2]}" if r[0] == "err" else "does not end")
        else:
            found = {p[len(".zoo/bin/"):]: v for p, v in after.items() if p.startswith(".zoo/bin/")}
            if set(found) != want:
                errors.append(f"the commands of the zoo are {sorted(found)}, exported are {sorted(want)}")
            errors += [f"{s} is not the command of the environment" for s in want & set(found)
                       if found[s][:1] + found[s][2:] != mine[f"bin/{s}"][:1] + mine[f"bin/{s}"][2:] or not found[s][1]]
            errors += [f"changes {d}" for d in fsbox.diff(*({p: v for p, v in x.items() if not (p + "/").startswith(".zoo/bin/") and p != ".zoo"}
                                                            for x in (snap, after)))[:3]]
            if kind == "none" and got != ["refused"]:
                errors.append("a command that does not exist can be exported")
            if kind == "list" and got != sorted(ENVS):
                errors.append(f"lists {got}")
            if kind == "activate":
                for var in got:
                    first, _, rest = var["PATH"].partition(":")
                    if os.path.realpath(first) != os.path.realpath(w.root / ".zoo/bin") or rest != (args[0] or "") or var["OTHER"] != "x":
                        errors.append(f"activates {var}")
                if len(got) != 2:
                    errors.append("cannot be activated again")
        if errors:
            text = f"{config}: {env} {' '.join(op)}: zoo {kind} {' '.join(map(str, args))}"
            part.violation(f"{text}: {errors[0]}"[:240], {"config": config, "zoo": [list(op), env]}, f"{text}: " + "; ".join(errors[:4]))


ZOO_OPS = [("install", "Up.Case", "tool"), ("install", "app"), ("app", "host"), ("install", "tagged", "mixed")]


def prepare():
    extend_universe()
    wheels = Path(os.environ["MC_SCRATCH"]) / "wheels"
    if not wheels.exists():
        make_wheels(wheels)
    c20.home_with_wheels()


def run(ck: Check):
    prepare()
    with fsbox.base_dir() as base:
        for config in CONFIGS:
            explore(ck, base, config, DEPTH[config] + ck.thorough)
        for root in ROOTS:
            explore(ck, base, "shared", 2 + ck.thorough, root)
        shards = [(base, hist, False, k, 8) for hist in FAULTS for k in range(8)]
        shards += [(base, hist, True, k, 8) for hist in (FAULTS if ck.thorough else FAULTS[1:4]) for k in range(8)]
        parallel(ck, fault_run, shards)
        parallel(ck, exports_run, [(base, c, op, e) for c in ("shared", "linked", "off") for op in ZOO_OPS for e in ENVS])
    ck.traces = ck.evaluations


def replay(case):
    prepare()
    with fsbox.base_dir() as base:
        if "zoo" in case:
            part = Part()
            exports_run((base, case["config"], tuple(case["zoo"][0]), case["zoo"][1]), part)
            return part.violations[0][1]["message"] if part.violations else None
        w = World(base, case["config"])
        node, part = initial(w), Part()
        hist = tuple(tuple(o) for o in case["history"])
        for i, op in enumerate(hist):
            if "fault" in case and i == len(hist) - 1:
                r, good = w.run(node[0], op)
                return "; ".join(one_fault(w, node, op, case["fault"], case["crash"], good)) or None
            node = step(w, part, hist[:i + 1], node, op)
            if part.violations:
                return part.violations[0][1]["message"]
            if node is None:
                break
    return None
