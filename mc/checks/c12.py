"""C12 parallel package operations: all interleavings of the real threads up to a number of preemptions."""
import itertools
import os
import time
import zipfile
from pathlib import Path
from typing import Any, Dict, List, Tuple

from mc import fsbox, pyenv, sched
from mc.core import Check, Part, attempt, parallel, shard_list
from mc.histories import MemPackage, prepare_home, quiet
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package_installation import InstallationPlan
from pkm.api.packages.standard_package import PackageArtifact

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("the operations of an installation plan run in real threads of which one runs at a time; for every scenario all "
        "schedules with up to the bound of preemptions, placed before the file system operations (including the tests of "
        "existence) that do not commute with an operation of another thread, are executed from every thread order, without "
        "and with one failing operation. non-trivial: distinct (scenario, failure, schedule)")

SITE = "lib/site-packages"


def P(name, version, files, entry=None, pure=True):
    return name, version, tuple(sorted(files)), entry, pure


def content(path, version):
    return (f"# {path} {version}\nX = 1\n" if path.endswith(".py") else f"{path} {version}\n").encode()


PKGS = {
    "a1": P("a", "1", ["ns/a.py", "ns/sub/a.py", "a-1.data/data/share/doc/a.txt", "a-1.data/scripts/a.sh"], "a-run"),
    "a2": P("a", "2", ["ns/a.py", "a-2.data/data/share/doc/a.txt"], "a-run"),
    "b1": P("b", "1", ["ns/b.py", "ns/sub/b.py", "b-1.data/data/share/doc/b.txt", "b-1.data/scripts/b.sh"], "b-run"),
    "b2": P("b", "2", ["ns/b.py", "ns/sub/b2.py"], "b-run"),
    "c1": P("c", "1", ["ns/sub/deep/c.txt", "c.py"]),
    "d1": P("d", "1", ["ns/sub/d.txt"]),
    "e1": P("e", "1", ["ns/sub/e.txt"]),
    # t.txt moves from one package to another
    "f1": P("f", "1", ["ns/sub/t.txt", "ns/f.txt"]),
    "f2": P("f", "2", ["ns/f.txt"]),
    "g1": P("g", "1", ["ns/sub/t.txt"]),
}

# name: (installed before, wanted afterwards, failures as (index among the operations, kind, part of the path))
SCENARIOS: Dict[str, Tuple[Tuple[str, ...], Tuple[str, ...]]] = {
    "install two": ((), ("a1", "b1")),
    "remove, install": (("a1",), ("b1",)),
    "remove two": (("a1", "b1"), ()),
    "update, install": (("a1",), ("a2", "b1")),
    "update two": (("a1", "b1"), ("a2", "b2")),
    "remove, update": (("b1", "a1"), ("b2",)),
    "over files of others": (("foreign",), ("a1", "b1")),
    "small install three": ((), ("c1", "d1", "e1")),
    "small remove, install, install": (("c1",), ("d1", "e1")),
    "small remove two, install": (("c1", "d1"), ("e1",)),
    "take over from removed": (("f1", "c1"), ("g1", "d1")),
    "take over from updated": (("f1",), ("f2", "g1")),
}
FOREIGN = [f"{SITE}/ns/a.py", f"{SITE}/ns/b.py", f"{SITE}/ns/z.txt", "bin/a-run", "bin/b-run", "share/doc/a.txt", "share/doc/b.txt"]
# (scenario, package whose operation fails, the failing file system operation)
FAULTS = [("install two", i, *f) for i in ("a", "b") for f in (("create", "INSTALLER"), ("os.mkdir", "ns/sub"), ("create", "/bin/"))] + \
         [("over files of others", i, *f) for i in ("a", "b") for f in (("create", "INSTALLER"), ("os.mkdir", "ns/sub"))] + \
         [("remove, install", "b", "create", "INSTALLER"), ("update, install", "b", "create", "INSTALLER"),
          ("small install three", "c", "create", "INSTALLER"), ("small install three", "d", "create", "d.txt"),
          ("small remove, install, install", "d", "create", "INSTALLER"), ("small remove two, install", "e", "create", "RECORD")]
BOUND2_QUICK = ("small remove two, install", "take over from removed")


class Scene:
    def __init__(self, box, name):
        self.box, self.name = box, name
        self.have, self.want = SCENARIOS[name]
        foreign = FOREIGN if "foreign" in self.have else ()
        self.have = tuple(k for k in self.have if k != "foreign")
        self.root = box.work / "env"
        box.clear()
        pyenv.write_env(self.root)
        self.packages = {k: self.package(k) for k in {*self.have, *self.want}}
        for f in foreign:
            (self.root / f).parent.mkdir(parents=True, exist_ok=True)
            (self.root / f).write_bytes(b"of others")
        env = pyenv.load_env(self.root)
        for k in self.have:
            quiet(lambda: self.packages[k].install_to(env.installation_target, Dependency.parse(PKGS[k][0])))
        self.before = fsbox.snapshot(self.root)
        self.results: Dict[Any, Any] = {}

    def package(self, k):
        name, version, files, entry, pure = PKGS[k]
        path = self.box.root / "wheels" / f"{name}-{version}-py3-none-any.whl"
        if not path.exists():
            path.parent.mkdir(exist_ok=True)
            di = f"{name}-{version}.dist-info"
            fs = {f: content(f, version) for f in files}
            for f in fs:
                if f.endswith(".sh"):
                    fs[f] = b"#!python\nprint()\n"
            fs.update({f"{di}/METADATA": pyenv.metadata(name, version), f"{di}/WHEEL": pyenv.wheel_text(pure)})
            if entry:
                fs[f"{di}/entry_points.txt"] = f"[console_scripts]\n{entry} = ns.{name}:main\n".encode()
            pyenv.write_wheel(path, fs, di)
        return MemPackage(name, version, PackageArtifact(path.name), path)

    def plan(self, only=None):
        """the environment as before, and the plan (of some of the packages)"""
        self.box.clear()
        self.root.mkdir()
        fsbox.restore(self.root, self.before)
        env = pyenv.load_env(self.root)
        target = env.installation_target
        target.reload()
        names = {PKGS[k][0] for k in {*self.have, *self.want}}
        wanted = {PKGS[k][0]: self.packages[k] for k in self.want}
        if only is not None:
            for p in target.site_packages.installed_packages():
                if p.name_key not in only:
                    wanted[p.name_key] = p
            wanted = {n: p for n, p in wanted.items() if n in only or p.__class__.__name__ == "InstalledPackage"}
        return InstallationPlan(target, list(wanted.values()), {n: Dependency.parse(n) for n in names})

    def operations(self):
        plan = self.plan()
        return [p.name_key for p, op in plan.compute_operations_for_target().items() if op.name != "SKIP"]

    def expected(self, k):
        name, version, files, entry, _ = PKGS[k]
        data = f"{name}-{version}.data/data/"
        return {(f[len(data):] if f.startswith(data) else f"{SITE}/{f}"): content(f, version)
                for f in files if "/scripts/" not in f}

    def sequential(self, only):
        key = frozenset(only)
        if key not in self.results:
            plan = self.plan(only)
            r = attempt(lambda: quiet(lambda: plan.execute(concurrency_mode="none")), 20)
            self.results[key] = (r, fsbox.snapshot(self.root))
        return self.results[key]

    def run(self, first=0, schedule=(), interesting=None, fault=None, n=None):
        from pkm.api.pkm import pkm
        plan = self.plan()
        s = sched.Scheduler(self.box, n, first, schedule, interesting, fault)
        old = pkm.threads
        pkm.threads = s
        try:
            with s:
                r = attempt(lambda: quiet(lambda: plan.execute(concurrency_mode="thread")), 20)
        finally:
            pkm.threads = old
        return s, r


def pycache(path):
    return "__pycache__" in path


def is_tree(snap):
    """without the compiled files, and the records as sets"""
    out = {}
    for p, v in snap.items():
        if pycache(p):
            continue
        if p.endswith(".dist-info/RECORD"):
            rows = [row.split(",") for row in v[2].decode().splitlines()]
            v = ("f", v[1], sorted(r for r in rows if not pycache(r[0])))
        out[p] = v
    return out


def judge(scene: Scene, ops, s, r, fault):
    errors = [f"changed outside of the environment: {e}" for e in scene.box.escapes]
    for k in scene.want:
        if fault is None or (PKGS[k][0] != fault[0] and r[0] != "timeout"):
            for f, c in scene.expected(k).items():
                if not (scene.root / f).exists() or (scene.root / f).read_bytes() != c:
                    errors.append(f"{f} of {k} is not there")
    after = is_tree(fsbox.snapshot(scene.root))
    if r[0] == "timeout":
        return errors + ["the plan does not end"]
    if len(s.tasks) != len(ops):
        return errors + [f"{len(s.tasks)} tasks for the operations {ops}"]
    if fault is not None and sorted(ops) != sorted(t.label or "" for t in s.tasks):
        return []  # it cannot be told which task is which
    if fault is None or s.fired is None:
        if r[0] != "ok":
            errors.append(f"the plan fails: {r[1]} {r[2]}")
        want = scene.sequential(ops)
        errors += [f"not as after the operations one by one: {d}" for d in fsbox.diff(is_tree(want[1]), after)]
    else:
        if r[0] == "ok":
            errors.append("the failure of an operation is not reported")
        failed = fault[0]
        rest = [o for o in ops if o != failed]
        # the other operations were executed completely, the failed one left no trace
        want = is_tree(scene.sequential(rest)[1])
        errors += [f"'{failed}' failed and the rest is not as if it had not been there: {d}" for d in fsbox.diff(want, after)]
    if left := os.listdir(scene.box.tmp):
        errors.append(f"left in the temporary directory: {len(left)} entries")
        scene.box.clear(scene.box.tmp)
    return errors


def relevant(scene: Scene, ops, fault):
    """the operations (of any task, in any order of execution) that do not commute with one of another task"""
    n = len(ops)
    touched: List[set] = [set() for _ in ops]
    for first in range(n):
        s, r = scene.run(first, (), None, fault, n)
        scene.box.clear(scene.box.tmp)
        for t in s.tasks:
            if t.index < n:
                touched[t.index] |= set(t.ops)
    interesting = set()
    for i, j in itertools.permutations(range(n), 2):
        a = sorted(touched[i])
        interesting |= {a[k] for k in sched.conflicting(a, sorted(touched[j]))}
    return interesting


def explore(scene: Scene, part: Part, bound, fault, mine):
    ops = scene.operations()
    n = len(ops)
    r, after = scene.sequential(ops)
    if r[0] != "ok" and mine(()):
        part.violation(f"{scene.name}: one by one: {r[1]}", dict(scenario=scene.name, fault=None, first=0, schedule=[]), str(r))
        return
    interesting = relevant(scene, ops, fault)
    stack = [(first, ()) for first in range(n)]
    while stack:
        first, schedule = stack.pop()
        s, r = scene.run(first, schedule, interesting, fault, n)
        errors = judge(scene, ops, s, r, fault)
        if schedule or mine(()):
            part.transitions += len(s.trace)
            part.case((scene.name, fault, first, schedule), True, outcome=f"{r[0]}{' ' + r[1] if r[0] != 'ok' else ''}",
                      sample=dict(scenario=scene.name, failure=fault, first=first, preemptions=schedule))
            if errors:
                part.violation(f"{scene.name} {fault} first={first} {schedule}: {errors[0]}"[:240],
                               dict(scenario=scene.name, fault=fault, first=first, schedule=schedule),
                               describe(ops, s, schedule, first) + "\n    " + "\n    ".join(errors[:6]))
        if len(schedule) >= bound:
            continue
        seen = set()
        for t, k, what, others, used in s.trace:
            if used < len(schedule):
                continue
            for o in others:
                nxt = schedule + ((t, k, o),)
                if nxt not in seen and (schedule or mine(nxt)):
                    seen.add(nxt)
                    stack.append((first, nxt))


def describe(ops, s, schedule, first):
    ops = [t.label for t in s.tasks] + ["?"] * 9
    lines = [f"operations {ops[:len(s.tasks)]}, starting with {ops[first]}"]
    for t, k, nxt in schedule:
        what = next((w for tt, kk, w, _, _ in s.trace if (tt, kk) == (t, k)), ("?", "?"))
        lines.append(f"before {what[0]} {what[1].replace(str(s.box.root), '')} of {ops[t]}, {ops[nxt]} runs")
    return "; ".join(lines)


# -- the three ways to execute a plan (with the real pools)

class SlowPackage(MemPackage):
    """takes its time to get installed; serializable, so that worker processes can install it"""

    def __init__(self, name, version, path, delay, marks):
        super().__init__(name, version, PackageArtifact(Path(path).name), Path(path))
        self.init = (name, version, str(path), delay, marks)

    def __getstate__(self):
        return self.init

    def __setstate__(self, state):
        self.__init__(*state)

    def install_to(self, *args, **kwargs):
        Path(self.init[4], self.init[0]).write_text("started")
        time.sleep(self.init[3])
        super().install_to(*args, **kwargs)


def modes_cases():
    out = []
    for name in SCENARIOS:
        out += [(name, mode, 3, None, 0.0) for mode in ("thread", "proc")]
    for mode in ("none", "thread", "proc"):
        for name in ("install two", "small install three", "over files of others"):
            for failing in [PKGS[k][0] for k in SCENARIOS[name][1]]:
                out += [(name, mode, 3, failing, delay) for delay in (0.0, 0.6)]
            out.append((name, mode, 1, PKGS[SCENARIOS[name][1][0]][0], 0.0))
    return out


def broken(path, name):
    """the wheel with a file that does not match its record"""
    out = path.parent / "broken" / path.name
    if not out.exists():
        out.parent.mkdir(exist_ok=True)
        with zipfile.ZipFile(path) as z, zipfile.ZipFile(out, "w") as o:
            for n in z.namelist():
                o.writestr(n, z.read(n) + (b"x" if n.endswith((".py", ".txt")) and "dist-info" not in n else b""))
    return out


def mode_case(box, name, mode, workers, failing, delay):
    from concurrent.futures import ThreadPoolExecutor
    from pkm.api.pkm import pkm
    from pkm.utils.multiproc import ProcessPoolExecutor
    scene = Scene(box, name)
    ops = scene.operations()
    rest = [o for o in ops if o != failing]
    wanted = {frozenset(ops if failing is None else rest): None}
    if failing and mode != "none":  # what waits when the failure happens may be called off, but not what has started
        wanted.update({frozenset(x): None for n in range(len(rest)) for x in itertools.combinations(rest, n)})
    marks = box.root / "marks"
    marks.mkdir(exist_ok=True)
    for m in marks.iterdir():
        m.unlink()
    for w in wanted:
        wanted[w] = is_tree(scene.sequential(w)[1])
    for k, p in list(scene.packages.items()):
        path = p._file if PKGS[k][0] != failing else broken(p._file, k)  # noqa
        scene.packages[k] = SlowPackage(PKGS[k][0], PKGS[k][1], path, 0.0 if PKGS[k][0] == failing else delay, str(marks))
    plan = scene.plan()
    old = pkm.threads, pkm.processes
    pkm.threads, pkm.processes = ThreadPoolExecutor(workers), ProcessPoolExecutor(workers)
    try:
        r = attempt(lambda: quiet(lambda: plan.execute(concurrency_mode=mode)), 60)
        after = is_tree(fsbox.snapshot(scene.root))
        errors = []
        if r[0] == "timeout":
            return ["the plan does not end"]
        if failing is None and r[0] != "ok":
            errors.append(f"the plan fails: {r[1]} {r[2]}")
        if failing and r[0] == "ok":
            errors.append(f"the failure of {failing} is not reported")
        started = {m.name for m in marks.iterdir()} & set(rest)
        wanted = {w: tree for w, tree in wanted.items() if started <= w}
        if after not in wanted.values():
            best = min((fsbox.diff(w, after) for w in wanted.values()), key=len)
            errors += [f"when the plan has ended: {d}" for d in best]
        return errors
    finally:
        time.sleep(delay)
        pkm.threads, pkm.processes = old


def run_modes(items, part: Part):
    box = fsbox.worker_box(BASE)
    os.environ["PYTHONPATH"] = str(Path(__file__).resolve().parent.parent.parent)
    for case in items:
        name, mode, workers, failing, delay = case
        errors = mode_case(box, *case)
        part.case(case, True, outcome=f"mode {mode}")
        if errors:
            part.violation(f"mode {mode} with {workers} workers, {name}, failing: {failing} ({delay}): {errors[0]}"[:240],
                           dict(mode=list(case)), "\n    ".join(errors[:6]))


def shares(thorough):
    out = []
    for name in SCENARIOS:
        bound = (2 if name in BOUND2_QUICK else 1) if not thorough else 2
        n = 1 if bound == 1 and name.startswith("small") else 4 if bound == 1 else 32
        out += [(name, None, bound, i, n) for i in range(n)]
    for name, *fault in FAULTS:
        bound = 2 if thorough and name.startswith("small") else 1
        n = 2 if bound == 1 else 32
        out += [(name, tuple(fault), bound, i, n) for i in range(n)]
    return out


def run_shares(items, part: Part):
    box = fsbox.worker_box(BASE)
    for name, fault, bound, i, n in items:
        scene = Scene(box, name)
        # first preemptions are dealt to the shares (the schedule without any is in all of them, but counted in one)
        explore(scene, part, bound, fault, lambda sch: (sch[0][0] + 3 * sch[0][1] + sch[0][2]) % n == i if sch else i == 0)


BASE = None


def run(ck: Check):
    global BASE
    prepare_home()
    pyenv.base_introspection()
    with fsbox.base_dir() as BASE:
        todo = shares(ck.thorough)
        parallel(ck, run_shares, sorted(([x] for x in todo), key=lambda x: -x[0][2]))
        parallel(ck, run_modes, [[c] for c in modes_cases()])
    ck.extra["scenarios"] = list(SCENARIOS)
    ck.assumptions.append("switches happen at file system operations only (switches between other bytecodes are not enumerated); the threads of the "
                          "pool are enough to start every operation; operations of other processes are represented by threads")


def replay(case):
    global BASE
    prepare_home()
    pyenv.base_introspection()
    with fsbox.base_dir() as BASE:
        box = fsbox.worker_box(BASE)
        if "mode" in case:
            os.environ["PYTHONPATH"] = str(Path(__file__).resolve().parent.parent.parent)
            return "\n".join(mode_case(box, *case["mode"])) or None
        scene = Scene(box, case["scenario"])
        ops = scene.operations()
        fault = tuple(case["fault"]) if case["fault"] else None
        interesting = relevant(scene, ops, fault)
        s, r = scene.run(case["first"], [tuple(x) for x in case["schedule"]], interesting, fault, len(ops))
        return "\n".join(judge(scene, ops, s, r, fault)) or None
