"""C09 atomic installation: every file system operation of an installation fails once; the tree must be as before."""
import errno
import os
import re
import resource
from pathlib import Path

from mc import fsbox, pyenv
from mc.checks import c08
from mc.checks.c08 import Shape, quiet, real
from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.distributions.wheel_distribution import WheelDistribution
from pkm.api.packages.package import PackageDescriptor
from pkm.api.versions.version import Version

PROPERTY = "C09"
LEVEL = "fault_enumeration"
RULE = ("for every (wheel, layout, state of the environment before) the file system operations of the installation are "
        "counted, then the installation is repeated once per operation with exactly that operation failing (and once per "
        "file size limit, so that writes stop half way); afterwards the tree must be exactly as before, or the "
        "installation complete. Likewise for the operations of an uninstallation, which must succeed when repeated. "
        "non-trivial: distinct (case, failing operation)")

SHAPES = [("pkg", "top"), ("pkg", "scr", "ep", "d_data", "req"), ("platroot", "d_pure", "d_plat", "lic", "odd"),
          ("ns", "badpy", "d_head", "foreign", "ep", "req"), ("scr", "foreign")]
PRES = ["none", "existing", "stale", "links"]


def prepare(box, shape: Shape, pre):
    root = c08.prepare(box, shape)
    if pre == "none":
        return root
    # files of others at the places where the wheel wants to put its files
    paths = [p for p in shape.expect if f"/{shape.di}/" not in p] + list(shape.shebang)
    if "ep" in shape.features:
        paths += [f"bin/{n}" for n in c08.EP_SCRIPTS]
    cache = [f"{Path(p).parent}/__pycache__/{Path(p).stem}.cpython-312.pyc" for p in paths if p.endswith(".py")]
    if pre == "links":
        (root / "elsewhere").mkdir()
        for i, p in enumerate(paths):
            (root / p).parent.mkdir(parents=True, exist_ok=True)
            (root / f"elsewhere/{i}").write_bytes(b"linked %d" % i)
            (root / p).symlink_to(root / f"elsewhere/{i}")
        return root
    if pre == "stale":  # what an interrupted removal may leave
        paths += [f"{real(shape.layout, shape.root)}/{shape.di}/{n}" for n in ("METADATA", "INSTALLER", "REQUESTED", "INSTALLATION_MODE")]
        paths = [p for p in paths if p.startswith("bin") or "dist-info" in p]
        cache = []
    for i, p in enumerate(paths + cache):
        (root / p).parent.mkdir(parents=True, exist_ok=True)
        (root / p).write_bytes(b"old %d" % i)
    return root


def one(box, shape: Shape, pre, fault, reads, limit=None, log=False):
    """-> (errors, number of operations, fired)"""
    root = prepare(box, shape, pre)
    whl = c08.wheel_path(box, shape)
    c08.write(shape, whl)
    env = pyenv.load_env(root)
    target = env.installation_target
    before = fsbox.snapshot(root)
    dist = WheelDistribution(PackageDescriptor(shape.name, Version.parse("1.0")), whl)
    box.fault_reads, box.keep_log = reads, log

    def install():
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
        try:
            with box:
                box.fault_at = fault
                quiet(lambda: dist.install_to(target, shape.request))
        finally:
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))

    r = attempt(install, 20)
    count, fired = box.count, box.fired
    errors = [f"changed outside of the environment: {e}" for e in box.escapes]
    if r[0] == "timeout":
        errors.append("the installation hangs")
    elif r[0] == "ok":
        if pre == "none":
            errors += [f"reported as installed, but {e}" for e in c08.check_install(box, shape, root, before, env, target)]
        elif fault is None and limit is None:
            pass
    else:
        if fault is None and limit is None:
            errors.append(f"installation fails: {r[1]} {r[2]}")
        errors += [f"after the failure: {d}" for d in fsbox.diff(before, fsbox.snapshot(root))]
        if fault is None and limit is None:
            pass
        elif left := os.listdir(box.tmp):
            if not (fired and fired[0] in ("os.remove", "os.rmdir", "os.chmod")):
                errors.append(f"left in the temporary directory: {left}")
    box.clear(box.tmp)
    return errors, count, fired, r[0]


def relative(box, fired):
    return f"{fired[0]} {fired[1].replace(str(box.root), '')}" if fired else "none"


def short(box, fired):
    """the failing operation without names that differ from run to run"""
    if not fired:
        return "none"
    p = fired[1].replace(str(box.root), "")
    p = re.sub(r"(\.pyc)\.\d+$", r"\1", p)
    return f"{fired[0]} " + ("(temporary)" if p.startswith("/t/") else p)


def run_install(items, part: Part):
    box = fsbox.worker_box(BASE)
    for c, layout, pre, reads, k, step in items:
        shape = Shape(c, layout)
        errors, n, _, _ = one(box, shape, pre, None, reads)
        if errors:
            part.violation(f"no fault [{','.join(c)}] {layout} {pre}: {errors[0]}"[:160], dict(c=c, layout=layout, pre=pre, fault=None, reads=reads),
                           "\n    ".join(errors[:8]))
            continue
        for fault in range(k, n, step):
            errors, _, fired, outcome = one(box, shape, pre, fault, reads)
            part.case((c, layout, pre, reads, fault), outcome=f"{outcome} after a failing {fired[0] if fired else '-'}",
                      sample=dict(wheel=c, layout=layout, pre=pre, op=relative(box, fired)))
            if errors:
                part.violation(f"fault [{','.join(c)}] {layout} {pre} {short(box, fired)}: {errors[0]}"[:220],
                               dict(c=c, layout=layout, pre=pre, fault=fault, reads=reads),
                               f"operation {fault} ({relative(box, fired)}) fails while installing {c} ({layout}, {pre})\n    " +
                               "\n    ".join(errors[:8]))


def run_limits(items, part: Part):
    import signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    box = fsbox.worker_box(BASE)
    for c, layout, pre, limit in items:
        shape = Shape(c, layout)
        errors, n, _, outcome = one(box, shape, pre, None, False, limit)
        part.case((c, layout, pre, "limit", limit), outcome=f"{outcome} with a file size limit")
        if errors:
            part.violation(f"limit [{','.join(c)}] {layout} {pre} {limit}: {errors[0]}"[:200],
                           dict(c=c, layout=layout, pre=pre, limit=limit),
                           f"files cannot exceed {limit} bytes while installing {c} ({layout}, {pre})\n    " + "\n    ".join(errors[:8]))


def uninstall(box, shape, fault):
    """installs, uninstalls with a failing operation, repeats -> (errors, operations, fired)"""
    root = c08.prepare(box, shape)
    whl = c08.wheel_path(box, shape)
    c08.write(shape, whl)
    env = pyenv.load_env(root)
    target = env.installation_target
    before = fsbox.snapshot(root)
    quiet(lambda: WheelDistribution(PackageDescriptor(shape.name, Version.parse("1.0")), whl).install_to(target, shape.request))
    target.reload()
    pkg = target.site_packages.installed_package(shape.name)

    def act():
        with box:
            box.fault_at = fault
            quiet(pkg.uninstall)

    r = attempt(act, 20)
    n, fired = box.count, box.fired
    errors = [f"changed outside of the environment: {e}" for e in box.escapes]
    if r[0] == "timeout":
        return errors + ["hangs"], n, fired, r[0]
    if r[0] == "ok" and fault is not None:
        # the failure was absorbed: the package must be gone, only caches may be left
        after = fsbox.snapshot(root)
        target.reload()
        if target.site_packages.installed_package(shape.name) is not None:
            errors.append("reported as removed, but it is still installed")
        errors += [f"reported as removed: {d}" for d in fsbox.diff(before, after, lambda p: "__pycache__" in p or (
            p not in before and after.get(p) == ("d",)))]
        return errors, n, fired, r[0]
    if r[0] != "ok":
        mid = fsbox.snapshot(root)
        errors += [f"after the failure: {d}" for d in fsbox.diff(before, mid, lambda p: p not in before)]
        target.reload()
        again = target.site_packages.installed_package(shape.name)
        if again is None:
            left = [p for p in mid if p not in before and mid[p][0] != "d" and "__pycache__" not in p]
            if left:
                errors.append(f"the package is not found any more but left {left[:5]}")
            return errors, n, fired, r[0]
        r2 = attempt(lambda: quiet(again.uninstall), 20)
        if r2[0] != "ok":
            errors.append(f"repeating the uninstallation fails: {r2[1:]}")
    after = fsbox.snapshot(root)
    sites = {real(shape.layout, shape.pure), real(shape.layout, shape.plat)}
    errors += [f"after repeating: {d}" for d in fsbox.diff(before, after, lambda p: p not in before and after.get(p) == ("d",) and (
        not any(p.startswith(s + "/") for s in sites)))]
    return errors, n, fired, r[0]


def run_uninstall(items, part: Part):
    box = fsbox.worker_box(BASE)
    for c, layout, k, step in items:
        shape = Shape(c, layout)
        errors, n, _, _ = uninstall(box, shape, None)
        if errors:
            part.violation(f"uninstall [{','.join(c)}] {layout}: {errors[0]}"[:160], dict(c=c, layout=layout, un=True, fault=None),
                           "\n    ".join(errors[:8]))
            continue
        for fault in range(k, n, step):
            errors, _, fired, outcome = uninstall(box, shape, fault)
            part.case((c, layout, "un", fault), outcome=f"removal: {outcome} after a failing {fired[0] if fired else '-'}")
            if errors:
                part.violation(f"uninstall fault [{','.join(c)}] {layout} {short(box, fired)}: {errors[0]}"[:220],
                               dict(c=c, layout=layout, un=True, fault=fault),
                               f"operation {fault} ({relative(box, fired)}) fails while uninstalling {c} ({layout})\n    " +
                               "\n    ".join(errors[:8]))


BASE = None


def run(ck: Check):
    global BASE
    pyenv.base_introspection()
    with fsbox.base_dir() as BASE:
        items = []
        layouts = list(pyenv.LAYOUTS) if ck.thorough else ["split", "link"]
        shapes = SHAPES + ([tuple(c08.FEATURES)] + [(f,) for f in c08.FEATURES] if ck.thorough else [])
        for c in shapes:
            for layout in layouts:
                for pre in PRES:
                    for reads in (False, True) if ck.thorough or layout == "split" else (False,):
                        items += [(c, layout, pre, reads, k, 4) for k in range(4)]
        parallel(ck, run_install, shard_list(items, 64))
        limits = [(c, layout, pre, limit) for c in shapes for layout in layouts[:2] for pre in PRES
                  for limit in (0, 1, 3, 10, 50, 100, 150, 250, 300, 400, 600, 900, 1200, 1500, 2000, 2500)]
        parallel(ck, run_limits, shard_list(limits, 32))
        un = [(c, layout, k, 2) for c in shapes for layout in layouts for k in range(2)]
        parallel(ck, run_uninstall, shard_list(un, 32))
    ck.assumptions.append("one operation fails per execution and the roll back itself is not hit by a second failure; failures "
                          "are refused opens, creations, renames, removals and mode changes, and file size limits")


def replay(case):
    global BASE
    import signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    pyenv.base_introspection()
    with fsbox.base_dir() as BASE:
        box = fsbox.worker_box(BASE)
        shape = Shape(tuple(case["c"]), case["layout"])
        if case.get("un"):
            errors = uninstall(box, shape, case["fault"])[0]
        else:
            errors = one(box, shape, case["pre"], case.get("fault"), case.get("reads", False), case.get("limit"))[0]
    return "\n".join(errors) or None
