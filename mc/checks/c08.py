"""C08 wheel installation: every wheel of bounded shapes is installed, verified, tampered with and uninstalled for real."""
import csv
import hashlib
import io
import itertools
import os
import sys
import types
import zipfile
from contextlib import redirect_stderr, redirect_stdout
from pathlib import Path

from mc import fsbox, pyenv
from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.wheel_distribution import WheelDistribution
from pkm.api.packages.package import PackageDescriptor
from pkm.api.versions.version import Version

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("exhaustive over wheels built from every small subset of content features (packages, modules, data directories, "
        "scripts, entry points, odd names, empty directories ...), site layouts and user requests: each wheel is really "
        "installed into a scratch environment, the resulting tree, RECORD and scripts are compared with what the wheel "
        "format demands, and uninstalled; each wheel with one defect (altered, unlisted or unsigned file, missing metadata, "
        "other major version) must be rejected without a trace. non-trivial: distinct (shape, layout, defect) cases")

FOREIGN = {
    "lib/site-packages/other.py": b"x = 1\n", "lib/site-packages/other-2.0.dist-info/METADATA": pyenv.metadata("other", "2.0"),
    "lib/site-packages/other-2.0.dist-info/RECORD": b"other.py,,\nother-2.0.dist-info/METADATA,,\nother-2.0.dist-info/RECORD,,\n",
    "lib/site-packages/ns/other.py": b"y = 1\n", "bin/other": b"#!/bin/sh\n", "share/foo2/keep": b"k", "lib/keep.txt": b"z",
    "lib/site-packages/foo2/__init__.py": b"", "lib/site64x/keep.py": b"",
}
MOD = (b"calls = []\n\ndef main():\n    calls.append('main')\n    return 3\n\nclass Obj:\n    @staticmethod\n"
       b"    def run():\n        calls.append('run')\n        return 4\n")
EPS = ("[console_scripts]\nfoo-run = foo.mod:main\nfoo.cls=foo.mod:Obj.run\nfoo_extra = foo.mod:main [x,y]\n"
       "foo_sp = foo.mod : main\n\n[gui_scripts]\nfoo-gui = foo.mod:Obj.run\n\n[foo.plugins]\np1 = foo.mod\np2 = foo.mod:Obj [x]\n")
EP_SCRIPTS = {"foo-run": ("main", 3), "foo.cls": ("run", 4), "foo_extra": ("main", 3), "foo_sp": ("main", 3), "foo-gui": ("run", 4)}

FEATURES = ["pkg", "top", "odd", "badpy", "ns", "platroot", "d_pure", "d_plat", "d_data", "d_head", "scr", "ep", "empty",
            "lic", "sha512", "wcolon", "foreign", "req",
            "relink", "big", "named"]


class Shape:
    """what a wheel contains and where that has to end up"""

    def __init__(self, features, layout, dist="foo", name="foo"):
        self.features, self.layout, self.name = features, layout, name
        f = set(features)
        lay = pyenv.LAYOUTS[layout]
        self.pure, self.plat = lay["purelib"], lay["platlib"]
        self.root = self.plat if "platroot" in f else self.pure
        self.di = f"{dist}-1.0.dist-info"
        dd = f"{dist}-1.0.data"
        self.files, self.dirs = {}, []
        self.expect = {}  # path in the environment -> bytes
        self.shebang = {}  # path -> (rest of the file)
        self.anywhere = {}
        files, R = self.files, self.root

        def root(p, d):
            files[p] = d
            self.expect[f"{R}/{p}"] = d

        if "pkg" in f or "ep" in f:
            root("foo/__init__.py", b"")
            root("foo/mod.py", MOD)
            root("foo/sub/deep.py", b"z = 1\n")
            root("foo/data.bin", bytes(range(256)))
        if "top" in f:
            root("foo_top.py", b"t = 1\n")
        if "odd" in f:
            root("foo/we ird,n\u00e4me.txt", b"1")
            root('foo/quo"te.txt', b"22")
            root("foo/-dash.txt", b"")
        if "badpy" in f:
            root("foo/bad.py", b"def (:\n")
        if "ns" in f:
            root("ns/part.py", b"p = 1\n")
        for kind, where in (("pure", self.pure), ("plat", self.plat)):
            if f"d_{kind}" in f:
                files[f"{dd}/{kind}lib/foo_{kind}/__init__.py"] = b"a = 1\n"
                files[f"{dd}/{kind}lib/foo_{kind}1.py"] = b"b = 1\n"
                self.expect[f"{where}/foo_{kind}/__init__.py"] = b"a = 1\n"
                self.expect[f"{where}/foo_{kind}1.py"] = b"b = 1\n"
        if "d_data" in f:
            files[f"{dd}/data/share/foo/readme"] = b"read me"
            files[f"{dd}/data/foo_etc"] = b"etc"
            self.expect["share/foo/readme"] = b"read me"
            self.expect["foo_etc"] = b"etc"
        if "d_head" in f:
            files[f"{dd}/headers/foo_h/foo.h"] = b"#define FOO\n"
            self.anywhere["foo.h"] = b"#define FOO\n"
        if "scr" in f:
            for n, first, rest in (("s1", b"#!python\n", b"print(1)\n"), ("s2", b"#!pythonw\r\n", b"print(2)\n"),
                                   ("s5.py", b"#!python\n", b"a = 1\n")):
                files[f"{dd}/scripts/{n}"] = first + rest
                self.shebang[f"bin/{n}"] = (b"w" if b"pythonw" in first else b"", rest)
            for n, data in (("s3", b"#!/bin/sh\necho #!python\n"), ("s4", bytes(range(255, -1, -1))), ("s6", b"")):
                files[f"{dd}/scripts/{n}"] = data
                self.expect[f"bin/{n}"] = data
        if "big" in f:
            body = b"".join(b"line %d\n" % i for i in range(30000))
            files[f"{dd}/scripts/big"] = b"#!python\n" + body
            self.shebang["bin/big"] = (b"", body)
            files[f"{dd}/scripts/bigbin"] = b"\x7fELF" + body
            self.expect["bin/bigbin"] = b"\x7fELF" + body
            files[f"{dd}/data/share/big"] = body
            self.expect["share/big"] = body
            root("foo/big.txt", body)
        if "named" in f:  # names that mean something elsewhere
            for n in ("RECORD", "WHEEL", "METADATA", "INSTALLER", "REQUESTED", "entry_points.txt", "vendor/bar-2.0.dist-info/METADATA",
                      "vendor/bar-2.0.dist-info/RECORD", "scripts/x", "foo.data/scripts/y", "purelib/z", "a.pth", ".hidden/.h"):
                root(f"foo/{n}", b"named " + n.encode())
            root("foo/__pycache__.txt", b"")
            root("foo.data/scripts/v", b"v")
            root("foo.pth", b"# nothing\n")
            files[f"{dd}/purelib/foo_pure2/RECORD"] = b"r"
            self.expect[f"{self.pure}/foo_pure2/RECORD"] = b"r"
            files[f"{dd}/data/share/RECORD"] = b"s"
            self.expect["share/RECORD"] = b"s"
        if "ep" in f:
            root(f"{self.di}/entry_points.txt", EPS.encode())
        if "lic" in f:
            root(f"{self.di}/licenses/LICENSE", b"do as you like")
        if "empty" in f:
            self.dirs += ["foo_empty", "foo_e/inner/most"]
        self.metadata = pyenv.metadata(name, "1.0", ["bar>=1", "baz[x] ; extra == 'q'"], ">=3.0", ["q"])
        root(f"{self.di}/METADATA", self.metadata)
        extra = "Build: 1\nNote: a : b: c\n" if "wcolon" in f else ""
        root(f"{self.di}/WHEEL", pyenv.wheel_text("platroot" not in f, extra,
                                                  version="1.0"))
        self.algo = "sha512" if "sha512" in f else "sha256"
        self.request = Dependency.parse("foo[q] >=1, <2") if "req" in f else None

    def record(self):
        return [pyenv.record_line(n, d, self.algo) for n, d in self.files.items()] + [[f"{self.di}/RECORD", "", ""]]


def prepare(box, shape, windows=False):
    box.clear()
    root = box.work / "env"
    pyenv.write_env(root, shape.layout, windows)
    if "foreign" in shape.features:
        for p, d in FOREIGN.items():
            (root / p).parent.mkdir(parents=True, exist_ok=True)
            (root / p).write_bytes(d)
    return root


def canonical(root: Path, layout, snap):
    """paths below a symlinked directory are listed at their real place only (scandir does not follow links)"""
    return snap


def real(layout, p):
    return "lib" + p[len("lib64"):] if layout == "link" and p.startswith("lib64/") else p


def quiet(func):
    with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
        return func()


def check_install(box, shape: Shape, root: Path, before, env, target, windows=False):
    """returns the list of what is wrong with the tree after a successful installation"""
    errors = []
    after = fsbox.snapshot(root)
    interp = str(env.interpreter_path.absolute()).encode()
    owned = set()
    L = shape.layout
    for p, data in shape.expect.items():
        p = real(L, p)
        owned.add(p)
        got = after.get(p)
        if got is None or got[0] != "f" or got[2] != data:
            errors.append(f"file {p} is {'missing' if got is None else 'wrong'}")
        if p.startswith("bin/") and got is not None and not got[1]:
            errors.append(f"script {p} is not executable")
    for p, (suffix, rest) in shape.shebang.items():
        owned.add(p)
        got = after.get(p)
        if got is None or got[0] != "f":
            errors.append(f"script {p} is missing")
        elif got[2] not in (b"#!" + interp + suffix + nl + rest for nl in (b"\n", b"\r\n")):
            errors.append(f"script {p} is wrong: {got[2][:80]!r}")
        elif not got[1]:
            errors.append(f"script {p} is not executable")
    for base, data in shape.anywhere.items():
        found = [p for p in after if p not in before and p.rsplit("/", 1)[-1] == base and after[p][2:] == (data,)]
        if len(found) != 1:
            errors.append(f"{base} is installed {len(found)} times")
        owned.update(found)
    if "ep" in shape.features:
        for name, (func, code) in EP_SCRIPTS.items():
            p = f"bin/{name}.exe" if windows else f"bin/{name}"
            owned.add(p)
            got = after.get(p)
            if got is None or got[0] != "f":
                errors.append(f"entry point script {p} is missing")
                continue
            if windows:
                e = check_launcher(got[2], interp, name == "foo-gui", root)
                if isinstance(e, str):
                    errors.append(f"launcher {p}: {e}")
                    continue
                source = e
            else:
                if not got[1]:
                    errors.append(f"entry point script {p} is not executable")
                head, _, source = got[2].partition(b"\n")
                if head.rstrip() != b"#!" + interp:
                    errors.append(f"entry point script {p} starts with {head!r}")
            result = run_script(source)
            if result != ([func], code):
                errors.append(f"entry point script {p} runs {result}, expected {([func], code)}")
    site = real(L, shape.root)
    di = f"{site}/{shape.di}"
    books = {f"{di}/{n}" for n in ("RECORD", "INSTALLER", "REQUESTED", "INSTALLATION_MODE")}
    new = {p for p in after if p not in before}
    for p in before:
        if p not in after or before[p] != after[p]:
            errors.append(f"foreign {p} changed")
    pycs = set()
    for p in sorted(new - owned - books):
        if after[p][0] == "d":
            if p.rsplit("/", 1)[-1] != "__pycache__" and not any(o.startswith(p + "/") for o in owned | books | {q for q in new if q.endswith(".pyc")}):
                errors.append(f"useless directory {p}")
        elif p.endswith(".pyc") and "/__pycache__/" in p:
            d, _, base = p.rpartition("/__pycache__/")
            if f"{d}/{base.split('.')[0]}.py" in owned:
                pycs.add(p)
            else:
                errors.append(f"unexpected {p}")
        else:
            errors.append(f"unexpected {p}")
    # RECORD
    rec = after.get(f"{di}/RECORD")
    listed = set()
    if rec is None:
        errors.append("RECORD is missing")
    else:
        for row in csv.reader(io.StringIO(rec[2].decode(), newline="")):
            path, sig, size = (row + ["", "", ""])[:3]
            p = os.path.relpath(os.path.realpath(os.path.join(root, site, path)), os.path.realpath(root))
            if p in listed:
                errors.append(f"RECORD lists {p} twice")
            listed.add(p)
            if p in books:
                continue
            got = after.get(p)
            if got is None or got[0] != "f":
                errors.append(f"RECORD lists {path}, which is not installed")
                continue
            if not sig and p not in pycs:
                errors.append(f"RECORD has no hash of {path}")
            if sig:
                algo, _, digest = sig.partition("=")
                if pyenv.b64(hashlib.new(algo, got[2]).digest()) != digest:
                    errors.append(f"RECORD has a wrong hash of {path}")
            if size and int(size) != len(got[2]):
                errors.append(f"RECORD has a wrong size of {path}")
        for p in sorted((owned | pycs) - listed):
            errors.append(f"RECORD does not list {p}")
        for p in sorted(listed - owned - pycs - books):
            errors.append(f"RECORD lists the foreign {p}")
    # what the environment says
    target.reload()
    installed = {p.name_key: p for p in target.site_packages.installed_packages()}
    pkg = target.site_packages.installed_package(shape.name)
    if pkg is None:
        errors.append("the package is not found after its installation")
    else:
        if PackageDescriptor(shape.name, Version.parse("1.0")) != pkg.descriptor:
            errors.append(f"the package is found as {pkg.descriptor}")
        if pkg.user_request != shape.request:
            errors.append(f"the user request is {pkg.user_request}, expected {shape.request}")
        if sorted(map(str, pkg.published_metadata.dependencies)) != sorted(
                map(str, map(Dependency.parse, ["bar>=1", "baz[x] ; extra == 'q'"]))):
            errors.append(f"the dependencies are {pkg.published_metadata.dependencies}")
    expected = 2 if "foreign" in shape.features and site.endswith("site-packages") and (
            real(L, shape.pure) == "lib/site-packages") else 1
    if len(installed) != expected:
        errors.append(f"installed packages: {sorted(installed)}")
    return errors


def check_launcher(data, interp, gui, root):
    z = io.BytesIO(data)
    try:
        with zipfile.ZipFile(z) as zf:
            names = zf.namelist()
            start = min(i.header_offset for i in zf.infolist())
            source = zf.read("__main__.py")
    except (zipfile.BadZipFile, KeyError, ValueError) as e:
        return f"not a launcher: {e}"
    if names != ["__main__.py"]:
        return f"contains {names}"
    stub = data[:start]
    line = stub.rpartition(b"#!")
    if line[2].rstrip() != interp:
        return f"starts {line[2][:60]!r}"
    import pkm.launchers as launchers
    exe = Path(launchers.__file__).parent / f"{'w' if gui else 't'}64.exe"
    if line[0] != exe.read_bytes():
        return f"is not {'the windowed' if gui else 'the console'} launcher"
    return source


def run_script(source):
    foo, mod = types.ModuleType("foo"), types.ModuleType("foo.mod")
    exec(compile(MOD, "foo/mod.py", "exec"), mod.__dict__)
    foo.mod = mod
    saved = {n: sys.modules.get(n) for n in ("foo", "foo.mod")}
    sys.modules.update({"foo": foo, "foo.mod": mod})
    try:
        exec(compile(source, "script", "exec"), {"__name__": "__main__"})
        code = None
    except SystemExit as e:
        code = e.code
    except Exception as e:  # noqa
        return type(e).__name__, str(e)
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    return mod.calls, code


DEFECTS = ["flip", "unlisted", "unsigned", "grow", "norecord", "nodistinfo", "twodistinfo", "major2", "badzip", "wrongalgo"]
REJECT_ONLY_OUTSIDE_DISTINFO = {"flip", "grow", "wrongalgo"}


def write(shape: Shape, path: Path, defect=None, victim=None):
    files, record = dict(shape.files), shape.record()
    if defect == "flip":
        d = files[victim]
        files[victim] = bytes([d[0] ^ 1]) + d[1:] if d else b"\n"
    elif defect == "grow":
        files[victim] = files[victim] + b"\n"
    elif defect == "unlisted":
        record = [r for r in record if r[0] != victim]
    elif defect == "unsigned":
        record = [[r[0], "", ""] if r[0] == victim else r for r in record]
    elif defect == "wrongalgo":
        record = [[r[0], "sha384=" + r[1].split("=")[1], r[2]] if r[0] == victim else r for r in record]
    elif defect == "norecord":
        record = False
    elif defect == "nodistinfo":
        files = {k: v for k, v in files.items() if not k.startswith(shape.di)}
        record = False
    elif defect == "twodistinfo":
        files["foo-1.1.dist-info/METADATA"] = pyenv.metadata("foo", "1.1")
        record.append(pyenv.record_line("foo-1.1.dist-info/METADATA", files["foo-1.1.dist-info/METADATA"]))
    elif defect == "major2":
        w = f"{shape.di}/WHEEL"
        files[w] = files[w].replace(b"Wheel-Version: 1.0", b"Wheel-Version: 2.0")
        record = [pyenv.record_line(w, files[w]) if r[0] == w else r for r in record]
    pyenv.write_wheel(path, files, shape.di, record, shape.dirs)
    if defect == "badzip":
        data = path.read_bytes()
        path.write_bytes(data[:len(data) // 2])


def wheel_path(box, shape):
    d = box.work / "dist"
    d.mkdir(exist_ok=True)
    return d / f"{shape.di[:-len('.dist-info')]}-py3-none-any.whl"


def case_name(shape, windows=False, defect=None, victim=None):
    return dict(features=list(shape.features), layout=shape.layout, name=shape.name, di=shape.di, windows=windows,
                defect=defect, victim=victim)


def install_case(box, shape: Shape, windows=False):
    """installs, checks, uninstalls, checks -> list of errors"""
    root = prepare(box, shape, windows)
    whl = wheel_path(box, shape)
    write(shape, whl)
    env = pyenv.load_env(root)
    target = env.installation_target
    before = fsbox.snapshot(root)
    dist = WheelDistribution(PackageDescriptor(shape.name, Version.parse("1.0")), whl)

    def install():
        with box:
            quiet(lambda: dist.install_to(target, shape.request))

    r = attempt(install, 20)
    errors = [f"changed outside of the environment: {e}" for e in box.escapes]
    if r[0] != "ok":
        return errors + [f"installation fails: {r[1]} {r[2]}"], "rejected"
    errors += check_install(box, shape, root, before, env, target, windows)
    if left := os.listdir(box.tmp):
        errors.append(f"left in the temporary directory: {left}")
        box.clear(box.tmp)
    md = attempt(lambda: dist.extract_metadata(env), 10)
    if md[0] != "ok" or (md[1].package_name, str(md[1].package_version)) != (shape.name, "1.0"):
        errors.append(f"metadata of the wheel: {md[1:]}")
    if errors:
        return errors, "installed"
    if "relink" in shape.features:  # the user replaced installed files by links to files of his own
        mine = root / "mine"
        mine.mkdir()
        for i, p in enumerate(sorted(shape.expect)):
            if "dist-info" not in p:
                (mine / str(i)).write_bytes(b"mine")
                (root / p).unlink()
                (root / p).symlink_to(mine / str(i))
                before[f"mine/{i}"] = ("f", False, b"mine")
        before["mine"] = ("d",)

    pkg = target.site_packages.installed_package(shape.name)

    def uninstall():
        with box:
            quiet(pkg.uninstall)

    r = attempt(uninstall, 20)
    errors += [f"changed outside of the environment: {e}" for e in box.escapes]
    if r[0] != "ok":
        return errors + [f"uninstallation fails: {r[1]} {r[2]}"], "installed"
    after = fsbox.snapshot(root)
    sites = {real(shape.layout, shape.pure), real(shape.layout, shape.plat)}

    def free(p):  # empty directories outside of the site directories, and caches, may stay
        return after.get(p) == ("d",) and p not in before and (
            not any(p.startswith(s + "/") for s in sites) and not any(q.startswith(p + "/") for q in after if after[q][0] != "d"))

    errors += [f"after uninstallation: {d}" for d in fsbox.diff(before, after, free)]
    target.reload()
    if target.site_packages.installed_package(shape.name) is not None:
        errors.append("the package is found after its uninstallation")
    return errors, "installed"


def defect_case(box, shape: Shape, defect, victim):
    root = prepare(box, shape)
    whl = wheel_path(box, shape)
    write(shape, whl, defect, victim)
    env = pyenv.load_env(root)
    target = env.installation_target
    before = fsbox.snapshot(root)

    def install():
        with box:
            quiet(lambda: WheelDistribution(PackageDescriptor(shape.name, Version.parse("1.0")), whl)
                  .install_to(target, shape.request))

    r = attempt(install, 20)
    errors = [f"changed outside of the environment: {e}" for e in box.escapes]
    if r[0] == "ok":
        errors.append("accepted")
    elif r[0] == "timeout":
        errors.append("hangs")
    errors += [f"after the rejection: {d}" for d in fsbox.diff(before, fsbox.snapshot(root))]
    if left := os.listdir(box.tmp):
        errors.append(f"left in the temporary directory: {left}")
        box.clear(box.tmp)
    return errors


def shapes(thorough):
    out = []
    for layout in pyenv.LAYOUTS:
        n = (4 if layout == "split" else 3) if thorough else (3 if layout == "split" else 2)
        for k in range(0, n + 1):
            for c in itertools.combinations(FEATURES, k):
                out.append((c, layout, "foo", "foo", False))
        out.append((tuple(FEATURES), layout, "foo", "foo", False))
        for i in range(len(FEATURES)):
            out.append((tuple(f for f in FEATURES if f != FEATURES[i]), layout, "foo", "foo", False))
    for c in itertools.combinations(FEATURES, 1):
        for dist, name in (("Foo_Bar", "Foo.Bar"), ("foo_bar", "foo-bar"), ("FOO", "FOO")):
            out.append((c, "split", dist, name, False))
    for extra in ((), ("pkg",), ("foreign", "req"), ("d_data", "top")):
        out.append((("ep",) + extra, "same", "foo", "foo", True))
    return out


def run_installs(items, part: Part):
    box = fsbox.worker_box(BASE)
    for c, layout, dist, name, windows in items:
        shape = Shape(c, layout, dist, name)
        errors, outcome = install_case(box, shape, windows)
        part.case((c, layout, dist, windows), outcome=outcome, sample=case_name(shape, windows))
        if errors:
            first = errors[0]
            kind = "windows " if windows else ""
            part.violation(f"install {kind}[{','.join(c)}] {layout} {dist}: {first}"[:160], case_name(shape, windows),
                           "installing " + str(case_name(shape, windows)) + "\n    " + "\n    ".join(errors[:8]))


def defects(thorough):
    out = []
    sets = [("pkg", "top"), ("pkg", "foreign", "d_pure", "d_data"), ("scr", "d_plat"), ("ep", "platroot", "ns"), ("odd", "lic"),
            ("pkg", "sha512"), ("d_head", "badpy"), ("named",)]
    if thorough:
        sets += [c for c in itertools.combinations(FEATURES, 3)]
    for c in sets:
        for layout in (pyenv.LAYOUTS if thorough else ("split", "link")):
            shape = Shape(c, layout)
            for d in DEFECTS:
                if d in ("flip", "grow", "unlisted", "unsigned", "wrongalgo"):
                    for v in shape.files:
                        if d in REJECT_ONLY_OUTSIDE_DISTINFO and ".dist-info/" in v:
                            continue
                        out.append((c, layout, d, v))
                else:
                    out.append((c, layout, d, None))
    return out


def run_defects(items, part: Part):
    box = fsbox.worker_box(BASE)
    for c, layout, d, v in items:
        shape = Shape(c, layout)
        errors = defect_case(box, shape, d, v)
        part.case((c, layout, d, v), outcome=f"defect {d}", sample=case_name(shape, False, d, v))
        if errors:
            part.violation(f"defect {d} {v} [{','.join(c)}] {layout}: {errors[0]}"[:160], case_name(shape, False, d, v),
                           "wheel with a defect: " + str(case_name(shape, False, d, v)) + "\n    " + "\n    ".join(errors[:8]))


BASE = None


def run(ck: Check):
    global BASE
    pyenv.base_introspection()
    with fsbox.base_dir() as BASE:
        parallel(ck, run_installs, shard_list(shapes(ck.thorough), 32))
        parallel(ck, run_defects, shard_list(defects(ck.thorough), 32))
    ck.assumptions.append("the environment's interpreter is a stand-in that reports a fixed introspection; modes other than "
                          "the executable bit, file times and pre-existing caches are not compared")


def replay(case):
    global BASE
    pyenv.base_introspection()
    with fsbox.base_dir() as BASE:
        box = fsbox.worker_box(BASE)
        shape = Shape(tuple(case["features"]), case["layout"], case["di"].rsplit("-1.0", 1)[0], case["name"])
        if case["defect"]:
            errors = defect_case(box, shape, case["defect"], case["victim"])
        else:
            errors, _ = install_case(box, shape, case["windows"])
    return "\n".join(errors) or None
