"""C17 building: what the wheels and source distributions of a project contain, for every small pyproject.toml."""
import base64
import csv
import email.utils
import hashlib
import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tarfile
import tomllib
import zipfile
from importlib.metadata import PathDistribution
from pathlib import Path

from packaging.metadata import Metadata, parse_email
from packaging.requirements import Requirement
from packaging.specifiers import SpecifierSet
from packaging.tags import compatible_tags
from packaging.utils import canonicalize_name, parse_sdist_filename, parse_wheel_filename
from packaging.version import Version as PV

from mc import fsbox, pyenv
from mc.core import Check, Part, attempt, parallel, shard_list
from mc.histories import prepare_home

PROPERTY = "C17"
LEVEL = "model_checking"
RULE = ("every project that differs from a base project in up to a number of the fields of pyproject.toml (a list of values "
        "for each) and of its source layout; for every one of them a wheel, an editable wheel, a directory of metadata, a source distribution "
        "and the wheel of the unpacked source distribution are built and read by other programs (packaging, importlib.metadata, "
        "zipfile, tarfile); every sequence of build operations on one project object. non-trivial: distinct projects")

LONG = "This is a rather long summary that goes on and on, " * 5 + "and ends with ünïcödé: here"
README = ("# Démo\n\nName: not a header\n\nFrom here on\n  indented\n.\n\n* über\n" + "x" * 200 + "\n\nend\n").encode()
FLAT = "flat", "flat-dirs"
LICENSE = "Copyright (c) 2020 Jürgen\n\nPermission is hereby granted,\n  free of charge.\n".encode()


class Missing(Exception):
    ...


# ---------------------------------------------------------------- projects
def tv(v):
    """a toml value"""
    if isinstance(v, dict):
        return "{" + ", ".join(f"{json.dumps(k, ensure_ascii=False)} = {tv(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(tv(x) for x in v) + "]"
    return json.dumps(v, ensure_ascii=False)


PY = b"def main():\n    print('main ran')\n\ndef gui():\n    pass\n"
FIELDS = {
    "name": ["Demo_B", "demo.c", "demo-x--y", "Demo"],
    "version": ["1.2.3rc1", "2!1.0+local.1", "1.0.post1.dev2", "1.0-beta.2", "v1.0"],
    "description": ["short", LONG, "with: colon; and 100% \"quotes\"", "ünïcödé"],
    "readme": ["README.md", "docs/README.rst", "README.txt", {"file": "README.md"}, {"file": "README.txt", "content-type": "text/markdown"},
               {"text": "Some text\n\nName: other\n", "content-type": "text/x-rst"}, {"text": "ünïcödé ", "content-type": "text/plain"},
               {"file": "README.md", "content-type": "text/plain"}],
    "requires-python": [">=3.8", ">=3.8,<4", "<4", "==3.*", "~=3.8", ">=3.8,!=3.9.*", ">3.8.1", "==3.12.*", "!=3.0", ">=3", "", ">=2.7", "<3.8"],
    "license": [{"text": "MIT"}, {"file": "LICENSE"}, {"text": LICENSE.decode()}, {"file": "docs/COPYING"}],
    "keywords": [["one"], ["one", "two words", "drei"], []],
    "authors": [[{"name": "A Name"}], [{"email": "a@b.org"}], [{"name": "A Name", "email": "a@b.org"}], [{"name": "Doe, J. \"X\"", "email": "d@b.org"}],
                [{"name": "Jürgen Größe", "email": "j@b.org"}, {"name": "B"}, {"email": "c@b.org"}], [{"name": "Jürgen"}],
                [{"name": "A"}, {"name": "B"}], [{"name": "Martínez y Compañía, S.A.", "email": "x@b.org"}], []],
    "maintainers": [[{"name": "M Name"}], [{"email": "m@b.org"}], [{"name": "M.", "email": "m@b.org"}, {"name": "N"}]],
    "classifiers": [["Programming Language :: Python"], ["Programming Language :: Python", "Development Status :: 4 - Beta"], []],
    "urls": [{"homepage": "example.com"}, {"Home Page": "https://a.b/?x=1&y=2#z", "docs": "https://d"}],
    "dependencies": [["x>=1"], ["x[a,b]>=1,<2; python_version>'3' and os_name=='posix'", "y"], ["x @ https://a.b/x-1.zip"], ["x==1.*", "x!=1.5"], []],
    "optional-dependencies": [{"t": ["y"]}, {"t": ["y>1; os_name=='nt' or python_version<'3'"], "U-v": ["z[q]", "w<3"]}, {"t": []}, {"s": ["x>=1", "y", "w; os_name=='nt'"], "t": ["y", "x>=2", "w; os_name=='nt'"]}],
    "scripts": [{"demo-cli": "demo:main"}, {"a.b": "demo:main", "c_d": "demo.sub.mod:main"}],
    "gui-scripts": [{"demo-gui": "demo:gui"}],
    "entry-points": [{"spam.magical": {"tomatoes": "demo:main"}}, {"g": {"A b": "demo.sub", "C": "demo:main [x, y]"}, "h": {"e%d": "demo:gui"}}],
}
#: layout: (files, packages setting or None, {file of the wheel: file of the project} or None: no such package)
LIB = {"__init__.py": PY, "sub/__init__.py": b"", "sub/mod.py": PY, "data.txt": b"a\r\n\0\xff"}


def tree(prefix, files):
    return {f"{prefix}/{k}": v for k, v in files.items()}


LAYOUTS = {
    "src": (tree("src/demo", LIB), None, tree("demo", LIB)),
    "src-2": ({**tree("src/demo", LIB), **tree("src/öther pkg", {"a b.py": b"", "dist/ü.dat": b"1", "etc/.x": b"", "tests/t.py": b"t"})}, None,
              {**tree("demo", LIB), **tree("öther pkg", {"a b.py": b"", "dist/ü.dat": b"1", "etc/.x": b"", "tests/t.py": b"t"})}),
    "src-cache": ({**tree("src/demo", LIB), "src/demo/__pycache__/x.pyc": b"1", "src/demo/sub/__pycache__/y.pyc": b"2", "src/__pycache__/z.pyc": b"3",
                   "tests/test_a.py": b"", "docs/conf.py": b""}, None, tree("demo", LIB)),
    "flat": (tree("demo", LIB), None, tree("demo", LIB)),
    "flat-dirs": ({**tree("demo", LIB), ".git/HEAD": b"", ".venv/pyvenv.cfg": b"", ".venv/lib/x.py": b"", "dist/0.9/demo-0.9.tar.gz": b"",
                   "etc/pkm/packages-lock.toml": b"", "__pycache__/a.pyc": b""}, None, tree("demo", LIB)),
    "lib": ({**tree("lib/demo", LIB), "lib/other/__init__.py": b"", "src/z/__init__.py": b""}, ["lib/demo"], tree("demo", LIB)),
    "lib-2": ({**tree("lib/demo", LIB), "other/beta/b.py": b"1", "beta/c.py": b""}, ["lib/demo", "other/beta"], {**tree("demo", LIB), "beta/b.py": b"1"}),
    "listed": ({**tree("src/demo", LIB), "src/extra/e.py": b""}, ["src/demo"], tree("demo", LIB)),
    "listed-flat": ({**tree("demo", LIB), "extra/e.py": b""}, ["demo"], tree("demo", LIB)),
    "listed-dot": ({**tree("lib/demo", LIB)}, ["./lib/demo/"], tree("demo", LIB)),
    "absent": (tree("src/demo", LIB), ["src/demo", "src/nope"], None),
}
TOOLS = [{"tool": {"other": {"x": 1, "y": ["a"]}, "pkm": {"project": {"group": ".."}}}}, {"build-system.requires": ["pkm"]}]
BASE = {"name": "demo", "version": "1.0"}


def variants():
    """[(field, index)]"""
    out = [(f, i) for f, values in FIELDS.items() for i in range(len(values))]
    out += [("layout", n) for n in LAYOUTS if n != "src"]
    out += [("tool", 0), ("mtime", 0), ("all", 0)]
    return out


DOCS_EXAMPLE = {
    "description": "Lovely Spam! Wonderful Spam!", "readme": "README.rst", "requires-python": ">=3.8", "license": {"file": "LICENSE"},
    "keywords": ["egg", "bacon", "sausage", "tomatoes", "Lobster Thermidor"], "authors": [{"email": "hi@pradyunsg.me"}, {"name": "Tzu-Ping Chung"}],
    "maintainers": [{"name": "Brett Cannon", "email": "brett@python.org"}], "classifiers": ["Development Status :: 4 - Beta", "Programming Language :: Python"],
    "dependencies": ["httpx", "gidgethub[httpx]>4.0.0", "django>2.1; os_name != 'nt'", "django>2.0; os_name == 'nt'"],
    "optional-dependencies": {"test": ["pytest < 5.0.0", "pytest-cov[all]"]},
    "urls": {"homepage": "example.com", "documentation": "readthedocs.org"}, "scripts": {"spam-cli": "demo:main"}, "gui-scripts": {"spam-gui": "demo:gui"},
    "entry-points": {"spam.magical": {"tomatoes": "demo:main"}}}


class Spec:
    """a project: the [project] table, the files and what its wheel has to hold"""

    def __init__(self, changes):
        self.changes = tuple(changes)
        self.table = dict(BASE)
        self.layout = "src"
        self.tool = {}
        self.old = False
        for f, i in self.changes:
            if f == "all":
                self.table.update(DOCS_EXAMPLE)
        for f, i in self.changes:
            if f == "layout":
                self.layout = i
            elif f == "tool":
                self.tool = TOOLS[i]["tool"]
            elif f == "mtime":
                self.old = True
            elif f != "all":
                self.table[f] = FIELDS[f][i]
        files, self.packages, self.wheel_files = LAYOUTS[self.layout]
        self.files = dict(files)
        self.files.update({"README.md": README, "README.rst": README, "README.txt": b"plain", "LICENSE": LICENSE, "docs/COPYING": b"copying",
                           "docs/README.rst": README, "setup.cfg": b"[x]\n"})
        if self.layout in FLAT:  # pkm takes all the other directories there for packages
            self.files = {f: c for f, c in self.files.items() if not f.startswith("docs/")}
        lines = ["[project]"] + [f"{k} = {tv(v)}" for k, v in self.table.items()]
        tool = json.loads(json.dumps(self.tool))
        if self.packages is not None:
            tool.setdefault("pkm", {}).setdefault("project", {})["packages"] = self.packages
        tool.get("pkm", {}).get("project", {}).pop("group", None)
        lines += ["", "[build-system]", 'requires = ["pkm"]', "build-backend = 'pkm.api.buildsys'"]
        if tool:
            lines += ["", "[tool]"] + [f"{k} = {tv(v)}" for k, v in tool.items()]
        self.text = "\n".join(lines) + "\n"
        self.files["pyproject.toml"] = self.text.encode()

    def write(self, root: Path):
        for f, content in self.files.items():
            p = root / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(content)
            if self.old:
                os.utime(p, (100, 100))
        (root / "src").exists() and (root / "src/demo").exists() and (root / "src/demo/empty").mkdir(exist_ok=True)


# ---------------------------------------------------------------- the metadata a project table stands for
VERSIONS = [PV(v) for v in ("2.7", "3", "3.0", "3.7.9", "3.8", "3.8.1", "3.8.2", "3.9", "3.9.5", "3.10.1", "3.12", "3.12.4", "3.13.1", "4", "4.1")]
DEP_VERSIONS = [PV(v) for v in ("0.5", "1", "1.0.1", "1.1", "1.5", "2", "2.5", "3", "4.0.0", "4.1", "5")]
MARKER_ENVS = [{"python_version": p, "python_full_version": p + ".1", "os_name": o, "extra": e}
               for p in ("2.7", "3.8", "3.12") for o in ("posix", "nt") for e in ("", "t", "U-v", "test")]


def allowed(spec: str, versions):
    s = SpecifierSet(spec or "")
    return tuple(s.contains(v, prereleases=True) for v in versions)


def requirement_meaning(text: str, extra=None):
    r = Requirement(text)
    def applies(env):
        if r.marker is not None and not r.marker.evaluate(env):
            return False
        return extra is None or env["extra"] == extra
    return (canonicalize_name(r.name), tuple(sorted(map(canonicalize_name, r.extras))), r.url or "",
            allowed(str(r.specifier), DEP_VERSIONS), tuple(applies(e) for e in MARKER_ENVS))


def contacts(entries):
    """pep 621 -> (names for Author, (name, address) pairs for Author-email)"""
    return ([e["name"] for e in entries if "email" not in e], sorted((e.get("name", ""), e["email"]) for e in entries if "email" in e))


def content_type(readme):
    if isinstance(readme, dict) and "content-type" in readme:
        return readme["content-type"]
    name = readme if isinstance(readme, str) else readme.get("file", "")
    return {".md": "text/markdown", ".rst": "text/x-rst"}.get(os.path.splitext(name)[1], "text/plain")


def check_metadata(spec: Spec, raw: bytes):
    bad = []
    t = spec.table
    try:
        text = raw.decode("utf8")
    except UnicodeDecodeError:
        return ["METADATA is not utf-8"]
    data, unparsed = parse_email(raw)
    if unparsed:
        bad.append(f"fields of METADATA that cannot be parsed: {unparsed}")
    try:
        Metadata.from_email(raw, validate=True)
    except Exception as e:  # an ExceptionGroup
        bad.append(f"invalid METADATA: {e!r} {[str(x) for x in getattr(e, 'exceptions', ())]}"[:400])

    def eq(what, got, want):
        if got != want:
            bad.append(f"{what} is {got!r}, should be {want!r}"[:600])

    eq("Name", canonicalize_name(data.get("name", "")), canonicalize_name(t["name"]))
    try:
        eq("Version", PV(data.get("version", "0")), PV(t["version"]))
    except ValueError:
        bad.append(f"Version is {data.get('version')!r}")
    eq("Summary", data.get("summary"), t.get("description"))
    readme = t.get("readme")
    if readme is not None:
        want = readme["text"] if isinstance(readme, dict) and "text" in readme else \
            spec.files[readme if isinstance(readme, str) else readme["file"]].decode("utf8")
        eq("the description", (data.get("description") or "").strip(), want.strip())
        eq("Description-Content-Type", (data.get("description_content_type") or "text/plain").split(";")[0].strip(), content_type(readme))
    else:
        eq("the description", (data.get("description") or "").strip(), "")
    eq("Requires-Python", allowed(data.get("requires_python", ""), VERSIONS), allowed(t.get("requires-python", ""), VERSIONS))
    lic = t.get("license")
    if lic and "text" in lic:
        eq("License", [line.strip() for line in (data.get("license") or "").strip().splitlines()], [line.strip() for line in lic["text"].strip().splitlines()])
    elif not lic and data.get("license"):
        bad.append(f"License is {data['license']!r}")
    eq("Keywords", data.get("keywords", []), t.get("keywords", []))
    eq("Classifier", sorted(data.get("classifiers", [])), sorted(t.get("classifiers", [])))
    eq("Project-URL", data.get("project_urls", {}), t.get("urls", {}))
    for field, key in (("authors", "author"), ("maintainers", "maintainer")):
        names, pairs = contacts(t.get(field, []))
        eq(key, data.get(key), ", ".join(names) or None)
        eq(key + "-email", sorted((decode(n), a) for n, a in email.utils.getaddresses([data.get(key + "_email", "")]) if n or a), pairs)
    want = [requirement_meaning(d) for d in t.get("dependencies", [])] + \
           [requirement_meaning(d, e) for e, ds in t.get("optional-dependencies", {}).items() for d in ds]
    try:
        got = [requirement_meaning(d) for d in data.get("requires_dist", [])]
        eq("Requires-Dist", sorted(got), sorted(want))
    except Exception as e:  # noqa
        bad.append(f"Requires-Dist {data.get('requires_dist')}: {e!r}")
    eq("Provides-Extra", sorted(map(canonicalize_name, data.get("provides_extra", []))), sorted(map(canonicalize_name, t.get("optional-dependencies", {}))))
    known = {"metadata_version", "name", "version", "summary", "description", "description_content_type", "requires_python", "license", "keywords",
             "classifiers", "project_urls", "author", "author_email", "maintainer", "maintainer_email", "requires_dist", "provides_extra",
             "license_expression", "license_files", "dynamic", "home_page"}
    if set(data) - known:
        bad.append(f"METADATA has {sorted(set(data) - known)}")
    del text
    return bad


def decode(name):
    import email.header
    return str(email.header.make_header(email.header.decode_header(name)))


def entry_points(table):
    out = {(g, n, re.sub(r"\s", "", r)) for g, eps in table.get("entry-points", {}).items() for n, r in eps.items()}
    out |= {("console_scripts", n, r) for n, r in table.get("scripts", {}).items()}
    return sorted(out | {("gui_scripts", n, r) for n, r in table.get("gui-scripts", {}).items()})


def check_dist_info(spec: Spec, root: Path, di: Path):
    bad = check_metadata(spec, (di / "METADATA").read_bytes()) if (di / "METADATA").exists() else ["no METADATA"]
    got = sorted((e.group, e.name, re.sub(r"\s", "", e.value)) for e in PathDistribution(di).entry_points)
    if got != entry_points(spec.table):
        bad.append(f"the entry points are {got}, should be {entry_points(spec.table)}")
    lic = spec.table.get("license")
    if lic and "file" in lic:
        contents = [p.read_bytes() for p in di.rglob("*") if p.is_file()]
        if spec.files[lic["file"]] not in contents:
            bad.append("the dist-info has no copy of the license file")
    try:
        wheel = dict(re.split(r"\s*:\s*", line, maxsplit=1) for line in (di / "WHEEL").read_text().splitlines() if line.strip())
        if wheel.get("Wheel-Version") != "1.0" or wheel.get("Root-Is-Purelib", "").lower() != "true":
            bad.append(f"WHEEL is {wheel}")
    except (OSError, ValueError) as e:
        bad.append(f"WHEEL: {e!r}")
    return bad


def check_file_name(spec: Spec, name: str):
    try:
        n, v, build, tags = parse_wheel_filename(name)
    except Exception as e:  # noqa
        return [f"the wheel's file name is {name}: {e!r}"]
    bad = []
    if n != canonicalize_name(spec.table["name"]) or v != PV(spec.table["version"]) or build:
        bad.append(f"the wheel's file name is {name}")
    s = SpecifierSet(spec.table.get("requires-python", ""))
    for minor in range(0, 14):
        if (s.contains(f"3.{minor}.0") or s.contains(f"3.{minor}.7")) and not tags & set(compatible_tags((3, minor))):
            bad.append(f"the wheel {name} cannot be used with python 3.{minor}, which requires-python = {spec.table.get('requires-python', '')!r} allows")
            break
    return bad


def check_record(root: Path, di: Path):
    bad = []
    files = {p.relative_to(root).as_posix() for p in root.rglob("*") if p.is_file()}
    rows = list(csv.reader(io.StringIO((di / "RECORD").read_text("utf8"), newline="")))
    listed = [r[0] for r in rows]
    me = (di / "RECORD").relative_to(root).as_posix()
    if len(set(listed)) != len(listed) or set(listed) - files or files - set(listed) - {me}:
        bad.append(f"RECORD lists {sorted(listed)}, the files are {sorted(files)}")
        return bad
    for path, digest, size, *rest in rows:
        if path == me:
            if digest:
                bad.append("RECORD has a hash of itself")
            continue
        data = (root / path).read_bytes()
        want = "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data).digest()).decode().rstrip("=")
        if digest != want or size != str(len(data)):
            bad.append(f"RECORD has {digest} {size} for {path}, should be {want} {len(data)}")
    return bad


def unpack_wheel(path: Path, to: Path):
    with zipfile.ZipFile(path) as z:
        names = z.namelist()
        if len(set(names)) != len(names):
            return [f"{path.name} holds files twice: {sorted(names)}"]
        if any(n.startswith("/") or ".." in n.split("/") for n in names) or z.testzip():
            return [f"{path.name} is broken: {names}"]
        z.extractall(to)
    return []


def check_wheel(spec: Spec, path: Path, to: Path, editable_of: Path = None):
    bad = check_file_name(spec, path.name)
    shutil.rmtree(to, ignore_errors=True)
    bad += unpack_wheel(path, to)
    if bad:
        return bad
    dis = [p for p in to.iterdir() if p.name.endswith(".dist-info")]
    if len(dis) != 1:
        return [f"the wheel has {[p.name for p in dis]}"]
    di = dis[0]
    if di.name[:-len(".dist-info")] != "-".join(path.name.split("-")[:2]):
        bad.append(f"the dist-info of {path.name} is {di.name}")
    bad += check_dist_info(spec, to, di) + check_record(to, di)
    files = {p.relative_to(to).as_posix(): p.read_bytes() for p in to.rglob("*") if p.is_file() and di not in p.parents}
    if editable_of is None:
        if files != spec.wheel_files:
            bad.append("the files of the wheel: " + "; ".join(fsbox.diff(spec.wheel_files, files)))
    else:
        if len(files) != 1 or not next(iter(files)).endswith(".pth"):
            bad.append(f"the editable wheel has {sorted(files)}")
        else:
            lines = [line for line in next(iter(files.values())).decode("utf8").splitlines() if line.strip() and not line.startswith("#")]
            got = sorted(os.path.realpath(line) for line in lines)
            sources = {f for f in spec.files if f.endswith(".py")}
            want = sorted({os.path.realpath(editable_of / s[:-len(w)]) for w in spec.wheel_files if w.endswith(".py")
                           for s in sources if s == w or s.endswith("/" + w) and spec.files[s] == spec.wheel_files[w] and owned(spec, s)})
            if got != want:
                bad.append(f"the editable wheel links to {got}, should be {want}")
    return bad


def owned(spec: Spec, source: str):
    """does this source file belong to the project's packages?"""
    if spec.packages:
        return any(source.startswith(os.path.normpath(p) + "/") for p in spec.packages)
    return source.startswith("src/") if any(f.startswith("src/") for f in spec.files) else source.startswith("demo/")


def content(root: Path):
    return {p.relative_to(root).as_posix(): p.read_bytes() for p in root.rglob("*") if p.is_file()}


def check_sdist(spec: Spec, path: Path, to: Path, metadata: bytes):
    bad = []
    try:
        n, v = parse_sdist_filename(path.name)
        if n != canonicalize_name(spec.table["name"]) or v != PV(spec.table["version"]):
            bad.append(f"the source distribution's file name is {path.name}")
    except Exception as e:  # noqa
        bad.append(f"the source distribution's file name is {path.name}: {e!r}")
    shutil.rmtree(to, ignore_errors=True)
    to.mkdir()
    with tarfile.open(path) as tar:
        names = tar.getnames()
        if len(set(names)) != len(names):
            bad.append(f"{path.name} holds files twice: {sorted(names)}")
        tar.extractall(to, filter="data")
    tops = [p.name for p in to.iterdir()]
    stem = path.name[:-len(".tar.gz")]
    if tops != [stem]:
        return bad + [f"{path.name} holds {tops}"], None
    root = to / stem
    if not (root / "PKG-INFO").exists() or (root / "PKG-INFO").read_bytes() != metadata:
        bad.append("PKG-INFO is not the METADATA of the wheel")
    try:
        doc = tomllib.loads((root / "pyproject.toml").read_text("utf8"))
        want = tomllib.loads(spec.text)
        if doc.get("tool", {}).get("other") != want.get("tool", {}).get("other"):
            bad.append(f"the tool tables of the pyproject.toml in the sdist are {doc.get('tool')}, should be {want.get('tool')}")
    except (OSError, ValueError) as e:
        bad.append(f"the pyproject.toml in the sdist: {e!r}")
    return bad, root


# ---------------------------------------------------------------- running
def project_at(path):
    from pkm.api.projects.project import Project
    return Project.load(Path(path))


IGNORED = ("dist", "etc")


def sources(root: Path):
    return {k: v for k, v in fsbox.snapshot(root).items() if k.split("/")[0] not in IGNORED or k in ("etc/pkm/packages-lock.toml", "dist/0.9/demo-0.9.tar.gz")}


def build_all(spec: Spec, box):
    """-> problems"""
    from pkm.api.dependencies.dependency import Dependency  # noqa
    box.clear()
    root = box.work / "p"
    root.mkdir()
    spec.write(root)
    before = sources(root)
    out, un = box.work / "o", box.work / "u"
    if spec.wheel_files is None:
        for what in ("build_wheel", "build_sdist"):
            r = attempt(lambda: getattr(project_at(root), what)(out))
            if r[0] == "ok" or r[1] not in ("FileNotFoundError", "ValueError"):
                return [f"{what} of a project whose packages lack a directory: {r}"]
            if out.exists() and content(out):
                return [f"the failed {what} left {sorted(content(out))}"]
        return fsbox.diff(before, sources(root))

    def build(what, root=root, **kw):
        r = attempt(lambda: getattr(project_at(root), what)(out, **kw))
        if r[0] != "ok":
            raise Missing(f"{what} {kw or ''} fails: {r[1:]}")
        if r[1].parent.resolve() != out.resolve() or not r[1].exists():
            raise Missing(f"{what} returned {r[1]}")
        return r[1]

    try:
        wheel = build("build_wheel")
        bad = check_wheel(spec, wheel, un / "w")
        if bad:
            return bad
        wheel_content = content(un / "w")
        metadata = next(v for k, v in wheel_content.items() if k.endswith(".dist-info/METADATA"))
        wheel_name = wheel.name
        shutil.rmtree(out)

        wheel = build("build_wheel", editable=True)
        bad = ["editable: " + b for b in check_wheel(spec, wheel, un / "e", editable_of=root)]
        if not bad and next(v for k, v in content(un / "e").items() if k.endswith(".dist-info/METADATA")) != metadata:
            bad.append("the editable wheel has other metadata")
        if bad:
            return bad
        shutil.rmtree(out)

        di = build("build_wheel", only_meta=True)
        only = content(di)
        if {k: v for k, v in only.items() if k != "RECORD"} != \
                {k.split("/", 1)[1]: v for k, v in wheel_content.items() if ".dist-info/" in k.split("/")[0] + "/" and not k.endswith("/RECORD")}:
            return [f"the metadata-only build has {sorted(only)}, not what the dist-info of the wheel has"]
        if [p.name for p in out.iterdir()] != [next(k for k in wheel_content if k.endswith("/METADATA")).split("/")[0]]:
            return [f"the metadata-only build made {[p.name for p in out.iterdir()]}"]
        shutil.rmtree(out)

        sdist = build("build_sdist")
        bad, sroot = check_sdist(spec, sdist, un / "s", metadata)
        if bad:
            return bad
        changed = fsbox.diff(before, sources(root))
        if changed:
            return ["building changed the project: " + "; ".join(changed)]
        shutil.rmtree(out)

        # a wheel that is built from the source distribution, elsewhere, is the same wheel
        root.rename(box.work / "gone")
        wheel = build("build_wheel", root=sroot)
        shutil.rmtree(un / "w")
        bad = ["from sdist: " + b for b in unpack_wheel(wheel, un / "w")]
        got = content(un / "w")
        if not bad and (got != wheel_content or wheel.name != wheel_name):
            bad = [f"the wheel {wheel.name} built from the source distribution is not the wheel {wheel_name} built from the project: "
                   + "; ".join(fsbox.diff(wheel_content, got))]
        if bad:
            return bad
        shutil.rmtree(out)
        (box.work / "gone").rename(root)

        # saving the configuration (as `pkm install` does) changes nothing
        r = attempt(lambda: project_at(root).config.save())
        if r[0] != "ok":
            return [f"saving pyproject.toml fails: {r[1:]}"]
        os.environ.pop("X", None)
        r = attempt(lambda: tomllib.loads((root / "pyproject.toml").read_text("utf8")))
        if r[0] != "ok":
            return [f"the saved pyproject.toml cannot be read: {r}"]
        if normal(r[1]) != normal(tomllib.loads(spec.text)):
            return [f"the saved pyproject.toml means {normal(r[1])}, should be {normal(tomllib.loads(spec.text))}"]
        wheel = build("build_wheel")
        shutil.rmtree(un / "w")
        unpack_wheel(wheel, un / "w")
        if content(un / "w") != wheel_content:
            return ["the wheel is another one after saving pyproject.toml: " + "; ".join(fsbox.diff(wheel_content, content(un / "w")))]
    except Missing as e:
        return [str(e)]
    left = [p.name for p in box.tmp.iterdir()]
    if left:
        return [f"temporary files were left: {left}"]
    return []


def normal(doc):
    """the meaning of a pyproject.toml"""
    p = json.loads(json.dumps(doc["project"]))
    p["name"] = canonicalize_name(p["name"])
    p["version"] = str(PV(p["version"]))
    p["requires-python"] = allowed(p.get("requires-python", ""), VERSIONS)
    p["dependencies"] = [requirement_meaning(d) for d in p.get("dependencies", [])]
    p["optional-dependencies"] = {k: [requirement_meaning(d) for d in v] for k, v in p.get("optional-dependencies", {}).items()}
    if "readme" in p:
        r = p["readme"]
        p["readme"] = (r.get("text"), r.get("file"), content_type(r)) if isinstance(r, dict) else (None, r, content_type(r))
    for group in ("entry-points",):
        p[group] = {g: {n: re.sub(r"\s", "", r) for n, r in eps.items()} for g, eps in p.get(group, {}).items()}
    for group in ("scripts", "gui-scripts"):
        p[group] = p.get(group, {})
    tool = json.loads(json.dumps(doc.get("tool", {})))
    pkm = tool.get("pkm", {})
    if not pkm.get("project", True):
        del pkm["project"]
    if pkm.get("distribution") == {"type": "lib"}:  # the default
        del pkm["distribution"]
    tool = {k: v for k, v in tool.items() if v}
    return {"tool": tool, **{k: v for k, v in doc.items() if k not in ("project", "tool") and v}, "project": {k: v for k, v in p.items() if v not in ([], {})}}


# ---------------------------------------------------------------- the hooks of the build system (pep 517, pep 660)
def hooks(spec: Spec, box):
    """-> problems: the hooks give what the project gives"""
    from pkm.api import buildsys
    from pkm.api.environments.environment import Environment
    box.clear()
    root = box.work / "p"
    root.mkdir()
    spec.write(root)
    if spec.wheel_files is None:
        return []
    out, un = box.work / "o", box.work / "u"
    bad = []
    os.chdir(root)
    try:
        for hook, build in ((buildsys.build_wheel, lambda t: project_at(root).build_wheel(t)),
                            (buildsys.build_editable, lambda t: project_at(root).build_wheel(t, editable=True)),
                            (buildsys.build_sdist, lambda t: project_at(root).build_sdist(t)),
                            (buildsys.prepare_metadata_for_build_wheel, lambda t: project_at(root).build_wheel(t, only_meta=True)),
                            (buildsys.prepare_metadata_for_build_editable, lambda t: project_at(root).build_wheel(t, only_meta=True))):
            got = []
            for f in (lambda t: hook(str(t)), lambda t: build(t).name):
                shutil.rmtree(out, ignore_errors=True)
                shutil.rmtree(un, ignore_errors=True)
                out.mkdir()
                r = attempt(lambda: f(out))
                if r[0] != "ok":
                    return [f"{hook.__name__}: {r[1:]}"]
                got.append((r[1], unpacked(out, un)))
            if got[0] != got[1]:
                bad.append(f"{hook.__name__} makes {got[0][0]} with {sorted(got[0][1])}, the project {got[1][0]} with {sorted(got[1][1])}: "
                           + "; ".join(fsbox.diff(got[1][1], got[0][1])))
        # the interpreter must be one the project allows
        shutil.rmtree(out, ignore_errors=True)
        r = attempt(lambda: project_at(root).build_wheel(out, target_env=Environment.current()))
        fits = SpecifierSet(spec.table.get("requires-python", "")).contains(".".join(map(str, sys.version_info[:3])))
        if (r[0] == "ok") != fits or r[0] != "ok" and out.exists() and content(out):
            bad.append(f"building for python {sys.version_info[:3]}, which requires-python {'allows' if fits else 'does not allow'}: {r[:2]}, made "
                       f"{sorted(content(out)) if out.exists() else []}")
    finally:
        os.chdir(box.home)
    return bad


def unpacked(out: Path, un: Path):
    """the content of all files below out, with that of the archives"""
    got = {}
    for p in sorted(out.rglob("*")):
        rel = p.relative_to(out).as_posix()
        if p.suffix == ".whl":
            with zipfile.ZipFile(p) as z:
                got.update({f"{rel}!{i.filename}": z.read(i) for i in z.infolist() if not i.is_dir() and not i.filename.endswith("/RECORD")})
                got.update({f"{rel}!{i.filename}": b"".join(sorted(z.read(i).splitlines())) for i in z.infolist() if i.filename.endswith("/RECORD")})
        elif p.name.endswith(".tar.gz"):
            with tarfile.open(p) as t:
                got.update({f"{rel}!{m.name}": t.extractfile(m).read() for m in t.getmembers() if m.isfile()})
        elif p.is_file():
            got[rel] = p.read_bytes()
    return got


# ---------------------------------------------------------------- sequences on one project object
SEQ_OPS = ["wheel", "editable", "meta", "sdist", "build", "edit", "add", "bump", "save"]
SEQ_PROJECTS = [(("all", 0), ("version", 5)), (("layout", "flat-dirs"), ("version", 5)), (("layout", "lib-2"), ("readme", 3), ("version", 5))]
FIELDS["version"].append("1.2.3")


def seq_op(project, root: Path, op, n, to: Path):
    """-> what the operation made, {name: content}"""
    if op in ("wheel", "editable", "meta"):
        project.build_wheel(to, editable=op == "editable", only_meta=op == "meta")
    elif op == "sdist":
        project.build_sdist(to)
    elif op == "build":  # into the default place
        made = project.build()
        to.mkdir(exist_ok=True)
        for p in made:
            (to / p.parent.name).mkdir(exist_ok=True)
            shutil.move(str(p), str(to / p.parent.name / p.name))
    elif op == "save":
        project.config.save()
    elif op == "bump":
        project.bump_version("minor")
    elif op in ("edit", "add"):
        files = [root / f for f in LAYOUTS["flat"][0] if (root / f).exists()] or sorted(root.rglob("demo/data.txt"))
        f = files[0].parent / (f"new{n}.py" if op == "add" else "data.txt")
        f.write_bytes(f"{op} {n}".encode())
    return unpacked(to, to) if to.exists() else {}


def sequence(start, ops, box):
    """-> problem: one project object for all the operations, against a new one for each"""
    made = []
    for one in (True, False):
        box.clear()
        root = box.work / "p"
        root.mkdir()
        Spec(start).write(root)
        project = project_at(root)
        results = []
        for n, op in enumerate(ops):
            if not one:
                project = project_at(root)
            to = box.work / f"o{n}"
            r = attempt(lambda: seq_op(project, root, op, n, to))
            if r[0] != "ok":
                return f"{op} fails: {r[1:]}"
            results.append(r[1])
        made.append((results, {k: v for k, v in fsbox.snapshot(root).items() if k.split("/")[0] != "dist"}))
    for n, (a, b) in enumerate(zip(made[0][0], made[1][0])):
        if a != b:
            return f"operation {n + 1} ({ops[n]}) of one project object makes other things than that of a new one: " + "; ".join(fsbox.diff(b, a))
    if made[0][1] != made[1][1]:
        return "the project differs afterwards: " + "; ".join(fsbox.diff(made[1][1], made[0][1]))


def seq_shard(job, part: Part):
    base, items = job
    box = fsbox.worker_box(base)
    os.chdir(box.home)
    for start, ops in items:
        r = attempt(lambda: sequence(start, ops, box), 60)
        err = r[1] if r[0] == "ok" else f"{r[1]}: {r[2]}"
        part.case((start, ops), sample=[list(start), list(ops)], outcome=f"sequence of {len(ops)}")
        part.transitions += len(ops)
        if err:
            part.violation(f"sequence {' '.join(ops)} of {describe(Spec(start))}", {"sequence": [[list(c) for c in start], list(ops)]},
                           f"{' / '.join(ops)} of the project {describe(Spec(start))}: {err}")


# ---------------------------------------------------------------- failures and crashes
def interrupted(start, what, mode, n, box):
    """the n-th file system operation of a build fails (or is the last one) -> (problem or None, was there an n-th one?)"""
    box.clear()
    root, out = box.work / "p", box.work / "o"
    root.mkdir()
    spec = Spec(start)
    spec.write(root)
    project = project_at(root)
    before = sources(root)

    def build():
        return project.build_sdist(out) if what == "sdist" else project.build_wheel(out, editable=what == "editable")

    if mode == "crash":
        pid = os.fork()
        if pid == 0:
            try:
                box.crash_at = n
                with box:
                    box.fault_reads = True
                    build()
                os._exit(0)
            except BaseException:  # noqa
                os._exit(1)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if rc == 1:
            return "the build fails", True
        fired, failed = rc == 77, rc == 77
        box.clear(box.tmp)
    else:
        with box:
            box.fault_reads, box.fault_at = True, n
            r = attempt(build)
        fired, failed = box.fired is not None, r[0] != "ok"
        if failed and not fired:
            return f"the build fails: {r}", False
        if not failed and fired:
            failed = False  # it did not matter
    bad = []
    for p in out.iterdir() if out.exists() else ():
        if p.suffix == ".whl" or p.name.endswith(".tar.gz"):
            whole = attempt(lambda: check_wheel(spec, p, box.work / "u", root if what == "editable" else None) if p.suffix == ".whl"
                            else complete_sdist(spec, p))
            if whole[0] != "ok" or whole[1]:
                bad.append(f"{p.name} is there but it is not complete: {whole[1:]}")
    if not failed and not bad and not (out.exists() and any(out.iterdir())):
        bad.append("the build made nothing")
    bad += fsbox.diff(before, sources(root))
    box.clear(box.tmp)  # removing temporary files is what may have failed
    return "; ".join(bad) or None, fired


def complete_sdist(spec, p):
    with tarfile.open(p) as t:
        names = {m.name.split("/", 1)[1] for m in t.getmembers() if m.isfile()}
    want = {"PKG-INFO", "pyproject.toml"} | {f"src/{f}" for f in spec.wheel_files}
    return sorted(want - names)


def interrupt_shard(job, part: Part):
    base, start, what, mode, k, of = job
    box = fsbox.worker_box(base)
    os.chdir(box.home)
    n = k
    while True:
        r = attempt(lambda: interrupted(start, what, mode, n, box), 60)
        err, fired = r[1] if r[0] == "ok" else (f"{r[1]}: {r[2]}", False)
        part.case((start, what, mode, n), outcome=f"{mode} in {what}")
        part.transitions += 1
        if err:
            part.violation(f"{mode} {n} in {what} of {describe(Spec(start))}", {"interrupt": [[list(c) for c in start], what, mode, n]},
                           f"{what} of the project {describe(Spec(start))}, {mode} at file system operation {n + 1}: {err}")
        if not fired:
            break
        n += of


def shard(job, part: Part):
    base, specs = job
    box = fsbox.worker_box(base)
    os.chdir(box.home)
    for changes in specs:
        spec = Spec(changes)
        r = attempt(lambda: build_all(spec, box), 60)
        if r == ("ok", []) and len(changes) < 2:
            r = attempt(lambda: hooks(spec, box), 60)
        if r[0] != "ok":
            bad = [f"{r[1]}: {r[2]}"]
        else:
            bad = r[1]
        part.case(spec.changes, sample=spec.text, outcome=" + ".join(sorted(f for f, _ in spec.changes))[:60] if len(changes) < 2 else f"{len(changes)} fields")
        part.states += 1
        part.transitions += 6
        if bad:
            part.violation(f"project {describe(spec)}", {"project": [list(c) for c in spec.changes]},
                           f"project {describe(spec)}: " + "; ".join(bad))


def describe(spec: Spec):
    return ", ".join(f"{f} = {i if isinstance(i, str) else tv(FIELDS[f][i]) if f in FIELDS else ''}"[:100] for f, i in spec.changes) or "as simple as possible"


def specs_up_to(n):
    v = variants()
    out = [()]
    for k in range(1, n + 1):
        for combo in itertools.combinations(v, k):
            fields = [f for f, _ in combo]
            if len(set(fields)) == k and not (any(("layout", f) in combo for f in FLAT) and (("readme", 1) in combo or ("license", 3) in combo)):
                out.append(combo)
    return out


def known_interpreter(base):
    """builds ask for the version of the interpreter that runs them: they do not need to start it again every time"""
    from pkm.api.environments.environment import Environment
    env = pyenv.load_env(pyenv.write_env(Path(base) / "current", python=tuple(sys.version_info[:3])))
    Environment.current = classmethod(lambda cls, *_, **__: env)


def run(ck: Check):
    prepare_home()
    import pkm.build.pkm_builders  # noqa
    import pkm.api.projects.project  # noqa
    specs = specs_up_to(2)
    with fsbox.base_dir() as base:
        known_interpreter(base)
        singles = [s for s in specs if len(s) < 2]
        parallel(ck, shard, [(base, s) for s in shard_list(singles, 8)])
        if not ck.violations:
            pairs = [s for s in specs if len(s) == 2]
            parallel(ck, shard, [(base, s) for s in shard_list(pairs, 32)])
        seqs = [(start, ops) for start in SEQ_PROJECTS for k in (2, 3) + ((4,) if ck.thorough else ())
                for ops in itertools.product(SEQ_OPS, repeat=k) if k == 2 or start == SEQ_PROJECTS[1] or ck.thorough and k == 3]
        parallel(ck, seq_shard, [(base, s) for s in shard_list(seqs, 16)])
        ck.extra["sequences"] = len(seqs)
        of = 2
        parallel(ck, interrupt_shard, [(base, start, what, mode, k, of) for start in ((), (("readme", 0), ("license", 1)))
                                       for what in ("wheel", "editable", "sdist") for mode in ("fault", "crash") for k in range(of)])
        if ck.thorough and not ck.violations:
            v = variants()
            few = {c for f in dict.fromkeys(f for f, _ in v) for c in [c for c in v if c[0] == f][:4]}
            triples = [t for t in specs_up_to(3)[len(specs):] if few.issuperset(t)]
            parallel(ck, shard, [(base, s) for s in shard_list(triples, 256)])
            ck.extra["projects"] = len(specs) + len(triples)
    ck.traces = ck.evaluations
    ck.extra.setdefault("projects", len(specs))


def replay(case):
    prepare_home()
    with fsbox.base_dir() as base:
        box = fsbox.worker_box(base)
        os.chdir(box.home)
        if "sequence" in case:
            start, ops = case["sequence"]
            return sequence(tuple(tuple(c) for c in start), ops, box)
        if "interrupt" in case:
            start, what, mode, n = case["interrupt"]
            return interrupted(tuple(tuple(c) for c in start), what, mode, n, box)[0]
        spec = Spec([tuple(c) for c in case["project"]])
        print(spec.text)
        return "; ".join(build_all(spec, box) or hooks(spec, box)) or None
