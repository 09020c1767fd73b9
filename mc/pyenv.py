"""Scratch python environments (with an interpreter that only prints a canned introspection) and scratch wheels."""
import base64
import copy
import hashlib
import json
import os
import subprocess
import sys
import zipfile
from pathlib import Path

_base = None
_introspections = {}


def base_introspection():
    """what the interpreter running the checks reports about itself (obtained once through the code under test)"""
    global _base
    if _base is None:
        from pkm.api.environments.environment_introspection import EnvironmentIntrospection
        i = EnvironmentIntrospection.compute(Path(sys.executable))
        _base = {k: i[k] for k in ("sysconfig", "sys", "importlib", "platform", "os", "site")}
        _base["sysconfig"] = dict(_base["sysconfig"])
        _base["sysconfig"]["vars"] = {k: v for k, v in _base["sysconfig"]["vars"].items()
                                      if k in ("SOABI", "Py_DEBUG", "WITH_PYMALLOC", "Py_UNICODE_SIZE", "EXT_SUFFIX")}
        _base["sysconfig"]["paths_by_scheme"] = {}
        _base["os"] = dict(_base["os"])
    return _base


LAYOUTS = {
    "same": dict(purelib="lib/site-packages", platlib="lib/site-packages"),
    "split": dict(purelib="lib/site-packages", platlib="lib64/site-packages"),
    "prefix": dict(purelib="lib/site", platlib="lib/site64"),
    "link": dict(purelib="lib/site-packages", platlib="lib64/site-packages"),  # lib64 -> lib
}


def write_env(root: Path, layout="same", windows=False, python=(3, 12, 3), changes=None):
    """writes the directory structure of a virtual environment"""
    data = copy.deepcopy(base_introspection())
    lay = LAYOUTS[layout]
    data["sysconfig"]["paths"] = {
        "stdlib": "/nonexistent/stdlib", "platstdlib": str(root / "lib/platstd"), "platinclude": str(root / "include"),
        "purelib": str(root / lay["purelib"]), "platlib": str(root / lay["platlib"]),
        "include": str(root / "include"), "data": str(root), "scripts": str(root / "bin")}
    data["sys"]["version_info"] = [*python, "final", 0]
    data["sys"]["implementation"] = {"name": "cpython", "version": [*python, "final", 0]}
    data["platform"]["python_version"] = ".".join(map(str, python))
    data["platform"]["python_version_tuple"] = [str(p) for p in python]
    data["platform"]["system"] = "Linux"
    data["platform"]["machine"] = "x86_64"
    data["platform"]["release"] = "5.0"
    data["platform"]["version"] = "#1"
    data["sys"]["platform"] = "linux"
    data["sysconfig"]["platform"] = "linux-x86_64"
    if windows:
        data["platform"]["system"] = "Windows"
        data["platform"]["machine"] = "AMD64"
        data["sys"]["platform"] = "win32"
        data["os"]["name"] = "nt"
        data["sysconfig"]["platform"] = "win-amd64"
    if changes:
        changes(data)
    root.mkdir(parents=True)
    (root / "pyvenv.cfg").write_text("home = /nonexistent\n")
    (root / "bin").mkdir()
    (root / "intro.json").write_text(json.dumps(data))
    python_path = root / "bin/python"
    python_path.write_text('#!/bin/sh\nexec cat "$(dirname "$0")/../intro.json"\n')
    python_path.chmod(0o755)
    if cached := _introspections.get((str(root), (root / "intro.json").read_bytes())):
        (root / "etc/pkm").mkdir(parents=True)
        (root / "etc/pkm/env_introspection.json").write_bytes(cached)
    (root / lay["purelib"]).mkdir(parents=True)
    if layout == "link":
        (root / "lib64").symlink_to("lib")
    elif lay["platlib"] != lay["purelib"]:
        (root / lay["platlib"]).mkdir(parents=True, exist_ok=True)
    return root


def load_env(root: Path):
    """the environment, with everything about its interpreter already known to it"""
    from pkm.api.environments.environment import Environment
    env = Environment(root)
    env.markers, env.interpreter_version, env.interpreter_path, env.installation_target, env.operating_platform  # noqa
    env.compatibility_tag_score("py3-none-any")
    stored = root / "etc/pkm/env_introspection.json"  # what pkm itself keeps to not start the interpreter each time
    if stored.exists():
        _introspections[(str(root), (root / "intro.json").read_bytes())] = stored.read_bytes()
    return env


def b64(digest: bytes) -> str:
    return base64.urlsafe_b64encode(digest).decode().rstrip("=")


def record_line(path: str, data: bytes, algo="sha256"):
    return [path, f"{algo}={b64(hashlib.new(algo, data).digest())}", str(len(data))]


def to_csv(rows) -> bytes:
    import csv
    import io
    out = io.StringIO()
    csv.writer(out, lineterminator="\n").writerows(rows)
    return out.getvalue().encode()


def metadata(name, version, requires=(), requires_python=None, extras=()):
    lines = ["Metadata-Version: 2.1", f"Name: {name}", f"Version: {version}"]
    if requires_python:
        lines.append(f"Requires-Python: {requires_python}")
    lines += [f"Requires-Dist: {r}" for r in requires]
    lines += [f"Provides-Extra: {e}" for e in extras]
    return ("\n".join(lines) + "\n\n").encode()


def wheel_text(pure=True, extra="", tag="py3-none-any", version="1.0"):
    return f"Wheel-Version: {version}\nGenerator: verif\nRoot-Is-Purelib: {'true' if pure else 'false'}\nTag: {tag}\n{extra}".encode()


def write_wheel(path: Path, files, dist_info, record=None, dirs=()):
    """files: {name: bytes} without RECORD; record: rows, bytes, None (generated) or False (none)"""
    if record is None:
        record = [record_line(n, d) for n, d in files.items()] + [[f"{dist_info}/RECORD", "", ""]]
    with zipfile.ZipFile(path, "w") as z:
        for d in dirs:
            z.writestr(zipfile.ZipInfo(d.rstrip("/") + "/"), b"")
        for n, d in files.items():
            z.writestr(n, d)
        if record is not False:
            z.writestr(f"{dist_info}/RECORD", record if isinstance(record, bytes) else to_csv(record))
    return path


def remember_introspections():
    """an interpreter is started once instead of every time pkm wants to know what it is (only saves time)"""
    from pkm.api.environments import environment_introspection as mod
    cls = getattr(mod, "EnvironmentIntrospection", None)
    compute = getattr(cls, "compute", None)
    if compute is None or not hasattr(compute, "__func__") or hasattr(compute, "remembered"):
        return
    known = {}

    def remembered(interpreter_path, *args, **kwargs):
        k = (str(interpreter_path), args, tuple(kwargs.items()))
        if k not in known:
            known[k] = compute(interpreter_path, *args, **kwargs)
        return known[k]

    remembered.remembered = True
    cls.compute = staticmethod(remembered)
