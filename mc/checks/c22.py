"""C22 compatibility tags and markers: every kind of interpreter and platform x every tag, on environments with such interpreters."""
import itertools
import json
import os
import shutil
import struct
import sys
from pathlib import Path

from packaging import tags as ptags

from mc import fsbox, pyenv
from mc.histories import prepare_home
from mc.net import Net
from mc.checks import c19
from mc.core import Check, Part, attempt, parallel
from pkm.api.environments.environment import Environment

PROPERTY = "C22"
LEVEL = "exploration"
RULE = ("all interpreters (implementation, version, build) x platforms (system, architecture, C library, word size) x all tags of a "
        "universe of interpreter, abi and platform parts, all pairs of parts in compressed tags, all malformed tags; all sets of up to three "
        "wheels of a package are installed. non-trivial: distinct (interpreter, platform, tag) of which at least one part is supported")

# name -> (implementation, version, version info, vars)
INTERPRETERS = {
    "cp38": ("cpython", (3, 8, 1, "final", 0), {"SOABI": "cpython-38-x"}, ["cp38"]),
    "cp39": ("cpython", (3, 9, 0, "candidate", 2), {"SOABI": "cpython-39-x"}, ["cp39"]),
    "cp310": ("cpython", (3, 10, 12, "final", 0), {"SOABI": "cpython-310-x"}, ["cp310"]),
    "cp312": ("cpython", (3, 12, 3, "final", 0), {"SOABI": "cpython-312-x", "Py_DEBUG": 0}, ["cp312"]),
    "cp312d": ("cpython", (3, 12, 3, "final", 0), {"SOABI": "cpython-312d-x", "Py_DEBUG": 1}, ["cp312d", "cp312"]),
    "cp313": ("cpython", (3, 13, 0, "beta", 1), {"SOABI": "cpython-313-x", "Py_GIL_DISABLED": 0}, ["cp313"]),
    "cp313t": ("cpython", (3, 13, 1, "final", 0), {"SOABI": "cpython-313t-x", "Py_GIL_DISABLED": 1}, ["cp313t"]),
    "pp39": ("pypy", (3, 9, 18, "final", 0), {"SOABI": "pypy39-pp73"}, ["pypy39_pp73"]),
    "pp310": ("pypy", (3, 10, 14, "alpha", 0), {"SOABI": "pypy310-pp73"}, ["pypy310_pp73"]),
}
ARM = 0x05000000 | 0x400
# name -> system, sysconfig platform, 32 bit, glibc, musl, elf (32 bit, machine, flags), mac_ver
PLATFORMS = {}


def _linux(name, platform, arch, elf, glibc=None, musl=None, is32=False):
    PLATFORMS[name] = dict(system="Linux", platform=platform, arch=arch, elf=elf, glibc=glibc, musl=musl, is32=is32)


X64, X86, A64, A32, ARMSOFT = (False, 62, 0), (True, 3, 0), (False, 183, 0), (True, 40, ARM), (True, 40, 0x05000000)
for _g in ("2.35", "2.17", "2.12", "2.5", "2.20-2014.11", "2.31.9000", "2.4"):
    _linux(f"x86_64 glibc {_g}", "linux-x86_64", "x86_64", X64, glibc=f"glibc {_g}")
_linux("x86_64 unknown libc", "linux-x86_64", "x86_64", X64)
_linux("x86_64 strange libc", "linux-x86_64", "x86_64", X64, glibc="libc unknown")
_linux("x86_64 no elf", "linux-x86_64", "x86_64", None, glibc="glibc 2.31")
for _m in ("1.2.3", "1.1.24", "1.2"):
    _linux(f"x86_64 musl {_m}", "linux-x86_64", "x86_64", X64, musl=_m)
_linux("i686 on x86_64", "linux-x86_64", "i686", X86, glibc="glibc 2.28", is32=True)
_linux("i686", "linux-i686", "i686", X86, glibc="glibc 2.12", is32=True)
_linux("i686 musl", "linux-i686", "i686", X86, musl="1.2.2", is32=True)
_linux("aarch64", "linux-aarch64", "aarch64", A64, glibc="glibc 2.31")
_linux("aarch64 musl", "linux-aarch64", "aarch64", A64, musl="1.2.5")
_linux("armv7l on aarch64", "linux-aarch64", "armv7l", A32, glibc="glibc 2.31", is32=True)
_linux("armv7l", "linux-armv7l", "armv7l", A32, glibc="glibc 2.31", is32=True)
_linux("armv7l soft float", "linux-armv7l", "armv7l", ARMSOFT, glibc="glibc 2.31", is32=True)
_linux("ppc64le", "linux-ppc64le", "ppc64le", (False, 21, 0), glibc="glibc 2.28")
for _v, _a, _p in (("10.9.5", "x86_64", "macosx-10.9-x86_64"), ("10.15.7", "x86_64", "macosx-10.9-x86_64"), ("11.6", "x86_64", "macosx-10.9-universal2"),
                   ("11.0.1", "arm64", "macosx-11.0-arm64"), ("13.2.1", "arm64", "macosx-10.9-universal2"), ("14.1", "x86_64", "macosx-11.0-x86_64")):
    PLATFORMS[f"mac {_v} {_a}"] = dict(system="Darwin", platform=_p, arch=_a, mac=_v, is32=False, elf=None, glibc=None, musl=None)
for _p, _32 in (("win-amd64", False), ("win32", True), ("win-arm64", False)):
    PLATFORMS[_p] = dict(system="Windows", platform=_p, is32=_32, elf=None, glibc=None, musl=None)
PLATFORMS["freebsd"] = dict(system="FreeBSD", platform="freebsd-13.1-RELEASE-amd64", is32=False, elf=None, glibc=None, musl=None)

IPTS = ["py2", "py3", "py27", "py30", "py38", "py39", "py310", "py3_10", "py312", "py313", "py314", "cp27", "cp38", "cp39", "cp310", "cp3_10", "cp311",
        "cp312", "cp313", "cp314", "cp2", "pp38", "pp39", "pp310", "pp3", "pp27", "ip39", "jy39", "foo"]
ABIS = ["none", "abi3", "cp38", "cp38m", "cp39", "cp310", "cp312", "cp312d", "cp313", "cp313t", "cp313d", "cp27mu", "pypy39_pp73", "pypy310_pp73", "foo"]
PLATS = ["any", "win_amd64", "win32", "win_arm64", "freebsd_13_1_RELEASE_amd64", "freebsd_13_0_RELEASE_amd64", "linux", "foo"]
ARCHS = ["x86_64", "i686", "aarch64", "armv7l", "ppc64le"]
GLIBCS = [(2, 5), (2, 12), (2, 17), (2, 20), (2, 28), (2, 31), (2, 35), (2, 36)]
MUSLS = [(1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (0, 9)]
MACS = [(10, 4), (10, 9), (10, 10), (10, 15), (11, 0), (12, 0), (13, 0), (14, 0), (15, 0)]
LEGACY = {"manylinux1": (2, 5), "manylinux2010": (2, 12), "manylinux2014": (2, 17)}
for _a in ARCHS:
    PLATS += [f"linux_{_a}", *(f"manylinux_{x}_{y}_{_a}" for x, y in GLIBCS), *(f"musllinux_{x}_{y}_{_a}" for x, y in MUSLS)]
    PLATS += [f"{n}_{_a}" for n in LEGACY if _a in ("x86_64", "i686") or n == "manylinux2014"]
PLATS += [f"macosx_{x}_{y}_{_a}" for x, y in MACS for _a in ("x86_64", "arm64", "universal2", "intel", "universal", "i386", "ppc")]
MALFORMED_PLATS = ["manylinux__x86_64", "manylinux_2_x86_64", "manylinux_a_b_x86_64", "manylinux_x86_64", "musllinux_1_x86_64", "musllinux_x86_64",
                   "musllinux_x_y_x86_64", "macosx", "macosx_10", "macosx_10_9", "macosx_x_y_x86_64", "macosx_x86_64", "", "_", "x86_64", "_x86_64"]
MALFORMED_IPTS = ["py", "cp", "py_", "cp_", "py3_", "py_3", "cp__", "pyx", "cpx", "py3x8", "3", "", "_", "PY3x", "pp", "pp_"]
MALFORMED = ["", "-", "--", "---", "py3", "py3-none", "py3-none-any-x", "py3--any", "py3-none-", "-none-any", "py3 none any", "cp38-cp38",
             *(f"{i}-none-any" for i in MALFORMED_IPTS), *(f"py3-none-{p}" for p in MALFORMED_PLATS)]


def elf_bytes(cfg, interp: str):
    is32, machine, flags = cfg
    ident = b"\x7fELF" + bytes([1 if is32 else 2, 1, 1, 0, 0]) + bytes(7)
    size = 52 if is32 else 64
    ph = 32 if is32 else 56
    text = interp.encode() + b"\0"
    at = size + 2 * ph
    word = "I" if is32 else "Q"
    head = struct.pack(f"<2HI3{word}I6H", 3, machine, 1, 0, size, 0, flags, size, ph, 2, 0, 0, 0)

    def program(kind, offset, length):
        if is32:
            return struct.pack("<8I", kind, offset, 0, 0, length, length, 4, 1)
        return struct.pack("<2I6Q", kind, 4, offset, 0, 0, length, length, 1)

    return ident + head + program(6, size, 2 * ph) + program(3, at, len(text)) + text


def make_env(root: Path, ipt, plat):
    impl, version, conf, _ = INTERPRETERS[ipt]
    p = PLATFORMS[plat]
    root.parent.mkdir(parents=True, exist_ok=True)
    exe = root.parent / f"{root.name}-exe"
    libc = root.parent / f"{root.name}-libc"
    if p["musl"]:
        libc.write_text(f"#!/bin/sh\nprintf 'musl libc (x)\\nVersion {p['musl']}\\nDynamic Program Loader\\n' >&2\nexit 1\n")
        libc.chmod(0o755)
    elif libc.exists():
        libc.unlink()
    exe.write_bytes(elf_bytes(p["elf"], str(libc)) if p["elf"] else b"MZ")

    def changes(d):
        d["sys"]["version_info"] = list(version)
        d["sys"]["implementation"] = {"name": impl, "version": list(version)}
        d["sys"]["executable"] = str(exe)
        d["sys"]["maxsize"] = 2 ** 31 - 1 if p["is32"] else 2 ** 63 - 1
        d["sys"]["has_totalrefcount"] = bool(conf.get("Py_DEBUG"))
        d["sys"]["platform"] = {"Linux": "linux", "Darwin": "darwin", "Windows": "win32", "FreeBSD": "freebsd13"}[p["system"]]
        for k in ("Py_DEBUG", "Py_GIL_DISABLED", "SOABI"):
            d["sysconfig"]["vars"].pop(k, None)
        if p["system"] != "Windows" or impl == "pypy":
            d["sysconfig"]["vars"].update(conf)
        else:
            d["sysconfig"]["vars"].update({k: v for k, v in conf.items() if k == "Py_GIL_DISABLED"})
            d["importlib"]["machinery"]["EXTENSION_SUFFIXES"] = ["_d.pyd", ".pyd"] if conf.get("Py_DEBUG") else [".pyd"]
        d["sysconfig"]["platform"] = p["platform"]
        full = ".".join(map(str, version[:3])) + ("" if version[3] == "final" else
                                                  {"alpha": "a", "beta": "b", "candidate": "rc"}[version[3]] + str(version[4]))
        d["platform"].update(system=p["system"], machine=p.get("arch", "x"), python_version=full, release="5.0-x", version="#1 SMP",
                             python_version_tuple=[str(version[0]), str(version[1]), full.split(".", 2)[2]],
                             python_implementation={"cpython": "CPython", "pypy": "PyPy"}[impl],
                             mac_ver=[p.get("mac", ""), ["", "", ""], p.get("arch", "") if p["system"] == "Darwin" else ""])
        d["os"]["name"] = "nt" if p["system"] == "Windows" else "posix"
        d["os"]["conf"] = {"CS_PATH": "/bin", **({"CS_GNU_LIBC_VERSION": p["glibc"]} if p["glibc"] else {})}

    pyenv.write_env(root, python=version[:3], changes=changes)
    return Environment(root)


def platform_verdict(p, plat):
    """True, False or None (not claimed)"""
    if plat == "any":
        return True
    own = p["platform"].replace("-", "_").replace(".", "_")
    if p["system"] in ("Windows", "FreeBSD"):
        return plat == own
    if p["system"] == "Darwin":
        parts = plat.split("_", 3)
        if parts[0] != "macosx":
            return False
        mine = tuple(map(int, p["mac"].split(".")[:2]))
        if parts[3] == "arm64" and int(parts[1]) < 11:
            return None if p["arch"] == "arm64" else False
        # minor versions of 11 and later are not a part of it; the oldest ones are not claimed, nor is intel
        if parts[3] in ("intel", "universal", "i386", "ppc"):
            return None if p["arch"] == "x86_64" and parts[3] != "ppc" and parts[3] != "i386" and (int(parts[1]), int(parts[2])) <= mine else False
        return plat in set(ptags.mac_platforms(mine, p["arch"]))
    arch = p["arch"]
    if plat == f"linux_{arch}":
        return True
    if not plat.endswith("_" + arch):
        return False
    kind = plat[:-len(arch) - 1]
    if kind in LEGACY or kind.startswith("manylinux_"):
        if not p["glibc"] or not p["glibc"].startswith("glibc ") or not p["elf"] or p["elf"] is ARMSOFT:
            return False
        version = LEGACY.get(kind) or tuple(map(int, kind.split("_")[1:]))
        mine = tuple(map(int, p["glibc"].split(" ")[1].split("-")[0].split(".")[:2]))
        if mine < version:
            return False
        return None if version < (2, 17) and arch not in ("x86_64", "i686") else True
    if kind.startswith("musllinux_"):
        if not p["musl"] or not p["elf"]:
            return False
        x, y = map(int, kind.split("_")[1:])
        mine = tuple(map(int, p["musl"].split(".")[:2]))
        return x == mine[0] and y <= mine[1]
    return False


def pair_verdicts(ipt_name):
    """(interpreter, abi, any?) -> verdict"""
    impl, version, _, abis = INTERPRETERS[ipt_name]
    v = version[:2]
    if impl == "cpython":
        own = f"cp{v[0]}{v[1]}"
        t = list(ptags.cpython_tags(v, abis=abis, platforms=["plat"])) + list(ptags.compatible_tags(v, own, ["plat"]))
    else:
        own = f"pp{v[0]}{v[1]}"
        t = list(ptags.generic_tags(own, abis, ["plat"])) + list(ptags.compatible_tags(v, "pp3", ["plat"]))
        t += [ptags.Tag(own, "none", "any")]
    good = {(x.interpreter, x.abi, x.platform == "any") for x in t}
    out = {}
    for ipt, abi, pure in itertools.product(IPTS, ABIS, (True, False)):
        plain = ipt.replace("_", "")
        verdict = (plain, abi, pure) in good
        if not verdict and (ipt.startswith("py") and abi != "none" or pure and abi != "none"):
            # nobody builds those: they are incompatible if a part of them is
            supported = abi in abis or abi == "abi3" and impl == "cpython" and not ipt_name.endswith("t")
            named = (plain, "none", pure) in good or (plain, "abi3", False) in good
            verdict = None if supported and named else False
        if ipt in ("pp3", "cp3") and not verdict:
            verdict = None if ipt[:2] == own[:2] and (abi in ("none", "abi3") or abi in abis) else False
        out[ipt, abi, pure] = verdict
    return out


def no_better(a, b):
    """score a is worse than score b"""
    return a < b and not b < a and a != b


def chains(ipt_name, p):
    """lists of tags, from the best to the worst"""
    impl, version, _, abis = INTERPRETERS[ipt_name]
    own = ipt_name.rstrip("dt") if impl == "cpython" else ipt_name
    plats = [x for x in PLATS if x != "any" and platform_verdict(p, x)]
    has3 = impl == "cpython" and not ipt_name.endswith("t")
    some = plats[:1]
    for plat in plats:
        yield [*(f"{own}-{a}-{plat}" for a in abis), *([f"{own}-abi3-{plat}"] if has3 else []), f"{own}-none-{plat}", f"{own}-none-any"]
        yield [f"{own}-none-{plat}", f"py3-none-{plat}", "py3-none-any"]
    olds = [x for x in ("310", "39", "38") if int(x[1:]) < version[1]]
    for plat in some:
        if has3:
            yield [f"cp{version[0]}{version[1]}-abi3-{plat}", *(f"cp{o}-abi3-{plat}" for o in olds)]
    yield [f"{own}-none-any", f"py{version[0]}{version[1]}-none-any", *(f"py{o}-none-any" for o in olds), "py30-none-any"]
    yield [f"{own}-none-any", "py3-none-any"]
    groups = {}
    for x in plats:
        if x.startswith("manylinux_"):
            groups.setdefault("many", []).append((tuple(map(int, x.split("_")[1:3])), x))
        elif x.startswith("musllinux_"):
            groups.setdefault("musl", []).append((tuple(map(int, x.split("_")[1:3])), x))
        elif x.startswith("macosx_"):
            v = tuple(map(int, x.split("_")[1:3]))
            groups.setdefault((x.split("_", 3)[3], v[0] if int(p["mac"].split(".")[0]) == 10 else 0),
                              []).append((v, x))
    for key, g in groups.items():
        if isinstance(key, tuple) and not key[1]:  # of the versions before 11 any
            g = [x for x in g if x[0] >= (11, 0)] + [max((x for x in g if x[0] < (11, 0)), default=None)]
            g = [x for x in g if x]
        yield [f"py3-none-{x}" for _, x in sorted(g, reverse=True)]


_envs = {}


def env_of(base, ipt, plat):
    key = ipt, plat
    if key not in _envs:
        root = fsbox.worker_box(base).work / f"e{len(_envs)}"
        _envs[key] = make_env(root, ipt, plat)
    return _envs[key]


def tags_run(shard, part: Part):
    base, ipt, plat, thorough = shard
    p = PLATFORMS[plat]
    env = env_of(base, ipt, plat)
    errors = {}

    def wrong(tag, text):
        errors.setdefault(text, tag)

    def score(tag):
        r = attempt(lambda: env.compatibility_tag_score(tag), 20)
        if r[0] != "ok":
            wrong(tag, f"fails with {r[1]}" if r[0] == "err" else "does not end")
            return None
        return r[1]

    pairs = pair_verdicts(ipt)
    plats = {x: platform_verdict(p, x) for x in PLATS}
    scores = {}
    for i, a, pl in itertools.product(IPTS, ABIS, PLATS):
        tag = f"{i}-{a}-{pl}"
        s = scores[i, a, pl] = score(tag)
        x, y = pairs[i, a, pl == "any"], plats[pl]
        want = False if x is False or y is False else None if x is None or y is None else True
        part.case((ipt, plat, tag), x is not False or y is not False, outcome=str(want))
        if want is True and s is None:
            wrong(tag, "a supported tag is refused")
        elif want is False and s is not None:
            wrong(tag, "an unsupported tag is accepted")
    for tag in MALFORMED:
        part.case((ipt, plat, tag), True, outcome="malformed")
        if score(tag) is not None and not platform_verdict(p, tag.split("-")[-1]):
            wrong(tag, "a malformed tag is accepted")
    for chain in chains(ipt, p):
        part.case((ipt, plat, "order", *chain), True, outcome="order")
        values = [(t, score(t)) for t in chain]
        values = [(t, s) for t, s in values if s is not None]
        for (t1, s1), (t2, s2) in zip(values, values[1:]):
            if not no_better(s2, s1):
                wrong(f"{t1} {t2}", "the more specific tag is not preferred")

    def compressed(tag, parts):
        part.case((ipt, plat, tag), True, outcome="compressed")
        s = score(tag)
        known = [x for x in parts if x is not None]
        best = None
        for x in known:
            if best is None or best < x:
                best = x
        if (s is None) != (best is None) or s is not None and (s < best or best < s):
            wrong(tag, "a set of tags is not as its best part")

    mine = [x for x in PLATS if plats[x]]
    few = ["any", *[x for x in mine if x != "any"][:2], "foo"]
    for i, j in itertools.product(IPTS + MALFORMED_IPTS, IPTS):
        for pl in few[:2]:
            compressed(f"{i}.{j}-none-{pl}", [scores.get((i, "none", pl)) if i in IPTS else None, scores[j, "none", pl]])
    for a, b in itertools.product(ABIS, ABIS):
        for pl in few:
            i = ipt.rstrip("dt")
            compressed(f"{i}-{a}.{b}-{pl}", [scores[i, a, pl], scores[i, b, pl]])
    second = PLATS if thorough else [*mine, "foo", "win_amd64", "macosx_10_9_x86_64", "linux_armv7l"]
    for x, y in itertools.product(PLATS + MALFORMED_PLATS, second):
        if x:
            compressed(f"py3-none-{x}.{y}", [scores.get(("py3", "none", x)), scores["py3", "none", y]])
            compressed(f"py3-none-{y}.{x}", [scores.get(("py3", "none", x)), scores["py3", "none", y]])
    for x, y, (i, j), (a, b) in itertools.product(few, few, (("py3", "cp39"), ("py2", "py3"), ("cp312", "pp39")), (("none", "abi3"), ("cp312", "none"))):
        compressed(f"{i}.{j}-{a}.{b}-{x}.{y}", [scores[k, c, z] for k in (i, j) for c in (a, b) for z in (x, y)])
    check_markers(part, env, ipt, plat, wrong)
    for text, tag in errors.items():
        part.violation(f"{ipt} on {plat}: {text}", {"tags": [ipt, plat]}, f"{ipt} on {plat}: {text}: {tag}")


def check_markers(part, env, ipt, plat, wrong):
    impl, v, _, _ = INTERPRETERS[ipt]
    p = PLATFORMS[plat]
    full = ".".join(map(str, v[:3])) + ("" if v[3] == "final" else {"alpha": "a", "beta": "b", "candidate": "rc"}[v[3]] + str(v[4]))
    want = {"os_name": "nt" if p["system"] == "Windows" else "posix",
            "sys_platform": {"Linux": "linux", "Darwin": "darwin", "Windows": "win32", "FreeBSD": "freebsd13"}[p["system"]],
            "platform_machine": p.get("arch", "x"), "platform_python_implementation": {"cpython": "CPython", "pypy": "PyPy"}[impl],
            "platform_release": "5.0-x", "platform_system": p["system"], "platform_version": "#1 SMP", "python_version": f"{v[0]}.{v[1]}",
            "python_full_version": full, "implementation_name": impl,
            "implementation_version": ".".join(map(str, v[:3])) + ("" if v[3] == "final" else v[3][0] + str(v[4]))}
    part.case((ipt, plat, "markers"), True, outcome="markers")
    for k, x in want.items():
        if env.markers.get(k) != x:
            wrong(f"{k} is {env.markers.get(k)!r} instead of {x!r}", "the markers are not those of the interpreter")
    if str(env.interpreter_version) != ".".join(map(str, v[:3])):
        wrong(str(env.interpreter_version), "the version is not that of the interpreter")


# ---------------------------------------------------------------- wheels
WHEELS = ["py3-none-any", "py2-none-any", "{own}-none-any", "{own}-{abi}-{plat}", "cp38-abi3-{plat}", "py3-none-{plat}", "{own}-{abi}-{bad}", "cp38-cp38-{plat}",
          "py2.py3-none-{bad}.{plat}", "sdist"]
PICKS = [("cp312", "x86_64 glibc 2.35", "manylinux_2_17_x86_64", "manylinux_2_36_x86_64"), ("cp38", "x86_64 musl 1.2.3", "musllinux_1_1_x86_64", "manylinux1_x86_64"),
         ("cp313t", "aarch64", "manylinux2014_aarch64", "linux_armv7l"), ("pp39", "mac 13.2.1 arm64", "macosx_11_0_arm64", "macosx_10_9_x86_64"),
         ("cp310", "i686 on x86_64", "manylinux1_i686", "linux_x86_64")]


def rank(ipt, p, tag):
    """None if it is not supported, else (own abi, stable abi, none; platform; own interpreter)"""
    impl, version, _, abis = INTERPRETERS[ipt]
    own = ipt.rstrip("dt") if impl == "cpython" else ipt
    verdicts = pair_verdicts(ipt)
    best = None
    i3, a3, p3 = (x.split(".") for x in tag.split("-"))
    for i, a, pl in itertools.product(i3, a3, p3):
        if verdicts.get((i, a, pl == "any")) and platform_verdict(p, pl):
            r = (2 if a in abis else 1 if a == "abi3" else 0, pl != "any", i == own)
            best = r if best is None else max(best, r)
    return best


def wheels_run(shard, part: Part):
    base, pick, subsets = shard
    ipt, plat, good, bad = PICKS[pick]
    impl, version, _, abis = INTERPRETERS[ipt]
    own = ipt.rstrip("dt") if impl == "cpython" else ipt
    p = PLATFORMS[plat]
    box = fsbox.worker_box(base)
    root = box.work / f"wheels-env-{pick}"
    for kind, subset in subsets:
        tags = [WHEELS[k].format(own=own, abi=abis[0], plat=good, bad=bad) for k in subset]
        if root.exists():
            shutil.rmtree(root)
        env = make_env(root, ipt, plat)
        ranks = {t: rank(ipt, p, t) for t in tags if t != "sdist"}
        best = max((r for r in ranks.values() if r), default=None)
        if best is None and "sdist" in tags:
            continue
        host = c19.a_host()
        with Net(c19.Index([c19.F("choice", "1.0", "tar.gz" if t == "sdist" else f"{t}.whl") for t in tags], kind)).active():
            r = c19.install(env, c19.new_repo(kind, host), "choice")
        c19.forget(host)
        site = root / "lib/site-packages/choice.py"
        got = site.read_text().strip()[len("# choice-1.0-"):-len(".whl")] if site.exists() else None
        text = f"{ipt} on {plat}, files of {kind} {' '.join(tags)}"
        part.case((ipt, plat, kind, subset), True, outcome="wheel of some" if best else "no wheel", sample=[ipt, plat, *tags])
        if best is None:
            error = f"{got} is installed" if got else None if r[0] == "err" and r[1] == "UnsolvableProblemException" else f"{r[1:]}"
        elif r[0] != "ok":
            error = f"cannot be installed: {r[1:]}"
        else:
            error = None if ranks.get(got) == best else f"{got} is installed"
        if error:
            part.violation(f"{text}: {error}"[:240], {"wheels": [pick, [kind, list(subset)]]}, f"{text}: {error}")


# ---------------------------------------------------------------- this interpreter
def own_run(shard, part: Part):
    base, = shard
    box = fsbox.worker_box(base)
    root = box.work / "own"
    (root / "bin").mkdir(parents=True)
    (root / "pyvenv.cfg").write_text(f"home = {Path(sys.executable).resolve().parent}\ninclude-system-site-packages = false\n")
    (root / "bin/python").symlink_to(Path(sys.executable).resolve())
    env = Environment(root)
    tags = [str(t) for t in ptags.sys_tags()]
    for t in tags:
        part.case(("own", t), True, outcome="own")
        if env.compatibility_tag_score(t) is None:
            part.violation(f"this interpreter: {t} is refused", {"own": 1}, f"this interpreter: {t} is refused")
    from packaging.markers import default_environment
    for k, v in default_environment().items():
        if k in env.markers and env.markers[k] != v:
            part.violation(f"this interpreter: {k}", {"own": 1}, f"this interpreter: {k} is {env.markers[k]!r} instead of {v!r}")
    # what is stored about it may be cut off anywhere, or be something else
    root = box.work / "cut"
    make_env(root, "cp39", "aarch64").markers  # noqa
    stored = root / "etc/pkm/env_introspection.json"
    good = stored.read_bytes()
    want = Environment(root).markers
    data = json.loads(good)
    other = {**data, "introspection": "x", "platform": {**data["platform"], "system": "Other"}}
    small = {k: data[k] for k in ("introspection",)}
    variants = [good[:k] for k in range(len(good))] + [json.dumps(other).encode(), b"{}"]
    for k, v in enumerate(variants):
        stored.write_bytes(v)
        r = attempt(lambda: (Environment(root).markers, Environment(root).compatibility_tag_score("cp39-cp39-manylinux_2_17_aarch64") is not None), 20)
        part.case(("cut", k), True, outcome="stored")
        if r != ("ok", (want, True)):
            text = f"after what is stored about an interpreter was {'cut off at ' + str(k) if k < len(good) else repr(v[:30])}: {r[1:]}"
            part.violation(text[:200], {"own": 1}, text)
            break


def prepare():
    os.environ.setdefault("PYTHONWARNINGS", "ignore")
    import warnings
    warnings.simplefilter("ignore")
    prepare_home()
    pyenv.remember_introspections()
    home = Path(os.environ["XDG_DATA_HOME"]) / "pkm"
    empty = Path(os.environ["MC_SCRATCH"]) / "empty"
    empty.mkdir(exist_ok=True)
    os.chmod(empty, 0o755)
    (home / "etc/pkm/repositories.toml").write_text(f'[repos.main]\ntype = "file-system"\npath = "{empty}"\n')
    from pkm.api.pkm import pkm
    assert pkm.repositories.main
    for p in home.rglob("*"):
        os.chmod(p, 0o777 if p.is_dir() else 0o666)


def run(ck: Check):
    prepare()
    with fsbox.base_dir() as base:
        parallel(ck, tags_run, [(base, i, p, ck.thorough) for i in INTERPRETERS for p in PLATFORMS])
        n = 4 if ck.thorough else 3
        subsets = [(kind, s) for k in range(1, n + 1) for s in itertools.permutations(range(len(WHEELS)), k) for kind in ("simple", "pypi")
                   if k < 3 or s[0] < s[2]]
        parallel(ck, wheels_run, [(base, k, subsets[i::8]) for k in range(len(PICKS)) for i in range(8)])
        parallel(ck, own_run, [(base,)])


def replay(case):
    prepare()
    part = Part()
    with fsbox.base_dir() as base:
        if "tags" in case:
            tags_run((base, *case["tags"], False), part)
        elif "wheels" in case:
            wheels_run((base, case["wheels"][0], [(case["wheels"][1][0], tuple(case["wheels"][1][1]))]), part)
        else:
            own_run((base,), part)
    return part.violations[0][1]["message"] if part.violations else None
