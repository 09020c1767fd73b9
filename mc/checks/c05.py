"""C05 dependency texts (PEP 508 requirements) and package name identity."""
import itertools
import re

from packaging.utils import canonicalize_name

from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import PackageDescriptor
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("exhaustive product of names x extras x version parts x markers x whitespace layouts: every text is parsed, its "
        "parts compared with what it was built from (allowed versions over a universe, marker over environments), printed, "
        "and parsed again; plus all names of up to n characters over a name alphabet for the identity of packages. "
        "non-trivial: distinct texts that carry an extra, a version part or a marker")

NAMES = ["a", "A", "a1", "7zip", "a_b", "a-b", "a.b", "Foo.Bar-baz_qux", "x2", "z__z", "a--b", "0"]
EXTRAS = [None, [], ["x"], ["x", "y"], ["y", "x"], ["x-1", "Y_2", "3.z"], ["1x"]]
SPECS = ["", ">=1", "==1.0", "!=1.5", "<2,>=1", ">=1,!=1.5,<3", "~=1.4", "==1.*", ">1.0a1", "===1.0", "===foo.1-x", "*", "<=2.0",
         ">=1.0,<2.0,!=1.3,!=1.4", "<1.0.dev1", "!=1.*", ">=1,!=1.4.*,<3"]
URLS = ["@ https://h/p-1.0.zip", "@ http://h/p.zip?x=1&y=[2]", "@ git+https://h/r.git@main#egg=p",
        "@ https://H/P/Ab_c-1.0%20x.whl", "@ file:///tmp/x.whl"]
MARKERS = [None, "os_name == 'posix'", "python_version < \"3.9\" and (os_name == 'nt' or extra == 'x')",
           "extra == 'y'", "sys_platform == 'a;b, c'", "platform_version in '#1 @ [x]'"]
VERS = ["0.5", "1.0.dev0", "1.0a1", "1.0a2", "1", "1.0", "1.3", "1.4", "1.4.1", "1.5", "2", "2.0.1", "3", "https://h/p-1.0.zip",
        "named"]


class Env:
    def __init__(self, **m):
        self.markers = {"os_name": "posix", "sys_platform": "linux", "platform_machine": "x86_64",
                        "platform_python_implementation": "CPython", "platform_release": "5", "platform_system": "Linux",
                        "platform_version": "#1", "python_version": "3.8", "python_full_version": "3.8.1",
                        "implementation_name": "cpython", "implementation_version": "3.8.1", **m}


ENVS = [(Env(), []), (Env(os_name="nt"), ["x"]), (Env(python_version="3.10", sys_platform="a;b, c"), ["y"]),
        (Env(platform_version="zz", python_version="2.7", os_name="x"), ["x", "y"])]


def marker_table(m):
    if m is None:
        return tuple(True for _ in ENVS)
    out = []
    for e, ex in ENVS:
        g = e.markers
        if m.startswith("os_name"):
            out.append(g["os_name"] == "posix")
        elif m.startswith("python_version"):
            out.append(tuple(map(int, g["python_version"].split("."))) < (3, 9) and (g["os_name"] == "nt" or "x" in ex))
        elif m.startswith("extra"):
            out.append("y" in ex)
        elif m.startswith("sys_platform"):
            out.append(g["sys_platform"] == "a;b, c")
        else:
            out.append(g["platform_version"] in "#1 @ [x]")
    return tuple(out)


def fields(d: Dependency, vs):
    return (d.package_name_key, tuple(d.extras or ()), tuple(bool(d.version_spec.allows_version(v)) for v in vs),
            tuple(bool(d.is_applicable_for(e, ex)) for e, ex in ENVS),
            str(d.required_url()) if d.required_url() else None)


def build(name, extras, spec, marker, lay):
    """-> text or None when the layout does not apply"""
    w = {"none": "", "one": " ", "tab": "\t "}[lay[0]]
    t = name
    if extras is not None:
        t += w + "[" + w + f"{w},{w}".join(extras) + w + "]"
    if spec.startswith("@"):
        if lay[1]:
            return None
        t += (w or " ") + "@" + w + spec[2:]
        w2 = w or " "  # a url ends with a space
    elif spec:
        body = f"{w},{w}".join(re.sub(r"^([<>=!~]+)", lambda m: m.group(1) + w, c) for c in spec.split(","))
        if lay[1]:
            if spec == "*" or spec.startswith("==="):
                return None
            t += w + "(" + w + body + w + ")"
        else:
            if spec.startswith("===") and not w:
                w = " "  # an arbitrary text ends with a space
            t += w + body
        w2 = w
    else:
        if lay[1]:
            return None
        w2 = w
    if marker is not None:
        t += w2 + ";" + w + marker
    return t + (w if lay[2] else "")


def shard(items, part: Part):
    vs = [Version.parse(v) for v in VERS]
    for name, extras, spec, marker in items:
        def want():
            if spec.startswith("@"):
                url = Version.parse(spec[2:])
                allowed = tuple(v == url for v in vs)
                u = spec[2:]
            else:
                s = VersionSpecifier.parse(spec) if spec else VersionSpecifier.parse("*")
                allowed, u = tuple(bool(s.allows_version(v)) for v in vs), None
            return (canonicalize_name(name).replace("-", "_"), tuple(extras or ()), allowed, marker_table(marker), u)

        exp = want()
        for lay in itertools.product(("none", "one", "tab"), (False, True), (False, True)):
            text = build(name, extras, spec, marker, lay)
            if text is None:
                continue
            err = check_text(text, exp, vs)
            part.case(text, bool(extras or spec or marker), sample=text)
            if err:
                part.violation(f"text {text}", {"text": text, "exp": exp}, err)


def check_text(text, exp, vs):
    def go():
        d = Dependency.parse(text)
        f = fields(d, vs)
        if f != exp:
            return f"{text!r} parsed to {d!r} with {f}, expected {exp}"
        hash(d)
        printed = str(d)
        f2 = fields(Dependency.parse(printed), vs)
        if f2 != exp:
            return f"{text!r} printed as {printed!r}, which means {f2} instead of {exp}"
        return None

    r = attempt(go, 5)
    return r[1] if r[0] == "ok" else f"{text!r}: {r}"


def names_shard(names, part: Part):
    groups = {}
    for n in names:
        key = canonicalize_name(n)
        r = attempt(lambda: (PackageDescriptor.package_name_key(n), Dependency.parse(n).package_name_key,
                             PackageDescriptor(n, Version.parse("1")).name_key), 5)
        part.case(("n", n), sample=n)
        if r[0] != "ok" or len(set(r[1])) != 1:
            part.violation(f"name {n}", {"name": n}, f"name {n!r}: {r}")
            continue
        k = groups.setdefault(key, r[1][0])
        if k != r[1][0]:
            part.violation(f"name {n}", {"name": n}, f"name {n!r} has key {r[1][0]!r}, but {key!r} has {k!r}")
    inv = {}
    for key, k in groups.items():
        if inv.setdefault(k, key) != key:
            part.violation(f"name-clash {key}", {"name": key}, f"{key!r} and {inv[k]!r} share the key {k!r}")


def run(ck: Check):
    items = list(itertools.product(NAMES, EXTRAS, SPECS + URLS, MARKERS))
    parallel(ck, shard, shard_list(items, 16))
    n = 6 if ck.thorough else 5
    names = ["".join(t) for k in range(1, n + 1) for t in itertools.product("aB1-_.", repeat=k)]
    names = [x for x in names if re.fullmatch(r"[aB1]|[aB1][aB1\-_.]*[aB1]", x)]
    ck.extra["names"] = len(names)
    # one group needs to see all spellings of a name: shard by the canonical name
    by = {}
    for x in names:
        by.setdefault(canonicalize_name(x), []).append(x)
    shards = [sum(g, []) for g in shard_list(list(by.values()), 8)]
    parallel(ck, names_shard, shards)


def replay(case):
    if "name" in case:
        part = Part()
        names_shard([case["name"], canonicalize_name(case["name"])], part)
        return part.violations[0][1]["message"] if part.violations else None
    exp = case["exp"]
    exp = (exp[0], tuple(exp[1]), tuple(exp[2]), tuple(exp[3]), exp[4])
    return check_text(case["text"], exp, [Version.parse(v) for v in VERS])
