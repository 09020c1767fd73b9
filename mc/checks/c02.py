"""C02 version specifiers: what a specifier text allows, against an independent PEP 440 style oracle."""
import itertools

from packaging.specifiers import SpecifierSet
from packaging.version import Version as PV

from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.dependencies.dependency import Dependency
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import AllowAllVersions, VersionSpecifier

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("exhaustive: every clause (operator x bound), every ordered pair of clauses of a core set and every writing "
        "variant is parsed and evaluated on every version of a candidate universe; the rendered text is parsed again "
        "and must allow the same versions. non-trivial: distinct (specifier, candidate) evaluations where neither all "
        "nor no candidate is allowed")

BOUNDS = ["1", "1.0", "1.1", "2", "2.0", "1.2a1", "2.0rc1", "2.dev1", "1!1", "1.1.post1", "1+l", "1.1+l.1", "1.0.1",
          "2.2", "2.2.1", "3.0", "0", "10.0", "1.10", "1.2.3.4", "1.9"]
CAND = ["0", "0.9", "1", "1.0", "1.0.0", "1.0.1", "1.0.2", "1.1", "1.1.1", "1.1.0", "1.2", "1.2a0", "1.2a1", "1.2a2",
        "1.2.3", "1.2.3.4", "1.2.3.5", "1.2.4", "1.3", "1.9", "1.10", "1.11", "2", "2.0", "2.0a1", "2.0rc1", "2.dev1",
        "2.dev0", "2.1", "2.2", "2.2.1", "2.2.2", "2.3", "2.3a1", "3", "3.0", "3.1", "9", "10", "10.0.1", "11", "1!1",
        "1!1.1", "1!2", "0!1", "1+l", "1+m", "1.1+l.1", "1.1+l.2", "1.0.post1", "1.1.post1", "1.1.post2",
        "1.2.post1"]
OPS = ["==", "!=", "<", "<=", ">", ">=", "~=", "==*", "!=*"]


def clauses(bounds):
    out = []
    for o, v in itertools.product(OPS, bounds):
        p = PV(v)
        if o == "~=" and (len(p.release) < 2 or p.local):
            continue
        if o.endswith("*"):
            if p.is_prerelease or p.is_postrelease or p.local:
                continue
            out.append((o[:2], v + ".*"))
        else:
            out.append((o, v))
    return out


def bump_prefix(p: PV, n: int) -> PV:
    r = list(p.release[:n])
    r[-1] += 1
    return PV(f"{p.epoch}!{'.'.join(map(str, r))}")


def between(c: PV, lo, hi):
    """lo <= c < hi"""
    return lo <= c < hi


def expected(op, bound, cand):
    """-> True/False, or None where no claim is made"""
    c = PV(cand)
    wild = bound.endswith(".*")
    b = PV(bound[:-2] if wild else bound)
    if op in ("==", "!=") and not wild:
        r = (c if b.local else PV(c.public)) == b
        return r if op == "==" else not r
    # order comparisons. post releases and local versions follow rules of their own: no claim
    if c.is_postrelease or b.is_postrelease or c.local or b.local:
        return None
    if wild:
        r = between(c, b, bump_prefix(b, len(b.release)))
        return r if op == "==" else not r
    if op == "~=":
        return between(c, b, bump_prefix(b, len(b.release) - 1))
    return {"<": c < b, "<=": c <= b, ">": c > b, ">=": c >= b}[op]


def check_set(cls, text, vs):
    """cls: list of clauses that text spells"""
    spec = VersionSpecifier.parse(text)
    allowed = []
    for cand, v in vs:
        exp = [expected(o, b, cand) for o, b in cls]
        if PV(cand).local and any(e is None for e in exp):
            exp = [None]  # local versions: claimed for ==/!= clauses only
        got = spec.allows_version(v)
        allowed.append(bool(got))
        if any(e is False for e in exp):
            want = False
        elif any(e is None for e in exp):
            continue
        else:
            want = True
        if bool(got) != want:
            return f"{text!r} allows {cand}: {got}, expected {want}", allowed
        # finals must agree with the packaging library as well
        c = PV(cand)
        if not (c.is_prerelease or c.is_postrelease or c.local) and \
                not any(PV(b[:-2] if b.endswith('.*') else b).is_postrelease for _, b in cls):
            try:
                pk = SpecifierSet(",".join(o + b for o, b in cls), prereleases=True).contains(c)
            except Exception:  # noqa
                continue
            assert pk == want, f"oracle disagreement on {text} {cand}"
    if not any(allowed) and not spec.allows_any(AllowAllVersions):
        return None, allowed  # there is no text for a specifier that allows nothing
    rendered = str(Dependency("p", spec))
    again = Dependency.parse(rendered).version_spec
    for (cand, v), g in zip(vs, allowed):
        if bool(again.allows_version(v)) != g:
            return f"{text!r} is rendered as {rendered!r}, which no longer treats {cand} the same", allowed
    return None, allowed


def shard(items, part: Part):
    vs = [(c, Version.parse(c)) for c in CAND]
    for cls, text in items:
        r = attempt(lambda: check_set(cls, text, vs))
        part.evaluations += len(vs)
        if r[0] == "ok":
            err, allowed = r[1]
            if 0 < sum(allowed) < len(allowed):
                for i, a in enumerate(allowed):
                    part.case((text, i), n=0)
            part.case((text, "spec"), n=0, sample=f"{text} allows {sum(allowed)} of {len(vs)} candidates")
        else:
            err = f"evaluating {text!r}: {r[1]} {r[2]}"
        if err:
            key = f"render {text}" if "is rendered as" in err else f"allow {text}"
            part.violation(key, {"cls": cls, "text": text}, err)


def run(ck: Check):
    cl = clauses(BOUNDS)
    items = [([c], f"{c[0]}{c[1]}") for c in cl]
    core = clauses(BOUNDS if ck.thorough else ["1", "1.1", "2.0", "1.2a1", "1!1", "1+l", "2.2"])
    items += [([a, b], f"{a[0]}{a[1]},{b[0]}{b[1]}") for a in core for b in core]
    tri = clauses(["1", "1.2a1", "2.2"] if ck.thorough else ["1", "2.2"])
    items += [([a, b, c], f"{a[0]}{a[1]}, {b[0]}{b[1]}, {c[0]}{c[1]}") for a in tri for b in tri for c in tri]
    # excluded prefixes: gaps of several lengths and depths, next to bounds and to each other
    holes = [("!=", b) for b in ("1.*", "1.0.*", "1.1.*", "1.2.*", "1.2.3.*", "1.1.0.*", "2.*", "0.*", "1!1.*")]
    for a, b in itertools.combinations(holes, 2):
        items.append(([a, b], f"{a[0]}{a[1]},{b[0]}{b[1]}"))
        for o, v in clauses(["1", "1.1", "1.2.3", "2.2", "1!1"] if ck.thorough else ["1.1", "2.2"]):
            items.append(([(o, v), a, b], f"{o}{v},{a[0]}{a[1]}, {b[0]}{b[1]}"))
    # writing variants of the same specifier
    variants = ["{a} {b}", " {a}  {b} ", "({a}{b})", "( {a} {b} )", "{a}{b}, {c} {d}", "({a} {b},{c}{d})",
                "{a}{b} ,{c}{d}", "{a} '{b}'", '{a} "{b}"', "{a}v{b}"]
    some = clauses(["1", "1.1", "1.2a1", "2.0"])
    for f in variants:
        for (a, b), (c, d) in itertools.product(some, some[::3]):
            if (("'" in f or '"' in f or "v" in f) and b.endswith("*")):
                continue
            cls = [(a, b)] + ([(c, d)] if "{c}" in f else [])
            items.append((cls, f.format(a=a, b=b, c=c, d=d)))
    # ordered comparison with a wildcard bound means the bound itself
    for o in ("<", "<=", ">", ">="):
        items += [([(o, b)], f"{o}{b}.*") for b in ("1", "1.1", "2.2")]
    # other spellings of a bound
    for o, (spelled, norm) in itertools.product(OPS[:6], [("1.2ALPHA1", "1.2a1"), ("2.0-RC.1", "2.0rc1"),
                                                          ("2-dev1", "2.dev1"), ("v1.1", "1.1")]):
        items.append(([(o, norm)], f"{o}{spelled}"))
    parallel(ck, shard, shard_list(items, 24))
    ck.extra["specifiers"] = len(items)

    # any, arbitrary equality, urls
    for text, allow, deny in [
        ("*", CAND + ["foo", "https://h/A.whl"], []), ("", CAND + ["foo"], []),
        ("===foo", ["foo"], ["Foo", "1.0", "https://h/A.whl"]), ("=== Foo-1", ["Foo-1"], ["foo-1", "Foo", "1"]),
        ("===1.1", ["1.1"], ["1", "1.2", "foo", "1.1.1"]), ("@https://h/A.whl", ["https://h/A.whl"],
                                                             ["https://h/a.whl", "http://h/A.whl", "1.0", "foo"]),
        ("@ git+https://h/A.git", ["git+https://h/A.git"], ["https://h/A.git", "git+https://h/a.git"]),
        (">=1.0", ["1.0"], ["foo", "https://h/A.whl"]), ("<1.0", ["0.9"], ["foo", "https://h/A.whl"]),
        ("!=1.0,>0.5", ["1.1"], ["foo", "https://h/A.whl", "1.0"]), ("!=1.0", ["1.1", "foo", "https://h/A.whl"], ["1.0"]),
    ]:
        def special():
            s = VersionSpecifier.parse(text)
            for again in (s, VersionSpecifier.parse(str(s))):
                for v, want in [(v, True) for v in allow] + [(v, False) for v in deny]:
                    if bool(again.allows_version(Version.parse(v))) != want:
                        return f"{text!r} allows {v}: {not want}, expected {want}"
            if text in ("*", "") and s != AllowAllVersions:
                return f"{text!r} is not the specifier that allows everything"

        r = attempt(special)
        ck.case(("special", text))
        err = r[1] if r[0] == "ok" else f"{text!r}: {r[1]} {r[2]}"
        if err:
            ck.violation(f"special {text}", {"special": text}, err)
    for text in ["~=1", ">>1", "1.0", "=", "<", "foo", ">=", ">=1.0 foo bar=", "!1"]:
        r = attempt(lambda: VersionSpecifier.parse(text))
        ck.case(("malformed", text), outcome=f"malformed {r[0]}")
        if r[0] == "timeout":
            ck.violation(f"malformed {text}", {"special": text}, f"parsing {text!r} does not end")
        if text in ("~=1", "1.0", "foo", "!1", ">=", "<") and r[0] == "ok":
            ck.violation(f"malformed {text}", {"special": text}, f"{text!r} is accepted as {r[1]}")


def replay(case):
    vs = [(c, Version.parse(c)) for c in CAND]
    r = attempt(lambda: check_set([tuple(c) for c in case["cls"]], case["text"], vs))
    return r[1][0] if r[0] == "ok" else f"{r[1]} {r[2]}"
