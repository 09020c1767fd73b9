"""C01 versions: parsing, rendering, total order, equality/hash and semantic bump, against `packaging` as reference."""
import itertools
from functools import cmp_to_key

from packaging.version import InvalidVersion, Version as PV

from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.versions.version import NamedVersion, StandardVersion, UrlVersion, Version

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("exhaustive: every ordered pair of a version universe built as products of epoch x release x pre x post x dev x "
        "local values (plus named and url versions) is compared with every operator and hashed; every spelling in a "
        "product of suffix spellings and every string up to a length over a version alphabet is parsed. "
        "non-trivial: a pair of distinct texts, or a text whose normal form differs from it / that is a valid version")

NAMED = ["alpha", "beta", "foo", "Foo", "zzz", "master", "1.0-final-x"]
URLS = ["https://h/a-1.whl", "https://h/A-1.whl", "http://h/a-1.whl", "git+https://h/a.git", "https+https://h/a-1.whl",
        "file:///x/a", "git+https://h/b.git", "https://h/b-1.whl"]


def universe(thorough):
    u = []
    for r, p, q, d in itertools.product(
            ["1", "1.0", "1.1"], ["", "a1", "b0", "rc1", "a2", "a10"], ["", ".post0", ".post1", ".post10"],
            ["", ".dev0", ".dev1", ".dev10"]):
        u.append(r + p + q + d)
    for r, l in itertools.product(["1", "1a1", "1.0.post1"], [
        "", "+a", "+b", "+1", "+2", "+10", "+a.1", "+a.2", "+a.10", "+1.a", "+a.b", "+1.2", "+1.10", "+ab", "+a.1.0",
        "+ubuntu.1"]):
        u.append(r + l)
    for e, r, s in itertools.product(["", "0!", "1!", "2!"], [
        "0", "0.0", "1", "1.0", "1.0.0", "1.0.1", "1.1", "1.10", "1.2", "2", "10", "0.1", "2024.1"],
                                     ["", "a1", ".post1", ".dev0"]):
        u.append(e + r + s)
    if thorough:
        for e, r, p, q, d, l in itertools.product(["", "1!"], ["1", "1.0.0", "1.0.1"], ["", "a1", "rc0", "rc10"],
                                                  ["", ".post1", ".post2"], ["", ".dev0", ".dev3"], ["", "+x", "+2"]):
            u.append(e + r + p + q + d + l)
    return list(dict.fromkeys(u))


def compare_pair(a, b, A, B, PA, PB):
    """-> error text or None; only public operators are used"""
    checks = [("<", A < B, PA < PB), (">", A > B, PA > PB), ("==", A == B, PA == PB), ("!=", A != B, PA != PB),
              ("<=", A <= B, PA <= PB), (">=", A >= B, PA >= PB)]
    for op, got, want in checks:
        if bool(got) != want:
            return f"{a} {op} {b} is {got}, expected {want}"
    if PA == PB and hash(A) != hash(B):
        return f"{a} == {b} but their hashes differ"
    return None


def pairs_shard(shard, part: Part):
    idx, texts = shard
    vs = [Version.parse(t) for t in texts]
    ps = [PV(t) for t in texts]
    n = 0
    for i in idx:
        for j in range(len(texts)):
            r = attempt(lambda: compare_pair(texts[i], texts[j], vs[i], vs[j], ps[i], ps[j]))
            n += 1
            err = r[1] if r[0] == "ok" else f"comparing {texts[i]} with {texts[j]}: {r[1]} {r[2]}"
            if err:
                part.violation(f"order {texts[i]} {texts[j]}", {"kind": "pair", "a": texts[i], "b": texts[j]}, err)
        part.case(("pairs", texts[i]), sample=f"{texts[i]} vs every of {len(texts)} versions", n=0)
    part.case(n=n)
    for i in idx:
        for j in range(len(texts)):
            if i != j:
                part.distinct.add((i, j).__hash__())
    part.transitions += n


def check_text(t):
    try:
        p = str(PV(t))
    except InvalidVersion:
        p = None
    v = Version.parse(t)
    s = str(v)
    w = Version.parse(s)
    if w != v or hash(w) != hash(v) or str(w) != s:
        return f"parse({t!r}) renders as {s!r}, which parses to the different version {w!r}"
    if p is not None:
        if not isinstance(v, StandardVersion):
            return f"{t!r} is a valid version ({p}) but is not parsed as one ({v!r})"
        if s != p and PV(s) != PV(p):
            return f"parse({t!r}) is {s}, expected {p}"
        if v.is_pre_or_dev_release() != PV(t).is_prerelease or v.is_post_release() != PV(t).is_postrelease \
                or v.is_local() != (PV(t).local is not None):
            return f"wrong release kind for {t!r}"
        if v.without_local() != Version.parse(PV(t).public):
            return f"without_local of {t!r} is {v.without_local()}"
    elif not isinstance(v, StandardVersion) and s != t:
        return f"the non-standard version {t!r} was changed to {s!r}"
    return None


def spellings(thorough):
    ep = ["", "1!"]
    rel = ["1", "1.0", "01.2", "v1.1", "V2"]
    pre = ["", "a", "a1", ".a1", "-a1", "_a1", "a.1", "a-1", "a_1", "alpha1", "alpha", "beta2", "b2", "c1", "rc1", "pre1",
           "preview1", "-preview2", "A1", "RC1", "Beta3"]
    post = ["", ".post1", "-post1", "_post1", "post1", ".post", "post", ".post-1", ".post.1", ".post_1", ".rev1", ".r1",
            "rev1", "r1", "-1", "-0", "-12", ".POST1"]
    dev = ["", ".dev1", "-dev1", "_dev1", "dev1", ".dev", "dev", ".dev-1", ".dev.1", "dev_1", ".DEV1"]
    loc = ["", "+a", "+ubuntu-1", "+ubuntu_1", "+a.1", "+A"]
    if not thorough:
        rel, loc = ["1", "1.0", "v1.1"], ["", "+ubuntu-1", "+A"]
    return [a + b + c + d + e + f for a, b, c, d, e, f in itertools.product(ep, rel, pre, post, dev, loc)]


def strings(maxlen, alphabet="10.a-!rd"):
    for n in range(1, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            s = "".join(t)
            # dangling separators and epoch 0 spellings have no agreed rendering: not part of the claim
            if s[-1] in ".-_" or any(x in s for x in ("..", ".-", "-.", "--")):
                continue
            yield s


def texts_shard(shard, part: Part):
    for t in shard:
        r = attempt(lambda: check_text(t))
        valid = True
        try:
            PV(t)
        except InvalidVersion:
            valid = False
        part.case(t, nontrivial=valid, n=1, sample=t if valid and len(t) > 6 else None)
        err = r[1] if r[0] == "ok" else f"parsing {t!r}: {r[1]} {r[2]}"
        if err:
            part.violation(f"parse {t}", {"kind": "text", "t": t}, err)


def mixed(ck: Check):
    """order over url, named and standard versions together: a strict total order, urls < named < standard"""
    texts = URLS + NAMED + ["1.0", "0.1", "1.0a1", "2", "1!0", "1.0.post1"]
    vs = [Version.parse(t) for t in texts]
    kind = [0] * len(URLS) + [1] * len(NAMED) + [2] * 6
    n = len(vs)
    lt = {}
    for i in range(n):
        want = (UrlVersion, NamedVersion, StandardVersion)[kind[i]]
        if not isinstance(vs[i], want):
            ck.violation(f"kind {texts[i]}", {"kind": "mixed"}, f"{texts[i]} parsed as {type(vs[i]).__name__}")
        if str(vs[i]) != texts[i]:
            ck.violation(f"text {texts[i]}", {"kind": "mixed"}, f"{texts[i]} renders as {vs[i]}")
        for j in range(n):
            ck.case(("mixed", i, j), i != j)
            eq, l, g = vs[i] == vs[j], vs[i] < vs[j], vs[j] < vs[i]
            lt[i, j] = l
            same = texts[i] == texts[j] or {texts[i], texts[j]} == {"https://h/a-1.whl", "https+https://h/a-1.whl"}
            if eq != same:
                ck.violation(f"mixed eq {texts[i]} {texts[j]}", {"kind": "mixed"}, f"{texts[i]} == {texts[j]} is {eq}")
            if [eq, l, g].count(True) != 1 or (vs[i] > vs[j]) != g:
                ck.violation(f"mixed trichotomy {texts[i]} {texts[j]}", {"kind": "mixed"},
                             f"{texts[i]}, {texts[j]}: eq={eq} lt={l} gt={g}")
            if eq and hash(vs[i]) != hash(vs[j]):
                ck.violation(f"mixed hash {texts[i]} {texts[j]}", {"kind": "mixed"}, "equal versions, different hashes")
            if kind[i] < kind[j] and not l:
                ck.violation(f"mixed kinds {texts[i]} {texts[j]}", {"kind": "mixed"},
                             f"{texts[i]} must come before {texts[j]}")
            if kind[i] == kind[j] == 1 and l != (texts[i] < texts[j]):
                ck.violation(f"mixed named {texts[i]} {texts[j]}", {"kind": "mixed"}, "named versions order by name")
    for i, j, k in itertools.product(range(n), repeat=3):
        if lt[i, j] and lt[j, k] and not lt[i, k]:
            ck.violation(f"mixed transitive {texts[i]} {texts[j]} {texts[k]}", {"kind": "mixed"}, "not transitive")


def bumps(ck: Check):
    rels = list(itertools.product([0, 1, 9, 10], repeat=3))
    for rel, suffix in itertools.product(rels, ["", "a1", "rc2", ".post3", ".dev1", "+loc", "a1.post1.dev2+x.1"]):
        for ep in ("", "1!"):
            t = ep + ".".join(map(str, rel)) + suffix
            for i, particle in enumerate(["major", "minor", "patch"]):
                ck.case(("bump", t, particle))
                new = rel[:i] + (rel[i] + 1,) + (0,) * (2 - i)
                want = ep + ".".join(map(str, new))
                r = attempt(lambda: Version.parse(t).bump(particle))
                if r[0] != "ok" or str(r[1]) != want or not Version.parse(t) < r[1]:
                    ck.violation(f"bump {t} {particle}", {"kind": "bump", "t": t, "p": particle, "want": want},
                                 f"{t} bump {particle} -> {r[1]}, expected {want}")
            t3 = ep + ".".join(map(str, rel))
            for p, q in itertools.product("ab", repeat=2):
                # a pre release bumped with its own or a later particle is the next pre release of the same release
                if p > q:
                    continue
                want = f"{t3}{q}{5 if p == q else 0}"
                r = attempt(lambda: Version.parse(f"{t3}{p}4").bump(q))
                ck.case(("bump", t3, p, q))
                if r[0] != "ok" or str(r[1]) != want:
                    ck.violation(f"bump {t3}{p}4 {q}", {"kind": "bump", "t": f"{t3}{p}4", "p": q, "want": want},
                                 f"{t3}{p}4 bump {q} -> {r[1]}, expected {want}")


def run(ck: Check):
    u = universe(ck.thorough)
    ck.extra["version_universe"] = len(u)
    parallel(ck, pairs_shard, [(ix, u) for ix in shard_list(list(range(len(u))), 32)])
    sp = spellings(ck.thorough)
    parallel(ck, texts_shard, shard_list(sp, 16))
    st = list(strings(6 if ck.thorough else 5))
    parallel(ck, texts_shard, shard_list(st, 16))
    mixed(ck)
    bumps(ck)

    def sorted_check():
        for chunk in (u[:120], u[100:260], u[300:500]):
            vs = sorted((Version.parse(t) for t in reversed(chunk)))
            ps = sorted((PV(t) for t in reversed(chunk)))
            if [PV(str(v)) for v in vs] != ps:
                return "sorted() of versions differs from the reference order"
            if PV(str(max(vs))) != max(ps):
                return "max() of versions differs from the reference order"

    err = sorted_check()
    if err:
        ck.violation("sorted", {"kind": "sorted"}, err)
    ck.states = len(u) + len(sp) + len(st)


def replay(case):
    if case["kind"] == "pair":
        a, b = case["a"], case["b"]
        return compare_pair(a, b, Version.parse(a), Version.parse(b), PV(a), PV(b))
    if case["kind"] == "text":
        return check_text(case["t"])
    if case["kind"] == "bump":
        got = str(Version.parse(case["t"]).bump(case["p"]))
        return None if got == case["want"] else f"{case['t']} bump {case['p']} -> {got}, expected {case['want']}"
    ck = Check(PROPERTY, LEVEL, RULE)
    ck.known = {}
    mixed(ck)
    return next((v["message"] for v in ck.violations.values()), None)
