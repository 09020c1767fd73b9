"""C04 environment markers (PEP 508): comparisons, boolean structure, string literals, extras and malformed texts."""
import re
import itertools
import string

from packaging.version import InvalidVersion
from packaging.version import Version as PV

from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.api.dependencies.dependency import Dependency
from pkm.api.dependencies.env_markers import EnvironmentMarker

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("exhaustive: (a) every comparison variable/literal x operator x literal/variable over three environments against "
        "a reference of PEP 508; (b) every and/or formula with every bracketing up to n atoms on all truth assignments, "
        "against Python's own evaluation; (c) every literal of 1-2 characters in both quotes; (d) whitespace variants; "
        "(e) extra comparisons on all subsets of extras; (f) every token sequence up to a length: accepted exactly when "
        "the grammar accepts it, ValueError otherwise. non-trivial: distinct (marker, environment) evaluations")


class Env:
    def __init__(self, markers):
        self.markers = markers


ENVS = [
    Env({"os_name": "posix", "sys_platform": "linux", "platform_machine": "x86_64",
         "platform_python_implementation": "CPython", "platform_release": "5.15.0-105-generic",
         "platform_system": "Linux", "platform_version": "#115-Ubuntu SMP Mon Apr 15",
         "python_version": "3.10", "python_full_version": "3.10.4", "implementation_name": "cpython",
         "implementation_version": "3.10.4"}),
    Env({"os_name": "nt", "sys_platform": "win32", "platform_machine": "AMD64",
         "platform_python_implementation": "PyPy", "platform_release": "10", "platform_system": "Windows",
         "platform_version": "10.0.19041", "python_version": "3.9", "python_full_version": "3.9.0rc2",
         "implementation_name": "pypy", "implementation_version": "7.3.9"}),
    Env({"os_name": "java", "sys_platform": "darwin", "platform_machine": "arm64",
         "platform_python_implementation": "Jython", "platform_release": "21.6.0", "platform_system": "Java",
         "platform_version": "Darwin Kernel Version 21.6.0", "python_version": "2.7",
         "python_full_version": "2.7.18", "implementation_name": "", "implementation_version": "0"}),
]
VARS = list(ENVS[0].markers)
LITERALS = ["3.10", "3.9", "3", "3.10.4", "3.9.0rc1", "3.*", "2.7", "10", "10.0", "posix", "nt", "linux", "CPython",
            "Jython", "5.15.0-105-generic", "5.15.0", "3.8 3.9 3.10", "nt,posix", "x", "", "Linux", "3.10.4-x", "ux"]
OPS = ["<", "<=", "==", "!=", ">=", ">", "~=", "===", "in", "not in"]


def version(text):
    try:
        return PV(text)
    except InvalidVersion:
        return None


def reference(a: str, op: str, b: str):
    """-> True/False; 'error' where the comparison is undefined; None: no claim"""
    if op == "in":
        return a in b
    if op == "not in":
        return a not in b
    if op == "===":
        return a == b
    wild = op in ("==", "!=") and b.endswith(".*")
    va, vb = version(a), version(b[:-2] if wild else b)
    if va is not None and vb is not None and b != "":
        if va.is_postrelease or vb.is_postrelease or va.local or vb.local:
            return None
        if wild:
            up = PV(".".join(map(str, vb.release[:-1] + (vb.release[-1] + 1,))))
            r = vb <= va < up
            return r if op == "==" else not r
        if op == "~=":
            if len(vb.release) < 2:
                return "error"
            r = list(vb.release[:-1])
            r[-1] += 1
            return vb <= va < PV(".".join(map(str, r)))
        return {"<": va < vb, "<=": va <= vb, "==": va == vb, "!=": va != vb, ">=": va >= vb, ">": va > vb}[op]
    if version(b[:-2]) is not None and b.endswith(".*"):
        return None  # "3.*" with an ordering operator: the suffix is tolerated
    if op == "~=":
        return "error"
    return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">=": a >= b, ">": a > b}[op]


def evaluate(text, env, extras=()):
    return attempt(lambda: bool(EnvironmentMarker.parse_pep508(text).evaluate_on(env, list(extras))), 5)


def expect(part, kind, text, want, env_i=0, extras=(), nontrivial=True):
    env = ENVS[env_i] if isinstance(env_i, int) else Env(env_i)
    got = evaluate(text, env, extras)
    part.case((text, str(env_i), tuple(extras)), nontrivial, sample=[text, str(want)], outcome=f"{kind}:{got[0]}:{want}")
    if want == "error":
        ok = got[0] == "err"
    else:
        ok = got == ("ok", want)
    if not ok:
        part.violation(f"{kind} {text}", {"text": text, "env": env_i, "extras": list(extras), "want": want},
                       f"marker {text!r} on {env.markers if isinstance(env_i, int) else env_i} extras={extras}: {got[:3]}, "
                       f"expected {want}")


# ---- boolean structure
BV = ["os_name", "sys_platform", "platform_machine", "implementation_name", "platform_system"]


def formulas(n, depth=2):
    """every flat/bracketed arrangement of n atoms: yields token lists, atoms are ints 0..n-1 in order"""
    def build(lo, hi, d):
        # sequences of items joined by and/or; an item is an atom or a bracketed sequence
        if hi - lo == 0:
            return
        for items in split(lo, hi, d):
            for ops in itertools.product(("and", "or"), repeat=len(items) - 1):
                out = list(items[0])
                for o, it in zip(ops, items[1:]):
                    out += [o] + list(it)
                yield out

    def split(lo, hi, d):
        if lo == hi:
            yield []
            return
        for mid in range(lo + 1, hi + 1):
            heads = []
            if mid - lo == 1:
                heads.append([lo])
            if d > 0 and (mid - lo > 1 or d == depth):
                heads += [["("] + f + [")"] for f in build(lo, mid, d - 1)]
            for rest in split(mid, hi, d):
                for h in heads:
                    yield [h] + rest
    return build(0, n, depth)


def bool_shard(forms, part: Part):
    for toks in forms:
        n = 1 + max(t for t in toks if isinstance(t, int))
        text = " ".join(f"{BV[t]} == 'T'" if isinstance(t, int) else t for t in toks)
        expr = " ".join(f"v[{t}]" if isinstance(t, int) else t for t in toks)
        code = compile(expr, "<m>", "eval")
        m = attempt(lambda: EnvironmentMarker.parse_pep508(text), 5)
        if m[0] != "ok":
            part.violation(f"boolean {text}", {"text": text, "env": {v: "T" for v in BV}, "extras": [], "want": True},
                           f"{text!r}: {m}")
            continue
        for v in itertools.product((True, False), repeat=n):
            env = {BV[i]: "T" if x else "F" for i, x in enumerate(v)}
            want = bool(eval(code, {"v": v}))
            got = attempt(lambda: bool(m[1].evaluate_on(Env(env), [])), 5)
            part.case((text, v), sample=[text, want])
            if got != ("ok", want):
                part.violation(f"boolean {text}", {"text": text, "env": env, "extras": [], "want": want},
                               f"{text!r} with {env}: {got}, expected {want}")


def cmp_shard(items, part: Part):
    for left, op, right in items:
        text = f"{left} {op} {right}"
        for i, e in enumerate(ENVS):
            a = e.markers[left] if left in e.markers else left[1:-1]
            b = e.markers[right] if right in e.markers else right[1:-1]
            want = reference(a, op, b)
            if want is not None:
                expect(part, "compare", text, want, i)


# ---- token grammar
TOK = {"V": "os_name", "S": "'posix'", "=": "==", "i": "in", "n": "not", "a": "and", "o": "or", "(": "(", ")": ")"}


def accepts(s):
    def expr(p):  # -> position after or None
        p = term(p)
        while p is not None and p < len(s) and s[p] in "ao":
            p = term(p + 1)
        return p

    def term(p):
        if p < len(s) and s[p] == "(":
            p = expr(p + 1)
            return p + 1 if p is not None and p < len(s) and s[p] == ")" else None
        if p < len(s) and s[p] in "VS":
            p += 1
            if s[p:p + 2] == "ni":
                p += 2
            elif p < len(s) and s[p] in "=i":
                p += 1
            else:
                return None
            return p + 1 if p < len(s) and s[p] in "VS" else None
        return None

    return expr(0) == len(s)


def grammar_shard(seqs, part: Part):
    for s in seqs:
        text = " ".join(TOK[c] for c in s)
        want = accepts(s)
        got = attempt(lambda: EnvironmentMarker.parse_pep508(text), 5)
        ok = got[0] == "ok" if want else got[:2] == ("err", "ValueError")
        part.case(("g", s), nontrivial=want, outcome=f"grammar:{want}")
        if not ok:
            part.violation(f"grammar {text}", {"text": text, "grammar": want},
                           f"{text!r}: {got[:3]}, expected {'accepted' if want else 'ValueError'}")


def mutations(s):
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
        for c in TOK:
            yield s[:i] + c + s[i + 1:]
            yield s[:i] + c + s[i:]


def run(ck: Check):
    lits = [f"'{x}'" for x in LITERALS]
    items = list(itertools.product(VARS, OPS, lits)) + list(itertools.product(lits, OPS, VARS)) + \
        list(itertools.product(VARS, OPS, VARS)) + list(itertools.product(lits, OPS, lits))
    parallel(ck, cmp_shard, shard_list(items, 8))

    n = 5 if ck.thorough else 4
    forms = [f for k in range(1, n + 1) for f in formulas(k)]
    ck.extra["boolean_formulas"] = len(forms)
    parallel(ck, bool_shard, shard_list(forms, 16))

    # string literals
    part = Part()
    chars = string.ascii_letters + string.digits + " \t().{}-_*#:;,/?[]!~`@$%^&=+|<>"
    texts = list(chars) + [a + b for a in "x -J;#)" for b in chars]
    for q, o in ("'\"", "\"'"):
        for t in texts + [o, o + o, "it" + o + "s", o + "x" + o]:
            for val in (t, t + "z"):
                expect(part, "literal", f"platform_version == {q}{t}{q}", reference(val, "==", t) in (True,),
                       {"platform_version": val})
                expect(part, "literal", f"{q}{t}{q} in platform_version", t in val, {"platform_version": val})
            d = attempt(lambda: Dependency.parse(f"pkg ; platform_version == {q}{t}{q}").is_applicable_for(
                Env({"platform_version": t}), []), 5)
            part.case(("dep", q, t), sample=t)
            if d != ("ok", True):
                part.violation(f"literal dependency {q}{t}{q}", {"text": f"platform_version == {q}{t}{q}",
                                                                 "env": {"platform_version": t}, "extras": [],
                                                                 "want": True},
                               f"dependency with marker literal {q}{t}{q}: {d}")
    # whitespace
    for w1, w2, w3, w4 in itertools.product(["", " ", "\t", "  "], repeat=4):
        for op in OPS:
            o = op if op != "not in" else f"not{w4 or ' '}in"
            l, r = ("os_name" + (w1 or (" " if o[0] in "in" else ""))), (w2 + "'posix'")
            t = f"{w3}{l}{o}{r}{w4}"
            want = reference("posix", op, "posix")
            expect(part, "spaces", t, want)
            t = f"{w3}({w1}os_name{w2}=={w3}'x'{w1}){w4}or{w2 or ' '}os_name{w1 or ' '}in{w2}'posix'{w3}and{w3}('a'=='a'){w1}"
            expect(part, "spaces", t, True)
    # extras
    subsets = [[], ["x"], ["y"], ["x", "y"], ["y", "x"], ["x-1.2_b"], ["xx"], ["X"], ["x_1-2--B", "Y"], ["x12b"]]
    for ex in subsets:
        norm = [re.sub("[-_.]+", "-", e).lower() for e in ex]
        for q in ("x", "y", "x-1.2_b", "z", "X", "Y"):
            for op in ("==", "!="):
                want = (re.sub("[-_.]+", "-", q).lower() in norm) == (op == "==")
                for t in (f"extra {op} '{q}'", f"'{q}' {op} extra"):
                    expect(part, "extra", t, want, 0, ex)
                    expect(part, "extra", f"os_name == 'posix' and {t}", want, 0, ex)
                    expect(part, "extra", f"os_name == 'nt' or ({t})", want, 0, ex)
                for q2 in ("x", "y"):
                    w2 = (q2 in norm)
                    expect(part, "extra", f"extra {op} '{q}' or extra == '{q2}'", want or w2, 0, ex)
                    expect(part, "extra", f"extra {op} '{q}' and extra == '{q2}'", want and w2, 0, ex)
    ck.merge(part)

    # grammar
    depth = 6 if ck.thorough else 5
    seqs = {"".join(s) for k in range(1, depth + 1) for s in itertools.product(TOK, repeat=k)}
    for base in ("V=SaViS", "(V=S)oVniS", "((V=S))", "V=SoS=VaVnis".replace("s", "S"), "(V=SaV=S)o(S=V)",
                 "V=Sa(V=SoV=S)"):
        seqs |= set(mutations(base))
        if ck.thorough:
            for m in list(mutations(base)):
                seqs |= set(mutations(m))
    seqs.discard("")
    ck.extra["token_sequences"] = len(seqs)
    parallel(ck, grammar_shard, shard_list(sorted(seqs), 8))


def replay(case):
    if "grammar" in case:
        got = attempt(lambda: EnvironmentMarker.parse_pep508(case["text"]), 5)
        ok = got[0] == "ok" if case["grammar"] else got[:2] == ("err", "ValueError")
    else:
        env = ENVS[case["env"]] if isinstance(case["env"], int) else Env(case["env"])
        got = evaluate(case["text"], env, case["extras"])
        ok = got[0] == "err" if case["want"] == "error" else got == ("ok", case["want"])
    return None if ok else f"{case} -> {got[:3]}"
