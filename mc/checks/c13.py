"""C13 TOML documents: reading, writing, and rewriting after edits."""
import copy
import itertools
import math
import re
import tomllib
from collections import Counter

from mc.core import Check, Part, attempt, parallel, shard_list
from pkm.config import toml

PROPERTY = "C13"
LEVEL = "model_checking"
RULE = ("strings / numbers: every text up to a length over a token alphabet in every literal kind; documents: every sequence "
        "of statements up to a length; edits: explicit-state search whose states are document texts and whose transitions "
        "are load -> one edit of the data -> dump; data: every tree of keys and leaves up to a size; mutations: every "
        "single character deletion, insertion and truncation of small documents. tomllib decides validity and meaning. "
        "non-trivial: distinct texts that are valid toml")


# ---------------------------------------------------------------- comparison
def same(a, b) -> bool:
    """value and type equality of pkm's data and tomllib's data"""
    if isinstance(b, dict):
        return isinstance(a, dict) and list(map(str, sorted(a))) == sorted(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(b, "isoformat"):
        if not isinstance(a, toml.TimeLiteral):
            return False
        try:
            return tomllib.loads(f"x = {a}")["x"] == b
        except ValueError:
            return False
    if isinstance(b, float):
        return type(a) is float and (a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b)
    if isinstance(b, str):
        return isinstance(a, str) and not isinstance(a, toml.TimeLiteral) and a == b
    return type(a) is type(b) and a == b


def oracle(text):
    try:
        return tomllib.loads(text)
    except (ValueError, RecursionError):
        return None


def load(text):
    return attempt(lambda: toml.loads(text), 3)


def show(x, n=300):
    s = repr(x)
    return s if len(s) < n else s[:n] + "..."


# ---------------------------------------------------------------- literals
def check_literal(part: Part, text: str, kind: str, strict: bool):
    """text: a document; strict: pkm must reject what tomllib rejects"""
    want = oracle(text)
    r = load(text)
    part.case(text, want is not None, sample={"text": text} if want else None)
    if want is not None:
        if r[0] != "ok":
            part.violation(f"{kind} read {text!r}", {"text": text}, f"valid toml {text!r} is not read: {r}")
        elif not same(r[1][0], want):
            part.violation(f"{kind} value {text!r}", {"text": text}, f"{text!r} is read as {show(r[1][0])}, it is {show(want)}")
        else:
            d = attempt(lambda: r[1][1](r[1][0]), 3)
            if d[0] != "ok" or "".join(d[1].split()) != "".join(text.split()) or not same(r[1][0], oracle(d[1]) or ""):
                part.violation(f"{kind} rewrite {text!r}", {"text": text}, f"{text!r} is written back as {show(d[1:])}")
            d = attempt(lambda: toml.dumps(r[1][0]), 3)
            back = oracle(d[1]) if d[0] == "ok" else None
            if back is None or not same(r[1][0], back):
                part.violation(f"{kind} dumps {text!r}", {"text": text}, f"the value of {text!r} is written as {show(d[1:])}")
    elif r[0] == "timeout" or r[0] == "err" and r[1] != "ValueError" or strict and r[0] == "ok":
        part.violation(f"{kind} invalid {text!r}", {"text": text},
                       f"invalid toml {text!r} is not rejected with a ValueError: {show(r)}")


STR_TOKENS = ["a", '"', "'", "\\", "n", "\n", " ", "#", "u00e9", "é"]
QUOTES = ['"', "'", '"""', "'''"]
NUM_TOKENS = ["0", "1", "_", ".", "e", "+", "-", "x", "f", "inf", "b"]
NUM_TOKENS_Q = ["0", "1", "_", ".", "e", "-", "x", "inf"]
STR_CONTEXTS = ["k = {}", "k = {} # c\nz = 1"]
DATES = ["1979-05-27", "2000-02-29", "0001-01-01"]
TIMES = ["07:32:00", "00:00:00", "23:59:59.5", "12:00:00.123456"]
OFFSETS = ["", "Z", "z", "+01:30", "-07:00"]
MORE = ["true", "false", "0xdead_BEEF", "0o17", "0b1_0", "1E5", "6.626e-34", "1_000.5_0e1_0", "+inf", "-nan", "9223372036854775807",
        "-9223372036854775808", '"\\U0001F600"', '"\\b\\t\\n\\f\\r\\"\\\\"', '"\\u00E9"', "''", '""', "[]", "[ ]", "{}", "{ }",
        "[1, 2]", "[\n  1,\n  2,\n]", "[[1], ['a']]", '{a = 1, b = "x"}', "{ a = 1, b.c = 2, b.d = 3 }", "[{a = 1}, {a = 2}]",
        "[\n  # one\n  1, # two\n  2 # three\n  # four\n]", "[\n  # none\n]", "{a = {b = {c = []}}}", '{"a b" = 1, \'c.d\' = 2}',
        '"""\n  multi \\\n   line\n"""', "'''\nraw \\ text\n'''", '"""a""b"""', '""""x""""', "[1,]", '[\n"""\nx\n""",\n]', "{a.b.c = 1}",
        "[1, # c\n2]", "[1 # c\n, 2]", "[ {a = [1, {b = 2}]} ]", "0", "-0", "+0.0", "-0.0", "1.0", "nan", "[true, false]",
        "[ 'a' , \"b\" ]", "['''x''', \"\"\"y\"\"\"]"]
VALUE_CONTEXTS = ["k = {}", "k = {}\n", "k = {} # c", "k={}# c\n", "\n# before\nk\t=\t{}  # c\n\n[t]\nx = 1", "[t]\nk = {}\n\n[u]\nk = {}",
                  "[[t]]\nk = {}\n\n[[t]]\nk = {}", "a.b = {}\na.c = {}", "k = [{}, {}]", "k = {{a = {}, b = {}}}", "'k' = {}",
                  "k = [\n  {}, # c\n]"]


def literal_texts(thorough):
    n = 5 if thorough else 4
    for q in QUOTES:
        for ln in range(n + 1):
            for body in itertools.product(STR_TOKENS if thorough or ln < 4 else STR_TOKENS[:6], repeat=ln):
                b = "".join(body)
                yield "string", STR_CONTEXTS[0].format(q + b + q), True
                if ln < n - 1:
                    yield "string", STR_CONTEXTS[1].format(q + b + q), True
                    yield "string", STR_CONTEXTS[0].format(q + b), True
    for ln in range(1, (5 if thorough else 4) + 1):
        for body in itertools.product(NUM_TOKENS if thorough or ln < 4 else NUM_TOKENS_Q, repeat=ln):
            yield "number", "k = " + "".join(body), True
    dts = DATES + TIMES + [f"{d}{s}{t}{o}" for d in DATES for s in "T t".replace("", " ").split() + [" "] for t in TIMES
                           for o in OFFSETS]
    for v in dts + MORE:
        for c in VALUE_CONTEXTS:
            yield "value", c.format(*[v] * 2) if "{{" not in c else c.format(v, v), True
    # words next to each other and unfinished values
    for v in ["1", '"a"', "true", "[1]", "{a = 1}", "2000-01-01", "inf"]:
        for w in ["1", '"a"', "true", "[1]", "{a = 1}", "x", "= 1", ",", "]", "}", "x = 1"]:
            yield "garbage", f"k = {v} {w}\n", True
    for t in ["k =", "k = \n", "k", "k\n", "= 1", "k = [1", "k = [1,", "k = {a = 1", "k = {a = 1,", "k = {a", "[k", "[k\n", "[[k]", "[]", "k = @",
              "k = tru", "k = yes", "k = 1979-05", "[k] x = 1", "k = [1 2]", "k = {a = 1 b = 2}", "k. = 1", ".k = 1", "[k.]", "[.k]",
              'k = """', "k = '''x''", "é = 1", "k = é", "k = .1", "k = [,]", "k l = 1", '"k = 1', "[k]]", "k == 1"]:
        yield "garbage", t, True


# ---------------------------------------------------------------- documents
def statements(i):
    """the i-th statement of a document: every comment is unique"""
    return [
        f"x = {i} # c{i}", f"# c{i}\ny = 'v{i}'", f'"q k" = [{i}, 2] # c{i}', f"a.x = {i} # c{i}", f"a.b.y = {i}", f"z = {{p = {i}, q.r = 1}} # c{i}",
        f"w = [\n  {i}, # c{i}\n  2\n]", f"# c{i}\n[a]", f"[a.b] # c{i}", f"# c{i}\n[b]", f"[b.c.d] # c{i}", f"# c{i}\n[[l]]", f"[l.m] # c{i}",
        f"[[l.n]] # c{i}", f'["q k"."]"] # c{i}', f"# c{i} alone", f"t = '''\nline [x]\n# no comment'''",
    ]


N_STATEMENTS = len(statements(0))
HEADER = re.compile(r"^\[", re.M)


def document(choice):
    """statements of the choice, one blank line before each header -> text"""
    out = []
    for i, c in enumerate(choice):
        s = statements(i)[c]
        if HEADER.search(s) and s.count("'''") == 0 and out:
            out.append("")
        out.append(s)
    return "\n".join(out)


def comments(text):
    """the comment markers of a document (c0, c1, ..)"""
    return Counter(re.findall(r"# (c\d+)\b", text))


def nonblank(text):
    return [ln.rstrip() for ln in text.splitlines() if ln.strip()]


def header_order(text):
    """whether the tables of a valid document appear in the order a writer of nested data produces: every table before its
    sub tables, sub tables and dotted keys of one table next to each other"""
    seen = []
    cur, counts = (), {}

    def resolve(parts):
        r = ()
        for p in parts:
            if r in counts:
                r = (*r, counts[r])
            r = (*r, p)
        return r

    for ln in text.splitlines():
        if m := re.match(r"\[\[(.*?)\]\](?: #.*)?$", ln):
            p = resolve(re.findall(r'"[^"]*"|[^.]+', m[1]))
            counts[p] = counts.get(p, -1) + 1
            cur = (*p, counts[p])
            seen.append((cur, True))
        elif m := re.match(r'\[((?:"[^"]*"|[^"\]])*)\](?: #.*)?$', ln):
            cur = resolve(re.findall(r'"[^"]*"|[^.]+', m[1]))
            seen.append((cur, True))
        elif m := re.match(r'((?:[\w.]+|"[^"]*")) = ', ln):
            seen.append(((*cur, *re.findall(r'"[^"]*"|[^.]+', m[1])), False))
    closed = set()
    last = ()
    above = set()
    for path, is_header in seen:
        # leaving prefixes of last that path does not have
        common = 0
        while common < min(len(path), len(last)) and path[common] == last[common]:
            common += 1
        for k in range(common + 1, len(last) + 1):
            closed.add(last[:k])
        for k in range(1, len(path) + 1):
            if path[:k] in closed:
                return False
        if is_header and path in above:
            return False
        above.update(path[:k] for k in range(len(path)))
        last = path
    return True


def check_document(part: Part, choice):
    text = document(choice)
    want = oracle(text)
    if want is None:
        r = load(text)
        part.case(text, False)
        if r[0] == "timeout" or r[0] == "err" and r[1] != "ValueError":
            part.violation(f"document invalid {text!r}", {"text": text}, f"invalid toml is not rejected with a ValueError: {r}\n{text}")
        return None
    r = load(text)
    part.case(text, True, sample={"document": text} if len(choice) > 2 else None)
    if r[0] != "ok":
        part.violation(f"document read {choice}", {"text": text}, f"valid toml is not read: {r}\n{text}")
        return None
    data, dumps = r[1]
    if not same(data, want):
        part.violation(f"document value {choice}", {"text": text}, f"is read as {show(data)}, it is {show(want)}\n{text}")
        return None
    d = attempt(lambda: dumps(data), 3)
    if d[0] != "ok":
        part.violation(f"document rewrite {choice}", {"text": text}, f"cannot be written back: {d}\n{text}")
        return None
    back = oracle(d[1])
    if back is None or not same(data, back):
        part.violation(f"document rewrite {choice}", {"text": text}, f"written back with another meaning:\n{d[1]}\n--- was\n{text}")
    elif comments(d[1]) != comments(text):
        part.violation(f"document comments {choice}", {"text": text}, f"written back with other comments:\n{d[1]}\n--- was\n{text}")
    elif header_order(text) and nonblank(d[1]) != nonblank(text):
        part.violation(f"document text {choice}", {"text": text}, f"written back with another text:\n{d[1]}\n--- was\n{text}")
    return text


def run_documents(shard, part: Part):
    for choice in shard:
        check_document(part, choice)


# ---------------------------------------------------------------- edits
NEW_VALUES = [7, "s\"\n'", True, 1.5, [1, "x"], [], {}, {"q": 1}, {"q": {"r": [1]}}, [{"q": 1}, {}], {"k" + str(i): "v" * 30 for i in range(6)},
              toml.TimeLiteral("2000-01-01"), [[1], {"a": 2}, 2 / 3], {"q": [{"r": 1}]}, {"q": {}, "e": {}}]


def paths(data, base=()):
    if isinstance(data, dict):
        for k, v in data.items():
            yield (*base, k)
            yield from paths(v, (*base, k))
    elif isinstance(data, list):
        for i, v in enumerate(data):
            yield (*base, i)
            yield from paths(v, (*base, i))


def at(data, path):
    for p in path:
        data = data[p]
    return data


def edits(data, values):
    """-> (name, path, function that edits a copy, paths whose comments may go)"""
    containers = [(), *[p for p in paths(data) if isinstance(at(data, p), (dict, list))]]
    for p in paths(data):
        old = at(data, p)
        for vi in values:
            v = NEW_VALUES[vi]
            if type(v) is not type(old) or v != old:
                yield ("set", p, vi), p if isinstance(p[-1], str) or isinstance(v, dict) else p[:-1]
        if isinstance(old, int) and not isinstance(old, bool):
            yield ("same", p, "true"), p
            yield ("same", p, "float"), p
        yield ("del", p, None), p if isinstance(p[-1], str) else p[:-1]
    for p in containers:
        c = at(data, p)
        if isinstance(c, dict):
            for vi in values:
                yield ("add", p, vi), (*p, "new")
            yield ("addkey", p, "ke]y. \"'é"), (*p, "ke]y. \"'é")
        else:
            for vi in values:
                # a list of tables that gets another item is not a table array anymore
                yield ("append", p, vi), (*p, len(c)) if isinstance(NEW_VALUES[vi], dict) else p
            if len(c) > 1:
                yield ("reverse", p, None), p


def apply_edit(data, e):
    """edits the loaded data in place"""
    kind, p, arg = e
    p = tuple(p)
    if kind == "set":
        at(data, p[:-1])[p[-1]] = copy.deepcopy(NEW_VALUES[arg])
    elif kind == "same":
        v = at(data, p)
        at(data, p[:-1])[p[-1]] = bool(v) if arg == "true" else float(v)
    elif kind == "del":
        del at(data, p[:-1])[p[-1]]
    elif kind == "add":
        at(data, p)["new"] = copy.deepcopy(NEW_VALUES[arg])
    elif kind == "addkey":
        at(data, p)[arg] = 1
    elif kind == "append":
        at(data, p).append(copy.deepcopy(NEW_VALUES[arg]))
    elif kind == "reverse":
        at(data, p).reverse()


def statement_paths(choice):
    """-> [(comment, path prefix)] of the statements of a document, a list item's index included"""
    cur, counts, out = (), {}, []

    def resolve(parts):
        r = ()
        for q in parts:
            if r in counts:
                r = (*r, counts[r])
            r = (*r, q)
        return r

    for i, c in enumerate(choice):
        s = statements(i)[c]
        line = next((ln for ln in s.splitlines() if not ln.startswith("#")), "")
        if m := re.match(r"\[\[(.*?)\]\]", line):
            p = resolve(m[1].split("."))
            counts[p] = counts.get(p, -1) + 1
            cur = path = (*p, counts[p])
        elif m := re.match(r'\[((?:"[^"]*"|[^"\]])*)\]', line):
            cur = path = resolve([x.strip('"') for x in re.findall(r'"[^"]*"|[^.]+', m[1])])
        elif line:
            path = (*cur, *[x.strip('"') for x in re.findall(r'"[^"]*"|[^.]+', line.split(" = ")[0])])
        else:
            continue
        out.append((f"c{i}", path))
    return out


def related(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def check_edit(part: Part, text, e, touched, marks):
    """-> the new text or None"""
    r = load(text)
    if r[0] != "ok":
        part.violation(f"edit reread {text!r}", {"text": text}, f"a written document is not read: {r}\n{text}")
        return None
    data, dumps = r[1]
    apply_edit(data, e)
    expected = copy.deepcopy(data)
    d = attempt(lambda: dumps(data), 3)
    part.transitions += 1
    part.traces += 1
    part.case((text, e), True)
    case = {"text": text, "edit": e}
    if d[0] != "ok":
        part.violation(f"edit write {text!r} {e}", case, f"after the edit {e} the data cannot be written: {d}\n{text}")
        return None
    back = oracle(d[1])
    if back is None or not same(expected, back):
        part.violation(f"edit value {text!r} {e}", case,
                       f"after the edit {e} the data is {show(expected)}, written it is\n{d[1]}\n--- {'invalid' if back is None else show(back)}, "
                       f"the document was\n{text}")
        return None
    if marks:
        have = comments(d[1])
        lost = [c for c, p in marks if not related(p, touched) and have[c] != comments(text)[c]]
        if lost:
            part.violation(f"edit comments {text!r} {e}", case,
                           f"the edit {e} changed the comments {lost} of other statements:\n{d[1]}\n--- the document was\n{text}")
            return None
    return d[1]


def run_edits(shard, part: Part):
    choices, values, depth, values2 = shard
    for choice in choices:
        text = document(choice)
        want = oracle(text)
        if want is None:
            continue
        part.states += 1
        marks = statement_paths(choice)
        seen = set()
        for e, touched in edits(want, values):
            new = check_edit(part, text, e, touched, marks)
            if new is None or depth < 2 or new in seen:
                continue
            seen.add(new)
            part.states += 1
            for e2, touched2 in edits(oracle(new), values2):
                check_edit(part, new, e2, touched2, None)


# ---------------------------------------------------------------- data
LEAVES = [1, -1.5, True, "x", "", "a\n\"'\\\t#", toml.TimeLiteral("07:32:00"), [], {}, [1, "a"], [[]], "v" * 50, float("inf"), 10 ** 20, 1e-9,
          0.1 + 0.2, 1 / 3, -1234567.0123456789, 5e-324, 1.7976931348623157e308, 123456789012345.6, 2 ** 53 + 1, -0.0]
KEYS = ["a", "b c", "d-1", "", "é", 'q".\n', "1", "a.b"]


def trees(depth, leaves, keys, width):
    """every dict of up to `width` of the keys (in order)"""
    if depth == 0:
        yield from leaves
        return
    sub = list(trees(depth - 1, leaves, keys, width))
    for n in range(width + 1):
        for ks in itertools.combinations(keys, n):
            for vs in itertools.product(sub, repeat=n):
                yield dict(zip(ks, vs))


def check_data(part: Part, data):
    part.case(("data", repr(data)), True)
    d = attempt(lambda: toml.dumps(copy.deepcopy(data)), 3)
    if d[0] != "ok":
        part.violation(f"data write {data!r}", {"data": repr(data)}, f"cannot be written: {d}")
        return
    back = oracle(d[1])
    if back is None or not same(data, back):
        part.violation(f"data value {data!r}", {"data": repr(data)}, f"{data!r} is written as\n{d[1]}\n--- which is {show(back)}")
        return
    r = load(d[1])
    if r[0] != "ok" or not same(r[1][0], back):
        part.violation(f"data reread {data!r}", {"data": repr(data)}, f"{d[1]!r} is read as {show(r)}")


def data_space(thorough):
    for a, b in itertools.product(LEAVES, repeat=2):
        yield {"a": a, "b c": b}
        yield {"t": {"a": a, "b": b}}
        yield {"a": [a, b]}
        yield {"a": {"b": a}, "c": {"d": {"e": b}}}
        yield {"a": [{"x": a}, {"y": b}]}
        yield {"l": [{"x": {"y": a}}, {"x": [{"y": b}]}]}
        yield {"t": {"x": {"y": a}, "z": b}}
        yield {"t": {"x": {"u": {"y": a}}, "z": [b, {"k": a}]}}
        yield {"t": [[{"a": a}], [b]]}
    for k in KEYS:
        for k2 in KEYS:
            for v in ([1, {}, {"x": 1}, [{"x": 1}]] if thorough else [1, {"x": 1}, [{"x": 1}]]):
                yield {k: {k2: v}}
                yield {"t": {k: v, k2 + "_": {k: v}}}
                yield {"l": [{k: {k2: v}}]}
    small = [1, {}, [], [{}], [{"k": 1}], [[1]]] if thorough else [1, {}, [{"k": 1}]]
    yield from ({**t} for t in trees(3 if thorough else 2, small, ["a", "b"], 2))
    if not thorough:
        yield from ({**t} for t in trees(3, [1, []], ["a", "b"], 2))
    for c in [*range(0x100), 0x2028, 0x660, 0xFEFF, 0xFFFF, 0x1F600]:
        if not 0xD800 <= c <= 0xDFFF:
            for s in (chr(c), "a" + chr(c) + "b", "\\" + chr(c)):
                yield {"k": s}
                yield {s: 1}
                yield {"t": {s: {s: s}}}


def run_data(shard, part: Part):
    for data in shard:
        check_data(part, data)


# ---------------------------------------------------------------- mutations
SEED_TEXTS = ["k = 1\n", "k = \"a\\\\\"\n", "k = 'a'\n", "[t]\nk = 1\n", "[[t]]\nk.l = [1, 2]\n", "k = {a = 1, b = [2]}\n", 'k = """\na"""\n',
              "k = 1979-05-27 07:32:00\n", "k = 0x1F # c\n", "a.\"b c\" = -1.5e-3\n", "[a.b]\n[a]\nx = 1\n", "k = [\n 1, # c\n]\n", "k = true\n",
              "[[a]]\n[a.b]\n[[a]]\n", "a.b = 1\na.c = 2\n"]
MUT_CHARS = list("a1\"'\\[]{}=.,# \n-_+:") + ["é", "\x00", "\r"]


def mutations(thorough):
    for t in SEED_TEXTS:
        out = {t}
        for i in range(len(t)):
            out.add(t[:i])
            out.add(t[:i] + t[i + 1:])
            for c in MUT_CHARS:
                out.add(t[:i] + c + t[i:])
                out.add(t[:i] + c + t[i + 1:])
        if thorough:
            for i in range(len(t)):
                for j in range(i + 1, len(t)):
                    out.add(t[:i] + t[j:])
                    for c, c2 in itertools.product("\"'\\[]{}=.,", repeat=2):
                        out.add(t[:i] + c + t[i:j] + c2 + t[j:])
        yield from sorted(out)


# what pkm accepts although tomllib does not: keys or tables that are defined twice (the last one counts), control
# characters, a comma after the last item of an inline table, dates out of range, white space (also new lines) between the parts of a statement
LENIENT = re.compile(r"overwrite a value|twice|already|[Cc]annot (?:declare|mutate)|Illegal character|namespace|immutable|Duplicate inline")


def squeeze(text):
    """the text without control characters and without white space next to brackets, commas, dots and ="""
    text = re.sub(r"[\x00\r]", " ", text)
    text = re.sub(r",\s*\}", "}", text)
    text = re.sub(r"\d{4}-\d\d-\d\d(?![-\d])", "2000-01-01", text)
    text = re.sub(r"\d\d:\d\d:\d\d(?![:\d])", "00:00:00", text)
    text = re.sub(r"\s*=\s*", "=", text)
    text = re.sub(r"\s*([{},.])\s*", r"\1", text)
    return re.sub(r"\[\s+(?=[\[\]])|(?<=\])\s+(?=\])", lambda m: m.group().strip(), text)


def check_mutation(part: Part, text):
    try:
        want, why = tomllib.loads(text), ""
    except ValueError as e:
        want, why = None, str(e)
    r = load(text)
    part.case(text, want is not None, outcome="valid" if want is not None else f"invalid, pkm {r[0]}")
    if want is not None:
        if r[0] != "ok":
            part.violation(f"mutation read {text!r}", {"text": text}, f"valid toml {text!r} is not read: {r}")
        elif not same(r[1][0], want):
            part.violation(f"mutation value {text!r}", {"text": text}, f"{text!r} is read as {show(r[1][0])}, it is {show(want)}")
        else:
            d = attempt(lambda: r[1][1](r[1][0]), 3)
            back = oracle(d[1]) if d[0] == "ok" else None
            if back is None or not same(r[1][0], back):
                part.violation(f"mutation rewrite {text!r}", {"text": text}, f"{text!r} is written back as {show(d[1:])}")
    elif r[0] == "timeout" or r[0] == "err" and r[1] != "ValueError":
        part.violation(f"mutation invalid {text!r}", {"text": text}, f"invalid toml {text!r} is not rejected with a ValueError: {show(r)}")
    elif r[0] == "ok" and not LENIENT.search(why) and oracle(squeeze(text)) is None:
        part.violation(f"mutation accepted {text!r}", {"text": text},
                       f"invalid toml {text!r} ({why}) is accepted: {show(r[1][0])}")


def run_texts(shard, part: Part):
    kind, items = shard
    for it in items:
        if kind == "literal":
            check_literal(part, it[1], it[0], it[2])
        else:
            check_mutation(part, it)


# ---------------------------------------------------------------- key paths
def run_keys(part: Part, n):
    toks = ["a", "b1", '"x y"', "'q.r'", '"\\u0041"', "-", "1", '""']
    for ln in range(1, n + 1):
        for ks in itertools.product(toks, repeat=ln):
            for sep in (".", " . "):
                t = sep.join(ks)
                want, cur = [], oracle(t + " = 1")
                if cur is None:
                    continue
                while isinstance(cur, dict):
                    k = next(iter(cur))
                    want.append(k)
                    cur = cur[k]
                r = attempt(lambda: toml.key2path(t), 3)
                part.case(("key", t))
                if r[0] != "ok" or list(r[1]) != want:
                    part.violation(f"key {t!r}", {"key": t}, f"key2path({t!r}) is {r[1:]}, not {want}")


def spaces(ck):
    n = 4 if ck.thorough else 3
    docs = [c for ln in range(n + 1) for c in itertools.product(range(N_STATEMENTS), repeat=ln)]
    return docs


def dispatch(shard, part: Part):
    kind, arg = shard
    if kind == "doc":
        run_documents(arg, part)
    elif kind == "edit":
        run_edits(arg, part)
    elif kind == "data":
        run_data(arg, part)
    elif kind == "keys":
        run_keys(part, arg)
    else:
        run_texts((kind, arg), part)


def run(ck: Check):
    shards = [("keys", 4 if ck.thorough else 3)]
    shards += [("literal", s) for s in shard_list(list(literal_texts(ck.thorough)), 32)]
    docs = spaces(ck)
    shards += [("doc", s) for s in shard_list(docs, 32)]
    few = [0, 2, 4, 5, 6, 8, 9, 10, 14]
    all_ = list(range(len(NEW_VALUES)))
    small = [d for d in docs if len(d) <= 2]
    shards += [("edit", (s, sorted({*few, 1, 11, 12}) if ck.thorough else few, 1, [])) for s in shard_list([d for d in docs if len(d) <= 3], 64)]
    shards += [("edit", (s, all_, 1, [])) for s in shard_list(small, 8)]
    shards += [("edit", (s, [0, 4, 6, 7, 9, 10] if ck.thorough else [0, 6, 7, 9], 2, [0, 5, 8, 9] if ck.thorough else [0, 8, 9]))
               for s in shard_list(small, 64)]
    shards += [("data", s) for s in shard_list(list(data_space(ck.thorough)), 32)]
    shards += [("mutation", s) for s in shard_list(sorted(set(mutations(ck.thorough))), 32)]
    parallel(ck, dispatch, shards)
    ck.assumptions.append("tomllib (CPython) decides what is valid toml and what it means")


def replay(case):
    part = Part()
    if "edit" in case:
        e = case["edit"]
        check_edit(part, case["text"], (e[0], tuple(e[1]), e[2]), (), None)
    elif "data" in case:
        check_data(part, eval(case["data"], {"inf": float("inf")}))
    elif "key" in case:
        run_keys(part, 3)
    else:
        check_mutation(part, case["text"])
        check_literal(part, case["text"], "literal", True)
    return part.violations[0][1]["message"] if part.violations else None
