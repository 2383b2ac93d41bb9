"""Record filters: every expression of the grammar up to a bound is evaluated on small tables and compared with Python's own
evaluation of the same text; every other kind of expression has to be refused without running anything."""
import ast
import itertools
import os
import sys
import warnings

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "all expressions of up to three (thorough: four) operands from a pool of columns and literals with every operator, sign "
    "and function; a chained comparison is the conjunction of its parts",
    "only expressions that judge each row by itself are required to be independent of the grouping of rows",
]
BINARY = ["+", "-", "*", "/", "//", "%", "&", "|", "^"]
COMPARE = ["==", "!=", "<", "<=", ">", ">="]


def table():
    n = 12
    i = np.arange(n)
    return {
        "x": np.stack([[-128, -3, -1, 0, 1, 2, 3, 7, 100, 127, 5, -2], (i * 5) % 7 - 3], 1).astype(np.int8),
        "f": np.stack([[0.0, -0.0, 1.5, -2.5, np.nan, np.inf, -np.inf, 3.0, 0.25, 2.0, -1.0, 1e-3], i / 4.0 - 1], 1).astype(np.float32),
        "u": np.array([0, 1, 2, 3, 4, 200, 255, 7, 8, 128, 1, 0], dtype=np.uint8),
        "b": np.array([0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 1, 0], dtype=bool),
        "k": (i * 7 % 12).astype(np.int64),
        "p": (np.arange(n * 2 * 2 * 3) % 5).reshape(n, 2, 2, 3).astype(np.int8),
    }


def evaluate(text, data):
    from dataset.filter import evaluate_filter_condition

    return evaluate_filter_condition(text, data)


def python(text, data):
    """Python's evaluation, or None where it yields no boolean vector."""
    names = {**data, "np": np, "abs": np.abs, "isfinite": np.isfinite, "isnan": np.isnan,
             "logical_and": np.logical_and, "logical_or": np.logical_or, "logical_not": np.logical_not}
    try:
        out = eval(text, {"__builtins__": {}}, names)
    except Exception:
        return None
    n = len(next(iter(data.values())))
    if not isinstance(out, np.ndarray) or out.dtype != bool or out.shape != (n,):
        return None
    return out


def rows_of(data, rows):
    return {k: np.ascontiguousarray(v[rows]) for k, v in data.items()}


def attempt(text, data):
    try:
        return evaluate(text, data)
    except Exception as exc:
        return exc


GROUPS = [[list(range(12))], [[i] for i in range(12)], [list(range(5)), list(range(5, 12))], [list(range(11, -1, -1))]]


def judge(ctx, text, data, want, groups=GROUPS[:1]):
    """want: the expected vector, or None for a refusal."""
    ctx.step()
    ctx.state(text)
    kept = {k: v.copy() for k, v in data.items()}
    got = attempt(text, data)
    if want is None:
        ctx.check(isinstance(got, Exception), "an expression without a boolean value per row is accepted", text=text, got=repr(got)[:300])
        ctx.tag("refused")
    else:
        ctx.check(isinstance(got, np.ndarray), "a legal expression is refused", text=text, got=repr(got)[:300])
        ctx.check(got.dtype == bool and np.array_equal(got, want), "the wrong rows are kept", text=text, got=got.tolist(), want=want.tolist())
        ctx.tag("accepted")
    for k, v in data.items():
        ctx.check(v.tobytes() == kept[k].tobytes(), "evaluating a filter changes the data", text=text, column=k)
    if want is not None:
        for group in groups[1:]:
            for part in group:
                piece = attempt(text, rows_of(data, part))
                ctx.check(isinstance(piece, np.ndarray) and np.array_equal(piece, want[part]), "the rows kept depend on their grouping",
                          text=text, rows=part, got=repr(piece)[:300])


# ------------------------------------------------------------------ legal expressions
OPERANDS = ["x[:, 0]", "f[:, 0]", "u", "b", "k", "2", "-1", "0.5", "True", "x[..., 1]"]


def scenarios(tier):
    deep = tier == "thorough"
    for k in range(len(OPERANDS)):
        yield "two_operands", {"first": k}
        yield "three_operands", {"first": k, "pool": 6 if deep else 4}
        yield "calls", {"first": k}
    for op in range(len(BINARY) + len(COMPARE)):
        yield "four_operands", {"op": op, "every": 1 if deep else 5}
    yield "chains", {"length": 4 if deep else 3}
    yield "powers", {}
    yield "indexing", {}
    yield "signs", {}
    yield "refused", {}
    yield "sizes", {}
    for kind in ("map_processed", "processed", "batched", "map_raw", "raw"):
        for split in ((8,), (3, 5), (1, 1, 6), (4, 2, 2)):
            yield "datasets", {"kind": kind, "split": split}


def chained(ops):
    return any(a in COMPARE and b in COMPARE for a, b in itertools.combinations(ops, 2))


def meaning(terms, ops, data):
    """Value of `t0 op0 t1 op1 ...` with comparisons split into their conjunction."""
    text = terms[0] + "".join(f" {o} {t}" for o, t in zip(ops, terms[1:]))
    if sum(o in COMPARE for o in ops) < 2:
        return text, python(text, data)
    # every comparison operator binds weaker than every other one
    parts, marks, current = [], [], terms[0]
    for o, t in zip(ops, terms[1:]):
        if o in COMPARE:
            parts.append(current)
            marks.append(o)
            current = t
        else:
            current += f" {o} {t}"
    parts.append(current)
    links = [f"(({a}) {o} ({b}))" for a, o, b in zip(parts, marks, parts[1:])]
    whole = links[0]
    for link in links[1:]:
        whole = f"logical_and({whole}, {link})"
    return text, python(whole, data)


def two_operands(ctx, first):
    data = table()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for b in OPERANDS:
            for op in BINARY + COMPARE:
                for sign in ("", "-", "~", "+"):
                    for c in ("", "> 0", "== b"):
                        text = f"{sign}{OPERANDS[first]} {op} {b} {c}".strip()
                        if c and op in COMPARE:
                            continue
                        judge(ctx, text, data, python(text, data), GROUPS)
                        wrapped = f"({sign}({OPERANDS[first]} {op} {b})) {c}".strip()
                        judge(ctx, wrapped, data, python(wrapped, data))
    ctx.trace()


def three_operands(ctx, first, pool):
    data = table()
    a = OPERANDS[first]
    rest = OPERANDS[:pool] + ["2"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for b, c in itertools.product(rest, repeat=2):
            for p, q in itertools.product(BINARY + COMPARE, repeat=2):
                text, want = meaning([a, b, c], [p, q], data)
                judge(ctx, text, data, want, GROUPS if (ctx.transitions % 7) == 0 else GROUPS[:1])
                if p in COMPARE or q in COMPARE:
                    for text in (f"({a} {p} {b}) {q} {c}", f"{a} {p} ({b} {q} {c})"):
                        judge(ctx, text, data, python(text, data))
    ctx.trace()


def four_operands(ctx, op, every):
    """Precedence and associativity: every sequence of three operators."""
    data = table()
    ops = BINARY + COMPARE
    pools = [("k", "u", "3", "x[:, 0]"), ("b", "k == u", "b", "True"), ("f[:, 1]", "k", "2", "0.5"), ("b", "u", "k", "2"),
             ("-k", "~u", "-2", "~b")]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        n = 0
        for q, r in itertools.product(ops, repeat=2):
            for terms in pools:
                terms = [f"({t})" if "==" in t else t for t in terms]
                n += 1
                for turn in range(4):
                    if (n + turn) % every and every > 1 and not (ops[op] in COMPARE) ^ (r in COMPARE):
                        continue
                    order = terms[turn:] + terms[:turn]
                    text, want = meaning(order, [ops[op], q, r], data)
                    judge(ctx, text, data, want)
    ctx.trace()


def chains(ctx, length):
    data = table()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in range(2, length + 1):
            for ops in itertools.product(COMPARE, repeat=n):
                for terms in (["0", "k", "7", "u", "3"], ["k", "u", "x[:, 0]", "k", "1"], ["f[:, 0]", "0.5", "f[:, 1]", "k", "u"], ["b", "b", "b", "b", "b"]):
                    text, want = meaning(terms[:n + 1], ops, data)
                    judge(ctx, text, data, want, GROUPS)
    ctx.trace()


def powers(ctx):
    data = table()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for base in OPERANDS + ["-k", "-2", "(-k)", "f[:, 1]"]:
            for e in range(0, 9):
                for tail in ("== 4", "> k", "!= 1 - k", "** 2 > 3", "% 5 == 1", "* 2 > 9"):
                    text = f"{base} ** {e} {tail}"
                    if "**" in tail:  # only literal exponents are part of the language
                        text = f"({base} ** {e}) {tail}"
                    want = python(text, data)
                    got = attempt(text, data)
                    if isinstance(got, Exception) and want is not None:
                        ctx.check(base in ("2", "-1", "-2", "True", "0.5"), "a legal expression is refused", text=text, got=repr(got))
                        continue
                    judge(ctx, text, data, want)
    ctx.trace()


def calls(ctx, first):
    data = table()
    a = OPERANDS[first]
    one = ["abs", "isfinite", "isnan", "logical_not"]
    two = ["logical_and", "logical_or"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for prefix in ("", "np."):
            for fn in one:
                for inner in (a, f"-{a}", f"abs({a})", f"{a} + 1", f"{a} > 1", f"~({a} > 1)"):
                    for tail in ("", " > 1", " == b", " & b", " + 1 > k"):
                        text = f"{prefix}{fn}({inner}){tail}"
                        judge(ctx, text, data, python(text, data), GROUPS)
            for fn in two:
                for b in OPERANDS:
                    for form in ("{f}({a}, {b})", "{f}({a} > 1, {b})", "{f}({a}, {b} < 2)", "~{f}({a} > 0, {b} > 0)",
                                 "{f}({a} > 0, {f}({b} > 0, k > 3))", "{f}({a} > 0, {b} > 0) == (k > 5)"):
                        text = form.format(f=prefix + fn, a=a, b=b)
                        judge(ctx, text, data, python(text, data), GROUPS)
        for fn in one + two:
            for count in range(0, 5):
                args = [a, "b", "k", "f[:, 0]"][:count]
                legal = count == (1 if fn in one else 2)
                text = f"{fn}({', '.join(args)})"
                for whole in (text, f"{text} == b"):
                    judge(ctx, whole, data, python(whole, data) if legal else None)
    ctx.trace()


def indexing(ctx):
    data = table()
    parts = ["0", "1", "-1", "-2", "2", "5", ":", "0:1", "1:", ":-1", "::2", "::-1", "...", "[0]", "[0, 1]", "[-1]", "[1, 0, 1]"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for depth in (1, 2, 3, 4):
            pool = parts if depth < 3 else parts[:3] + parts[6:9] + ["...", "[1]"]
            for idx in itertools.product(pool, repeat=depth):
                if sum(i == "..." for i in idx) > 1:
                    continue
                for name in ("p", "x", "u")[: 3 if depth < 3 else 1]:
                    for tail in (" > 1", " == k"):
                        text = f"{name}[{', '.join(idx)}]{tail}"
                        want = python(text, data)
                        rowwise = idx[0] in (":", "...") and (idx[0] == ":" or depth < (4 if name == "p" else 2 if name == "x" else 1))
                        if want is not None and not rowwise:
                            got = attempt(text, data)
                            ctx.check(isinstance(got, Exception) or np.array_equal(got, want), "the wrong rows are kept", text=text)
                            continue
                        judge(ctx, text, data, want, GROUPS)
        for text in ("p[:, 0][:, 1][:, 2] == 1", "p[:][:, 1, 0, 0] > 2", "x[:, 0][...] > 0", "(x[:, 0] + x[:, 1]) > 0", "p[:, 0, 0, 1:2][:, 0] == 3",
                     "p[:, 1:][:, 0, 0, 0] < 3", "(x > 0)[:, 1]", "abs(x)[:, 0] > 2", "(x * 2)[:, -1] == 4", "(x == 1)[:, 0] | (x == 2)[:, 1]"):
            judge(ctx, text, data, python(text, data), GROUPS)
    ctx.trace()


def signs(ctx):
    """Signs and inversions against powers, products and comparisons."""
    data = table()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in range(0, 4):
            for prefix in itertools.product("-~+", repeat=n):
                for body in ("k", "b", "x[:, 0]", "u", "3", "k ** 2", "2 ** 3", "(k > 3)", "(k - 4)", "abs(x[:, 1])"):
                    for tail in ("== 3", "> -2", "* -2 < 4", "- -k > 3", "% -3 == 1", "// 2 == -1", "& 3 == 1", "| b", "^ -1 < 0", ""):
                        text = f"{''.join(prefix)}{body} {tail}".strip()
                        judge(ctx, text, data, python(text, data), GROUPS if n < 2 else GROUPS[:1])
    ctx.trace()


# ------------------------------------------------------------------ refusals
FORBIDDEN = [
    "__import__('os')", "().__class__", "x.dtype", "x.T", "x.tofile('{path}')", "x.sum() > 0", "x.__class__", "np.load('{path}')", "np.save('{path}', x)",
    "np.sum(x)", "np.lib", "np.abs.__class__", "open('{path}', 'w')", "eval('b')", "exec('1')", "print(x)", "lambda: b", "(lambda: b)()", "b if b else b",
    "b and b", "b or b", "not b", "[b for i in k]", "{i for i in k}", "{i: i for i in k}", "(i for i in k)", "{1: 2}", "{1, 2}", "f'{b}'", "f'{x}' == 'a'",
    "'text'", "b'x'", "1j", "(y := b)", "b is b", "k in k", "k not in k", "b is not b", "abs(x=b)", "abs(b, out=b)", "abs(*b)", "abs(**b)", "isnan(f, where=b)",
    "k.isnan(b)", "k.isnan(f[:, 0])", "b.abs", "abs.abs(b)", "unknown", "unknown(b)", "__builtins__", "__name__", "np", "abs", "x[b]", "x[k]", "x[k > 3]", "x[None]", "x[:, None]", "x[0.5]", "x['a']", "x[True]",
    "x[1 + 0]", "x[(0, 1)[0]]", "k << 2", "k >> 2", "k @ k", "1e400", "-1e400", "9" * 30, "k ** k", "k ** -1", "k ** 0.5", "k ** 9", "k ** (1 + 1)", "2 ** k",
    "yield b", "yield from b", "k == [b]", "x[[k]]", "await b", "b; b", "b\nb", "b = b", "import os", "del b", "", " ", "(", "b)", "b b", "b,", "*b", "k ==", "== k", "\x00", "b # \n b",
    "getattr(x, 'T')", "np.logical_and.reduce(x)", "np['abs']", "abs[0]", "np + 1", "abs(abs)", "None", "...", "b == ...", "True", "1 < 2", "(1, 2) == (1, 2)", "k", "f", "x > 0", "x == x",
    "logical_and(b, b, b)", "logical_or(k > 1, k > 2, b)", "abs(k, k) == 1", "logical_not(b, b)", "isnan(f[:, 0], b)",
]


def hooked():
    """Audit events of the running evaluation."""
    if not hasattr(hooked, "events"):
        hooked.events, hooked.on = [], False

        def hook(event, args):
            if hooked.on and event.split(".")[0] in ("exec", "open", "os", "subprocess", "socket", "import", "shutil", "ctypes", "pickle"):
                hooked.events.append((event, str(args)[:100]))

        sys.addaudithook(hook)
    return hooked


def refused(ctx):
    """Everything outside the language is refused, wherever it stands, and runs nothing."""
    root = ctx.mkdir()
    path = os.path.join(root, "made")
    data = table()
    attempt("b", data)
    watch = hooked()
    bodies = [t.replace("{path}", path) for t in FORBIDDEN]
    frames = ["{}", "({}) == b", "b & ({})", "~({})", "abs({}) > 0", "logical_or(b, {})", "x[{}] > 0", "x[:, {}] > 0", "k < ({}) < 5", "p[:, 0, ({}), 0] == 1",
              "(b | b) ^ (({}) > 0)", "{}(b)", "{}[0] > 0", "k + ({}) > 2", "({}) ** 2 > 1", "k ** ({}) > 2"]
    legal_inside = {"k", "f", "x > 0", "x == x", "None", "True", "1 < 2", "(1, 2) == (1, 2)", "...", "", " ", "abs", "np", "b,", "*b", "b # \n b", "b b", "== k", "k ==", "(", "b)"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for body in bodies:
            for frame in frames:
                text = frame.format(body) if "{}" in frame else frame
                if body in legal_inside and frame != "{}":
                    if frame.startswith("k < "):  # a chain: judged elsewhere
                        continue
                    want = python(text, data)
                    got = attempt(text, data)
                    ctx.check(isinstance(got, Exception) or want is not None and np.array_equal(got, want) or body in ("None", "..."),
                              "the wrong rows are kept", text=text, got=repr(got)[:300])
                    continue
                del watch.events[:]
                watch.on = True
                try:
                    got = attempt(text, data)
                finally:
                    watch.on = False
                ctx.check(isinstance(got, Exception), "an expression outside the language is accepted", text=text, got=repr(got)[:300])
                ctx.check(not watch.events, "a refused expression ran something", text=text, events=watch.events[:3])
                ctx.check(os.listdir(root) == [], "a refused expression wrote a file", text=text)
                fresh = table()
                for k in data:
                    ctx.check(data[k].tobytes() == fresh[k].tobytes(), "a refused expression changes the data", text=text, column=k)
                ctx.step()
                ctx.state(text)
        for name in ("__class__", "__x"):
            ctx.raises(lambda: evaluate("b", {**data, name: data["b"]}), "a reserved column name is accepted", name=name)
            ctx.raises(lambda: evaluate(f"{name} == 1", {**data, name: data["k"]}), "a reserved column name is accepted", name=name)
        for bad in (np.array(["a"] * 12), np.array([object()] * 12), np.zeros(12, dtype="M8[s]"), np.zeros(12, dtype=complex)):
            ctx.raises(lambda: evaluate("b", {"b": data["b"], "z": bad}), "a column of another type is accepted", dtype=str(bad.dtype))
        ctx.raises(lambda: evaluate("True", {}), "a filter without columns is accepted")
    kinds = {n.__name__ for text in bodies for n in _nodes(text)}
    missing = {c.__name__ for c in ast.expr.__subclasses__()} - kinds - {"FormattedValue", "TemplateStr", "Interpolation"}
    ctx.check(not missing, "harness: node kinds without an example", missing=sorted(missing))
    ctx.trace()


def _nodes(text):
    try:
        return [type(n) for n in ast.walk(ast.parse(text))]
    except (SyntaxError, ValueError):
        return []


def sizes(ctx):
    """Expressions that are far too large are refused at once; moderate ones work."""
    import resource
    import time

    data = table()
    start = time.process_time()
    memory = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    bombs = ["b" + " & b" * 5000, "-" * 4000 + "k > 0", "(" * 1500 + "b" + ")" * 1500, "~" * 60 + "b", "x[:, " + "-" * 300 + "0] > 0",
             "k == (" + "1," * 3000 + ")", "abs(" * 500 + "k" + ")" * 500 + " > 0", "k > " + "9" * 4000, "b | " + " | ".join(["(k > 1)"] * 900),
             "9" + " ** 8" * 1 + " > k ** 100", "p[:, " + ":, " * 2000 + "0] > 0", "x[:, [" + "0, " * 20000 + "0]] > 0"]
    tower = "9"
    for _ in range(12):
        tower = f"({tower}) ** 8"
    bombs += [f"k < {tower}", "k == (0,) * 2147483647 * 8", "k == ((0,) * 4096) * 4096 * 4096", "(1, 2) * 99999999999 == k"]
    for text in bombs:
        got = attempt(text, data)
        ctx.check(isinstance(got, Exception), "an oversized expression is accepted", text=text[:80], got=repr(got)[:200])
        ctx.step()
        ctx.state(text[:60], len(text))
    ctx.check(time.process_time() - start < 60, "refusing takes too long")
    grown = (resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - memory) // 1024
    ctx.check(grown < 1500, "refusing takes too much memory", megabytes=grown)
    for text in ("b" + " & b" * 8, " | ".join(f"(k == {i})" for i in range(8)), "((((k + 1) * 2) - 3) % 5) > 1", "abs(abs(abs(k - 5))) < 3"):
        judge(ctx, text, data, python(text, data), GROUPS)
    many = {"k": np.arange(100000), "x": np.zeros((100000, 3), dtype=np.int8)}
    for text in ("k % 7 == 3", "(x[:, 1] == 0) & (k > 99990)", "(x + 1)[:, 0] == 1"):
        got = attempt(text, many)
        ctx.check(isinstance(got, np.ndarray) and np.array_equal(got, python(text, many)), "a filter over many rows", text=text, got=repr(got)[:200])
    ctx.trace()


# ------------------------------------------------------------------ datasets
PROCESSED = ["gf[:, 0] > 0", "gf[:, 0] == -1", "vt[:, 0] * 1024 > 3", "(vt[:, 0] * 1024) % 2 == 1", "bf[:, 0, 2, 3] == 1", "~(bf[:, 0, 0, 0] == 1)",
             "(gf[:, 0] < 0) | (vt[:, 0] * 1024 >= 6)", "1 < vt[:, 0] * 1024 <= 5", "np.logical_and(gf[:, 0] > 0, vt[:, 0] > 0)", "abs(gf[:, 0]) == 1",
             "(pt[:, 3] > 0) ^ (gf[:, 0] > 0)", "isfinite(vt[:, 0]) & (vt[:, 0] * 1024 != 4)", "bf[:, 0, 1, 1] + bf[:, 1, 1, 1] == 0"]
RAWS = ["globalInputNC[:, 0] > 0", "globalTargetsNC[:, 0] * 1024 > 3", "(globalTargetsNC[:, 0] * 1024) % 2 == 1", "policyTargetsNCMove[:, 0, 3] > 0",
        "binaryInputNCHWPacked[:, 1, 0] & 128 == 0", "1 < globalTargetsNC[:, 0] * 1024 <= 5", "~(globalInputNC[:, 0] == 1)",
        "(binaryInputNCHWPacked[:, 1, 0] > 0) | (globalInputNC[:, 0] < 0)"]


def datasets(ctx, kind, split):
    """The same rows in map-style and streaming datasets, however the rows are spread over files."""
    root = ctx.mkdir()
    kind_, paths, options = F.make(kind, root, tuple(split))
    raw = "raw" in kind
    columns = ("globalInputNC", "globalTargetsNC", "policyTargetsNCMove", "binaryInputNCHWPacked") if raw else ("bf", "gf", "vt", "pt")
    files = []
    for p in paths:
        with np.load(p) as z:
            files.append({c: z[c] for c in columns})
    bare = F.build((kind_, paths, options), F.context(1, mode="validate"), shuffle=False)
    everyone = [i for e in F.epoch(bare, "validate") for i, ok in zip(F.ids_of(e), F.mask_of(e)) if ok]
    F.close(bare)
    ctx.equal(len(everyone), sum(split), "records without a filter")
    for text in RAWS if raw else PROCESSED:
        for stm in (None, 1, -1):
            want, at = [], 0
            for f in files:
                for r in range(len(f[columns[0]])):
                    row = {k: v[r:r + 1] for k, v in f.items()}
                    mark, value = python(chain_free(text), row), float(f[columns[0] if raw else "gf"][r, 0])
                    if bool(mark[0]) and (stm is None or value == stm):
                        want.append(everyone[at])
                    at += 1
            opts = {"filter_condition": text}
            if stm is not None:
                opts["filter_stm"] = stm
            for batch in (1, 3):
                info = {"case": (kind, split, text, stm, batch)}
                ctx.step()
                ctx.state(*map(str, info["case"]))
                if not want:
                    # nothing left: empty or refused
                    try:
                        ds = F.build((kind_, paths, options), F.context(batch, mode="validate"), shuffle=False, **opts)
                        got = [i for e in F.epoch(ds, "validate") for i, ok in zip(F.ids_of(e), F.mask_of(e)) if ok]
                        F.close(ds)
                    except Exception:
                        got = []
                else:
                    ds = F.build((kind_, paths, options), F.context(batch, mode="validate"), shuffle=False, **opts)
                    got = [i for e in F.epoch(ds, "validate") for i, ok in zip(F.ids_of(e), F.mask_of(e)) if ok]
                    F.close(ds)
                ctx.equal(got, want, "records kept by the filter", **info)
    for text in ("unknown > 0", "__import__('os')", "gf.sum() > 0", "[i for i in gf]", "logical_and(gf[:, 0] > 0, gf[:, 0] > 0, gf[:, 0])"):
        def run():
            ds = F.build((kind_, paths, options), F.context(1, mode="validate"), shuffle=False, filter_condition=text.replace("gf", "globalInputNC") if raw else text)
            F.epoch(ds, "validate")
        ctx.raises(run, "an expression outside the language is accepted", text=text)
    ctx.trace()


def chain_free(text):
    import re

    m = re.fullmatch(r"1 < (.*) <= 5", text)
    return f"(1 < {m.group(1)}) & ({m.group(1)} <= 5)" if m else text
