"""Line encoding: every realizable line pattern of every supported length, all small boards, all board sizes and all entry
points of the compiled encoder, against patterns computed cell by cell."""
import itertools

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "every pattern of the lengths up to 13 (thorough 17); all boards of up to 9 (thorough 12) cells, all placements of up to "
    "two stones on larger ones; a plane padded beyond the real board counts as a board of the plane's size",
    "channels 0-3 are the row, the column, the rising and the falling diagonal; lines run from left to right, columns downwards",
]
DIRS = ((0, 1), (1, 0), (-1, 1), (1, 1))
RAW = (1, 3, 5, 7, 9, 11, 13, 15)
COMPACT = RAW + (17,)


def lines_api(lines, length):
    from dataset.pipeline.line_encoding import transform_lines_to_line_encoding

    return transform_lines_to_line_encoding(np.ascontiguousarray(lines, dtype=np.int8), length)


def total(length):
    from dataset.pipeline.line_encoding import get_total_num_encoding

    return int(get_total_num_encoding(length))


def pipeline(length, raw=False):
    from dataset.pipeline import build_data_pipeline

    return build_data_pipeline({"line_encoding": {"line_length": length, "raw_code": raw}})[0]


def digits_of(codes, n):
    return (codes[:, None] // 3 ** np.arange(n)[None, :] % 3).astype(np.int8)


def patterns(boards, length):
    """(N,4,H,W) identifiers of the neighbourhoods: base 4, 0..2 for cells and 3 for outside."""
    n, _, h, w = boards.shape
    half = length // 2
    grid = np.full((n, h + 2 * half, w + 2 * half), 3, dtype=np.int64)
    grid[:, half:half + h, half:half + w] = boards[:, 0] + 2 * boards[:, 1]
    out = np.zeros((n, 4, h, w), dtype=np.int64)
    for d, (dy, dx) in enumerate(DIRS):
        for k in range(-half, half + 1):
            y, x = half + k * dy, half + k * dx
            out[:, d] = out[:, d] * 4 + grid[:, y:y + h, x:x + w]
    return out


def code_of(ids, length):
    """Code of each identifier, from the line list entry point."""
    half = length // 2
    cells = ids[:, None] // 4 ** np.arange(length - 1, -1, -1)[None, :] % 4
    inside = cells != 3
    left, right = inside[:, :half].sum(1), inside[:, half + 1:].sum(1)
    out = np.empty(len(ids), dtype=np.int64)
    for key in np.unique(left * 100 + right):
        rows = np.nonzero(left * 100 + right == key)[0]
        l, r = int(key // 100), int(key % 100)
        out[rows] = lines_api(cells[rows][:, half - l:half + r + 1], length)[:, l]
    return out


def bijective(ctx, ids, codes, message, **info):
    pairs = np.unique(np.stack([ids.reshape(-1), codes.reshape(-1).astype(np.int64)], 1), axis=0)
    a, b = len(np.unique(pairs[:, 0])), len(np.unique(pairs[:, 1]))
    ctx.check(a == len(pairs), message + ": equal neighbourhoods, different codes", **info)
    ctx.check(b == len(pairs), message + ": different neighbourhoods, equal codes", **info)
    return pairs


def boards_of(cells, h, w):
    boards = np.zeros((len(cells), 2, h, w), dtype=np.int8)
    grid = cells.reshape(len(cells), h, w)
    boards[:, 0], boards[:, 1] = grid == 1, grid == 2
    return boards


def judge(ctx, boards, length, info):
    """One pool of equally sized boards through every entry point; returns the raw pairs."""
    ids = patterns(boards, length)
    keep = boards.copy()
    given = {"board_input": boards, "mine": [1]}
    out = pipeline(length).process_batch(given)
    got = np.asarray(out["line_encoding"])
    ctx.step(len(boards))
    ctx.trace(len(boards))
    ctx.check(got.shape == ids.shape, "shape of the encoding", got=got.shape, want=ids.shape, **info)
    ctx.check(got.min() >= 0 and got.max() < total(length), "a code out of range", **info)
    uniq, inverse = np.unique(ids, return_inverse=True)
    want = code_of(uniq, length)[inverse.reshape(ids.shape)]
    bad = np.argwhere(got != want)
    if len(bad):
        i = bad[0]
        ctx.check(False, "a board cell is encoded differently from its line", where=i[1:].tolist(), board=boards[i[0]].tolist(),
                  got=int(got[tuple(i)]), want=int(want[tuple(i)]), **info)
    ctx.check(np.array_equal(boards, keep) and sorted(given) == ["board_input", "mine"], "the input is changed", **info)
    ctx.equal(sorted(out), ["board_input", "line_encoding", "line_encoding_total_num", "mine"], "fields of the result", **info)
    ctx.check((np.asarray(out["line_encoding_total_num"]) == total(length)).all(), "the reported total", **info)
    one = pipeline(length)
    for i in range(0, len(boards), max(1, len(boards) // 50)):
        single = one({"board_input": boards[i]})
        ctx.check(np.array_equal(single["line_encoding"], got[i]), "single boards and batches differ", board=boards[i].tolist(), **info)
        ctx.check(int(single["line_encoding_total_num"]) == total(length), "the reported total", **info)
    if length in RAW:
        raw = np.asarray(pipeline(length, True).process_batch({"board_input": boards})["line_encoding"])
        single = pipeline(length, True)({"board_input": boards[-1]})
        ctx.check(np.array_equal(single["line_encoding"], raw[-1]), "single boards and batches differ in raw code", **info)
        ctx.check(raw.min() >= 0 and raw.max() < 4**length == int(single["line_encoding_total_num"]), "a raw code out of range", **info)
        return bijective(ctx, ids, raw, "raw code", **info)
    return None


# ------------------------------------------------------------------ scenarios
def scenarios(tier):
    deep = tier == "thorough"
    for length in COMPACT[: 9 if deep else 7]:
        yield "every_pattern", {"length": length}
    for length in COMPACT:
        for n in range(1, 12 if deep else 10):
            yield "whole_lines", {"length": length, "n": n}
        yield "long_lines", {"length": length}
        yield "board_sizes", {"length": length}
        shapes = [(1, 8), (8, 1), (2, 4), (3, 3), (4, 2)] + ([(2, 5), (5, 2), (3, 4), (4, 3), (2, 6), (11, 1)] if deep else [])
        yield "small_boards", {"length": length, "shapes": shapes}
        for h, w in [(6, 6), (9, 7), (5, 15), (15, 15)] + ([(20, 20), (22, 9)] if deep else []):
            yield "few_stones", {"length": length, "h": h, "w": w, "pairs": h * w < (230 if deep else 100)}
    yield "entry_points", {}
    yield "histories", {}
    yield "datasets", {}


def every_pattern(ctx, length):
    from dataset.pipeline.line_encoding import get_encoding_usage_flags

    half, n = length // 2, total(length)
    seen = np.zeros(n, dtype=bool)
    count = 0
    for left in range(half + 1):
        for right in range(half + 1):
            size = left + right + 1
            for lo in range(0, 3**size, 1 << 20):
                codes = lines_api(digits_of(np.arange(lo, min(lo + (1 << 20), 3**size)), size), length)[:, left]
                ctx.step(len(codes))
                info = {"length": length, "left": left, "right": right}
                ctx.check(codes.min() >= 0 and codes.max() < n, "a code out of range", total=n, **info)
                ctx.check(not seen[codes].any(), "two patterns share a code", **info)
                seen[codes] = True
                count += len(codes)
                ctx.check(int(seen.sum()) == count, "two patterns share a code", **info)
            ctx.state("patterns", length, left, right)
    flags = np.asarray(get_encoding_usage_flags(length))
    ctx.check(flags.shape == (n,), "shape of the usage flags")
    ctx.check(np.array_equal(flags != 0, seen), "the usage flags are not the codes of the patterns", length=length,
              flagged=int((flags != 0).sum()), patterns=count)
    ctx.tag("patterns", count)
    ctx.trace()


def whole_lines(ctx, length, n):
    """Every filling of a line: each cell has the code of its window."""
    half = length // 2
    lines = digits_of(np.arange(3**n), n)
    got = lines_api(lines, length)
    ctx.step(len(lines))
    for x in range(n):
        l, r = min(half, x), min(half, n - 1 - x)
        window = lines[:, x - l:x + r + 1]
        uniq, inverse = np.unique(window, axis=0, return_inverse=True)
        want = lines_api(uniq, length)[:, l][inverse.reshape(-1)]
        ctx.check(np.array_equal(got[:, x], want), "the code depends on cells outside the pattern", length=length, n=n, x=x)
    # the same lines as rows and columns of boards
    for shape in ((1, n), (n, 1)):
        boards = boards_of(lines, *shape)
        out = pipeline(length).process_batch({"board_input": boards})["line_encoding"]
        d = 0 if shape[0] == 1 else 1
        ctx.check(np.array_equal(out[:, d].reshape(len(lines), n), got), "boards and lines differ", length=length, shape=shape)
    for k in range(0, 3**n, 97):
        ctx.state("line", length, n, k)
    ctx.trace(len(lines))


def long_lines(ctx, length):
    """Up to two stones on every line length: encoded by the windows, or refused when too long."""
    half = length // 2
    for n in range(1, 40):
        rows = [np.zeros(n, dtype=np.int8)]
        for a, b in itertools.combinations_with_replacement(range(n), 2):
            for va, vb in itertools.product((1, 2), repeat=2):
                row = np.zeros(n, dtype=np.int8)
                row[a], row[b] = va, vb
                rows.append(row)
        rows += [np.full(n, 1, np.int8), np.full(n, 2, np.int8), np.arange(n, dtype=np.int8) % 3, np.arange(n, dtype=np.int8)[::-1] % 3]
        lines = np.stack(rows)
        try:
            got = lines_api(lines, length)
        except ValueError:
            ctx.check(n > 32 - half, "a line is refused", length=length, n=n)
            continue
        ctx.step(len(lines))
        for x in range(n):
            l, r = min(half, x), min(half, n - 1 - x)
            want = lines_api(lines[:, x - l:x + r + 1], length)[:, l]
            ctx.check(np.array_equal(got[:, x], want), "the code depends on cells outside the pattern", length=length, n=n, x=x)
        ctx.state("long", length, n)
    ctx.trace()


def busy(h, w, step):
    y, x = np.mgrid[:h, :w]
    return ((x * 3 + y * 5 + (x * y * step) % 7 + step) % 3).astype(np.int8)


def board_sizes(ctx, length):
    """Every board size: encoded as its lines are, or refused when the pattern cannot be told from the far edge."""
    raw = []
    limit = 32 - length // 2
    for h in range(1, 35):
        for w in range(1, 35):
            boards = boards_of(np.stack([busy(h, w, s) for s in range(4)]).reshape(4, -1), h, w)
            info = {"size": (h, w), "length": length}
            if h > limit or w > limit:
                for code in (False, True) if length in RAW else (False,):
                    p = pipeline(length, code)
                    refused = 0
                    for run in (lambda: p.process_batch({"board_input": boards}), lambda: p({"board_input": boards[0]})):
                        try:
                            run()
                        except ValueError:
                            refused += 1
                    ctx.check(refused in (0, 2), "only batches or only boards are refused", **info)
                if not refused:
                    judge(ctx, boards, length, info)
            else:
                pairs = judge(ctx, boards, length, info)
                if pairs is not None and (h + w) % 3 == 0:
                    raw.append(pairs)
            ctx.state("size", length, h, w)
    if raw:
        pairs = np.concatenate(raw)
        bijective(ctx, pairs[:, 0], pairs[:, 1], "raw code across board sizes", length=length)


def small_boards(ctx, length, shapes):
    raw = []
    for h, w in shapes:
        for lo in range(0, 3 ** (h * w), 59049):
            boards = boards_of(digits_of(np.arange(lo, min(lo + 59049, 3 ** (h * w))), h * w), h, w)
            pairs = judge(ctx, boards, length, {"shape": (h, w), "length": length})
            if pairs is not None:
                raw.append(pairs)
            for k in range(0, len(boards), 101):
                ctx.state("small", length, h, w, lo + k)
    if raw:
        pairs = np.concatenate(raw)
        bijective(ctx, pairs[:, 0], pairs[:, 1], "raw code across boards", length=length)


def few_stones(ctx, length, h, w, pairs):
    cells = [np.zeros(h * w, dtype=np.int8)]
    for a in range(h * w):
        for va in (1, 2):
            one = np.zeros(h * w, dtype=np.int8)
            one[a] = va
            cells.append(one)
            for b in range(a + 1, h * w) if pairs else ():
                for vb in (1, 2):
                    two = one.copy()
                    two[b] = vb
                    cells.append(two)
    for lo in range(0, len(cells), 5000):
        judge(ctx, boards_of(np.stack(cells[lo:lo + 5000]), h, w), length, {"shape": (h, w), "length": length})
        ctx.state("few", length, h, w, lo)


def entry_points(ctx):
    """Lengths, shapes and element types that cannot be encoded are refused; layouts and types that can are equal."""
    import line_encoding_cpp as cpp

    good = boards_of(busy(5, 6, 1).reshape(1, -1), 5, 6)
    for length in range(-3, 25):
        for raw in (False, True):
            fine = length in (RAW if raw else COMPACT)
            build = lambda: pipeline(length, raw)({"board_input": good[0]})
            if fine:
                build()
            else:
                ctx.raises(build, "an unsupported line length is accepted", length=length, raw=raw)
        if length not in COMPACT:
            ctx.raises(lambda: total(length), "an unsupported line length is accepted", length=length)
            ctx.raises(lambda: lines_api(np.zeros((1, 3), np.int8), length), "an unsupported line length is accepted", length=length)
    for lines in (np.full((1, 3), 3, np.int8), np.full((1, 3), -1, np.int8), np.zeros((1, 3), np.int32), np.zeros(3, np.int8)):
        from dataset.pipeline.line_encoding import transform_lines_to_line_encoding

        ctx.raises(lambda: transform_lines_to_line_encoding(lines, 5), "a malformed line list is accepted", dtype=str(lines.dtype))
    zeros = np.zeros
    for board, out in ((zeros((3, 5, 5), np.int8), zeros((4, 5, 5), np.int32)), (zeros((2, 5, 5), np.int8), zeros((3, 5, 5), np.int32)),
                       (zeros((2, 5, 5), np.int8), zeros((4, 5, 6), np.int32)), (zeros((2, 5, 5), np.int8), zeros((4, 5, 5), np.int64)),
                       (zeros((2, 5, 5), np.int8), zeros((4, 5, 10), np.int32)[..., ::2])):
        ctx.raises(lambda: cpp.transform_board_to_line_encoding(board, out, 5), "malformed arrays are accepted", shapes=(board.shape, out.shape))
        ctx.raises(lambda: cpp.transform_boards_to_line_encoding(board[None], out[None], 5), "malformed arrays are accepted",
                   shapes=(board.shape, out.shape))
    ctx.raises(lambda: cpp.transform_boards_to_line_encoding(zeros((2, 2, 5, 5), np.int8), zeros((1, 4, 5, 5), np.int32), 5),
               "malformed arrays are accepted")
    frozen = zeros((4, 5, 5), np.int32)
    frozen.flags.writeable = False
    ctx.raises(lambda: cpp.transform_board_to_line_encoding(zeros((2, 5, 5), np.int8), frozen, 5), "a read-only result is accepted")
    for length in COMPACT:
        for raw in (False, True) if length in RAW else (False,):
            want = pipeline(length, raw)({"board_input": good[0]})["line_encoding"]
            for name, form in {
                "bool": good[0].astype(bool), "uint8": good[0].astype(np.uint8), "int64": good[0].astype(np.int64),
                "strided": np.repeat(np.repeat(good[0], 2, 1), 2, 2)[:, ::2, ::2], "fortran": np.asfortranarray(good[0]),
                "reversed": np.ascontiguousarray(good[0][::-1, ::-1, ::-1])[::-1, ::-1, ::-1],
            }.items():
                got = pipeline(length, raw)({"board_input": form})["line_encoding"]
                ctx.check(np.array_equal(got, want), "the encoding depends on the layout of the input", layout=name, length=length)
                got = pipeline(length, raw).process_batch({"board_input": form[None]})["line_encoding"]
                ctx.check(np.array_equal(got[0], want), "the encoding depends on the layout of the input", layout=name, length=length)
                ctx.step(2)
                ctx.state("layout", name, length, raw)
    ctx.trace()


def histories(ctx):
    """Every order of three lengths, and every batch of a pool, in one process."""
    pool = [boards_of(busy(6, 7, s).reshape(1, -1), 6, 7)[0] for s in range(4)]
    alone = {}
    kinds = [(n, False) for n in COMPACT] + [(n, True) for n in RAW]
    for kind in kinds:
        alone[kind] = [pipeline(*kind)({"board_input": b})["line_encoding"].copy() for b in pool]
    kept = {kind: pipeline(*kind) for kind in kinds}
    for order in itertools.permutations(kinds, 3 if ctx.thorough else 2):
        for k, kind in enumerate(order):
            got = kept[kind]({"board_input": pool[k]})["line_encoding"]
            ctx.check(np.array_equal(got, alone[kind][k]), "the encoding depends on earlier calls", order=order)
            ctx.step()
        ctx.state("order", order)
    for kind in kinds:
        for n in range(1, 5):
            for pick in itertools.product(range(4), repeat=n):
                got = kept[kind].process_batch({"board_input": np.stack([pool[i] for i in pick])})["line_encoding"]
                ctx.check(np.array_equal(got, np.stack([alone[kind][i] for i in pick])), "the encoding depends on the batch", kind=kind, pick=pick)
                ctx.step()
    ctx.trace()


def datasets(ctx):
    """The field delivered by datasets is the encoding of the delivered planes."""
    for kind in ("simple", "packed", "processed", "batched", "map_processed", "raw", "map_raw"):
        for raw in (False, True):
            for length in (1, 5, 11):
                for opts in ({}, {"fixed_side_input": True}, {"apply_symmetry": True}, {"fixed_board_size": (7, 8)}):
                    spec = F.make(kind, ctx.mkdir())
                    ds = F.build(spec, F.context(3, mode="validate"), shuffle=False,
                                 pipeline_args={"line_encoding": {"line_length": length, "raw_code": raw}}, **opts)
                    rows = 0
                    for e in F.epoch(ds, "validate"):
                        ctx.step()
                        data = {k: np.asarray(v) for k, v in e.data.items() if k in ("board_input", "line_encoding", "line_encoding_total_num")}
                        want = np.stack([pipeline(length, raw)({"board_input": b})["line_encoding"] for b in data["board_input"]])
                        info = {"case": (kind, raw, length, opts)}
                        ctx.check(np.array_equal(data["line_encoding"], want), "encoding delivered by a dataset", **info)
                        ctx.check((data["line_encoding_total_num"] == (4**length if raw else total(length))).all(), "total delivered by a dataset", **info)
                        rows += len(want)
                    ctx.check(rows > 0, "nothing delivered")
                    F.close(ds)
                    ctx.state(kind, raw, length, repr(opts))
    ctx.trace()
