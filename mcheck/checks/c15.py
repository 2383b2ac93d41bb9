"""Forbidden points: every position of the enumerated spaces goes through the real pipeline (and its compiled module) and
is compared with an oracle written from the definitions of the Renju rules (mcheck/renju.cpp)."""
import ctypes
import hashlib
import itertools
import os
import subprocess
import tempfile

import numpy as np

from mcheck import env, fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "RIF rules: five overrides every prohibition; a three counts only if the move that makes it a straight four is itself "
    "allowed, recursively; two fours in one line count as two",
    "complete up to: single lines of 10 (thorough 12) cells, 4 (5) black stones on 7x7, crossing lines with four cells on "
    "each side, a three whose four-making cell carries up to three further lines; larger mixed positions are not covered",
]
SIZE = 22
DIRS = ((0, 1), (1, 0), (1, 1), (1, -1))
_oracle = None


def oracle():
    global _oracle
    if _oracle is None:
        src = os.path.join(env.VERIF, "mcheck", "renju.cpp")
        with open(src, "rb") as f:
            name = "renju-" + hashlib.sha256(f.read()).hexdigest()[:16] + ".so"
        path = os.path.join(env.BUILD, name)
        if not os.path.exists(path):
            os.makedirs(env.BUILD, exist_ok=True)
            fd, part = tempfile.mkstemp(dir=env.BUILD)
            os.close(fd)
            subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-o", part, src], check=True)
            os.replace(part, path)
        _oracle = ctypes.CDLL(path).forbidden_maps
        _oracle.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
        _oracle.restype = None
    return _oracle


def prepare(tier):
    oracle()
    import forbidden_point_cpp  # noqa: F401  compile once, before the workers start


def wanted(boards):
    boards = np.ascontiguousarray(boards, dtype=np.int8)
    n, _, h, w = boards.shape
    out = np.empty((n, h, w), dtype=np.int8)
    oracle()(boards.ctypes.data, n, h, w, out.ctypes.data)
    return out


def pipeline(fixed=True):
    from dataset.pipeline import build_data_pipeline

    return build_data_pipeline({"forbidden_point": {"fixed_side_input": fixed}})[0]


def show(board):
    return ["".join("X" if b else "O" if w else "." for b, w in zip(*rows)) for rows in zip(*board)]


def compare(ctx, boards, info):
    boards = np.ascontiguousarray(boards, dtype=np.int8)
    if not len(boards):
        return
    stm = np.full((len(boards), 1), -1, dtype=np.float32)
    got = pipeline().process_batch({"board_input": boards, "stm_input": stm})["forbidden_point"]
    want = wanted(boards)
    ctx.step(len(boards))
    ctx.trace(len(boards))
    ctx.tag("forbidden cells", int(want.sum()))
    bad = np.argwhere((np.asarray(got) != 0) != (want != 0))
    if len(bad):
        i, y, x = (int(v) for v in bad[0])
        ctx.check(False, "a forbidden point is missed" if want[i, y, x] else "an allowed point is marked forbidden",
                  cell=(y, x), board=show(boards[i]), wrong=len(bad), **info)
    ctx.check(set(np.unique(got)) <= {0, 1}, "flags other than 0 and 1", **info)


def batches(ctx, boards, info, limit=20000):
    chunk = []
    for b in boards:
        chunk.append(b)
        if len(chunk) == limit:
            compare(ctx, np.stack(chunk), info)
            chunk = []
    if chunk:
        compare(ctx, np.stack(chunk), info)


# ------------------------------------------------------------------ scenarios
def scenarios(tier):
    deep = tier == "thorough"
    yield "pipelines", {}
    yield "histories", {}
    yield "datasets", {}
    yield "sizes", {}
    for name in sorted(SHAPES):
        yield "places", {"name": name}
    for d in range(4):
        for n in range(1, 12 if deep else 11):
            yield "lines", {"d": d, "n": n, "first": None}
        if deep:
            for first in range(9):
                yield "lines", {"d": d, "n": 12, "first": first}
    for i in range(0, 49 if deep else 46):
        yield "stones", {"size": 7, "black": 5 if deep else 4, "lowest": i}
    for i in range(0, 25):
        yield "stones", {"size": 5, "black": 6 if deep else 5, "lowest": i}
    for a, b in itertools.combinations(range(4), 2):
        for white in range(9 if deep else 5):
            yield "crosses", {"a": a, "b": b, "white": white}
    for a, b in itertools.permutations(range(4), 2):
        for k in range(len(THREES)):
            yield "recursive", {"a": a, "b": b, "k": k}
    for a, b, c in itertools.combinations(range(4), 3):
        for k in range(4):
            yield "stars", {"a": a, "b": b, "c": c, "k": k}


def lines(ctx, d, n, first):
    """Every filling of a line of n cells that runs from edge to edge."""
    dy, dx = DIRS[d]
    h, w = (n if dy else 1), (n if dx else 1)
    cells = [(k * dy, k * dx if dx >= 0 else n - 1 - k) for k in range(n)]
    ys, xs = np.array([c[0] for c in cells]), np.array([c[1] for c in cells])
    total = 3**n
    start, stop = (0, total) if first is None else (first * total // 9, (first + 1) * total // 9)
    for lo in range(start, stop, 20000):
        codes = np.arange(lo, min(lo + 20000, stop))
        digits = codes[:, None] // 3 ** np.arange(n)[None, :] % 3
        boards = np.zeros((len(codes), 2, h, w), dtype=np.int8)
        boards[:, 0, ys, xs] = digits == 1
        boards[:, 1, ys, xs] = digits == 2
        compare(ctx, boards, {"case": ("line", d, n)})
        ctx.state_range("line", d, n, lo, len(codes)) if hasattr(ctx, "state_range") else ctx.state("line", d, n, lo)


def stones(ctx, size, black, lowest):
    """Every set of black stones whose lowest cell is given, with no white stone or one next to the first stone."""
    def gen():
        for rest in itertools.combinations(range(lowest + 1, size * size), black - 1):
            b = np.zeros((2, size * size), dtype=np.int8)
            b[0, [lowest, *rest]] = 1
            yield b.reshape(2, size, size)
    batches(ctx, gen(), {"case": ("stones", size, black)})
    ctx.state("stones", size, black, lowest)


def crosses(ctx, a, b, white):
    """Two lines through one empty cell, four cells on each side: every set of black stones, with up to one white stone."""
    arms = [k for k in range(-4, 5) if k]
    size, mid = 11, 5
    cells = [(mid + k * DIRS[d][0], mid + k * DIRS[d][1]) for d in (a, b) for k in arms]
    place = None
    if white:
        # every distance, on one side or the other of the first line
        k = (1, 2, 3, 4, -1, -2, -3, -4)[white - 1]
        place = (mid + k * DIRS[a][0], mid + k * DIRS[a][1])
    ys, xs = np.array([c[0] for c in cells]), np.array([c[1] for c in cells])
    bits = np.arange(1 << 16)
    digits = bits[:, None] >> np.arange(16)[None, :] & 1
    keep = digits.sum(1) <= 8
    if place:
        keep &= digits[:, cells.index(place)] == 0
    digits = digits[keep]
    for lo in range(0, len(digits), 20000):
        part = digits[lo:lo + 20000]
        boards = np.zeros((len(part), 2, size, size), dtype=np.int8)
        boards[:, 0, ys, xs] = part
        if place:
            boards[:, 1, place[0], place[1]] = 1
        compare(ctx, boards, {"case": ("cross", a, b, white)})
    ctx.state("cross", a, b, white)


# Two further stones that make a three with the move at 0.
THREES = [p for p in itertools.combinations([k for k in range(-3, 4) if k], 2) if max(0, *p) - min(0, *p) <= 3]
PAIRS = [()] + THREES
EXTRA = [(), (1, 2), (-1, 1), (1, 3), (1, 2, 3), (-2, -1, 1), (1, 2, 4), (1, 2, 3, 5)]


def put(board, centre, d, offsets, plane=0):
    for k in offsets:
        y, x = centre[0] + k * DIRS[d][0], centre[1] + k * DIRS[d][1]
        if not (0 <= y < board.shape[1] and 0 <= x < board.shape[2]) or board[1 - plane, y, x]:
            return False
        board[plane, y, x] = 1
    return True


def recursive(ctx, a, b, k):
    """A double three whose straight-four cells carry further lines, which may forbid them in turn."""
    size, mid = 15, 7
    first = THREES[k]

    def gen():
        for second in THREES if ctx.thorough else THREES[:: 2]:
            base = np.zeros((2, size, size), dtype=np.int8)
            put(base, (mid, mid), a, first)
            put(base, (mid, mid), b, second)
            run = [0, *first]
            for e in range(min(run) - 1, max(run) + 2):
                if e in run:
                    continue
                at = (mid + e * DIRS[a][0], mid + e * DIRS[a][1])
                others = [d for d in range(4) if d != a]
                for extra in itertools.product(EXTRA if ctx.thorough else EXTRA[:6], repeat=3):
                    if not ctx.thorough and sum(map(bool, extra)) > 2:
                        continue
                    board = base.copy()
                    if all(put(board, at, d, off) for d, off in zip(others, extra)) and not board[0, mid, mid] and not board[0, at[0], at[1]]:
                        yield board
                        # one level deeper: the cell that completes the first further line carries a line of its own
                        for d, off in zip(others, extra):
                            if off == (1, 2):
                                far = (at[0] + 3 * DIRS[d][0], at[1] + 3 * DIRS[d][1])
                                for dd in range(4):
                                    if dd != d:
                                        deeper = board.copy()
                                        if put(deeper, far, dd, (1, 2, 3)) or ctx.thorough:
                                            yield deeper
    batches(ctx, gen(), {"case": ("recursive", a, b, first)})
    ctx.state("recursive", a, b, k)


def stars(ctx, a, b, c, k):
    """Three lines through one cell, from pairs, triples and longer rows, one side open or closed."""
    size, mid = 13, 6
    rows = [(), *THREES, (1, 2, 3), (-1, 1, 2), (-2, -1, 1), (-3, -2, -1), (1, 2, 4), (-4, -2, -1, 1, 2), (-2, -1, 1, 2),
            (1, 2, 3, 4), (-3, -2, -1, 1, 2), (1, 2, 3, 4, 5), (-4, -3, 2, 3), (-3, 1, 2, 3)]

    def gen():
        for x, y, z in itertools.product(rows, rows, rows if ctx.thorough else rows[:: 3]):
            board = np.zeros((2, size, size), dtype=np.int8)
            put(board, (mid, mid), a, x)
            put(board, (mid, mid), b, y)
            put(board, (mid, mid), c, z)
            if k == 1:
                put(board, (mid, mid), a, (-5,), plane=1)
            elif k == 2:
                put(board, (mid, mid), b, (4,), plane=1)
            elif k == 3:
                put(board, (mid, mid), c, (-2,), plane=1)
                put(board, (mid, mid), a, (5,), plane=1)
            if not (board[0] & board[1]).any():
                yield board
    batches(ctx, gen(), {"case": ("star", a, b, c, k)})
    ctx.state("star", a, b, c, k)


SHAPES = {
    "double three": [(0, 1), (0, 2), (1, 0), (2, 0)],
    "diagonal double three": [(1, 1), (2, 2), (-1, 1), (-2, 2)],
    "split three": [(0, 1), (0, 3), (1, 0), (2, 0)],
    "double four": [(0, 1), (0, 2), (0, 3), (1, 0), (2, 0), (3, 0)],
    "line of two fours": [(0, -2), (0, 1), (0, 2), (0, 4)],
    "diagonal two fours": [(-2, -2), (1, 1), (2, 2), (4, 4)],
    "six": [(0, -2), (0, -1), (0, 1), (0, 2), (0, 3)],
    "diagonal six": [(2, -2), (1, -1), (-1, 1), (-2, 2), (-3, 3)],
    "five and six": [(0, -2), (0, -1), (0, 1), (0, 2), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0)],
    "five and double four": [(0, -2), (0, -1), (0, 1), (0, 2), (1, 0), (2, 0), (3, 0), (1, 1), (2, 2), (3, 3)],
    "four and three": [(0, 1), (0, 2), (0, 3), (1, 0), (2, 0)],
    "seven": [(-3, 0), (-2, 0), (-1, 0), (1, 0), (2, 0), (3, 0)],
}


def places(ctx, name):
    """Each shape, its mirror images and rotations, at every place of boards of several sizes."""
    for h, w in [(22, 22), (15, 15), (9, 13), (22, 6)] + ([(19, 20), (5, 22), (7, 7)] if ctx.thorough else []):
        def gen():
            for turn in range(8):
                pts = []
                for y, x in SHAPES[name]:
                    for bit, f in ((1, lambda y, x: (-y, x)), (2, lambda y, x: (y, -x)), (4, lambda y, x: (x, y))):
                        if turn & bit:
                            y, x = f(y, x)
                    pts.append((y, x))
                for cy in range(-3, h + 3):
                    for cx in range(-3, w + 3):
                        board = np.zeros((2, h, w), dtype=np.int8)
                        inside = [(cy + y, cx + x) for y, x in pts if 0 <= cy + y < h and 0 <= cx + x < w]
                        for y, x in inside:
                            board[0, y, x] = 1
                        if len(inside) > 2:
                            yield board
        batches(ctx, gen(), {"case": (name, h, w)})
        ctx.state(name, h, w)


def full(h, w, step=1):
    """A crowded position."""
    b = np.zeros((2, h, w), dtype=np.int8)
    for y in range(h):
        for x in range(w):
            v = (x * 3 + y * 5 + (x * y * step) % 7) % 4
            if v in (0, 3):
                b[0, y, x] = v == 0 or (x + y) % 3 == 0
            elif v == 1:
                b[1, y, x] = 1
    b[1] &= 1 - b[0]
    return b


def sizes(ctx):
    """Every board size from 1x1 to 22x22; larger boards are refused."""
    from forbidden_point_cpp import transform_board_to_forbidden_point as transform

    for h in range(1, SIZE + 1):
        for w in range(1, SIZE + 1):
            boards = [np.zeros((2, h, w), dtype=np.int8)]
            for step in range(1, 6):
                boards.append(full(h, w, step))
                sparse = np.zeros((2, h, w), dtype=np.int8)
                sparse[0, step % h::3, ::2] = 1
                sparse[1, ::4, step % w::3] = 1
                sparse[1] &= 1 - sparse[0]
                boards.append(sparse)
            compare(ctx, np.stack(boards), {"case": ("size", h, w)})
            ctx.state("size", h, w)
    for h, w in ((23, 22), (22, 23), (30, 5), (5, 32), (64, 64)):
        out = np.zeros((h, w), dtype=np.int8)
        ctx.raises(lambda: transform(np.zeros((2, h, w), dtype=np.int8), out), "an oversized board is accepted", size=(h, w))
    for board, out in ((np.zeros((1, 5, 5), np.int8), np.zeros((5, 5), np.int8)),
                       (np.zeros((3, 5, 5), np.int8), np.zeros((5, 5), np.int8)),
                       (np.zeros((2, 5, 5), np.int8), np.zeros((5, 6), np.int8)),
                       (np.zeros((2, 5, 5), np.int8), np.zeros((5, 5), np.int32)),
                       (np.zeros((2, 5, 5), np.int8), np.zeros((5, 10), np.int8)[:, ::2])):
        ctx.raises(lambda: transform(board, out), "malformed arrays are accepted", shapes=(board.shape, out.shape, str(out.dtype)))


def pool():
    out = [full(15, 15), full(15, 15, 2)]
    for name in sorted(SHAPES):
        b = np.zeros((2, 15, 15), dtype=np.int8)
        for y, x in SHAPES[name]:
            b[0, 7 + y, 7 + x] = 1
        b[1, 0, :5] = 1
        out.append(b)
    return out


def pipelines(ctx):
    """Colour conventions, memory layouts and element types; inputs stay as they were."""
    layouts = {
        "plain": lambda b: b,
        "bool": lambda b: b.astype(bool),
        "uint8": lambda b: b.astype(np.uint8),
        "int32": lambda b: b.astype(np.int32),
        "strided": lambda b: np.repeat(np.repeat(b, 2, 1), 2, 2)[:, ::2, ::2],
        "fortran": lambda b: np.asfortranarray(b),
        "reversed": lambda b: np.ascontiguousarray(b[:, ::-1, ::-1])[:, ::-1, ::-1],
    }
    for k, board in enumerate(pool()):
        want = wanted(board[None])[0]
        for fixed in (False, True):
            for stm in (-1.0, 1.0):
                for kind in (np.float32, np.int8, np.int64):
                    for name, layout in layouts.items():
                        given = layout(board if fixed or stm < 0 else board[::-1])
                        data = {"board_input": given, "stm_input": np.array([stm], dtype=kind), "other": [1, 2],
                                "board_size": np.array(board.shape[1:], dtype=np.int8)}
                        before = {"board_input": given.copy(), "stm_input": data["stm_input"].copy()}
                        out = pipeline(fixed)(data)
                        ctx.step()
                        ctx.state("pipeline", k, fixed, stm, str(kind), name)
                        info = {"case": (k, fixed, stm, str(kind), name)}
                        ctx.equal(np.asarray(out["forbidden_point"]).tolist(), want.tolist(), "map of one position", **info)
                        ctx.check("forbidden_point" not in data, "the input dictionary is changed", **info)
                        ctx.check(np.array_equal(given, before["board_input"]) and
                                  np.array_equal(data["stm_input"], before["stm_input"]), "the input arrays are changed", **info)
                        ctx.check(out["board_input"] is given or np.array_equal(out["board_input"], given), "another field is changed", **info)
                        ctx.equal(sorted(out), sorted([*data, "forbidden_point"]), "fields of the result", **info)
    ctx.trace()


def histories(ctx):
    """Every batch of up to three positions from a pool, and every order of calls on one pipeline."""
    boards = pool()[:7]
    want = wanted(np.stack(boards))
    one = pipeline(True)
    other = pipeline(False)
    for n in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
        for order in itertools.product(range(len(boards)), repeat=n):
            given = np.stack([boards[i] for i in order])
            stm = np.where(np.arange(n)[:, None] % 2 == 0, -1, 1).astype(np.float32)
            out = one.process_batch({"board_input": given, "stm_input": stm})["forbidden_point"]
            ctx.check(np.array_equal(out, want[list(order)]), "a map depends on its batch", order=order)
            flipped = np.stack([b if s < 0 else b[::-1] for b, s in zip(given, stm[:, 0])])
            out = other.process_batch({"board_input": flipped, "stm_input": stm})["forbidden_point"]
            ctx.check(np.array_equal(out, want[list(order)]), "a map depends on its batch", order=order, side="to move")
            for i in order:
                got = one({"board_input": boards[i], "stm_input": stm[0]})["forbidden_point"]
                ctx.check(np.array_equal(got, want[i]), "a map depends on earlier calls", order=order)
            ctx.step(3)
            ctx.state("history", order)
    ctx.trace()


def datasets(ctx):
    """Through the datasets, with planes of the board's size and with padded planes."""
    size = 9
    games = []
    for name in sorted(SHAPES):
        for cy, cx in ((4, 4), (0, 4), (4, 8), (8, 0), (6, 6)):
            black = [(cx + x, cy + y) for y, x in SHAPES[name] if 0 <= cy + y < size and 0 <= cx + x < size]
            free = [(x, y) for y in range(size) for x in range(size) if (x, y) not in black and (x + 2 * y) % 5 == 0 and (x, y) != (cx, cy)]
            for extra in (0, 1):
                line = []
                for k, b in enumerate(black):
                    line.append(b)
                    if k < len(black) - extra:
                        line.append(free[k])
                games.append(line)
    root = ctx.mkdir()
    path = F._write(os.path.join(root, "a.bin"), b"".join(F.simple_entry(1, size, "renju", (0, 0), g) for g in games))
    packed = F._write(os.path.join(root, "a.binpack"), b"".join(
        F.packed_entry(size, "renju", 1, g, [[((8, 8), 5)]], tag=k) for k, g in enumerate(games)))
    want = []
    for g in games:
        b = np.zeros((1, 2, size, size), dtype=np.int8)
        for k, (x, y) in enumerate(g):
            b[0, k % 2, y, x] = 1
        want.append(wanted(b)[0])
    planes = np.zeros((len(games), 2, size, size), dtype=np.int8)  # own stones first
    side = np.array([1 if len(g) % 2 else -1 for g in games], dtype=np.float32)
    for r, g in enumerate(games):
        for k, (x, y) in enumerate(g):
            planes[r, (k % 2) ^ (side[r] > 0), y, x] = 1
    npz = os.path.join(root, "a.npz")
    np.savez(npz, bf=planes, gf=side[:, None], vt=np.eye(3, dtype=np.float32)[np.arange(len(games)) % 3],
             pt=np.eye(size * size + 1, dtype=np.float32)[np.arange(len(games)) % 80])
    for kind, file in (("simple_binary", path), ("packed_binary", packed), ("processed_katago_numpy", npz),
                       ("batched_processed_katago_numpy", npz)):
        for fixed_side in (False, True):
            for target in (None, (9, 9), (12, 15)):
                for batch in (1, 4):
                    spec = (kind, [file], {"boardsizes": [(size, size)], "rules": ["renju"]})
                    opts = {"fixed_side_input": fixed_side}
                    if target:
                        opts["fixed_board_size"] = target
                    if kind.endswith("binary"):
                        opts["sequential_active_streams"] = 1
                    ds = F.build(spec, F.context(batch, mode="validate"), shuffle=False,
                                 pipeline_args={"forbidden_point": {"fixed_side_input": fixed_side}}, **opts)
                    rows = []
                    for e in F.epoch(ds, "validate"):
                        ctx.step()
                        rows += [np.asarray(r) for r, ok in zip(e.data["forbidden_point"], F.mask_of(e)) if ok]
                    F.close(ds)
                    info = {"case": (kind, fixed_side, target, batch)}
                    ctx.equal(len(rows), len(want), "number of positions", **info)
                    h, w = target or (size, size)
                    for k, (a, b) in enumerate(zip(rows, want)):
                        b = np.pad(b, [(0, h - size), (0, w - size)])
                        ctx.check(a.shape == b.shape and np.array_equal(a, b), "map delivered by a dataset", record=k,
                                  got=a.tolist(), want=b.tolist(), **info)
                        ctx.state(*map(str, info["case"]), k)
    ctx.trace()
