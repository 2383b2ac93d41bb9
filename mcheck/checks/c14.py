"""Game-record formats: files holding every combination of head fields, moves, candidate lists and options (up to the
bounds) are written bit by bit and read back through the datasets; every delivered sample is compared with the position
computed from the description of the game."""
import itertools
import math
import os

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "simple entries: every cell as target move, every opening of up to two stones on 4x4, every rule, result and parity, "
    "board sizes 1 to 22; packed games: up to three positions, up to three candidates from eight evaluations and pass",
    "the result of a packed game is the one of the side to move at its first recorded position",
]
RULES = ("freestyle", "standard", "renju")
SWAPPED = [1, 0, 2]


# ------------------------------------------------------------------ reference
def text(move):
    return "pass" if move is None else chr(97 + move[0]) + str(move[1] + 1)


def sample_of(size, rule, line, value, policy, last, opts, extra):
    """Sample of the position after `line` (moves or None for pass); policy maps moves to weights."""
    stm = 1 if len(line) % 2 else -1
    board = np.zeros((2, size, size))
    for k, move in enumerate(line):
        if move is not None:
            own = (k % 2 == 1) == (stm > 0)
            board[0 if own else 1, move[1], move[0]] = 1
    plane = np.zeros((size, size))
    for move, weight in policy.items():
        if move is not None:
            plane[move[1], move[0]] = weight
    value = np.array(value, dtype=float)
    if opts.get("fixed_side_input") and stm > 0:
        board, value = board[::-1], value[SWAPPED]
    target = opts.get("fixed_board_size")
    if target:
        grow = [(0, target[0] - size), (0, target[1] - size)]
        board, plane = np.pad(board, [(0, 0)] + grow), np.pad(plane, grow)
    if opts.get("has_pass_move"):
        plane = np.concatenate([plane.reshape(-1), [policy.get(None, 0)]])
    out = {"board_size": [size, size], "board_input": board, "stm_input": [stm], "value_target": value, "policy_target": plane}
    if not opts.get("drop_extra"):
        out.update({"rule_index": RULES.index(rule), "ply": len(line), "position_string": "".join(map(text, line)),
                    "last_move": [-1, -1] if not line or line[-1] is None else list(line[-1]), **extra})
    return out


def outcome(result):
    return [result == 2, result == 0, result == 1]


def simple_samples(entries, rules, sizes, opts):
    """entries: (result, size, rule, move, line)"""
    for result, size, rule, move, line in entries:
        if rule in rules and (size, size) in sizes:
            yield size, sample_of(size, rule, list(line), outcome(result), {move: 1.0}, None, opts, {})


def winrate(ev, model):
    limit = model.get("eval_mate_threshold", 29000)
    if not model.get("soft_mate_winrate"):
        if ev >= limit:
            return 1.0
        if ev <= -limit:
            return 0.0
    return 1.0 / (1.0 + math.exp(-ev / model.get("scaling_factor", 200)))


def packed_samples(games, rules, sizes, opts):
    """games: (size, rule, result, init, groups) with groups of (move or None, eval or None)"""
    model = opts.get("winrate_model_args") or {}
    lam, temperature = opts.get("value_td_lambda", 0.0), opts.get("multipv_temperature", 0.05)
    for size, rule, result, init, groups in games:
        if rule not in rules or (size, size) not in sizes:
            continue
        line = list(init)
        for k, group in enumerate(groups):
            mine = result if k % 2 == 0 else 2 - result
            value = np.array(outcome(mine), dtype=float)
            best = group[0][1]
            if lam and best is not None:
                win, loss = winrate(best, model), winrate(-best, model)
                soft = np.array([win, loss, max(1 - win - loss, 0)])
                weight = lam * (1 - k / max(len(groups) - 1, 1)) if opts.get("dynamic_value_lambda", True) else lam
                value = value * (1 - weight) + soft * weight
            evals = [e for _, e in group]
            if (len(group) == 1 or not temperature or None in evals
                    or not opts.get("use_mate_multipv") and best >= model.get("eval_mate_threshold", 29000)):
                policy = {group[0][0]: 1.0}
            else:
                rates = [winrate(e, model) for e in evals]
                top = [math.exp((r - max(rates)) / temperature) for r in rates]
                policy = {m: t / sum(top) for (m, _), t in zip(group, top)}
            yield size, sample_of(size, rule, list(line), value, policy, None, opts,
                                  {"raw_eval": float("nan") if best is None else best})
            line.append(group[0][0])


# ------------------------------------------------------------------ delivery
def deliver(ctx, kind, path, opts, rules, sizes, batch):
    """Samples by board size, in delivery order."""
    spec = (kind, [path], {"boardsizes": sorted(sizes), "rules": sorted(rules)})
    ds = F.build(spec, F.context(batch, mode="validate"), shuffle=False, sequential_active_streams=1, **opts)
    out = {}
    for env in F.epoch(ds, "validate"):
        ctx.step()
        for i, ok in enumerate(F.mask_of(env)):
            if ok:
                row = {k: v[i] for k, v in env.data.items()}
                out.setdefault(int(row["board_size"][0]), []).append(row)
    F.close(ds)
    return out


def judge(ctx, got, want, info):
    sizes = {}
    for size, s in want:
        sizes.setdefault(size, []).append(s)
    ctx.equal({k: len(v) for k, v in got.items()}, {k: len(v) for k, v in sizes.items()}, "number of positions", **info)
    for size, samples in sizes.items():
        for n, (a, b) in enumerate(zip(got[size], samples)):
            ctx.trace()
            ctx.equal(sorted(a), sorted(b), "fields of the sample", **info)
            for key, value in b.items():
                if key == "position_string":
                    ctx.equal(a[key], value, "the moves of the position", record=n, **info)
                    continue
                x, y = np.asarray(a[key], dtype=float), np.asarray(value, dtype=float)
                ctx.check(x.shape == y.shape or x.reshape(-1).shape == y.reshape(-1).shape == (1,), "shape of a field",
                          field=key, got=x.shape, want=y.shape, **info)
                ctx.check(np.allclose(x.reshape(y.shape), y, rtol=2e-5, atol=2e-6, equal_nan=True), "a decoded field is wrong",
                          field=key, record=n, size=size, position=b.get("position_string"), got=x.tolist(), want=y.tolist(), **info)


# ------------------------------------------------------------------ scenarios
OPTIONS = [{}, {"fixed_side_input": True}, {"fixed_board_size": (24, 23)}, {"drop_extra": True},
           {"fixed_side_input": True, "fixed_board_size": (22, 22), "drop_extra": True}]
EVALS = [None, 0, 150, -150, 28999, 29000, -29000, 32767, -32768]


def scenarios(tier):
    deep = tier == "thorough"
    for ext in (".bin", ".lz4"):
        for opts in OPTIONS:
            yield "simple_cells", {"ext": ext, "opts": opts, "sizes": list(range(1, 23)) if deep else [1, 2, 4, 15, 22]}
    for opts in ({}, {"fixed_side_input": True}):
        for rule in RULES:
            yield "simple_lines", {"opts": opts, "rule": rule, "size": 4 if deep else 3, "longest": 3 if deep else 2}
    for kind in ("simple", "packed"):
        for ext in (".bin" if kind == "simple" else ".binpack", ".lz4"):
            yield "skipping", {"kind": kind, "ext": ext, "longest": 5 if deep else 4}
    for ext in (".binpack", ".lz4"):
        for opts in OPTIONS + [{"has_pass_move": True}, {"has_pass_move": True, "fixed_board_size": (23, 24)}]:
            yield "packed_cells", {"ext": ext, "opts": opts, "sizes": list(range(2, 23)) if deep else [2, 4, 15, 22]}
    for has_pass in (False, True):
        for use_mate in (False, True):
            for temperature in (0.05, 0.0, 1.0, 0.3) if deep else (0.05, 0.0, 1.0):
                for model in (None, {"scaling_factor": 200, "eval_mate_threshold": 150}, {"soft_mate_winrate": True}):
                    yield "candidates", {"opts": {"has_pass_move": has_pass, "use_mate_multipv": use_mate,
                                                  "multipv_temperature": temperature, "winrate_model_args": model},
                                         "longest": 4 if deep and not model else 3}
    for lam in (0.0, 0.25, 1.0):
        for dynamic in (False, True):
            for model in (None, {"scaling_factor": 50, "eval_mate_threshold": 1000},
                          {"scaling_factor": 400, "eval_mate_threshold": 1200}, {"soft_mate_winrate": True}):
                for side in (False, True):
                    yield "values", {"opts": {"value_td_lambda": lam, "dynamic_value_lambda": dynamic, "winrate_model_args": model,
                                              "fixed_side_input": side}, "longest": 4 if deep else 3}
    for has_pass in (False, True):
        for side in (False, True):
            yield "games", {"opts": {"has_pass_move": has_pass, "fixed_side_input": side}, "longest": 4 if deep else 3}
    for kind in ("simple", "packed"):
        for opts in ({}, {"fixed_side_input": True}):
            yield "lengths", {"kind": kind, "opts": opts}
    yield "damaged", {}


def simple_cells(ctx, ext, opts, sizes):
    """Every cell as target move and as last stone, for every head field."""
    entries = []
    for size in sizes:
        for cell in range(size * size):
            move = (cell % size, cell // size)
            other = [(c % size, c // size) for c in range(size * size) if c != cell][: cell % 4]
            line = tuple(other) + ((move,) if cell % 2 else ())
            target = (size - 1 - move[0], move[1])
            entries.append((cell % 3, size, RULES[(cell // 3) % 3], target, line))
    path = F._write(os.path.join(ctx.mkdir(), "a" + ext), b"".join(F.simple_entry(*e) for e in entries))
    keep = {(s, s) for s in sizes}
    opts = {k: tuple(v) if isinstance(v, list) else v for k, v in opts.items()}
    for rules in (RULES, ("renju",)):
        for batch in (1, 5) if len(sizes) < 6 else (5,):
            judge(ctx, deliver(ctx, "simple_binary", path, opts, rules, keep, batch),
                  simple_samples(entries, rules, keep, opts), {"case": (ext, opts, rules, batch)})
    for e in entries:
        ctx.state(ext, repr(opts), e)


def simple_lines(ctx, opts, rule, size, longest):
    cells = [(x, y) for y in range(size) for x in range(size)]
    entries = []
    for n in range(longest + 1):
        for line in itertools.permutations(cells, n):
            free = [c for c in cells if c not in line]
            for result in range(3):
                for move in free[:: 1 if n < 2 else 5]:
                    entries.append((result, size, rule, move, line))
    path = F._write(os.path.join(ctx.mkdir(), "a.bin"), b"".join(F.simple_entry(*e) for e in entries))
    judge(ctx, deliver(ctx, "simple_binary", path, opts, (rule,), {(size, size)}, 32),
          simple_samples(entries, (rule,), {(size, size)}, opts), {"case": ("lines", rule, opts)})
    for e in entries:
        ctx.state(repr(opts), e)


def skipping(ctx, kind, ext, longest):
    """Entries of another rule or board size, in every arrangement, do not disturb their neighbours."""
    root = ctx.mkdir()
    makers = {"kept": (4, "standard"), "other": (5, "standard"), "rule": (4, "renju"), "size": (6, "standard"), "both": (7, "freestyle")}
    for n in range(1, longest + 1):
        for plan in itertools.product(makers, repeat=n):
            if not {"kept", "other"} & set(plan):
                continue
            entries, blob = [], b""
            for k, name in enumerate(plan):
                size, rule = makers[name]
                if kind == "simple":
                    e = (k % 3, size, rule, (k % 3, 1), tuple(F.position_of(k, (k + n) % 4, size)))
                    blob += F.simple_entry(*e)
                else:
                    line = F.position_of(k + 1, 4, size)
                    groups = [[(m, 5 * k + j)] for j, m in enumerate(line[: (k + n) % 3])]
                    e = (size, rule, k % 3, tuple(F.position_of(k + 9, k % 3, size)), groups)
                    blob += F.packed_entry(*e, tag=k)
                entries.append(e)
            path = F._write(os.path.join(root, "a" + ext), blob)
            want = list((simple_samples if kind == "simple" else packed_samples)(
                entries, ("standard",), {(4, 4), (5, 5)}, {}))
            if not want:
                continue
            got = deliver(ctx, kind + "_binary", path, {}, ("standard",), {(4, 4), (5, 5)}, 1 + n % 3)
            judge(ctx, got, want, {"case": (kind, ext, plan)})
            ctx.state(kind, ext, plan)


def write_games(ctx, games, ext=".binpack"):
    return F._write(os.path.join(ctx.mkdir(), "a" + ext), b"".join(F.packed_entry(*g, tag=n % 5000) for n, g in enumerate(games)))


def packed_cells(ctx, ext, opts, sizes):
    games = []
    for size in sizes:
        for cell in range(size * size):
            move = (cell % size, cell // size)
            others = [(c % size, c // size) for c in range(size * size) if c != cell][:3]
            init = tuple(others[: cell % 3]) + ((move,) if cell % 2 else ())
            groups = [[((size - 1 - move[0], move[1]), cell)], [(others[-1], None if cell % 4 else -cell), (others[0], 7)]]
            games.append((size, RULES[(cell // 3) % 3], cell % 3, init, groups))
    path = write_games(ctx, games, ext)
    keep = {(s, s) for s in sizes}
    opts = {k: tuple(v) if isinstance(v, list) else v for k, v in opts.items()}
    for rules in (RULES, ("standard",)):
        judge(ctx, deliver(ctx, "packed_binary", path, opts, rules, keep, 5), packed_samples(games, rules, keep, opts),
              {"case": (ext, opts, rules)})
    for g in games:
        ctx.state(ext, repr(opts), repr(g))


def candidates(ctx, opts, longest):
    """Every candidate list: evaluations and pass in every place."""
    games = []
    cells = [(0, 1), (3, 0), (2, 2), (1, 3)]
    for n in range(1, longest + 1):
        for evals in itertools.product(EVALS, repeat=n):
            if n > 2 and len(set(evals)) < 2 and evals[0] not in (0, None):
                continue
            for passing in [None] + list(range(n)):
                if n == longest and longest > 2 and passing is not None and passing != n - 1 and passing != 0:
                    continue
                group = [(None if k == passing else cells[k], e) for k, e in enumerate(evals)]
                games.append((4, "freestyle", len(games) % 3, cells[3:] if len(games) % 2 and n < 4 else (), [group]))
    path = write_games(ctx, games)
    judge(ctx, deliver(ctx, "packed_binary", path, opts, ("freestyle",), {(4, 4)}, 64),
          packed_samples(games, ("freestyle",), {(4, 4)}, opts), {"case": ("candidates", opts)})
    for g in games:
        ctx.state(repr(opts), repr(g))


def values(ctx, opts, longest):
    """Result, evaluation and stage of the game."""
    games = []
    line = [(0, 0), (1, 0), (2, 0), (3, 0)]
    for n in range(1, longest + 1):
        for evals in itertools.product([None, 0, 150, -1200, 29000, -29000], repeat=n):
            for result in range(3):
                games.append((4, "renju", result, ((3, 3),) if (len(games) // 3) % 2 else (), [[(line[k], e)] for k, e in enumerate(evals)]))
    path = write_games(ctx, games)
    judge(ctx, deliver(ctx, "packed_binary", path, opts, ("renju",), {(4, 4)}, 64),
          packed_samples(games, ("renju",), {(4, 4)}, opts), {"case": ("values", opts)})
    for g in games:
        ctx.state(repr(opts), repr(g))


def games(ctx, opts, longest):
    """Every line of moves and passes, with every candidate-group length."""
    cells = [(0, 0), (1, 2), (2, 1)]
    out = []
    for n in range(1, longest + 1):
        for line in itertools.product(cells + [None], repeat=n):
            real = [m for m in line if m is not None]
            if len(set(real)) < len(real):
                continue
            for lengths in itertools.product((1, 2, 3), repeat=n) if n < 4 else [(1,) * n, (2,) * n, (3, 1) * (n // 2)]:
                for init in ((), ((2, 2),), ((2, 2), (0, 2))):
                    if n > 2 and len(init) == 1:
                        continue
                    groups = []
                    for k, m in enumerate(line):
                        more = [((1, 1), 40), (None, -30)] if m is not None else [((1, 1), 40), ((0, 1), -30)]
                        groups.append([(m, 10 * k)] + more[: lengths[k] - 1])
                    out.append((3, RULES[len(out) % 3], len(out) % 3, init, groups))
    path = write_games(ctx, out)
    judge(ctx, deliver(ctx, "packed_binary", path, opts, RULES, {(3, 3)}, 64),
          packed_samples(out, RULES, {(3, 3)}, opts), {"case": ("games", opts)})
    for g in out:
        ctx.state(repr(opts), repr(g))


def lengths(ctx, kind, opts):
    """Lengths around every power of two a head field can hold, each followed by a short entry."""
    size, keep = 22, {(22, 22)}
    cells = [((3 * k + k // 22) % 22, k // 22) for k in range(484)]
    counts = sorted({c for p in range(1, 9) for c in (2**p - 1, 2**p, 2**p + 1)} | {300, 361, 480})
    if kind == "simple":
        entries = []
        for k, n in enumerate(counts):
            for m in (n, 2):
                entries.append((k % 3, size, RULES[k % 3], cells[-1 - k], tuple(cells[k:k + m][:470])))
        path = F._write(os.path.join(ctx.mkdir(), "a.bin"), b"".join(F.simple_entry(*e) for e in entries))
        want = simple_samples(entries, RULES, keep, opts)
    else:
        entries = []
        for k, n in enumerate(counts):
            entries.append((size, RULES[k % 3], k % 3, tuple(cells[:n][:470]), [[(cells[-1], 3)], [(cells[-2], -4)]]))
            if n < 130 or n == 361:
                entries.append((size, RULES[k % 3], k % 3, tuple(cells[-3:]), [[(c, k + j)] for j, c in enumerate(cells[:n])]))
            group = [(cells[j], 7 * j) for j in range(n)]
            entries.append((size, RULES[k % 3], 0, (), [group, [(cells[-1], None)]]))
        for rows in (40, 129, 253)[: 3 if ctx.thorough else 2]:  # many candidates for many moves
            entries.append((size, "renju", 2, (), [[(cells[k], k)] + [(c, -k) for c in cells[260:]] for k in range(rows)]))
        path = write_games(ctx, entries)
        want = packed_samples(entries, RULES, keep, opts)
    judge(ctx, deliver(ctx, kind + "_binary", path, opts, RULES, keep, 7), want, {"case": ("lengths", kind, opts)})
    for e in entries:
        ctx.state(kind, repr(opts), len(e[3]), len(e[4]))


def damaged(ctx):
    """Entries that encode no game are errors, not samples."""
    root = ctx.mkdir()
    good = F.packed_entry(4, "renju", 1, [], [[((0, 0), 5)], [((1, 1), 6)]])
    bad = {"a group without a first move": bytearray(good), "an unknown result": bytearray(good), "an unknown rule": bytearray(good)}
    bad["a group without a first move"][-4] &= 0xFE
    bad["an unknown result"][1] |= 0x0F
    bad["an unknown rule"][0] |= 0x60
    for name, blob in bad.items():
        for batch in (1, 2):
            path = F._write(os.path.join(root, "a.binpack"), bytes(blob))
            ctx.raises(lambda: deliver(ctx, "packed_binary", path, {}, RULES, {(4, 4)}, batch), f"{name} is accepted")
    entry = bytearray(F.simple_entry(1, 4, "renju", (0, 0), []))
    for name, at, bits in (("an unknown result", 0, 3), ("an unknown rule", 2, 7)):
        e = bytearray(entry)
        e[at] |= bits
        path = F._write(os.path.join(root, "a.bin"), bytes(e))
        ctx.raises(lambda: deliver(ctx, "simple_binary", path, {}, RULES, {(4, 4)}, 1), f"{name} is accepted")
    ctx.trace()
