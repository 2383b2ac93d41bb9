"""Evaluation passes: every dataset kind, batch size, number of ranks and filter within the bound is executed and the
rows marked real are compared with the records an independent reading of the written files expects."""
import os

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "files of 1..9 records, three files per dataset, two board sizes, every batch size from 1 to records + 1, 1..3 ranks",
    "ranks run in one process, each with its own dataset object",
]
NPZ = ["processed", "processed+mixed", "batched", "batched+mixed", "raw", "raw+mixed", "sparse", "map_processed",
       "map_raw", "map_raw+mixed"]
SEQ = ["simple", "simple_lz4", "packed"]
LAYOUTS = [(4, 3, 2), (1, 1, 1), (2, 5, 0), (3, 3, 3)]


def npz_filters(base):
    vt = {"processed": "vt", "batched": "vt", "map_processed": "vt"}.get(base, "globalTargetsNC")
    stm = {"processed": "gf", "batched": "gf", "map_processed": "gf"}.get(base, "globalInputNC")
    black = lambda i: i % 3 == 0
    yield "none", {}, lambda i: True
    yield "stm+1", {"filter_stm": 1}, black
    yield "stm-1", {"filter_stm": -1}, lambda i: not black(i)
    yield "low", {"filter_condition": f"{vt}[:, 0] < {3.5 / 1024}"}, lambda i: i < 3.5
    yield "both", {"filter_stm": -1, "filter_condition": f"({vt}[:, 0] > {0.5 / 1024}) & ({stm}[:, 0] < 0)"}, \
        lambda i: not black(i) and i > 0.5
    yield "one", {"filter_condition": f"{vt}[:, 0] == {4 / 1024}"}, lambda i: i == 4


def scenarios(tier):
    deep = tier == "thorough"
    worlds = (1, 2, 3, 4) if deep else (1, 2, 3)
    layouts = LAYOUTS + [(9, 1, 4), (1, 6, 6)] if deep else LAYOUTS[:3]
    for kind in NPZ:
        base, _, variant = kind.partition("+")
        for layout in layouts:
            for name, _, _ in npz_filters(base):
                if kind == "sparse" and name != "none":
                    continue
                for sizes in ("all", "5", "6") if variant else ("all",):
                    for mode in ("validate", "test"):
                        if mode == "test" and name != "none" and not deep:
                            continue
                        yield "npz", {"kind": kind, "layout": layout, "filt": name, "sizes": sizes, "worlds": worlds,
                                      "mode": mode}
    for kind in SEQ:
        for layout in layouts:
            for rules in (["freestyle", "standard", "renju"], ["standard"], ["freestyle", "renju"]):
                for sizes in ([5, 6], [5], [6]):
                    for mode in ("validate", "test"):
                        yield "sequential", {"kind": kind, "layout": layout, "rules": rules, "sizes": sizes, "mode": mode}
    for layout in layouts:
        for sync in (True, False):
            yield "composite", {"layout": layout, "sync": sync, "worlds": worlds}
    for kind in ("processed", "batched", "raw", "sparse", "simple", "packed"):
        yield "duplicates", {"kind": kind}
    yield "composite_duplicates", {}


def passes(spec, opts, mode, world, batch, loader=False, count=2):
    """Two passes of every rank: passes[p] is a list over steps of lists over ranks."""
    per_rank = []
    for rank in range(world):
        ds = F.build(spec, F.context(batch, world=world, rank=rank, mode=mode), shuffle=False, **opts)
        mine = []
        for _ in range(count):
            if loader:
                from utils.training_utils import build_data_loader

                mine.append(list(build_data_loader(ds, batch, shuffle=False, num_workers=0, drop_last=False,
                                                   batch_by_boardsize=True)))
            else:
                mine.append(list(ds))
        per_rank.append(mine)
        F.close(ds)
    return per_rank


def examine(ctx, per_rank, world, batch, row_id, expected, where):
    for p in range(len(per_rank[0])):
        lists = [per_rank[r][p] for r in range(world)]
        ctx.equal(len({len(x) for x in lists}), 1, "ranks evaluate different numbers of batches", **where)
        got, padded = [], {}
        for step in range(len(lists[0])):
            mask, ids, rows, sizes = [], [], [], set()
            for rank in range(world):
                env = lists[rank][step]
                n = len(env.sample_keys)
                ctx.equal(n, batch, "an evaluation batch is not full", **where)
                for k, v in env.data.items():
                    ctx.equal(len(v), batch, "a field has another length than the batch", field=k, **where)
                ctx.equal(np.asarray(env.is_real).shape, (batch,), "mask shape", **where)
                mask += F.mask_of(env)
                ids += row_id(env)
                sizes |= {tuple(int(x) for x in s) for s in np.asarray(env.data["board_size"])}
                for r in range(n):
                    rows.append(tuple(sorted((k, F.tensor_repr(np.asarray(v)[r])) for k, v in env.data.items())))
            ctx.equal(len(sizes), 1, "a batch mixes board sizes", seen=sizes, **where)
            real = sum(mask)
            ctx.check(real > 0 and mask == [True] * real + [False] * (len(mask) - real),
                      "padding is not at the tail of a batch", mask=mask, **where)
            if real < len(mask):
                shape = min(sizes)
                ctx.check(shape not in padded, "a board size is padded twice", **where)
                padded[shape] = True
                for r in range(real, len(mask)):
                    ctx.check(rows[r] in rows[:real], "a padding row is not a copy of a real row of its batch", **where)
            got += [(min(sizes), i) for i, m in zip(ids, mask) if m]
            ctx.step()
        ctx.equal(sorted(got), sorted(expected), "real rows are not exactly the expected records", **where)
    ctx.state(repr(where), len(expected))
    ctx.trace(world)


def npz(ctx, kind, layout, filt, sizes, worlds, mode):
    base, _, variant = kind.partition("+")
    layout = [n for n in layout if n or base != "sparse"]
    layout = [n for n in layout if n]
    spec = F.make(kind, ctx.mkdir("data"), layout)
    opts, keep = next((o, f) for name, o, f in npz_filters(base) if name == filt)
    opts = dict(opts)
    expected, start, barren = [], 0, False
    for f, n in enumerate(layout):
        before = len(expected)
        for i in range(start, start + n):
            size = (6 if f % 2 else 5) if variant else 5
            if "raw" in kind and variant:
                size = 6 if i % 2 else 5
            if keep(i) and (sizes == "all" or size == int(sizes)):
                expected.append(((size, size), i))
        start += n
        barren |= len(expected) == before
    if sizes != "all":
        opts["boardsizes"] = [(int(sizes), int(sizes))]
    if base.startswith("map_"):
        opts.pop("shuffle_window_size", None)
    where = {"kind": kind, "layout": layout, "filter": filt, "sizes": sizes, "mode": mode}
    if not expected:
        for world in worlds:
            for rank in range(world):
                try:
                    out = list(F.build(spec, F.context(1, world=world, rank=rank, mode=mode), shuffle=False, **opts))
                except (ValueError, RuntimeError):
                    out = []
                ctx.equal(out, [], "batches out of an empty selection", **where)
        ctx.tag("empty selection")
        return
    for world in worlds:
        for batch in range(1, len(expected) + 2):
            if world * batch > len(expected) + world:
                continue
            try:
                per_rank = passes(spec, opts, mode, world, batch, loader=(batch % 2 == 0 and not base.startswith("map_")))
            except ValueError:
                if not (barren and base in ("raw", "sparse")):  # a raw file without a single match is refused by name
                    raise
                ctx.tag("raw file without a match refused")
                continue
            examine(ctx, per_rank, world, batch, F.ids_of, expected, {**where, "world": world, "batch": batch})


def sequential(ctx, kind, layout, rules, sizes, mode):
    root = ctx.mkdir("data")
    rule_of = lambda i: ["freestyle", "standard", "renju"][(i // 2) % 3]
    size_of = lambda i: 6 if i % 3 == 1 else 5
    paths, expected, start = [], [], 0
    for f, n in enumerate(layout):
        ids = range(start, start + n)
        start += n
        if kind == "packed":
            games = [(i, 1 + i % 3) for i in ids]
            paths.append(F.write_packed(os.path.join(root, f"f{f}.binpack"), games, size_of, rule_of))
        else:
            ext = "lz4" if kind == "simple_lz4" else "bin"
            paths.append(F.write_simple(os.path.join(root, f"f{f}.{ext}"), ids, size_of, rule_of))
        for i in ids:
            if rule_of(i) in rules and size_of(i) in sizes:
                for k in range(1 + i % 3) if kind == "packed" else (None,):
                    s = size_of(i)
                    expected.append(((s, s), ident(kind, i, k, s)))
    spec = ("packed_binary" if kind == "packed" else "simple_binary", paths, {})
    opts = {"rules": rules, "boardsizes": [(s, s) for s in sizes]}
    where = {"kind": kind, "layout": layout, "rules": rules, "sizes": sizes, "mode": mode}

    def row_id(env):
        ply = np.asarray(env.data["ply"]).reshape(len(env.sample_keys))
        board = np.asarray(env.data["board_input"])
        return [(int(p), tuple(np.flatnonzero(b.sum(0)).tolist())) for p, b in zip(ply, board)]

    if not expected:
        try:
            out = list(F.build(spec, F.context(1, mode=mode), shuffle=False, **opts))
        except (ValueError, RuntimeError):
            out = []
        ctx.equal(out, [], "batches out of an empty selection")
        ctx.tag("empty selection")
        return
    for batch in range(1, len(expected) + 2):
        for streams in (1, 2):
            o = {**opts, "sequential_active_streams": streams, "sequential_read_quantum": 1 + batch % 2}
            per_rank = passes(spec, o, mode, 1, batch, loader=batch % 2 == 0)
            examine(ctx, per_rank, 1, batch, row_id, expected, {**where, "batch": batch, "streams": streams})
            keys = [k for env in per_rank[0][0] for k, m in zip(env.sample_keys, F.mask_of(env)) if m]
            ctx.equal(len(set(keys)), len(keys), "two records share a sample key", **where)


def ident(kind, i, k, s):
    """(ply, occupied cells) of a record, from the encoder's inputs."""
    if kind == "packed":
        n = 1 + i % 3
        line = F.position_of(i, (i % 2) + n + 1, s)
        ply = i % 2 + k
    else:
        ply = i % 4
        line = F.position_of(i, ply, s)
    return ply, tuple(sorted(y * s + x for x, y in line[:ply]))


def composite(ctx, layout, sync, worlds):
    layout = [max(1, n) for n in layout]
    spec = F.make("composite+mixed", ctx.mkdir("data"), layout)
    a = [((6, 6), i) for i in range(0, layout[0] + 2)]
    bc = [((5, 5), i) for i in range(100, 100 + layout[1])] + [((5, 5), i) for i in range(200, 200 + layout[-1] + 1)]
    if sync:
        cycles = min(len(a) // 2, len(bc))
        a, bc = a[: 2 * cycles], bc[:cycles]
    expected = a + bc
    for world in worlds:
        for batch in (1, 2, 3, 5):
            per_rank = passes(spec, {"sync_length": sync}, "validate", world, batch)
            examine(ctx, per_rank, world, batch, F.ids_of, expected,
                    {"kind": "composite", "layout": layout, "sync": sync, "world": world, "batch": batch})


def duplicates(ctx, kind):
    root = ctx.mkdir("data")
    kind_type, paths, base = F.make(kind, root, (3, 2))
    ext = os.path.splitext(paths[0])[1]
    sym = os.path.join(root, "alias" + ext)
    os.symlink(paths[0], sym)
    sub = os.path.join(root, "sub")
    os.makedirs(sub)
    hard = os.path.join(root, "hard" + ext)
    os.link(paths[0], hard)
    linked = os.path.join(root, "linked")
    os.symlink(root, linked)
    rel = os.path.join(sub, "..", os.path.basename(paths[0]))
    for mode in ("validate", "test", "train"):
        for label, bad in (("same path", paths + [paths[0]]), ("symlink", paths + [sym]), ("dotted path", [rel] + paths),
                           ("hard link", [hard] + paths), ("linked directory", paths + [os.path.join(linked, os.path.basename(paths[1]))])):
            def go():
                ds = F.build((kind_type, bad, base), F.context(1, mode=mode), shuffle=False)
                return len(list(ds))

            ctx.raises(go, "a file given twice", how=label, kind=kind, mode=mode)
            ctx.step()
            ctx.state(kind, mode, label)
    ctx.trace()


def composite_duplicates(ctx):
    root = ctx.mkdir("data")
    a = F.write_processed(os.path.join(root, "a.npz"), range(3))
    b = F.write_processed(os.path.join(root, "b.npz"), range(10, 13))
    alias = os.path.join(root, "alias.npz")
    os.symlink(a, alias)
    for second in ([b, a], [alias], [os.path.join(root, ".", "a.npz")]):
        for mode in ("validate", "train"):
            dd = {"x": {"dataset_type": "iterative_processed_katago_numpy", "data_paths": [a], "blend_ratio": 1},
                  "y": {"dataset_type": "iterative_processed_katago_numpy", "data_paths": second, "blend_ratio": 1}}

            def go():
                return len(list(F.build(("iterative_multi", [], {"boardsizes": [(5, 5)], "dataset_dict": dd}),
                                        F.context(1, mode=mode), shuffle=False)))

            ctx.raises(go, "a file shared by two children", second=second, mode=mode)
            ctx.step()
            ctx.state(mode, tuple(second))
    ctx.trace()
