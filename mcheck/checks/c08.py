"""Training epochs: every dataset kind, batch size, shuffle window, step budget and sampling rate within the bound is
run for several epochs on the real code, and each epoch is compared with what the written files allow."""
import os

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "one process; datasets of 5..14 records in up to three files, two board sizes, batch sizes 1..6, three epochs",
]
NPZ = ["processed", "processed+mixed", "batched", "batched+mixed", "raw", "raw+mixed", "sparse", "sparse+mixed"]
SEQ = ["simple", "simple+mixed", "simple_lz4", "packed", "packed+mixed"]
LAYOUTS = [(4, 3, 2), (1, 5), (6,), (5, 4, 5)]


def scenarios(tier):
    deep = tier == "thorough"
    layouts = LAYOUTS + [(2, 2, 2, 2), (7, 1, 1), (9, 5)] if deep else LAYOUTS
    for kind in NPZ + SEQ:
        for layout in layouts:
            for batch in range(1, 7 if deep else 5):
                for shuffle in (True, False):
                    yield "plain", {"kind": kind, "layout": layout, "batch": batch, "shuffle": shuffle}
    for kind in ("processed+mixed", "batched", "batched+mixed", "raw", "sparse", "simple+mixed", "packed"):
        for rate in (0.3, 0.6, 0.85):
            yield "sampled", {"kind": kind, "rate": rate}
    for sync in (True, False):
        for batch in (1, 2, 3):
            for shuffle in (True, False):
                yield "composite", {"sync": sync, "batch": batch, "shuffle": shuffle}
    for kind in NPZ[:5] + SEQ[:1] + ["composite"]:
        yield "reshuffled", {"kind": kind}


def expected_records(kind, layout):
    """{(size): [record ids in file order]}"""
    base, _, mixed = kind.partition("+")
    out, start = {}, 0
    for f, n in enumerate(layout):
        for i in range(start, start + n):
            if base in ("simple", "simple_lz4", "packed"):
                size = 6 if mixed and i % 3 == 1 else 5
            elif base == "raw" and mixed:
                size = 6 if i % 2 else 5
            else:
                size = 6 if mixed and f % 2 else 5
            for k in range(1 + i % 3) if base == "packed" else (None,):
                out.setdefault(size, []).append(identity(base, i, k, size))
        start += n
    return out


def identity(base, i, k, s):
    if base == "packed":
        line = F.position_of(i, (i % 2) + 1 + i % 3 + 1, s)
        ply = i % 2 + k
    elif base in ("simple", "simple_lz4"):
        ply = i % 4
        line = F.position_of(i, ply, s)
    else:
        return i
    return ply, tuple(sorted(y * s + x for x, y in line[:ply]))


def row_ids(kind, env):
    if kind.partition("+")[0] in ("simple", "simple_lz4", "packed"):
        ply = np.asarray(env.data["ply"]).reshape(len(env.sample_keys))
        board = np.asarray(env.data["board_input"])
        return [(int(p), tuple(np.flatnonzero(b.sum(0)).tolist())) for p, b in zip(ply, board)]
    return F.ids_of(env)


def run(spec, batch, shuffle, epochs, **opts):
    ds = F.build(spec, F.context(batch), shuffle=shuffle, **opts)
    out = []
    for _ in range(epochs):
        out.append(F.epoch(ds))
    F.close(ds)
    return out


def well_formed(ctx, epochs, batch, where):
    for e, envs in enumerate(epochs):
        ctx.equal([(x.token.epoch, x.token.batch_index) for x in envs], [(e, i) for i in range(len(envs))],
                  "epoch or batch numbering", **where)
        for env in envs:
            ctx.equal(len(env.sample_keys), batch, "a training batch is not full", **where)
            ctx.check(all(F.mask_of(env)), "a training row is marked as padding", **where)
            sizes = {tuple(int(v) for v in s) for s in np.asarray(env.data["board_size"])}
            ctx.equal(len(sizes), 1, "a batch mixes board sizes", **where)
            for k, v in env.data.items():
                ctx.equal(len(v), batch, "a field has another length than the batch", field=k, **where)
            ctx.step()
        keys = [k for x in envs for k in x.sample_keys]
        ctx.equal(len(set(keys)), len(keys), "a record is delivered twice in one epoch", epoch=e, **where)


def by_size(kind, envs):
    out = {}
    for env in envs:
        size = int(np.asarray(env.data["board_size"])[0][0])
        out.setdefault(size, []).extend(row_ids(kind, env))
    return out


def contained(got, expected):
    rest = list(expected)
    for g in got:
        if g not in rest:
            return False
        rest.remove(g)
    return True


def plain(ctx, kind, layout, batch, shuffle):
    spec = F.make(kind, ctx.mkdir("data"), layout)
    expected = expected_records(kind, layout)
    full = sum(len(v) // batch for v in expected.values())
    windows = (1, 3, 1000) if shuffle else (3,)
    for window in windows:
        for steps in [None] + sorted({1, 2, max(1, full - 1), max(1, full), full + 3}):
            where = {"kind": kind, "layout": layout, "batch": batch, "window": window, "steps": steps, "shuffle": shuffle}
            opts = {"shuffle_window_size": window}
            if steps is not None:
                opts["steps_per_epoch"] = steps
            if full == 0:
                try:
                    got = run(spec, batch, shuffle, 1, **opts)
                except RuntimeError:
                    ctx.tag("refused: not one full batch")
                    continue
                ctx.equal(got, [[]], "batches although no full batch exists", **where)
                continue
            epochs = run(spec, batch, shuffle, 3, **opts)
            well_formed(ctx, epochs, batch, where)
            want = full if steps is None else min(full, steps)
            for e, envs in enumerate(epochs):
                ctx.equal(len(envs), want, "an epoch has another number of batches", epoch=e, **where)
                got = by_size(kind, envs)
                for size, ids in got.items():
                    ctx.check(contained(ids, expected.get(size, [])), "a record is repeated or does not belong to the size",
                              size=size, **where)
                    if not shuffle and kind.partition("+")[0] not in ("simple", "simple_lz4", "packed"):
                        ctx.equal(ids, expected[size][: len(ids)], "unshuffled records are out of file order", **where)
                if want == full:
                    ctx.equal({s: len(v) for s, v in got.items()},
                              {s: len(v) // batch * batch for s, v in expected.items() if len(v) >= batch},
                              "more than the incomplete final batch is withheld", **where)
                last = [bool(x.token.batch.is_last) for x in envs]
                ctx.check(not any(last[:-1]), "a batch before the end is marked last", **where)
                if steps is not None and want == steps:
                    ctx.check(last[-1], "the batch that ends the step budget is not marked last", **where)
            ctx.state(repr(where))
            ctx.trace()
            if not shuffle and kind.partition("+")[0] in ("simple", "packed"):
                # with a single active stream and quantum, file order is the record order
                one = run(spec, batch, False, 1, sequential_active_streams=1, **opts)[0]
                for size, ids in by_size(kind, one).items():
                    ctx.equal(ids, expected[size][: len(ids)], "unshuffled records are out of file order", **where)


def sampled(ctx, kind, rate):
    layout = (9, 8, 7)
    spec = F.make(kind, ctx.mkdir("data"), layout)
    expected = expected_records(kind, layout)
    total = sum(len(v) for v in expected.values())
    ran = 0
    for window in (1, 4):
        for batch in (1, 2):
            where = {"kind": kind, "rate": rate, "batch": batch, "window": window}
            try:
                epochs = run(spec, batch, True, 4, shuffle_window_size=window, sample_rate=rate)
            except RuntimeError as error:
                if "produced no" not in str(error):
                    raise
                ctx.tag("nothing admitted")
                continue
            ran += 1
            well_formed(ctx, epochs, batch, where)
            chosen = []
            for envs in epochs:
                got = by_size(kind, envs)
                for size, ids in got.items():
                    ctx.check(contained(ids, expected[size]), "a sampled record is repeated", **where)
                chosen.append(frozenset(k for x in envs for k in x.sample_keys))
                ctx.check(len(chosen[-1]) <= total, "too many records", **where)
            if batch == 1:
                ctx.check(any(len(c) < total for c in chosen), "the sampling rate withholds nothing", **where)
                ctx.state(kind, rate, window, tuple(sorted(map(len, chosen))))
            ctx.trace()
    ctx.check(ran > 0, "every sampled run was refused")


def composite(ctx, sync, batch, shuffle):
    spec = F.make("composite", ctx.mkdir("data"), (6, 3, 4))
    a, b = list(range(8)), list(range(100, 103)) + list(range(200, 205))
    pairs = min(len(a) // 2, len(b))
    if sync:
        total = 3 * pairs
    else:
        total = len(a) + len(b)
    for window in (1, 4, 1000):
        for steps in (None, 1, total // batch, total // batch + 2):
            opts = {} if steps is None else {"steps_per_epoch": steps}
            epochs = run(spec, batch, shuffle, 3, shuffle_window_size=window, sync_length=sync, **opts)
            where = {"kind": "composite", "sync": sync, "batch": batch, "window": window, "steps": steps, "shuffle": shuffle}
            well_formed(ctx, epochs, batch, where)
            want = total // batch if steps is None else min(steps, total // batch)
            for envs in epochs:
                ctx.equal(len(envs), want, "an epoch has another number of batches", **where)
                ids = [i for x in envs for i in F.ids_of(x)]
                ctx.check(contained(ids, a + b), "a record is repeated or foreign", **where)
                if not shuffle:
                    ctx.equal([i for i in ids if i < 100], a[: sum(i < 100 for i in ids)], "child order", **where)
                    ctx.equal([i for i in ids if i >= 100], b[: sum(i >= 100 for i in ids)], "child order", **where)
            ctx.state(repr(where))
            ctx.trace()


def reshuffled(ctx, kind):
    spec = F.make(kind, ctx.mkdir("data"), (6, 5, 6))
    opts = {"sync_length": False} if kind == "composite" else {}
    for window in (16, 1000):
        epochs = run(spec, 1, True, 4, shuffle_window_size=window, **opts)
        seqs = [tuple(k for x in envs for k in x.sample_keys) for envs in epochs]
        ctx.equal(len(set(seqs)), len(seqs), "two epochs use the same order", kind=kind, window=window)
        ctx.equal(len({frozenset(s) for s in seqs}), 1, "epochs of an unsampled dataset differ in content")
        ctx.state(kind, window)
        again = run(spec, 1, True, 4, shuffle_window_size=window, **opts)
        ctx.equal([tuple(k for x in envs for k in x.sample_keys) for envs in again], seqs, "the order is not reproducible")
        ctx.step(8)
    ctx.trace()
