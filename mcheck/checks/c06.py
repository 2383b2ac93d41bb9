"""Every rank of every world size up to a bound is executed over several epochs; the rank-local batches of each
step are compared with the batch a single process with the same global batch size plans."""
import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "world sizes 1..4 (6 in the thorough tier), three files of 4..16 records, 2 epochs",
    "ranks run in one process, each with its own dataset object, as the planner shares nothing between ranks",
]
EXACT = ["processed", "processed+mixed", "batched", "batched+mixed", "raw", "sparse", "composite", "composite+mixed"]
MAPS = ["map_processed", "map_raw"]
SHARDED = ["simple", "simple+mixed", "packed", "packed+mixed", "sequential_composite"]


def scenarios(tier):
    deep = tier == "thorough"
    worlds = (2, 3, 4, 5, 6) if deep else (2, 3, 4)
    for kind in EXACT + MAPS:
        for world in worlds:
            for batch in (1, 2, 3) if deep else (1, 2):
                for mode in ("train", "validate", "test"):
                    if kind in MAPS and mode == "train":
                        continue
                    yield "exact", {"kind": kind, "world": world, "batch": batch, "mode": mode, "opts": {}}
                if kind not in MAPS:  # map-style symmetry draws are keyed by rank on purpose
                    yield "exact", {"kind": kind, "world": world, "batch": batch, "mode": "train",
                                    "opts": {"apply_symmetry": True, "shuffle_window_size": 3}}
            if kind not in MAPS:
                for opts in ({"steps_per_epoch": 2}, {"sample_rate": 0.7, "shuffle_window_size": 2}, {"shuffle": False},
                             {"pipelines": True}):
                    yield "exact", {"kind": kind, "world": world, "batch": 1, "mode": "train", "opts": opts}
    for kind in SHARDED:
        for world in worlds[:3]:
            for batch in (1, 2):
                for steps in (1, 3, 7):
                    for window in (1, 4):
                        yield "sharded", {"kind": kind, "world": world, "batch": batch, "steps": steps, "window": window}
        yield "sharded_refusals", {"kind": kind}
    yield "settings", {}


def make(kind, root, layout):
    if kind == "sequential_composite":
        import os

        os.makedirs(root, exist_ok=True)
        paths = [F.write_simple(os.path.join(root, f"s{i}.bin"), range(10 * i, 10 * i + n)) for i, n in enumerate(layout)]
        more = [F.write_simple(os.path.join(root, f"t{i}.bin"), range(500 + 10 * i, 500 + 10 * i + n))
                for i, n in enumerate(layout)]
        dd = {"a": {"dataset_type": "simple_binary", "data_paths": paths, "blend_ratio": 2},
              "b": {"dataset_type": "simple_binary", "data_paths": more, "blend_ratio": 1}}
        return "iterative_multi", [], {"boardsizes": [(5, 5)], "dataset_dict": dd, "sync_length": False}
    return F.make(kind, root, layout)


def run(spec, mode, world, rank, batch, opts, epochs):
    opts = dict(opts)
    shuffle = opts.pop("shuffle", mode == "train")
    pipe = {"forbidden_point": {"fixed_side_input": False}} if opts.pop("pipelines", False) else None
    ds = F.build(spec, F.context(batch, world=world, rank=rank, mode=mode), shuffle=shuffle, pipeline_args=pipe, **opts)
    out = []
    for _ in range(epochs):
        for env in ds:
            if mode == "train":
                F.commit(ds, env)
            out.append(env)
    F.close(ds)
    return out


def rows(env):
    n = len(env.sample_keys)
    out = []
    for r in range(n):
        out.append(tuple(sorted((k, F.tensor_repr(np.asarray(v)[r] if not isinstance(v, list) else v[r]))
                                for k, v in env.data.items())))
    return out


def exact(ctx, kind, world, batch, mode, opts):
    size = max(5, 2 * world * batch)
    spec = F.make(kind, ctx.mkdir("data"), (size, size - 1, size - 1))
    epochs = 2 if mode == "train" else 1
    whole = run(spec, mode, 1, 0, batch * world, opts, epochs)
    parts = [run(spec, mode, world, rank, batch, opts, epochs) for rank in range(world)]
    ctx.equal([len(p) for p in parts], [len(whole)] * world, "ranks take different numbers of steps")
    for step, one in enumerate(whole):
        local = [p[step] for p in parts]
        ctx.equal([len(e.sample_keys) for e in local], [batch] * world, "rank-local batches are not equally sized", step=step)
        ctx.equal(sum((tuple(e.sample_keys) for e in local), ()), tuple(one.sample_keys),
                  "rank-local batches are not the split of the global batch", step=step)
        ctx.equal(sum((F.mask_of(e) for e in local), ()), F.mask_of(one), "padding mask is not split alongside", step=step)
        ctx.equal([r for e in local for r in rows(e)], rows(one), "rank-local rows differ from the global rows", step=step)
        if mode == "train":
            ctx.equal({e.token.coordination_descriptor for e in local}, {local[0].token.coordination_descriptor},
                      "ranks present different coordination descriptors", step=step)
        else:
            ctx.equal({(e.token.before_digest, e.token.after_digest) for e in local},
                      {(local[0].token.before_digest, local[0].token.after_digest)}, "ranks present different tokens")
        ctx.equal({(e.token.epoch, e.token.batch_index) for e in local}, {(one.token.epoch, one.token.batch_index)},
                  "ranks are at different positions", step=step)
        ctx.step(world)
        ctx.state(kind, world, batch, mode, repr(opts), step)
    ctx.trace(world + 1)
    if mode == "train":
        keys = [k for e in whole for k in e.sample_keys]
        ctx.tag("rows", len(keys))


def file_of(key):
    """The part of a sequential sample key that identifies the file (everything but the position inside it)."""
    return key[:-1] if key[0] != "composite" else (key[1], file_of(key[2]))


def sharded(ctx, kind, world, batch, steps, window):
    root = ctx.mkdir("data")
    spec = make(kind, root, (4, 3, 2, 3, 4)[: max(3, world)] if world < 4 else (4, 3, 2, 3, 4))
    epochs = 3
    opts = {"steps_per_epoch": steps, "shuffle_window_size": window}
    parts = [run(spec, "train", world, rank, batch, opts, epochs) for rank in range(world)]
    every = run(spec, "train", 1, 0, 1, {"shuffle_window_size": 1}, 1)
    all_files = {file_of(k) for e in every for k in e.sample_keys}
    for rank, part in enumerate(parts):
        ctx.equal([sum(e.token.epoch == ep for e in part) for ep in range(epochs)], [steps] * epochs,
                  "a rank does not yield its step budget in every epoch", rank=rank)
        ctx.check(all(len(e.sample_keys) == batch for e in part), "a rank-local batch is not full", rank=rank)
        ctx.check(all(all(F.mask_of(e)) for e in part), "training rows marked as padding", rank=rank)
    for step in range(steps * epochs):
        ctx.equal({p[step].token.coordination_descriptor for p in parts}, {parts[0][step].token.coordination_descriptor},
                  "ranks present different coordination descriptors", step=step)
        ctx.equal({bool(p[step].token.batch.is_last) for p in parts}, {(step + 1) % steps == 0}, "epoch ends differ", step=step)
    for epoch in range(epochs):
        seen = [{file_of(k) for e in p if e.token.epoch == epoch for k in e.sample_keys} for p in parts]
        for a in range(world):
            for b in range(a):
                ctx.check(not seen[a] & seen[b], "two ranks read the same file", epoch=epoch, ranks=(b, a))
        ctx.check(set().union(*seen) <= all_files, "a rank reads a file outside the dataset")
        if steps * batch >= 80:
            ctx.equal(set().union(*seen), all_files, "a file is read by no rank")
    ctx.state(kind, world, batch, steps, window)
    ctx.trace(world)
    ctx.step(world * steps * epochs)
    # completeness: with a long budget the files of all ranks together are all files
    long = {"steps_per_epoch": 60, "shuffle_window_size": window}
    union, total = set(), 0
    for rank in range(world):
        part = run(spec, "train", world, rank, 1, long, 1)
        keys = [k for e in part for k in e.sample_keys]
        ctx.equal(len(set(keys)), len(keys), "a rank repeats a sample within one cycle numbering", rank=rank)
        mine = {file_of(k) for k in keys}
        ctx.check(not mine & union, "two ranks read the same file", rank=rank)
        union |= mine
    ctx.equal(union, all_files, "a file is read by no rank", world=world)


def sharded_refusals(ctx, kind):
    spec = make(kind, ctx.mkdir("data"), (3, 2))
    for world in (2, 3):
        for rank in range(world):
            for mode in ("validate", "test"):
                ctx.raises(lambda: run(spec, mode, world, rank, 1, {}, 1), "distributed evaluation of a sequential format",
                           mode=mode)
            ctx.raises(lambda: run(spec, "train", world, rank, 1, {}, 1), "distributed training without a step budget")
            if world == 3:
                ctx.raises(lambda: run(spec, "train", world, rank, 1, {"steps_per_epoch": 2}, 1), "more ranks than files")
            ctx.state(kind, world, rank)
            ctx.step(4)
    ctx.trace()


def settings(ctx):
    """Every runtime context up to a bound: accepted exactly when the global batch is world * local and rank fits."""
    from dataset.core import DatasetRuntimeContext

    for total in range(0, 9):
        for local in range(0, 5):
            for world in range(0, 5):
                for rank in range(-1, 5):
                    legal = total > 0 and local > 0 and world > 0 and total == local * world and 0 <= rank < world
                    try:
                        c = DatasetRuntimeContext(total, local, world, rank, 3, "train")
                        ok = True
                    except (ValueError, TypeError):
                        ok = False
                    ctx.equal(ok, legal, "runtime context accepted wrongly", case=(total, local, world, rank))
                    if ok:
                        i = c.rank_local_identity
                        ctx.equal((i.slice_start, i.slice_stop), (rank * local, (rank + 1) * local), "slice of a rank")
                    ctx.step()
                    ctx.state(total, local, world, rank)
    ctx.trace()
