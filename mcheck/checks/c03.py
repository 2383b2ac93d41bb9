"""For every resumable dataset kind and setting in a bounded grid: run the stream to a fixed horizon of several
epochs, then, for EVERY committed position and every look-ahead of produced but uncommitted batches, drop the
dataset, rebuild it from the same files, restore the serialized state and compare the whole remaining stream
with the uninterrupted one."""
import io
import os
import pickle

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "files of 7..11 records on boards of 5x5 and 6x6 (and one layout of 37 records); 2..3 epochs; look-ahead of 0..2 uncommitted batches",
    "the planner's source read-ahead (SOURCE_CHUNK_SIZE) is set to 1, 2, 3 and its default",
]
KINDS = ["processed", "batched", "raw", "sparse", "simple", "packed", "composite",
         "processed+mixed", "batched+mixed", "simple+mixed", "packed+mixed", "composite+mixed"]


def scenarios(tier):
    deep = tier == "thorough"
    layouts = [(4, 3), (5, 1, 3)] + ([(1, 6), (2, 3, 2, 4)] if deep else [])
    for kind in KINDS:
        for chunk in (3, None):
            for window in (1, 8) if deep else (8,):
                yield "resume", {"kind": kind, "layout": (17, 9, 11), "batch": 4, "chunk": chunk, "epochs": 2,
                                 "opts": {"shuffle": True, "shuffle_window_size": window, "apply_symmetry": True}}
        for layout in layouts:
            for batch in ((1, 2, 3) if deep else (1, 2)):
                for chunk in ((1, 2, 3, 5, None) if deep else (1, 2, None)):
                    for opts in (
                        {"shuffle": False},
                        {"shuffle": True, "shuffle_window_size": 3},
                        {"shuffle": True, "shuffle_window_size": 2, "steps_per_epoch": 2, "apply_symmetry": True},
                        {"shuffle": True, "shuffle_window_size": 4, "sample_rate": 0.75, "pipelines": True},
                    ):
                        yield "resume", {"kind": kind, "layout": layout, "batch": batch, "chunk": chunk, "opts": opts}
            yield "resume", {"kind": kind, "layout": layout, "batch": 1, "chunk": 2, "epochs": 2,
                             "opts": {"shuffle": True, "shuffle_window_size": 5, "pipelines": True, "steps_per_epoch": 4}}
            yield "resume", {"kind": kind, "layout": layout, "batch": 3, "chunk": 1, "epochs": 2,
                             "opts": {"shuffle": True, "shuffle_buffer_bytes": 700, "shuffle_window_size": 6}}
            if kind.partition("+")[0] in F.SEQUENTIAL:
                for active, quantum in ((1, 1), (2, 1), (2, 2), (1, 3)):
                    yield "resume", {"kind": kind, "layout": (3, 2, 2), "batch": 2, "chunk": 2, "epochs": 2,
                                     "opts": {"shuffle": True, "shuffle_window_size": 2,
                                              "sequential_active_streams": active, "sequential_read_quantum": quantum}}
            if kind.partition("+")[0] == "composite":
                yield "resume", {"kind": kind, "layout": layout, "batch": 2, "chunk": 2, "epochs": 2,
                                 "opts": {"shuffle": True, "shuffle_window_size": 3, "sync_length": False}}
            if kind.partition("+")[0] == "batched":
                for workers, depth in ((1, 1), (1, 3), (2, 4)):
                    yield "resume", {"kind": kind, "layout": layout, "batch": 2, "chunk": 2,
                                     "opts": {"shuffle": True, "shuffle_window_size": 3,
                                              "prefetch_threads": workers, "prefetch_batches": depth}}
            for world in (2, 3):
                opts = {"shuffle": True, "shuffle_window_size": 3}
                for steps in ((1, 2, 3, 5, 7) if deep else (3, 5)):
                    yield "ranks", {"kind": kind, "layout": (4, 3, 3), "batch": 1, "world": world,
                                    "opts": {**opts, "steps_per_epoch": steps}}
    yield "many_shapes", {}


class Setup:
    def __init__(self, ctx, kind, layout, batch, chunk, opts, world=1, rank=0, seed=3, spec=None):
        from dataset import planner

        planner.SOURCE_CHUNK_SIZE = chunk or 1024
        F.register_pipelines()
        opts = dict(opts)
        self.shuffle = opts.pop("shuffle")
        self.pipe = {"mcheck_counter": {"salt": 5}, "mcheck_second": {}} if opts.pop("pipelines", False) else None
        self.opts = opts
        self.spec = spec or F.make(kind, ctx.mkdir("data"), tuple(layout))
        self.context = F.context(batch, world=world, rank=rank, seed=seed)

    def new(self):
        return F.build(self.spec, self.context, shuffle=self.shuffle, pipeline_args=self.pipe, **self.opts)


def drive(ds, epochs, lag=0, on_commit=None):
    """Consume whole epochs until the epoch counter reaches `epochs`; a batch is committed `lag` batches late."""
    out = []
    s = F.stream(ds)
    while s.committed_epoch < epochs:
        pending = []
        last = False
        for env in ds:
            pending.append(env)
            out.append(F.batch_repr(env))
            last = bool(env.token.batch.is_last)
            while len(pending) > lag:
                F.commit(ds, pending.pop(0))
                if on_commit:
                    on_commit(s)
        if not last:
            raise AssertionError("epoch ended without a last batch")
        while pending:
            F.commit(ds, pending.pop(0))
            if on_commit:
                on_commit(s)
        if env.token.epoch + 1 >= epochs:
            break
    return out


def serialized(state, how, ctx):
    if how == "pickle":
        return pickle.loads(pickle.dumps(state))
    if how == "torch":
        import torch

        f = io.BytesIO()
        torch.save(state, f)
        f.seek(0)
        return torch.load(f, weights_only=False)
    from utils.file_utils import load_torch_ckpt, save_torch_ckpt

    path = os.path.join(ctx.mkdir("ckpt"), "state.pth")
    save_torch_ckpt(path, {"w": 1}, {"stream": state}, {"epoch": "1"})
    return load_torch_ckpt(path)[1]["stream"]


def resume(ctx, kind, layout, batch, chunk, opts, epochs=3):
    setup = Setup(ctx, kind, layout, batch, chunk, opts)
    ds = setup.new()
    states = [F.stream(ds).state_dict()]
    try:
        ref = drive(ds, epochs, 0, lambda s: states.append(s.state_dict()))
    except RuntimeError as exc:
        if ctx.thorough and "produced no global batch" in str(exc):
            ctx.tag("no full batch")
            return
        raise
    F.close(ds)
    n = len(ref)
    frozen = [pickle.dumps(s) for s in states]
    ctx.check(n >= epochs and len(states) == n + 1, "reference run produced too little", n=n)
    ctx.tag("batches", n)
    # taking states and holding look-ahead batches must not change the stream nor the committed state
    for lag in (0, 1, 2):
        seen = []
        ds = setup.new()
        got = drive(ds, epochs, lag, (lambda s: seen.append(pickle.dumps(s.state_dict()))) if lag else None)
        F.close(ds)
        ctx.step(n)
        ctx.equal(got, ref, "stream depends on look-ahead or on taking states", lag=lag)
        if lag:
            for k, s in enumerate(seen):
                ctx.check(pickle.loads(s) == states[k + 1], "uncommitted batches leak into the committed state",
                          lag=lag, position=k + 1)
    ctx.check(all(pickle.loads(f) == s for f, s in zip(frozen, states)), "a taken state was modified later")
    for k in range(n):
        ctx.state(kind, str(layout), batch, chunk, repr(opts), k)
        state = serialized(pickle.loads(frozen[k]), ("pickle", "torch", "file")[k % 3], ctx)
        ds = setup.new()
        F.stream(ds).load_state_dict(state)
        ctx.equal(F.stream(ds).state_dict(), states[k], "restored state differs from the saved one", position=k)
        later = []
        got = drive(ds, epochs, 0, lambda s: later.append(s.state_dict()))
        F.close(ds)
        ctx.step(n - k)
        ctx.trace()
        diff = next((i for i, (a, b) in enumerate(zip(got, ref[k:])) if a != b), None)
        ctx.check(got == ref[k:], "resumed stream differs from the uninterrupted one", position=k,
                  first_difference=diff, got=repr(got[diff] if diff is not None else len(got))[:900],
                  expected=repr(ref[k + diff] if diff is not None else n - k)[:900])
        ctx.check(later == states[k + 1:], "states after resuming differ from the uninterrupted ones", position=k)
        # a crash with produced but uncommitted batches: restore the state taken while they were outstanding
        for ahead in (1, 2):
            ds = setup.new()
            F.stream(ds).load_state_dict(pickle.loads(frozen[k]))
            it = iter(ds)
            held = []
            for env in it:
                held.append(env)
                if len(held) == ahead:
                    break
            if held[-1].token.epoch != F.stream(ds).committed_epoch:
                ctx.check(False, "look-ahead left the committed epoch", position=k)
            crash = F.stream(ds).state_dict()
            expect = states[k]
            if ref[k][1] == 0 and k:  # the first batch of a later epoch: advancing the epoch is already committed
                ctx.check(crash["cursor"]["epoch"] == ref[k][0] and crash["cursor"]["batch_index"] == 0,
                          "state with look-ahead is not at the start of the epoch", position=k)
                other = setup.new()
                F.stream(other).load_state_dict(crash)
                ctx.equal(drive(other, epochs), ref[k:], "crash at an epoch start lost data", position=k)
                F.close(other)
            else:
                ctx.check(crash == expect, "look-ahead changed the committed state", position=k, ahead=ahead)
            it.close()
            F.close(ds)
            ctx.step(ahead)
    # resuming after every single batch
    state = pickle.loads(frozen[0])
    for k in range(n):
        ds = setup.new()
        F.stream(ds).load_state_dict(state)
        env = next(iter(ds))
        ctx.equal(F.batch_repr(env), ref[k], "chain of resumes diverged", position=k)
        F.commit(ds, env)
        state = pickle.loads(pickle.dumps(F.stream(ds).state_dict()))
        F.close(ds)
    ctx.trace()
    ctx.equal(state, states[-1], "chain of resumes ends elsewhere")
    ctx.sample({"positions": n, "ids": [r[4][0] for r in ref[:3]] and len(ref)})


def ranks(ctx, kind, layout, batch, world, opts):
    """Every rank resumes at every position; ranks agree on the coordination state at each position."""
    spec = F.make(kind, ctx.mkdir("data"), tuple(layout))
    epochs = 2
    runs = []
    for rank in range(world):
        setup = Setup(ctx, kind, layout, batch, 2, opts, world, rank, spec=spec)
        ds = setup.new()
        coord = lambda s: s.coordination_state_dict() or s.state_dict()
        states, agreed = [F.stream(ds).state_dict()], [coord(F.stream(ds))]
        ref = drive(ds, epochs, 0, lambda s: (states.append(s.state_dict()), agreed.append(coord(s))))
        F.close(ds)
        runs.append((setup, ref, states, agreed))
    for rank in range(1, world):
        ctx.equal(runs[rank][3], runs[0][3], "ranks disagree on committed progress", rank=rank)
    for rank, (setup, ref, states, _) in enumerate(runs):
        for k in range(len(ref)):
            ctx.state(kind, world, rank, k, repr(opts))
            ds = setup.new()
            F.stream(ds).load_state_dict(pickle.loads(pickle.dumps(states[k])))
            got = drive(ds, epochs)
            F.close(ds)
            ctx.step(len(got))
            ctx.trace()
            ctx.equal(got, ref[k:], "resumed rank differs from the uninterrupted one", rank=rank, position=k)


def many_shapes(ctx):
    """Six board sizes at once: queues of every size survive a resume."""
    root = ctx.mkdir("data")
    paths, start = [], 0
    for size in range(4, 10):
        paths.append(F.write_processed(os.path.join(root, f"s{size}.npz"), range(start, start + 3), (size, size)))
        start += 3
    spec = ("iterative_processed_katago_numpy", paths, {"boardsizes": [(s, s) for s in range(4, 10)]})
    for window in (1, 4, 30):
        for batch in (2, 3):
            opts = {"shuffle": True, "shuffle_window_size": window}
            setup = Setup(ctx, None, (), batch, 3, opts, spec=spec)
            ds = setup.new()
            states = [F.stream(ds).state_dict()]
            ref = drive(ds, 2, 0, lambda s: states.append(s.state_dict()))
            for k in range(len(ref)):
                ctx.state("shapes", window, batch, k)
                ds = setup.new()
                F.stream(ds).load_state_dict(pickle.loads(pickle.dumps(states[k])))
                ctx.equal(drive(ds, 2), ref[k:], "resume with several board sizes differs", position=k)
                ctx.trace()
                ctx.step(len(ref) - k)
