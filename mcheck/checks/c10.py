"""Sequential files: small sets of record files are read under every stream count, quantum, order, cycle and rank; cut at
every byte, interrupted after every record and with every file operation failing, while every opened file is kept in view."""
import contextlib
import copy
import gc
import io
import itertools
import os
import shutil

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "up to four files of up to three entries (thorough: four), games of up to three positions, one to four active streams, quanta 1 to 3; "
    "the interleaving itself is not fixed beyond being the same for the same seed, epoch and files",
    "after an error or an abandoned epoch the stream may hold the files of its rewound position until it is closed",
    "an .lz4 file cut down to no bytes at all may be refused or count as an empty file",
]
KINDS = ("simple", "simple_lz4", "packed", "packed_lz4", "toy")


def scenarios(tier):
    deep = tier == "thorough"
    for kind in KINDS:
        for files in (1, 2, 3, 4):
            yield "orders", {"kind": kind, "files": files, "top": (3 if deep else 2) if files > 2 else 4 if deep else 3, "deep": deep}
        for shuffle in (False, True):
            yield "truncated", {"kind": kind, "shuffle": shuffle, "actives": (1, 2, 3) if deep else (1, 2)}
        yield "failing", {"kind": kind}
        yield "positions", {"kind": kind, "deep": deep}
        yield "ranks", {"kind": kind, "deep": deep}
        if kind != "toy":
            for shuffle in (False, True):
                for mode in ("train", "test"):
                    yield "stack", {"kind": kind, "shuffle": shuffle, "mode": mode, "deep": deep}
            yield "stack_errors", {"kind": kind}
    yield "aliases", {}
    yield "frames", {}


# ------------------------------------------------------------------ files and sources
class Watch:
    """Keeps every file opened under root alive, so that only closing it releases it."""

    def __init__(self, root):
        self.root, self.kept, self.fail, self.calls = os.path.realpath(root), [], None, 0

    def open(self, original, file, *args, **kwargs):
        inside = isinstance(file, (str, os.PathLike)) and os.path.realpath(file).startswith(self.root + os.sep)
        if inside:
            self.calls += 1
            if self.fail is not None and self.calls == self.fail:
                raise OSError(5, "Input/output error", os.fspath(file))
        out = original(file, *args, **kwargs)
        if inside:
            self.kept.append(out)
        return out

    def count(self):
        n = 0
        for fd in os.listdir("/proc/self/fd"):
            try:
                n += os.readlink("/proc/self/fd/" + fd).split(" (deleted)")[0].startswith(self.root + os.sep)
            except OSError:
                pass
        return n

    def drop(self):
        for f in self.kept:
            f.close()
        self.kept.clear()
        self.fail, self.calls = None, 0


@contextlib.contextmanager
def watching(root):
    import builtins

    w = Watch(root)
    was, was_io = builtins.open, io.open
    builtins.open = lambda *a, **k: w.open(was, *a, **k)
    io.open = builtins.open
    try:
        yield w
    finally:
        builtins.open, io.open = was, was_io
        w.drop()


def entry_of(kind, e):
    """(bytes, [record numbers]) of entry number e; some entries are of another board size, some games are empty."""
    skipped = e % 5 == 3
    size = 6 if skipped else 5
    if kind.startswith("simple"):
        line = F.position_of(e, e % 4, size)
        return F.simple_entry(e % 3, size, "freestyle", (e % size, (e // size) % size), line), [] if skipped else [None]
    n = (1, 3, 0, 1, 2)[e % 5]
    line = F.position_of(e, 1 + n, size)
    groups = [[(line[k + 1], 10 * e + k)] for k in range(n)]
    return F.packed_entry(size, "freestyle", e % 3, line[:1], groups, tag=e), [] if skipped else list(range(n))


SUFFIX = {"simple": ".bin", "simple_lz4": ".lz4", "packed": ".binpack", "packed_lz4": ".lz4", "toy": ".binpack"}


def write(kind, root, lengths, start=0):
    """[(path, [(entry bytes, records)])]"""
    out, e = [], start
    os.makedirs(root, exist_ok=True)
    for i, n in enumerate(lengths):
        path = os.path.join(root, f"f{i}{SUFFIX[kind]}")
        entries = [entry_of(kind, e + k) for k in range(n)]
        e += n
        F._write(path, b"".join(b for b, _ in entries))
        os.utime(path, (1_700_000_000, 1_700_000_000))
        out.append((path, entries))
    return out


def options(kind, active, quantum):
    out = {"boardsizes": 5, "sequential_active_streams": active, "sequential_read_quantum": quantum}
    return ("packed_binary" if kind.startswith("packed") else "simple_binary"), out


class Source:
    """A record source together with what has to be released."""

    def __init__(self, kind, paths, active=2, quantum=1, shuffle=False, seed=3, world=1, rank=0, rate=1.0, sharded=None):
        if kind == "toy":
            from dataset import packed_binary as P
            from dataset.sequential_source import InterleavedSequentialSource

            self.dataset = None
            self.source = InterleavedSequentialSource(
                paths, format_id="toy", schema_version=1, seed=seed, shuffle=shuffle, sample_rate=rate, active_streams=active,
                read_quantum=quantum, output_shapes={(5, 5)}, open_file=lambda p: open(p, "rb"), read_entry=P.read_entry,
                shape_of=lambda e: (5, 5) if e.boardsize == 5 else None,
                subrecord_count=lambda e: len(e.moves),
                materialize_entry=lambda e, key, epoch, sub: {"board_size": np.array([5, 5], np.int8), "board_input": np.zeros((2, 5, 5), np.int8),
                                                              "stm_input": np.array([-1], np.float32),
                                                              "value_target": np.array([e.gametag, sub, 0], np.float32), "policy_target": np.zeros((5, 5), np.float32)},
            )
            if world > 1:
                self.source.configure_distributed(world, rank, rank_sharded=True)
        else:
            name, opts = options(kind, active, quantum)
            if world > 1:
                opts["steps_per_epoch"] = 4
            if rate != 1.0:
                opts["sample_rate"] = rate
            self.dataset = F.build((name, paths, opts), F.context(1, world=world, rank=rank, seed=seed), shuffle=shuffle)
            F.stream(self.dataset)
            self.dataset._partitioned_stream.close()
            self.source = self.dataset._record_source

    def close(self):
        if self.dataset is not None:
            F.close(self.dataset)


def reading(kind, paths, *args, **kwargs):
    return Source(kind, paths, *args, **kwargs)


def wanted(files):
    """{path: [(entry, record or None)]} in each file's own order."""
    return {os.path.realpath(p): [(i, r) for i, (_, records) in enumerate(entries) for r in records] for p, entries in files}


def place(source, envelope, cycle=0):
    """(path, (entry, record)) from the record's key."""
    address = tuple(envelope.record_key[3])
    if cycle:
        if address[0] != cycle:
            return None, address
        address = address[1:]
    path = source.descriptors[envelope.source_id].path
    return path, (address[0], address[1] if len(address) > 1 else None)


def read(ctx, watch, source, cursor, active, limit=None, info=None):
    out = []
    while limit is None or len(out) < limit:
        e, cursor = source.next_envelope(cursor)
        ctx.check(watch.count() <= active, "more files are open than configured", open=watch.count(), **(info or {"active": active}))
        if e is None:
            break
        out.append(e)
    return out, cursor


def judge(ctx, source, got, want, cycle, info):
    per = {p: [] for p in want}
    for e in got:
        path, at = place(source, e, cycle)
        ctx.check(path in per, "a record belongs to no file of the set", key=repr(e.record_key), **info)
        per[path].append(at)
    for p in want:
        ctx.equal(per[p], want[p], "a file is not delivered once, whole and in its own order", which=os.path.basename(p), **info)


def content(ctx, kind, source, got, files, info):
    """The delivered payload is that entry's bytes (seen through the decoded sample)."""
    for e in got:
        path, (entry, record) = place(source, e, len(e.record_key[3]) - (1 if kind.startswith("simple") else 2) and e.record_key[3][0])
        blob = {os.path.realpath(p): entries for p, entries in files}[path][entry][0]
        data = source.materialize_batch([e])
        if kind == "toy":
            tag = int.from_bytes(blob[4:8], "little") & 0x3FFF
            ctx.equal([int(v) for v in np.asarray(data["value_target"])[0][:2]], [tag, record], "a record carries another record's content", **info)
            continue
        board = np.asarray(data["board_input"])[0]
        policy = np.asarray(data["policy_target"])[0]
        if kind.startswith("simple"):
            move = int.from_bytes(blob[2:4], "little") >> 3
            stones, at = (int.from_bytes(blob[:2], "little") >> 2) & 511, (move & 31, move >> 5)
        else:
            head = int.from_bytes(blob[:4], "little")
            init = (head >> 22) & 1023
            stones = init + record
            move = int.from_bytes(blob[8 + 2 * init + 4 * record:][:2], "little") >> 6
            at = (move & 31, (move >> 5) & 31)
        ctx.check(int(board.sum()) == stones and float(policy[at]) > 0.5, "a record carries another record's content", file=os.path.basename(path), entry=entry, record=record, **info)


# ------------------------------------------------------------------ orders
def orders(ctx, kind, files, top, deep):
    every = list(itertools.product(range(top + 1), repeat=files))
    if files == 4:
        every = [x for x in every if sum(x) and (deep or x[0] <= 1)]
    for n, lengths in enumerate(every):
        root = ctx.mkdir("data")
        made = write(kind, root, lengths, start=n % 5)
        paths, want = [p for p, _ in made], wanted(made)
        with watching(root) as watch:
            for active, quantum in itertools.product((1, 2, 3, 4) if deep or files < 4 else (2, 3), (1, 2, 3) if deep or files < 3 else (1, 2)):
                for shuffle in (False, True):
                    info = {"kind": kind, "lengths": lengths, "active": active, "quantum": quantum, "shuffle": shuffle}
                    s = reading(kind, paths, active, quantum, shuffle)
                    firsts = {}
                    for epoch, cycle in ((0, 0), (1, 0), (0, 2), (0, 0)):
                        cursor = s.source.start_cycle(epoch, cycle, 0)
                        got, cursor = read(ctx, watch, s.source, cursor, active, info=info)
                        ctx.equal(watch.count(), 0, "files stay open at the end", **info)
                        judge(ctx, s.source, got, want, cycle, info)
                        keys = [e.record_key for e in got]
                        ctx.equal(keys, firsts.setdefault((epoch, cycle), keys), "the order changes when it is read again", **info)
                        again = s.source.next_envelope(cursor)[0]
                        ctx.check(again is None, "records follow the end", **info)
                        ctx.step(len(got) + 1)
                    if (active, quantum) == (2, 1) and not shuffle:
                        content(ctx, kind, s.source, got, made, info)
                    other = reading(kind, paths, active, quantum, shuffle)
                    got, _ = read(ctx, watch, other.source, other.source.start_cycle(1, 0, 0), active, info=info)
                    ctx.equal([e.record_key for e in got], firsts[1, 0], "the order depends on what was read before", **info)
                    s.close()
                    other.close()
                    ctx.equal(watch.count(), 0, "files stay open after closing", **info)
                    ctx.state(repr(info))
                    watch.drop()
        shutil.rmtree(root)
    ctx.trace()


# ------------------------------------------------------------------ cut files
def truncated(ctx, kind, shuffle, actives):
    root = ctx.mkdir("data")
    lengths = (3, 2, 2)
    made = write(kind, root, lengths)
    paths, want = [p for p, _ in made], wanted(made)
    compressed = SUFFIX[kind] == ".lz4"
    for target, (path, entries) in enumerate(made):
        blob = open(path, "rb").read()
        bounds = list(itertools.accumulate(len(b) for b, _ in entries))
        for cut in range(len(blob)):
            with open(path, "wb") as f:
                f.write(blob[:cut])
            os.utime(path, (1_700_000_000, 1_700_000_000))
            legal = cut == 0 or (not compressed and cut in bounds)
            whole = 0 if compressed and cut == 0 else None if compressed else sum(b <= cut for b in bounds)
            for active, quantum in itertools.product(actives, (1, 2)):
                info = {"kind": kind, "file": os.path.basename(path), "cut": cut, "of": len(blob), "active": active, "quantum": quantum, "shuffle": shuffle}
                with watching(root) as watch:
                    ctx.step()
                    s = reading(kind, paths, active, quantum, shuffle)
                    cursor = s.source.start_epoch(0, 0)
                    got, error = [], None
                    try:
                        while True:
                            e, cursor = s.source.next_envelope(cursor)
                            ctx.check(watch.count() <= active, "more files are open than configured", **info)
                            if e is None:
                                break
                            got.append(e)
                    except Exception as exc:  # noqa: BLE001 - judged below
                        error = exc
                    if legal and not (compressed and error is not None):
                        if error is not None:
                            raise error
                        less = dict(want)
                        less[os.path.realpath(path)] = [x for x in want[os.path.realpath(path)] if x[0] < whole]
                        judge(ctx, s.source, got, less, 0, info)
                        ctx.equal(watch.count(), 0, "files stay open at the end", **info)
                        ctx.tag("shorter")
                    else:
                        ctx.check(error is not None, "a cut file ends silently", delivered=len(got), **info)
                        ctx.check(os.path.basename(path) in str(error), "the error does not name the file", error=f"{type(error).__name__}: {error}", **info)
                        per = {p: [] for p in want}
                        for e in got:
                            p, at = place(s.source, e)
                            per[p].append(at)
                        for p in want:
                            ctx.equal(per[p], want[p][:len(per[p])], "records before the error are not the file's own", file=os.path.basename(p), **{k: v for k, v in info.items() if k != "file"})
                        if whole is not None:
                            have = per[os.path.realpath(path)]
                            ctx.check(all(x[0] < whole for x in have), "a record past the cut is delivered", have=have, **info)
                        error = None
                        s.source.close_cursor(cursor)
                        ctx.equal(watch.count(), 0, "files stay open after an error and closing", **info)
                        ctx.tag("refused")
                    s.close()
                    ctx.state(repr(info))
        with open(path, "wb") as f:
            f.write(blob)
        os.utime(path, (1_700_000_000, 1_700_000_000))
    ctx.trace()


def frames(ctx):
    """Several compressed frames in one file are one sequence of records."""
    import lz4.frame

    for kind in ("simple_lz4", "packed_lz4"):
        for shape in itertools.product((0, 1, 2), repeat=3):
            root = ctx.mkdir("data")
            path = os.path.join(root, "f0.lz4")
            entries = [entry_of(kind, e) for e in range(sum(shape))]
            with open(path, "wb") as f:
                at = 0
                for n in shape:
                    f.write(lz4.frame.compress(b"".join(b for b, _ in entries[at:at + n])))
                    at += n
            with watching(root) as watch:
                s = reading(kind, [path])
                got, _ = read(ctx, watch, s.source, s.source.start_epoch(0, 0), 1)
                judge(ctx, s.source, got, wanted([(path, entries)]), 0, {"kind": kind, "shape": shape})
                ctx.equal(watch.count(), 0, "files stay open at the end", kind=kind, shape=shape)
                s.close()
                ctx.step()
                ctx.state(kind, shape)
            shutil.rmtree(root)
    ctx.trace()


# ------------------------------------------------------------------ failing file operations
def failing(ctx, kind):
    """The n-th opening of a file fails, or the file is gone."""
    root = ctx.mkdir("data")
    made = write(kind, root, (2, 1, 0, 2, 1))
    paths, want = [p for p, _ in made], wanted(made)
    for active, shuffle, nth in itertools.product((1, 2, 3, 5), (False, True), range(1, 8)):
        info = {"kind": kind, "active": active, "shuffle": shuffle, "opening": nth}
        with watching(root) as watch:
            s = reading(kind, paths, active, 1, shuffle)
            watch.drop()
            watch.fail = nth
            cursor, got, error = None, [], None
            try:
                cursor = s.source.start_epoch(0, 0)
                got, cursor = read(ctx, watch, s.source, cursor, active, info=info)
            except OSError as exc:
                error = exc
            ctx.step()
            ctx.check((error is None) == (nth > len(paths)), "a file that cannot be opened passes unnoticed", error=str(error), **info)
            if error is None:
                judge(ctx, s.source, got, want, 0, info)
            else:
                ctx.check(any(os.path.basename(p) in str(error) for p in paths), "the error does not name the file", error=str(error), **info)
            error = None
            if cursor is not None:
                s.source.close_cursor(cursor)
            ctx.equal(watch.count(), 0, "files stay open after a file could not be opened", **info)
            s.close()
            ctx.state(repr(info))
    ctx.trace()


# ------------------------------------------------------------------ positions
def positions(ctx, kind, deep):
    """Stopping after every record: everything is released, and a resumable position continues exactly."""
    from dataset.core import canonical_pipeline_state_bytes, decode_canonical_pipeline_state

    for lengths in ((4, 3), (3, 0, 2), (1, 2, 3, 1)) + (((5, 5, 4), (2, 2, 2, 2, 2)) if deep else ()):
        root = ctx.mkdir("data")
        made = write(kind, root, lengths)
        paths = [p for p, _ in made]
        with watching(root) as watch:
            for active, quantum, shuffle, rate in itertools.product((1, 2, 3), (1, 2, 3), (False, True), (1.0, 0.5)):
                info = {"kind": kind, "lengths": lengths, "active": active, "quantum": quantum, "shuffle": shuffle, "rate": rate}

                def fresh():
                    return reading(kind, paths, active, quantum, shuffle, rate=rate)

                for epoch, cycle in ((0, 0), (1, 3)):
                    s = fresh()
                    full, _ = read(ctx, watch, s.source, s.source.start_cycle(epoch, cycle, 0), active, info=info)
                    keys = [e.record_key for e in full]
                    for stop in range(len(full) + 1):
                        ctx.step()
                        cursor = s.source.start_cycle(epoch, cycle, 0)
                        head, cursor = read(ctx, watch, s.source, cursor, active, limit=stop, info=info)
                        ctx.equal([e.record_key for e in head], keys[:stop], "the order changes", stop=stop, **info)
                        if s.source.capabilities.resumable:
                            state = decode_canonical_pipeline_state(canonical_pipeline_state_bytes(s.source.save_cursor(cursor)))
                            s.source.close_cursor(cursor)
                            ctx.equal(watch.count(), 0, "files stay open after abandonment", stop=stop, **info)
                            other = fresh()
                            at = other.source.restore_cursor(state)
                            ctx.check(watch.count() <= active, "more files are open than configured after restoring", stop=stop, **info)
                            rest, at = read(ctx, watch, other.source, at, active, info=info)
                            ctx.equal([e.record_key for e in head + rest], keys, "records are lost or repeated over save and restore", stop=stop, **info)
                            other.source.close_cursor(at)
                            other.close()
                        else:
                            ctx.raises(lambda: s.source.save_cursor(cursor), "the position of a compressed stream is saved", stop=stop, **info)
                            s.source.close_cursor(cursor)
                        ctx.equal(watch.count(), 0, "files stay open after abandonment", stop=stop, **info)
                        ctx.state(repr(info), epoch, stop)
                    s.close()
                    watch.drop()
        shutil.rmtree(root)
    ctx.trace()


# ------------------------------------------------------------------ ranks
def ranks(ctx, kind, deep):
    for world in (2, 3, 4):
        for lengths in ((3, 1, 2, 2), (1, 1, 1, 1, 4), (0, 3, 0, 2, 1, 2)) + (((2,) * world,) if deep else ()):
            if len(lengths) < world:
                continue
            root = ctx.mkdir("data")
            made = write(kind, root, lengths)
            paths, want = [p for p, _ in made], wanted(made)
            with watching(root) as watch:
                for active, shuffle in itertools.product((1, 2, 3), (False, True)):
                    for epoch, cycle in ((0, 0), (1, 0), (0, 1), (2, 2)):
                        info = {"kind": kind, "lengths": lengths, "world": world, "active": active, "shuffle": shuffle, "epoch": epoch, "cycle": cycle}
                        union = []
                        for rank in range(world):
                            s = reading(kind, paths, active, 1, shuffle, world=world, rank=rank)
                            got, _ = read(ctx, watch, s.source, s.source.start_cycle(epoch, cycle, rank), active, info=info)
                            union += got
                            other, _ = read(ctx, watch, s.source, s.source.start_cycle(epoch + 3, cycle, rank), active, info=info)
                            again, _ = read(ctx, watch, s.source, s.source.start_cycle(epoch, cycle, rank), active, info=info)
                            ctx.equal([e.record_key for e in again], [e.record_key for e in got], "the order depends on what was read before", rank=rank, **info)
                            source = s.source
                            s.close()
                            ctx.step()
                        ctx.equal(watch.count(), 0, "files stay open at the end", **info)
                        judge(ctx, source, union, want, cycle, info)
                        ctx.state(repr(info))
                watch.drop()
            shutil.rmtree(root)
    ctx.trace()


# ------------------------------------------------------------------ through the stream
def batches(ds, mode, watch, ctx, active, limit=None, idle=False):
    out = []
    it = iter(ds)
    try:
        for env in it:
            ctx.check(watch.count() <= active, "more files are open than configured")
            out.append(env)
            if mode == "train" and not idle:
                F.commit(ds, env)
            if limit is not None and len(out) >= limit:
                break
    finally:
        it.close()
    return out


def keys_of(envs):
    return [k for e in envs for k, real in zip(e.sample_keys, F.mask_of(e)) if real]


def stack(ctx, kind, shuffle, mode, deep):
    """Abandonment after every batch: nothing is lost silently, nothing stays open."""
    root = ctx.mkdir("data")
    made = write(kind, root, (5, 3, 4) if not deep else (6, 5, 4, 3))
    paths = [p for p, _ in made]
    for active, quantum, batch, window in itertools.product((1, 2), (1, 2), (1, 2, 3), (2, 64)):
        info = {"kind": kind, "active": active, "quantum": quantum, "batch": batch, "window": window, "shuffle": shuffle, "mode": mode}
        name, opts = options(kind, active, quantum)
        opts["shuffle_window_size"] = window

        def fresh():
            return F.build((name, paths, opts), F.context(batch, mode=mode), shuffle=shuffle)

        with watching(root) as watch:
            ds = fresh()
            full = batches(ds, mode, watch, ctx, active)
            everything = keys_of(full)
            total = sum(len(r) for _, entries in made for _, r in entries)
            ctx.equal((len(set(everything)), len(everything)), (len(everything), total if mode != "train" else total // batch * batch), "an epoch does not deliver every record once", **info)
            second = keys_of(batches(ds, mode, watch, ctx, active))
            ctx.equal(watch.count() if mode != "train" else 0, 0, "files stay open at the end", **info)
            F.close(ds)
            ctx.equal(watch.count(), 0, "files stay open after closing", **info)
            for stop in range(1, len(full) + 1):
                ctx.step()
                ds = fresh()
                head = keys_of(batches(ds, mode, watch, ctx, active, limit=stop))
                ctx.check(watch.count() <= active, "abandonment leaves more files open than configured", stop=stop, **info)
                try:
                    rest = keys_of(batches(ds, mode, watch, ctx, active, idle=stop % 2 == 1))
                except RuntimeError as exc:
                    ctx.check(kind.endswith("lz4"), "an abandoned epoch cannot be continued", error=str(exc), stop=stop, **info)
                    ctx.tag("refused")
                    rest = None
                if rest is not None:
                    ctx.tag("continued")
                    if rest == second[:len(rest)] and stop == len(full):
                        ctx.equal(rest, second, "the epoch after an abandoned one differs", stop=stop, **info)
                    elif stop == len(full) and not rest:
                        pass
                    else:
                        ctx.equal(head + rest, everything, "an abandoned epoch loses or repeats records silently", stop=stop, **info)
                F.close(ds)
                ctx.equal(watch.count(), 0, "files stay open after closing", stop=stop, **info)
                ctx.state(repr(info), stop)
    ctx.trace()


def stack_errors(ctx, kind):
    """A cut file found while an epoch is being delivered."""
    root = ctx.mkdir("data")
    made = write(kind, root, (3, 2, 2))
    paths = [p for p, _ in made]
    for path in paths:
        blob = open(path, "rb").read()
        for cut, active, batch, mode in itertools.product(range(1, len(blob)), (1, 2), (1, 2), ("train", "test")):
            bounds = list(itertools.accumulate(len(b) for b, _ in dict(made)[path]))
            if SUFFIX[kind] != ".lz4" and cut in bounds:
                continue
            info = {"kind": kind, "file": os.path.basename(path), "cut": cut, "active": active, "batch": batch, "mode": mode}
            with open(path, "wb") as f:
                f.write(blob[:cut])
            name, opts = options(kind, active, 1)
            opts["shuffle_window_size"] = 2
            with watching(root) as watch:
                ds = F.build((name, paths, opts), F.context(batch, mode=mode), shuffle=False)
                for attempt in (1, 2):
                    ctx.step()
                    try:
                        got = batches(ds, mode, watch, ctx, active)
                    except Exception as exc:  # noqa: BLE001 - judged
                        if attempt == 1:
                            ctx.check(os.path.basename(path) in str(exc), "the error does not name the file", error=f"{type(exc).__name__}: {exc}", **info)
                    else:
                        ctx.check(False, "an epoch over a cut file ends without an error", attempt=attempt, batches=len(got), **info)
                    ctx.check(watch.count() <= active, "an error leaves more files open than configured", attempt=attempt, **info)
                F.close(ds)
                ctx.equal(watch.count(), 0, "files stay open after closing", **info)
                ctx.state(repr(info))
        with open(path, "wb") as f:
            f.write(blob)
    ctx.trace()


# ------------------------------------------------------------------ one file under two names
def aliases(ctx):
    for kind in ("simple", "packed", "simple_lz4"):
        root = ctx.mkdir("data")
        made = write(kind, root, (2, 1))
        a, b = [p for p, _ in made]
        suffix = SUFFIX[kind]
        soft, hard = os.path.join(root, "soft" + suffix), os.path.join(root, "hard" + suffix)
        os.symlink(a, soft)
        os.link(a, hard)
        dotted = os.path.join(root, ".", os.path.basename(a))
        sub = os.path.join(root, "sub")
        os.symlink(root, sub)
        for other in (a, soft, hard, dotted, os.path.join(sub, os.path.basename(a))):
            for order in ((a, other), (other, b, a), (b, a, other)):
                ctx.step()
                ctx.raises(lambda: reading(kind, list(order)), "one file is read twice under two names", kind=kind, other=os.path.basename(other))
                ctx.state(kind, other, len(order))
        for order in ((a, b), (soft, b), (b, hard)):
            s = reading(kind, list(order))
            got, out = s.source.start_epoch(0, 0), 0
            while s.source.next_envelope(got)[0] is not None:
                out += 1
            ctx.equal(out, sum(len(r) for _, e in made for _, r in e), "a linked file is not read whole", kind=kind)
            s.close()
    ctx.trace()
