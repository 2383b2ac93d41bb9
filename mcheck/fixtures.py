"""Tiny data files of every supported format, written by independent encoders, and a consumer that iterates
a dataset the way the trainer does (batch, then commit its token)."""
import hashlib
import os
import struct

import numpy as np

RULE = {"freestyle": 0, "standard": 1, "renju": 4}
LOSS, DRAW, WIN = 0, 1, 2


# --------------------------------------------------------------------------- encoders
def write_processed(path, ids, size=(5, 5), channels=2, pt="flat", gf=True, compress=False, vt_channels=3, gf_channels=1):
    """Processed npz; every row carries its id in vt[:, 0] (as id / 1024) and in the board."""
    ids = list(ids)
    n, (h, w) = len(ids), size
    bf = np.zeros((n, channels, h, w), dtype=np.int8)
    vt = np.zeros((n, vt_channels), dtype=np.float32)
    stm = np.zeros((n, gf_channels), dtype=np.float32)
    pol = np.zeros((n, h * w + 1), dtype=np.float32)
    for r, i in enumerate(ids):
        for c in range(channels):
            cell = (i * 7 + 3 * c + 1) % (h * w)
            bf[r, c, cell // w, cell % w] = 1
            bf[r, c, 0, (i + c) % w] = 1
        vt[r] = [i / 1024.0 + k * 0.125 for k in range(vt_channels)]
        stm[r] = [1 if (i + k) % 3 == 0 else -1 for k in range(gf_channels)]
        pol[r, (i * 5 + 2) % (h * w)] = 0.5
        pol[r, -1] = 0.25 + i / 4096.0
    arrays = {"bf": bf, "vt": vt}
    if gf:
        arrays["gf"] = stm
    if pt == "flat":
        arrays["pt"] = pol
    elif pt == "plane":
        arrays["pt"] = pol[:, :-1].reshape(n, h, w)
    (np.savez_compressed if compress else np.savez)(path, **arrays)
    return path


def pack_planes(planes):
    """(N, F, S, S) 0/1 -> (N, F, bytes), big-endian bits."""
    n, f, h, w = planes.shape
    return np.packbits(planes.reshape(n, f, h * w).astype(np.uint8), axis=2, bitorder="big")


def write_raw(path, ids, size=5, board=None, komi=False, compress=False):
    """Raw KataGo npz; vt[:, 0] = id / 1024.  `board(i)` gives the logical (H, W) of row i."""
    ids = list(ids)
    n, s = len(ids), size
    planes = np.zeros((n, 3, s, s), dtype=np.uint8)
    pol = np.zeros((n, 2, s * s + 1), dtype=np.int16)
    tg = np.zeros((n, 8), dtype=np.float32)
    g = np.zeros((n, 7 if komi else 1), dtype=np.float32)
    for r, i in enumerate(ids):
        h, w = board(i) if board else (s, s)
        planes[r, 0, :h, :w] = 1
        planes[r, 1, i % h, (i // h) % w] = 1
        planes[r, 2, (i + 1) % h, (i // 2) % w] = 1
        cell = ((i * 3 + 1) % h) * s + (i * 5) % w
        pol[r, 0, cell] = 3 + i % 5
        pol[r, 0, -1] = 1
        tg[r] = [i / 1024.0, 0.25, 0.5, 0, 0.125 + i / 1024.0, 0.25, 0.375, 0]
        g[r, 5 if komi else 0] = 1 if i % 3 == 0 else -1
    (np.savez_compressed if compress else np.savez)(
        path, binaryInputNCHWPacked=pack_planes(planes), globalInputNC=g, globalTargetsNC=tg, policyTargetsNCMove=pol
    )
    return path


def write_sparse(path, ids, size=5):
    ids = list(ids)
    n, s = len(ids), size
    planes = np.zeros((n, 3, s, s), dtype=np.uint8)
    pol = np.zeros((n, 1, s * s), dtype=np.int16)
    tg = np.zeros((n, 3), dtype=np.float32)
    g = np.zeros((n, 1), dtype=np.float32)
    u8 = np.zeros((n, 8, s * s), dtype=np.uint8)
    u16 = np.zeros((n, 4, s * s), dtype=np.uint16)
    for r, i in enumerate(ids):
        planes[r, 0] = 1
        planes[r, 1, i % s, (i // s) % s] = 1
        planes[r, 2, (i + 1) % s, (i // 2) % s] = 1
        pol[r, 0, (i * 3 + 1) % (s * s)] = 2
        tg[r] = [i / 1024.0, 0.25, 0.5]
        g[r] = 1 if i % 3 == 0 else -1
        cells = np.arange(s * s)
        for c in range(8):
            u8[r, c] = (cells * 3 + c * 11 + i) % 251
        for c in range(4):
            u16[r, c] = cells * 17 + c * 1001 + i
    np.savez(
        path, binaryInputNCHWPacked=pack_planes(planes), globalInputNC=g, globalTargetsNC=tg, policyTargetsNCHW=pol,
        sparseInputNCHWU8=u8, sparseInputNCHWU16=u16,
        sparseInputDim=np.array([251] * 8 + [65535] * 4, dtype=np.uint32),
    )
    return path


def _le(value, size):
    return int(value).to_bytes(size, "little")


def simple_entry(result, size, rule, move, position):
    """4-byte head (result:2 ply:9 boardsize:5 | rule:3 move:13), then the moves.  Moves are (x, y)."""
    ply = len(position)
    low = result | (ply << 2) | (size << 11)
    high = RULE[rule] | (((move[0] << 5) | move[1]) << 3)
    return _le(low, 2) + _le(high, 2) + b"".join(_le((x << 5) | y, 2) for x, y in position)


def packed_entry(size, rule, result, init, groups, total_ply=None, tag=0):
    """8-byte head, the opening, then move groups: [[(move or None for pass, eval or None), ...], ...]."""
    count = sum(len(g) for g in groups)
    total = len(init) + len(groups) if total_ply is None else total_ply
    low = size | (RULE[rule] << 5) | (result << 8) | (total << 12) | (len(init) << 22)
    high = tag | (count << 14)
    out = [_le(low, 4), _le(high, 4)]
    out += [_le((x << 5) | y, 2) for x, y in init]
    for group in groups:
        for k, (move, ev) in enumerate(group):
            bits = (1 if k == 0 else 0) | ((1 if k == len(group) - 1 else 0) << 1)
            bits |= (1 if ev is None else 0) << 2
            if move is None:
                bits |= 1 << 3
            else:
                bits |= ((move[0] << 5) | move[1]) << 6
            out.append(_le(bits, 2) + struct.pack("<h", 0 if ev is None else ev))
    return b"".join(out)


def position_of(i, length, size):
    """A legal opening whose content depends on i."""
    cells = [((i + 3 * k) % size, (i // size + k) % size) for k in range(size * size)]
    out = []
    for c in cells:
        if len(out) == length:
            break
        if c not in out:
            out.append(c)
    return out


def _write(path, blob):
    if str(path).endswith("lz4"):
        import lz4.frame

        with lz4.frame.open(path, "wb") as f:
            f.write(blob)
    else:
        with open(path, "wb") as f:
            f.write(blob)
    os.utime(path, (1_700_000_000, 1_700_000_000))  # record keys depend on it
    return path


def simple_blob(ids, size=5, rule="freestyle"):
    """One entry per id; the id is recoverable from (ply, move)."""
    out = []
    for i in ids:
        sz = size(i) if callable(size) else size
        rl = rule(i) if callable(rule) else rule
        out.append(simple_entry(i % 3, sz, rl, (i % sz, (i // sz) % sz), position_of(i, i % 4, sz)))
    return out


def write_simple(path, ids, size=5, rule="freestyle"):
    return _write(path, b"".join(simple_blob(ids, size, rule)))


def packed_blob(games, size=5, rule="freestyle"):
    """games: list of (id, number of positions)."""
    out = []
    for i, n in games:
        sz = size(i) if callable(size) else size
        rl = rule(i) if callable(rule) else rule
        line = position_of(i, (i % 2) + n + 1, sz)
        init, moves = line[: i % 2], line[i % 2:]
        groups = []
        for k in range(n):
            group = [(moves[k], 10 * i + k)]
            if (i + k) % 3 == 2 and k + 1 < len(moves):
                group.append((moves[k + 1], 10 * i + k - 40))
            groups.append(group)
        out.append(packed_entry(sz, rl, i % 3, init, groups, tag=i))
    return out


def write_packed(path, games, size=5, rule="freestyle"):
    return _write(path, b"".join(packed_blob(games, size, rule)))


# --------------------------------------------------------------------------- dataset kinds
def make(kind, root, layout="small"):
    """Write the files of one dataset kind; returns (dataset_type, data_paths, options).

    kind = base name optionally followed by '+mixed' (two board sizes).  layout is a tuple of rows per file."""
    if layout == "small":
        layout = (4, 3)
    base, _, variant = kind.partition("+")
    mixed = variant == "mixed"
    os.makedirs(root, exist_ok=True)
    paths, start = [], 0
    for f, n in enumerate(layout):
        ids = range(start, start + n)
        start += n
        size = 6 if mixed and f % 2 else 5
        stem = os.path.join(root, f"f{f}")
        if base in ("processed", "map_processed", "batched"):
            paths.append(write_processed(stem + ".npz", ids, (size, size)))
        elif base in ("raw", "map_raw"):
            if mixed:  # both sizes inside one packed array
                paths.append(write_raw(stem + ".npz", ids, 6, board=lambda i: (6, 6) if i % 2 else (5, 5)))
            else:
                paths.append(write_raw(stem + ".npz", ids, 5))
        elif base == "sparse":
            paths.append(write_sparse(stem + ".npz", ids, size))
        elif base == "simple":
            paths.append(write_simple(stem + ".bin", ids, (lambda i: 6 if i % 3 == 1 else 5) if mixed else 5))
        elif base == "simple_lz4":
            paths.append(write_simple(stem + ".lz4", ids, (lambda i: 6 if i % 3 == 1 else 5) if mixed else 5))
        elif base == "packed":
            games = [(i, 1 + i % 3) for i in ids]
            paths.append(write_packed(stem + ".binpack", games, (lambda i: 6 if i % 3 == 1 else 5) if mixed else 5))
        elif base == "composite":
            paths.append(None)
        else:
            raise KeyError(base)
    types = {
        "processed": "iterative_processed_katago_numpy", "batched": "batched_processed_katago_numpy",
        "map_processed": "processed_katago_numpy", "raw": "iterative_katago_numpy", "map_raw": "katago_numpy",
        "sparse": "iterative_sparse_numpy", "simple": "simple_binary", "simple_lz4": "simple_binary",
        "packed": "packed_binary",
    }
    options = {"boardsizes": [(5, 5), (6, 6)] if mixed else [(5, 5)]}
    if base == "batched":
        options.update(prefetch_threads=0, pin_memory=False)
    if base == "composite":
        a = write_processed(os.path.join(root, "a.npz"), range(0, layout[0] + 2), (6, 6) if mixed else (5, 5))
        b = write_processed(os.path.join(root, "b.npz"), range(100, 100 + layout[1]))
        c = write_processed(os.path.join(root, "c.npz"), range(200, 200 + layout[-1] + 1))
        dd = {
            "first": {"dataset_type": "iterative_processed_katago_numpy", "data_paths": [a], "blend_ratio": 2},
            "second": {"dataset_type": "iterative_processed_katago_numpy", "data_paths": [b, c], "blend_ratio": 1},
        }
        options["dataset_dict"] = dd
        return "iterative_multi", [], options
    return types[base], paths, options


SEQUENTIAL = ("simple", "packed", "simple_lz4")


def context(batch, world=1, rank=0, seed=3, mode="train"):
    from dataset.core import DatasetRuntimeContext

    return DatasetRuntimeContext(batch * world, batch, world, rank, seed, mode)


def build(spec, ctx, shuffle=True, pipeline_args=None, **options):
    from dataset import build_dataset

    dataset_type, paths, base = spec
    merged = {**base, **options}
    return build_dataset(
        dataset_type, list(paths), runtime_context=ctx, shuffle=shuffle, pipeline_args=pipeline_args, **merged
    )


# --------------------------------------------------------------------------- observation
def tensor_repr(value):
    import torch

    if isinstance(value, torch.Tensor):
        value = value.detach().cpu().numpy()
    if isinstance(value, np.ndarray):
        if value.dtype.kind == "O":
            return ("O", value.shape, repr(value.tolist()))
        return (str(value.dtype), value.shape, hashlib.sha1(np.ascontiguousarray(value).tobytes()).hexdigest()[:12])
    if isinstance(value, (list, tuple)):
        return tuple(tensor_repr(v) for v in value)
    if isinstance(value, np.generic):
        return (str(value.dtype), value.item())
    return repr(value)


def data_repr(data):
    return tuple(sorted((k, tensor_repr(v)) for k, v in data.items()))


def mask_of(env):
    return tuple(bool(v) for v in np.asarray(env.is_real))


def batch_repr(env):
    """Everything a consumer can observe of one batch (token identity excepted)."""
    return (
        env.token.epoch, env.token.batch_index, bool(env.token.batch.is_last),
        mask_of(env), tuple(env.sample_keys), data_repr(env.data),
    )


def stream(ds):
    if getattr(ds, "_partitioned_stream", None) is None:
        ds._build_partitioned_stream()
    return ds._partitioned_stream


def commit(ds, *envs):
    s = stream(ds)
    s.commit_prepared(s.prepare_commit([e.token for e in envs]))


def epoch(ds, mode="train", limit=None):
    """One pass, committing every batch as the trainer does."""
    out = []
    for env in ds:
        out.append(env)
        if mode == "train":
            commit(ds, env)
        if limit is not None and len(out) >= limit:
            break
    return out


def ids_of(env):
    """Row ids of a batch of an npz kind (value target channel 0 holds id / 1024)."""
    return [int(round(float(v) * 1024)) for v in np.asarray(env.data["value_target"])[:, 0]]


def close(ds):
    s = getattr(ds, "_partitioned_stream", None)
    if s is not None:
        s.close()


def register_pipelines():
    """A batch pipeline with state (running checksum and count), and a second one depending on rng keys."""
    from dataset.core import FieldSpec, PreparedPipelineResult
    from dataset.pipeline import PIPELINES, BasePipeline

    if "mcheck_counter" in PIPELINES:
        return

    @PIPELINES.register("mcheck_counter")
    class Counter(BasePipeline):
        pipeline_id = "mcheck_counter"
        schema_version = 1
        input_fields = (FieldSpec("value_target", True, "per_sample", None, None, "stack", ("f",), "plain"),)
        output_fields = (FieldSpec("mcheck_count", True, "per_sample", None, None, "stack", ("i",), "plain"),)

        def __init__(self, salt=0):
            super().__init__()
            self.salt = salt

        def signature_state(self):
            return {"salt": self.salt}

        def initial_state(self):
            return {"count": 0, "sum": 0}

        def process(self, data):
            raise AssertionError("not used")

        def process_batch(self, data, *, sample_keys=None, rng_keys=None):
            raise AssertionError("not used")

        def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
            h = hashlib.sha256(repr((self.salt, current_state["sum"], sample_keys, rng_keys)).encode()).digest()
            n = len(sample_keys)
            out = dict(data)
            out["mcheck_count"] = (
                np.full(n, current_state["sum"] % 1000003, dtype=np.int64) + np.arange(n) + current_state["count"]
            )
            nxt = {"count": current_state["count"] + n, "sum": int.from_bytes(h[:6], "little")}
            return PreparedPipelineResult(out, nxt)

    @PIPELINES.register("mcheck_second")
    class Second(BasePipeline):
        pipeline_id = "mcheck_second"
        schema_version = 1
        input_fields = (FieldSpec("mcheck_count", True, "per_sample", None, None, "stack", ("i",), "plain"),)
        output_fields = (FieldSpec("mcheck_derived", True, "per_sample", None, None, "stack", ("i",), "plain"),)

        def signature_state(self):
            return {}

        def initial_state(self):
            return [0]

        def process(self, data):
            raise AssertionError("not used")

        def process_batch(self, data, *, sample_keys=None, rng_keys=None):
            raise AssertionError("not used")

        def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
            out = dict(data)
            out["mcheck_derived"] = np.asarray(data["mcheck_count"]) * 2 + current_state[0]
            return PreparedPipelineResult(out, [current_state[0] + 1])
