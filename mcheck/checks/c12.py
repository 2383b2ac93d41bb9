"""Saved stream states: every state of a stream is offered to the stream of every single changed setting, and in every
single-field damaged form to its own stream; each must be refused, or continue exactly the one sequence both agree on."""
import copy
import io
import itertools
import json
import math
import os
import pickle
import shutil
import struct

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "one changed setting or one damaged field at a time; streams of 9 to 14 records over up to two epochs; damage is deletion, a value of "
    "another type, a value out of its range, a list with an entry lost or repeated, or a counter moved away from the fields it is tied to",
    "a change or damage is also accepted when the stream it gives is the same one (a setting that does not matter for these records)",
    "sequential files are identified by path, size and modification time",
]
KINDS = ("processed", "batched", "raw", "sparse", "simple", "packed", "composite")


def scenarios(tier):
    deep = tier == "thorough"
    for kind in KINDS:
        for mixed in ("", "+mixed"):
            if kind == "sparse" and mixed:
                continue
            for base in range(3 if not deep else 4):
                yield "settings", {"kind": kind + mixed, "base": base}
            for base in range(3 if not deep else 4):
                for part in range(4):
                    yield "damage", {"kind": kind + mixed, "base": base, "part": part, "parts": 4, "every": 1 if deep else 3}
            for part in range(2):
                yield "damage", {"kind": kind + mixed, "base": "shard", "part": part, "parts": 2, "every": 1 if deep else 3}
        yield "cross", {"kind": kind}
    yield "sampler", {}
    yield "values", {"depth": 3 if deep else 2}
    yield "blobs", {}
    yield "tensors", {}


# ------------------------------------------------------------------ streams
BASES = (
    {"shuffle": False},
    {"shuffle": True, "shuffle_window_size": 4, "pipelines": ["counter"]},
    {"shuffle": True, "shuffle_window_size": 3, "steps_per_epoch": 3, "sample_rate": 0.8},
    {"shuffle": True, "shuffle_window_size": 8, "shuffle_buffer_bytes": 1500, "pipelines": ["counter", "second"]},
)
PIPES = {"counter": ("mcheck_counter", {"salt": 5}), "salted": ("mcheck_counter", {"salt": 6}), "second": ("mcheck_second", {})}


class Given:
    """Everything a stream is made of; plain data, so that one part can be changed."""

    def __init__(self, root, kind, base):
        self.root, self.kind = root, kind
        self.spec = F.make(kind, root, (4, 3, 3, 4) if kind.startswith(("simple", "packed")) else (6, 5, 3))
        self.type, self.paths, self.options = self.spec[0], list(self.spec[1]), copy.deepcopy(self.spec[2])
        base = dict({"shuffle": True, "shuffle_window_size": 3, "steps_per_epoch": 4} if base == "shard" else BASES[base])
        self.shuffle = base.pop("shuffle")
        self.pipes = base.pop("pipelines", [])
        self.options.update(base)
        self.batch, self.world, self.rank, self.seed, self.mode = 2, 1, 0, 3, "train"
        self.after = None

    def copy(self):
        return copy.deepcopy(self)

    def build(self):
        F.register_pipelines()
        pipes = dict(PIPES[p] for p in self.pipes) or None
        ds = F.build((self.type, self.paths, self.options), F.context(self.batch, self.world, self.rank, self.seed, self.mode),
                     shuffle=self.shuffle, pipeline_args=copy.deepcopy(pipes))
        return ds, F.stream(ds)


def item(env):
    return (env.token.epoch, env.token.batch_index, bool(env.token.batch.is_last), F.mask_of(env), tuple(env.sample_keys),
            tuple(np.asarray(env.data["board_size"]).ravel().tolist()),
            tuple(np.asarray(env.data["mcheck_count"]).tolist()) if "mcheck_count" in env.data else None,
            tuple(np.asarray(env.data["mcheck_derived"]).tolist()) if "mcheck_derived" in env.data else None)


def follow(ds, epochs, mode, limit=40, out=None):
    """The remaining stream up to (not including) epoch number `epochs`."""
    out = [] if out is None else out
    s = F.stream(ds)
    while len(out) < limit:
        if s.finished and s.epoch + 1 >= epochs:
            break
        if not s.finished and s.epoch >= epochs:
            break
        n = 0
        for env in ds:
            out.append(item(env))
            n += 1
            if mode == "train":
                F.commit(ds, env)
            if len(out) >= limit:
                break
        if not n:
            break
    return out


def states_of(given, epochs=2):
    """[(remaining sequence, state)] at every committed position."""
    ds, s = given.build()
    out, states = [], [copy.deepcopy(s.state_dict())]
    for _ in range(epochs):
        for env in ds:
            out.append(item(env))
            if given.mode == "train":
                F.commit(ds, env)
            states.append(pickle.loads(pickle.dumps(s.state_dict())))
    F.close(ds)
    return [(out[i:], st) for i, st in enumerate(states)], out


def rejected(s, state):
    """None when accepted, the exception when refused; anything that is not an ordinary refusal propagates."""
    try:
        s.load_state_dict(state)
    except Exception as exc:  # noqa: BLE001
        return exc
    return None


# ------------------------------------------------------------------ one changed setting
def changes(given, root):
    """(label, changed copy, must be refused)"""
    kind = given.kind.partition("+")[0]
    mixed = "+" in given.kind

    def but(**kw):
        g = given.copy()
        for k, v in kw.items():
            setattr(g, k, v)
        return g

    def opt(**kw):
        g = given.copy()
        g.options.update(kw)
        return g

    yield "seed", but(seed=4), given.shuffle
    yield "seed far", but(seed=3 + (1 << 32)), given.shuffle
    yield "batch", but(batch=3), True
    yield "batch 1", but(batch=1), True
    yield "world", but(batch=1, world=2), True
    yield "world, second rank", but(batch=1, world=2, rank=1), True
    yield "mode", but(mode="test"), True
    yield "mode validate", but(mode="validate"), True
    yield "shuffle", but(shuffle=not given.shuffle), True
    window = given.options.get("shuffle_window_size", 32768)
    if given.shuffle:
        yield "window + 1", opt(shuffle_window_size=window + 1), True
        yield "window - 1", opt(shuffle_window_size=window - 1), True
        yield "buffer bytes", opt(shuffle_buffer_bytes=600), False
    steps = given.options.get("steps_per_epoch")
    yield "steps", opt(steps_per_epoch=2), True
    yield "steps + 1", opt(steps_per_epoch=(steps or 2) + 1), True
    if steps:
        yield "no steps", opt(steps_per_epoch=None), True
    if kind != "composite":
        yield "rate", opt(sample_rate=0.5), True
        yield "rate slightly", opt(sample_rate=given.options.get("sample_rate", 1.0) - 0.05), False
    else:
        for child in ("first", "second"):
            g = given.copy()
            g.options["dataset_dict"][child]["sample_rate"] = 0.5
            yield f"rate of {child}", g, True
    for alt in (["counter"], ["salted"], ["counter", "second"], ["salted", "second"], []):
        if alt != given.pipes:
            yield "pipelines " + "+".join(alt), but(pipes=alt), True
    for sym in (True,):
        yield "symmetry", opt(apply_symmetry=sym), False
    yield "side", opt(fixed_side_input=True), False
    if kind != "composite":
        yield "sizes", opt(boardsizes=[(5, 5)] if mixed else [(5, 5), (6, 6)]), mixed and kind in ("processed", "batched", "simple", "packed")
    if kind in ("processed", "batched"):
        yield "stm", opt(filter_stm=1), True
        yield "condition", opt(filter_condition="vt[:,0]>3.5/1024"), True
        yield "condition without effect", opt(filter_condition="vt[:,0]>=0"), False
    if kind == "raw":
        yield "stm", opt(filter_stm=-1), True
        yield "condition", opt(filter_condition="globalTargetsNC[:,0]>3.5/1024"), True
    if kind in ("simple", "packed"):
        yield "streams", opt(sequential_active_streams=1), True
        yield "streams 3", opt(sequential_active_streams=3), True
        yield "quantum", opt(sequential_read_quantum=1), True
        yield "rules", opt(rules=["freestyle"]) , False
    if kind != "composite":
        g = given.copy()
        g.paths = g.paths[1:] + g.paths[:1]
        yield "file order", g, True
        g = given.copy()
        g.paths[0], g.paths[1] = g.paths[1], g.paths[0]
        yield "file swap", g, True
        g = given.copy()
        g.paths = g.paths[:-1]
        yield "file less", g, True
        g = given.copy()
        g.paths = g.paths[1:]
        yield "first file less", g, True
        extra = os.path.join(root, "more")
        other = F.make(given.kind, extra, (6, 5, 3, 2, 2))[1]
        g = given.copy()
        g.paths = g.paths + [other[3]]
        yield "file more", g, True
        g = given.copy()
        g.paths = [other[4]] + g.paths[1:]
        yield "another file", g, True
        for which in (0, -1):
            g = given.copy()
            g.after = (which, (7, 5, 4), which)
            yield f"file {which} rewritten", g, True
        g = given.copy()
        g.after = (0, (2, 6), 1)
        yield "as many other records", g, True
    else:
        for label, edit in (
            ("ratio", lambda d: d["first"].update(blend_ratio=1)),
            ("ratios scaled", lambda d: (d["first"].update(blend_ratio=4), d["second"].update(blend_ratio=2))),
            ("child files", lambda d: d["second"].update(data_paths=d["second"]["data_paths"][::-1])),
            ("child file less", lambda d: d["second"].update(data_paths=d["second"]["data_paths"][:1])),
            ("child exchanged", lambda d: (lambda a, b: (d["first"].update(data_paths=b), d["second"].update(data_paths=a)))(d["first"]["data_paths"], d["second"]["data_paths"])),
            ("child filter", lambda d: d["second"].update(filter_stm=1)),
            ("child condition", lambda d: d["first"].update(filter_condition="vt[:,0]>2.5/1024")),
            ("child order", lambda d: [d.__setitem__(k, d.pop(k)) for k in ("first",)]),
            ("child renamed", lambda d: d.__setitem__("third", d.pop("second"))),
            ("child gone", lambda d: d.pop("second")),
            ("child batched", lambda d: d["first"].update(dataset_type="batched_processed_katago_numpy", prefetch_threads=0, pin_memory=False)),
        ):
            g = given.copy()
            edit(g.options["dataset_dict"])
            yield label, g, label not in ("ratios scaled", "child renamed", "child batched", "child exchanged", "child order")
        yield "sync", opt(sync_length=False), True


def settings(ctx, kind, base):
    root = ctx.mkdir("data")
    given = Given(os.path.join(root, "a"), kind, base)
    positions, whole = states_of(given)
    ctx.check(len(whole) >= 3, "harness: too short a stream", batches=len(whole))
    # the unchanged stream takes every state
    for rest, state in positions:
        ds, s = given.build()
        exc = rejected(s, copy.deepcopy(state))
        ctx.check(exc is None, "a state is refused by its own stream", error=repr(exc), kind=kind, base=base)
        ctx.equal(follow(ds, 2, "train"), rest, "a state continues differently", kind=kind, base=base)
        F.close(ds)
        ctx.step()
    for label, other, must in list(changes(given, root)):
        kept = {}
        if other.after:
            which, layout, taken = other.after
            path = other.paths[which]
            kept[path] = open(path, "rb").read()
            fresh = F.make(kind, os.path.join(root, "rewritten" + str(len(layout))), layout)[1][taken]
            shutil.copyfile(fresh, path)
        info = {"kind": kind, "base": base, "change": label}
        try:
            try:
                ds, s = other.build()
                changed = follow(ds, 2, other.mode)
                F.close(ds)
            except Exception as exc:  # noqa: BLE001 - the changed settings may not be usable at all
                ctx.tag("unusable: " + type(exc).__name__)
                changed = None
            if changed is None:
                try:
                    ds, s = other.build()
                    F.close(ds)
                except Exception:  # noqa: BLE001
                    continue
            same = changed is not None and [i[:6] for i in changed] == [i[:6] for i in whole] and other.pipes == given.pipes
            for at, (rest, state) in enumerate(positions):
                ctx.step()
                ds, s = other.build()
                exc = rejected(s, pickle.loads(pickle.dumps(state)))
                ctx.state(kind, base, label, at)
                if exc is None:
                    ctx.check(same, "a state of other settings is accepted", position=at, **info)
                    ctx.equal([i[:6] for i in follow(ds, 2, other.mode)], [i[:6] for i in rest], "a state accepted under a changed setting continues differently", position=at, **info)
                    ctx.tag("same stream: " + label)
                else:
                    ctx.tag("refused: " + label)
                F.close(ds)
            if must and same:
                ctx.tag("harness: without effect here: " + label)
        finally:
            for path, blob in kept.items():
                with open(path, "wb") as f:
                    f.write(blob)
                os.utime(path, (1_700_000_000, 1_700_000_000))
    ctx.trace()


def cross(ctx, kind):
    """States of every other kind of stream, and of another rank of a sharded one."""
    root = ctx.mkdir("data")
    own = Given(os.path.join(root, "own"), kind, 0)
    for other in KINDS:
        if other == kind:
            continue
        theirs = Given(os.path.join(root, other), other, 0)
        for rest, state in states_of(theirs, 1)[0]:
            ds, s = own.build()
            ctx.check(rejected(s, state) is not None, "the state of another kind of dataset is accepted", kind=kind, other=other)
            F.close(ds)
            ctx.step()
            ctx.state(kind, other)
    for a, b in ((0, 1), (1, 0), (1, 2)):
        given = Given(os.path.join(root, "shard"), kind, "shard")
        given.world, given.batch, given.rank = 3, 1, a
        other = given.copy()
        other.rank = b
        for rest, state in states_of(given, 1)[0]:
            ds, s = other.build()
            exc = rejected(s, copy.deepcopy(state))
            if exc is None:
                full = states_of(other, 1)[0]
                same = [r for r, st in full if st["cursor"] == state["cursor"]]
                ctx.check(bool(same), "the state of another rank is accepted", kind=kind, ranks=(a, b))
                ctx.equal(follow(ds, 1, "train"), same[0], "the state of another rank continues differently", kind=kind, ranks=(a, b))
            ctx.tag("rank refused" if exc else "rank shared")
            F.close(ds)
            ctx.step()
    ctx.trace()


# ------------------------------------------------------------------ damage
def places(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for k in node:
            yield from places(node[k], path + (k,))
    elif isinstance(node, (list, tuple)):
        for i, v in enumerate(node):
            yield from places(v, path + (i,))


def put(state, path, value, drop=False, again=False):
    """A copy of state with one place changed; containers keep their types."""
    if not path:
        return value
    key, rest = path[0], path[1:]
    new = list(state) if isinstance(state, (list, tuple)) else dict(state)
    if rest:
        new[key] = put(state[key], rest, value, drop, again)
    elif drop:
        del new[key]
    elif again:
        new.insert(key, state[key])
    else:
        new[key] = value
    return tuple(new) if isinstance(state, tuple) else new


STATISTICS = ("peak_occupancy", "peak_resident_bytes")  # not tied to other fields except as bounds


BUFFERED = ("reservoir", "ready", "ready_ids_le", "shape_queues", "raw_entry")
HUGE = repr(1 << 70)[:24]


def late(path, label):
    """Damage that may be found when it is first used: inside a buffered record, counters of no meaningful size, and an epoch that
    has nothing left but is not marked finished (it then fails as empty)."""
    return bool(set(path) & set(BUFFERED)) or HUGE in label or path[-1] == "finished"


def undetectable(path, label):
    """Damage that leaves a state no other field of which contradicts it: a buffered record's key or shape number, a buffer that holds
    other records than it did, an entry that might as well have been read completely, a blend or a part of it said to be at its end,
    and a file that is absent from the open ones exactly as if it had been read to its end."""
    if path[-1] in ("record_key", "shape_code") or "record_key" in path:
        return True
    if path[-2:-1] == ("shape_queues",) and label == "entry repeated":
        return False
    if label in ("entry lost", "entry repeated") and (set(path) & {"ready", "shape_queues", "active"}):
        return True
    if {"exhausted", "terminal"} & set(path) and label in ("becomes True", "becomes False"):
        return True
    if path[-1] == "pending" and label == "becomes None":
        return True
    return path[-1] in ("ready", "shape_queues", "active") and label in ("becomes []", "becomes {}")


def damages(path, value, parent):
    """(label, arguments of put) for one place of a state."""
    name = path[-1] if path else None
    if not path:
        return
    if isinstance(parent, dict):
        yield "lost", {"drop": True}
    elif isinstance(parent, (list, tuple)):
        yield "entry lost", {"drop": True}
        yield "entry repeated", {"again": True}
    retyped = [None, [], {}, "x", b"x"]
    if isinstance(value, bool):
        retyped += [not value, 0, 1, 2]
    elif isinstance(value, int):
        retyped += [value + 0.5, float("nan"), str(value) + "x"]
        retyped += [-1, -value - 1, 1 << 70]
    elif isinstance(value, str):
        retyped += [value[:-1], value + "00", value[::-1], 7, value.upper() if value.upper() != value else None]
    elif isinstance(value, bytes):
        retyped += [value[:-1], value + b"\0", 7]
    elif isinstance(value, (list, tuple, dict)):
        retyped += [7]
        if not isinstance(value, dict) and len(value) > 1 and all(isinstance(v, int) for v in value):
            retyped += [list(value)[::-1], list(value[:-2]) + [value[-1], value[-2]]]
    elif value is None:
        retyped += [-1, 1.5]
    for v in retyped:
        if type(v) is type(value) and v == value:
            continue
        yield "becomes " + repr(v)[:24], {"value": v}


def damage(ctx, kind, base, part, parts, every):
    root = ctx.mkdir("data")
    given = Given(os.path.join(root, "a"), kind, base)
    if base == "shard":
        given.world, given.batch, given.rank = 2, 2, 1
    positions, whole = states_of(given)
    ds, s = given.build()
    chosen = sorted(set(list(range(0, len(positions), every)) + [1, len(positions) - 1]))
    count = -1
    for at in chosen:
        rest, state = positions[at]
        for path, value in list(places(state)):
            parent = state
            for p in path[:-1]:
                parent = parent[p]
            for label, how in damages(path, value, parent):
                count += 1
                if count % parts != part:
                    continue
                ctx.step()
                bad = copy.deepcopy(put(state, path, **{"value": None, **how}))
                if bad == state:
                    continue
                info = {"kind": kind, "base": base, "position": at, "field": "/".join(map(str, path)), "damage": label, "was": repr(value)[:60]}
                if rejected(s, bad) is not None:
                    ctx.tag("refused")
                    continue
                if undetectable(path, label):
                    ctx.tag("not judged")
                    continue
                got = []
                try:
                    follow(ds, 2, "train", out=got)
                except Exception as exc:  # noqa: BLE001 - found late
                    ctx.check(late(path, label), "a damaged state is accepted and fails later", error=repr(exc)[:200], **info)
                    ctx.equal(got, rest[:len(got)], "a damaged state is accepted and delivers other batches before it fails", **info)
                    ctx.tag("refused late")
                    continue
                ctx.equal(got, rest, "a damaged state is accepted and continues differently", **info)
                ctx.tag("harmless")
        ctx.state(kind, base, at)
    F.close(ds)
    ctx.trace()


def sampler(ctx):
    from utils.training_utils import ResumableSampler

    class Data(list):
        pass

    for n, world in ((7, 1), (7, 2), (6, 3)):
        def make(**kw):
            return ResumableSampler(Data(range(kw.pop("n", n))), **{"shuffle": True, "seed": 5, "rank": 0, "world_size": world, **kw})

        for epoch, offset in itertools.product((0, 1, 3), range(n // world + 1)):
            base = make()
            start = {**base.state_dict(), "epoch": epoch, "offset": offset}
            base.load_state_dict(copy.deepcopy(start))
            ctx.equal(base.state_dict(), start, "a sampler state does not round-trip")
            rest = list(base)
            for label, other in (("length", make(n=n + 1)), ("shuffle", make(shuffle=False)), ("seed", make(seed=6)),
                                 ("world", make(world_size=world + 1)), ("shorter", make(n=n - 1))) + \
                    ((("rank", make(rank=1)),) if world > 1 else ()):
                ctx.step()
                ctx.raises(lambda: other.load_state_dict(copy.deepcopy(start)), "a sampler state of other settings is accepted", change=label)
            for path, value in places(start):
                for label, how in damages(path, value, start):
                    ctx.step()
                    bad = put(start, path, **{"value": None, **how})
                    if bad == start:
                        continue
                    s = make()
                    try:
                        s.load_state_dict(bad)
                    except Exception:  # noqa: BLE001
                        ctx.tag("refused")
                        continue
                    if HUGE in label:
                        continue
                    ctx.equal((s.epoch, list(s)), (epoch, rest), "a damaged sampler state is accepted and continues differently", field=path, damage=label)
                    ctx.tag("harmless")
            ctx.state(n, world, epoch, offset)
    ctx.trace()


# ------------------------------------------------------------------ the encoding of values
LEAVES = [None, True, False, 0, 1, -1, 2, 10, (1 << 63) - 1, -(1 << 63), 0.0, -0.0, 1.0, 2.0, -1.5, 1e300, 5e-324, 0.1, "", "0", "1", "null",
          "true", "a", "b", "\u00e9", "e\u0301", "\u2028", "\U0001f600", "\"", "\\", "\n", "\x00", "[]", "{}", "$f64x", "f64", b"", b"\0", b"0", b"\xff\x00", b"a"]
FEW = [None, True, 1, 1.0, "1", b"1", (), 0, -0.0, 0.0, "", b""]


def same(a, b):
    """Equal, with types and signs of zero told apart; sequences are tuples."""
    import torch

    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape \
            and a.contiguous().view(-1).numpy(force=True).tobytes() == b.contiguous().view(-1).numpy(force=True).tobytes() \
            if not (isinstance(a, torch.Tensor) and a.dtype == torch.bfloat16) else \
            isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a.contiguous().view(torch.int16), b.contiguous().view(torch.int16))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return struct.pack(">d", a) == struct.pack(">d", b)
    return a == b


def values(ctx, depth):
    from dataset.core import canonical_pipeline_state_bytes as encode, decode_canonical_pipeline_state as decode

    seen, canonical = {}, {}

    def add(v, key):
        blob = encode(v)
        ctx.check(canonical.setdefault(key, blob) == blob, "one value has two encodings", value=key)
        ctx.check(isinstance(blob, bytes), "the encoding is not bytes", value=repr(v))
        ctx.check(seen.setdefault(blob, key) == key, "two values share an encoding", one=seen[blob], other=key)
        back = decode(blob)
        ctx.check(same(back, v), "a value does not survive encoding", value=repr(v)[:200], back=repr(back)[:200])
        ctx.equal(encode(back), blob, "encoding twice differs", value=repr(v)[:200])
        ctx.step()

    def key_of(v):
        if isinstance(v, (list, tuple)):
            return "(" + ",".join(key_of(x) for x in v) + ")"
        if isinstance(v, dict):
            return "{" + ",".join(f"{k!r}:{key_of(v[k])}" for k in sorted(v)) + "}"
        return type(v).__name__ + ":" + (struct.pack(">d", v).hex() if isinstance(v, float) else repr(v))

    level = list(LEAVES)
    small = list(FEW)
    for _ in range(depth):
        nxt = [()]
        nxt += [(v,) for v in level]
        nxt += [list(p) for p in itertools.product(small, repeat=2)]
        nxt += [tuple(p) for p in itertools.product(small[:6], repeat=3)]
        nxt += [{}]
        nxt += [{k: v} for k in ("a", "", "1", "\u00e9", "$", "$tensors") for v in level]
        nxt += [{"a": p, "b": q} for p, q in itertools.product(small, repeat=2)]
        nxt += [{"b": q, "a": p} for p, q in itertools.product(small[:4], repeat=2)]
        for v in level + nxt:
            add(v, key_of(v))
        level = [v for i, v in enumerate(level + nxt) if i % 3 == 0][:400]
        small = FEW[:6] + [(1,), (1, 1.0), {"a": 1}, {"a": (1,)}, ((),), {}]
    # what has no faithful encoding is refused
    for bad in (float("nan"), float("inf"), float("-inf"), 1 << 63, -(1 << 63) - 1, 1 << 200, {1: 2}, {None: 1}, {b"a": 1}, {"$f64": 1}, {"$bytes": "00"},
                {"$tensor": {}}, {"$f64": "0" * 16}, {"a": 1, "$bytes": ""}, {1, 2}, frozenset(), object(), 1j, np.zeros(2), "\ud800",
                [float("nan")], {"a": {"$f64": 1}}, {"a": 1, 1: 2}, range(3), bytearray(b"a"), memoryview(b"a")):
        ctx.step()
        ctx.raises(lambda: encode(bad), "a value without a faithful encoding is encoded", value=repr(bad)[:80])
        ctx.raises(lambda: encode({"x": [bad]}), "a nested value without a faithful encoding is encoded", value=repr(bad)[:80])
    ctx.state(len(seen))
    ctx.tag("encodings", len(seen))
    ctx.trace()


def blobs(ctx):
    """Every single-byte change of an encoding is refused or stands for another value with exactly that encoding."""
    import torch

    from dataset.core import canonical_pipeline_state_bytes as encode, decode_canonical_pipeline_state as decode

    for v in (None, True, 12, -1.5, "ab", "\u00e9", b"\x0a\xff", (1, 2), {"a": 1, "b": (0.5, b"x")}, {"t": torch.tensor([True, False])},
              torch.tensor([1, 2], dtype=torch.int16), torch.tensor(1.5), {"b": {"a": []}}, torch.zeros(0, 2)):
        blob = encode(v)
        others = [blob[:i] + bytes([c]) + blob[i + 1:] for i in range(len(blob)) for c in range(256) if c != blob[i]]
        others += [blob[:i] + blob[i + 1:] for i in range(len(blob))]
        others += [blob[:i] + bytes([c]) + blob[i:] for i in range(len(blob) + 1) for c in b' 0129-+eE.aAfF"{}[],:\n\xc3\\']
        others += [blob[:i] for i in range(len(blob))] + [blob + blob]
        for bad in others:
            if bad == blob:
                continue
            ctx.step()
            try:
                back = decode(bad)
            except Exception:  # noqa: BLE001
                ctx.tag("refused")
                continue
            ctx.check(not same(back, v), "two encodings stand for one value", value=repr(v), blob=bad.decode("utf-8", "replace"))
            ctx.check(encode(back) == bad, "an accepted encoding is not the canonical one", blob=bad.decode("utf-8", "replace"))
            ctx.tag("another value")
        ctx.state(blob)
    for bad in (b'{"a":1,"a":1}', b'{"b":1,"a":1}', b'1.0', b'1e0', b'NaN', b'Infinity', b'-Infinity', b'-0', b'"\\u0061"', b'"\\u00e9"', b' 1', b'1 ',
                b'{"$f64":"7ff0000000000000"}', b'{"$f64":"7FF8000000000000"}', b'{"$bytes":"0A"}', b'{"$bytes":"0 a"}', b'{"$bytes":"0a "}',
                b'{"$f64":"3ff0 00000000000"}', b'{"$tensor":{"dtype":"int64","shape":[1],"data_le":"00"}}',
                b'9223372036854775808', b'-9223372036854775809', b'{"$f64":1}', b'{"$bytes":null}', b'{"$tensor":[]}', b'"\\ud800"'):
        ctx.step()
        ctx.raises(lambda: decode(bad), "a malformed encoding is accepted", blob=bad.decode())
    ctx.trace()


def tensors(ctx):
    import torch

    from dataset.core import canonical_pipeline_state_bytes as encode, decode_canonical_pipeline_state as decode

    seen = {}
    shapes = [(), (0,), (1,), (2,), (1, 2), (2, 1), (0, 3), (3, 0), (2, 3), (1, 1, 1)]
    accepted = 0
    for dtype in (torch.bool, torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64, torch.float16, torch.bfloat16, torch.float32, torch.float64,
                  torch.complex64, torch.uint16, torch.uint32, torch.uint64, torch.complex128):
        for shape in shapes:
            n = math.prod(shape)
            for fill in (0, 1, 2):
                base = torch.tensor([(k * 3 + fill) % 5 for k in range(n)], dtype=torch.float64).reshape(shape)
                try:
                    t = base.to(dtype)
                    blob = encode(t)
                except (TypeError, ValueError, RuntimeError):
                    ctx.tag("refused dtype")
                    continue
                accepted += 1
                back = decode(blob)
                ctx.check(same(back, t), "a tensor does not survive encoding", dtype=str(dtype), shape=shape, back=repr(back))
                key = (str(dtype), shape, repr(t.tolist()))
                ctx.check(seen.setdefault(blob, key) == key, "two tensors share an encoding", one=repr(seen[blob]), other=repr(key))
                # the same values stored with other strides
                for view in (t.clone(), t.t().contiguous().t() if t.dim() == 2 else t, torch.stack([t, t], -1)[..., 0], torch.cat([t.reshape(-1)] * 2)[n:].reshape(shape)):
                    ctx.equal(encode(view), blob, "the encoding depends on strides", dtype=str(dtype), shape=shape)
                    ctx.step()
                ctx.state(key)
    ctx.check(accepted > 200, "harness: few tensors are encodable", accepted=accepted)
    for t in (torch.tensor([float("nan"), float("inf"), -0.0, 0.0]), torch.tensor([float("nan")], dtype=torch.float64), torch.tensor([-0.0], dtype=torch.bfloat16)):
        ctx.check(same(decode(encode(t)), t), "special values do not survive encoding", value=repr(t))
        ctx.check(encode(torch.tensor([0.0])) != encode(torch.tensor([-0.0])), "signs of zero share an encoding")
    for bad in (torch.ones(2, requires_grad=True), torch.eye(2).to_sparse(), torch.empty(2, device="meta")):
        ctx.step()
        ctx.raises(lambda: encode(bad), "a tensor without a faithful encoding is encoded", value=repr(bad))
    ctx.trace()
