"""Blend ratios: for every small choice of children, lengths and ratios, every sequence of requests (single, chunks, save and
restore) is explored on the real composite source; each reachable state must continue the one sequence the ratios define."""
import copy
import itertools
import json
import math
import os
from fractions import Fraction

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "two to four children of up to seven records, integer weights up to five; chunks of 1, 2, 3 and 5 records; "
    "the cycle itself is not fixed beyond exact counts and an even spread (less than one record off at every prefix "
    "for two children, and no worse than the largest-remainder spread otherwise)",
]
LIMITS = (0, 1, 2, 3, 5)  # 0: one record through next_envelope


def scenarios(tier):
    deep = tier == "thorough"
    yield "spread", {"top": 9 if deep else 6, "children": 4}
    for a in range(1, 7 if deep else 5):
        for b in range(1, 7 if deep else 5):
            yield "requests", {"weights": (a, b), "lengths": tuple(range(0, 9 if deep else 7)), "kind": (a + b) % 3}
    for w in itertools.product((1, 2, 3) if deep else (1, 2), repeat=3):
        yield "requests", {"weights": w, "lengths": (0, 1, 2, 3, 5) if deep else (0, 1, 3, 5), "kind": sum(w) % 3}
    for w in ((3, 1, 2), (1, 3, 1)) if not deep else ():
        yield "requests", {"weights": w, "lengths": (0, 2, 4, 6), "kind": 0}
    for w in ((1,), (1, 1, 1, 1), (1, 2, 1, 3)):
        yield "requests", {"weights": w, "lengths": (0, 1, 3) if len(w) > 1 else (0, 1, 4, 7), "kind": 1}
    for pair in (("processed", "processed"), ("batched", "raw"), ("processed", "sparse"), ("simple", "packed"), ("raw", "simple"),
                 ("batched", "composite"), ("packed", "processed+mixed")):
        for sync in (True, False):
            for shuffle in (True, False):
                yield "real", {"pair": pair, "sync": sync, "shuffle": shuffle, "ratios": [(1, 1), (2, 1), (1, 3)] if not deep else [(1, 1), (2, 1), (1, 3), (5, 2), (3, 4)]}
    for sync in (True, False):
        yield "delivered", {"sync": sync}
    yield "ratios", {}
    yield "refused", {}
    for world in (2, 3):
        yield "shards", {"world": world}


# ------------------------------------------------------------------ children of the model
class Cursor:
    def __init__(self, epoch, cycle, rank, at):
        self.epoch, self.cycle, self.rank, self.at = epoch, cycle, rank, at


class Child:
    """A list of records; kind 0 answers chunks fully, 1 in short pieces, 2 knows single records only."""

    def __init__(self, name, length, kind):
        from dataset.source import SourceCapabilities

        self.capabilities = SourceCapabilities("random", True, True, True, True)
        self.name, self.length, self.kind = name, length, kind
        self.shape_codes = {(5, 5): 0, (6, 6): 1}
        if kind != 2:
            self.next_envelopes = self._many

    def manifest_state(self):
        return {"name": self.name, "length": self.length}

    def start_epoch(self, epoch, rank):
        return Cursor(epoch, 0, rank, 0)

    def start_cycle(self, epoch, cycle, rank):
        return Cursor(epoch, cycle, rank, 0)

    def next_envelope(self, cursor):
        from dataset.source import RecordEnvelope

        if cursor.at >= self.length:
            return None, cursor
        i = cursor.at
        cursor = Cursor(cursor.epoch, cursor.cycle, cursor.rank, i + 1)
        return RecordEnvelope(0, (self.name, cursor.epoch, cursor.cycle, i), i % 2, ("p", i), 8), cursor

    def _many(self, cursor, limit):
        out = []
        for _ in range(limit if self.kind == 0 else min(limit, 2)):
            e, cursor = self.next_envelope(cursor)
            if e is None:
                break
            out.append(e)
        return tuple(out), cursor

    def save_cursor(self, cursor):
        return {"epoch": cursor.epoch, "cycle": cursor.cycle, "rank": cursor.rank, "at": cursor.at}

    def restore_cursor(self, state):
        return Cursor(**state)


def composite(children, weights, sync):
    from dataset.composite_source import CompositeRecordSource

    return CompositeRecordSource(children, [f"c{i}" for i in range(len(children))], weights, sync_length=sync)


def drain(source, cursor=None, limit=64, start=(0, 0)):
    cursor = source.start_epoch(*start) if cursor is None else cursor
    out = []
    while True:
        if hasattr(source, "next_envelopes"):
            chunk, cursor = source.next_envelopes(cursor, limit)
        else:
            e, cursor = source.next_envelope(cursor)
            chunk = () if e is None else (e,)
        if not chunk:
            return out
        out.extend(chunk)


def cycle_of(weights):
    """The cycle the source uses, seen through children that do not end."""
    total = sum(weights)
    got = drain(composite([Child(f"n{i}", 4 * w, 0) for i, w in enumerate(weights)], weights, True))
    return [e.source_id for e in got], total


def sequence(weights, cycle, lengths, sync):
    """[(child, index)] as the ratios define it."""
    out, at = [], [0] * len(weights)
    if sync:
        for _ in range(min(n // w for n, w in zip(lengths, weights))):
            for c in cycle:
                out.append((c, at[c]))
                at[c] += 1
        return out
    while any(a < n for a, n in zip(at, lengths)):
        for c in cycle:
            if at[c] < lengths[c]:
                out.append((c, at[c]))
                at[c] += 1
    return out


def reduced(weights):
    g = math.gcd(*weights)
    return tuple(w // g for w in weights)


# ------------------------------------------------------------------ the cycle
def spread(ctx, top, children):
    for n in range(1, children + 1):
        for w in itertools.product(range(1, (top if n < 4 else 4) + 1), repeat=n):
            got, total = cycle_of(w)
            ctx.step()
            ctx.state(w)
            ctx.equal(len(got), 4 * total, "whole cycles are missing", weights=w)
            ctx.equal(got, got[:total] * 4, "the cycle changes", weights=w)
            counts = [0] * n
            worst = Fraction(0)
            for k, c in enumerate(got[:total], 1):
                counts[c] += 1
                worst = max(worst, max(abs(counts[i] - Fraction(k * w[i], total)) for i in range(n)))
            ctx.equal(tuple(counts), w, "a cycle does not hold the exact counts", weights=w)
            bound = Fraction(1) if n <= 2 else Fraction(n - 1, 1) - Fraction(n - 1, total) if n > 2 else None
            ctx.check(worst < 1 if n <= 2 else worst <= max(Fraction(1), bound / 2 + Fraction(1, 2)), "the children are not evenly interleaved", weights=w, worst=str(worst))
            ctx.check(composite([Child(f"n{i}", 4, 0) for i in range(n)], w, True).manifest_state() is not None, "no manifest")
    ctx.trace()


# ------------------------------------------------------------------ every way of asking
def requests(ctx, weights, lengths, kind):
    cycle = cycle_of(weights)[0][: sum(weights)]
    n = len(weights)
    for lens in itertools.product(lengths, repeat=n):
        for sync in (True, False):
            kinds = [(kind + i) % 3 for i in range(n)]

            def fresh():
                return composite([Child(f"n{i}", m, k) for i, (m, k) in enumerate(zip(lens, kinds))], weights, sync)

            want = sequence(weights, cycle, lens, sync)
            explore(ctx, fresh, want, {"weights": weights, "lengths": lens, "sync": sync, "kinds": kinds})
    ctx.trace()


def explore(ctx, fresh, want, info):
    """All reachable states of a cursor under every request."""
    from dataset.core import canonical_pipeline_state_bytes, decode_canonical_pipeline_state

    source = fresh()

    def key(pos, cursor, restored):
        return pos, restored, canonical_pipeline_state_bytes(source.save_cursor(cursor))

    start = source.start_cycle(2, 1, 0)
    seen, todo = set(), [(0, start, False)]
    seen.add(key(0, start, False))
    while todo:
        pos, cursor, restored = todo.pop()
        ctx.state(repr(info), pos, restored)
        for limit in LIMITS + ("restore",):
            ctx.step()
            at = copy.deepcopy(cursor)
            if limit == "restore":
                blob = canonical_pipeline_state_bytes(source.save_cursor(at))
                other = fresh()
                at = other.restore_cursor(json.loads(json.dumps(decode_canonical_pipeline_state(blob))))
                ctx.equal(canonical_pipeline_state_bytes(other.save_cursor(at)), blob, "a restored cursor saves differently", **info)
                got = 0
            else:
                if limit:
                    out, at = source.next_envelopes(at, limit)
                else:
                    e, at = source.next_envelope(at)
                    out = () if e is None else (e,)
                got = len(out)
                expected = want[pos:pos + max(limit, 1)]
                ctx.check(got <= max(limit, 1) and (got > 0 or not expected), "a request is answered short", pos=pos, limit=limit, got=got, **info)
                seq = [(e.source_id, e.record_key[2][3]) for e in out]
                ctx.check(seq == expected[:got], "the mixture does not follow its ratios", pos=pos, limit=limit, got=seq, want=expected, **info)
                for e in out:
                    ctx.check(e.record_key == ("composite", f"c{e.source_id}", (f"n{e.source_id}", 2, 1, e.record_key[2][3])), "a record is attributed to another child", key=repr(e.record_key), **info)
                    ctx.check(source.shape_codes[(5, 5) if e.record_key[2][3] % 2 == 0 else (6, 6)] == e.shape_code, "a record takes another shape", **info)
                    ctx.check(e.payload.child_index == e.source_id and e.payload.envelope.payload == ("p", e.record_key[2][3]), "a record carries another payload", **info)
            k = key(pos + got, at, restored or limit == "restore")
            if k not in seen:
                seen.add(k)
                todo.append((pos + got, at, k[1]))
    ends = [k for k in seen if k[0] == len(want)]
    ctx.check(ends, "the end is never reached", **info)
    ctx.tag("sync" if info["sync"] else "free")


# ------------------------------------------------------------------ real children
def child_config(kind, root, at):
    F_kind, paths, opts = F.make(kind, root, (5, 4) if not kind.startswith("packed") else (3, 2))
    return {"dataset_type": F_kind, "data_paths": paths, **opts}


def config_of(pair, root):
    out = {}
    for i, kind in enumerate(pair):
        out[f"child{i}"] = child_config(kind, os.path.join(root, f"k{i}"), i)
    return out


def single(entry, shuffle, seed=3):
    """The records of one child on its own."""
    entry = dict(entry)
    kind = entry.pop("dataset_type")
    paths = entry.pop("data_paths", [])
    ds = F.build((kind, paths, entry), F.context(1, seed=seed), shuffle=shuffle)
    F.stream(ds)
    return ds, ds._record_source


def keys_of_child(entry, shuffle, epoch):
    ds, source = single(entry, shuffle)
    cursor = source.start_epoch(epoch, 0)
    out = [e.record_key for e in drain(source, cursor)]
    F.close(ds)
    return out


def real(ctx, pair, sync, shuffle, ratios):
    root = ctx.mkdir("data")
    config = config_of(pair, root)
    for ratio in ratios:
        weights = reduced(ratio)
        cycle = cycle_of(weights)[0][: sum(weights)]
        dd = {k: {**v, "blend_ratio": r} for (k, v), r in zip(config.items(), ratio)}
        spec = ("iterative_multi", [], {"dataset_dict": dd, "sync_length": sync})
        ds = F.build(spec, F.context(1), shuffle=shuffle)
        F.stream(ds)
        source = ds._record_source
        for epoch in (0, 1):
            alone = [keys_of_child(v, shuffle, epoch) for v in config.values()]
            ctx.check(all(alone), "harness: a child is empty")
            want = sequence(weights, cycle, [len(a) for a in alone], sync)
            info = {"pair": pair, "ratio": ratio, "sync": sync, "epoch": epoch, "shuffle": shuffle}
            names = list(config)
            keys = [("composite", names[c], alone[c][i]) for c, i in want]
            for limit in (1, 2, 3, 7, 64):
                got = [e.record_key for e in drain(source, source.start_epoch(epoch, 0), limit)]
                ctx.equal(got, keys, "the mixture does not follow its ratios", limit=limit, **info)
                ctx.step(len(got))
            for stop in range(len(keys) + 1):
                for limit in (1, 3):
                    cursor, got = source.start_epoch(epoch, 0), []
                    while len(got) < stop:
                        out, cursor = source.next_envelopes(cursor, min(limit, stop - len(got)))
                        got += [e.record_key for e in out]
                    saved = json.loads(json.dumps(source.save_cursor(cursor), default=_plain))
                    if hasattr(source, "close_cursor"):
                        source.close_cursor(cursor)
                    again = F.build(spec, F.context(1), shuffle=shuffle)
                    F.stream(again)
                    other = again._record_source
                    rest = [e.record_key for e in drain(other, other.restore_cursor(_unplain(saved)), 2)]
                    F.close(again)
                    ctx.equal(got + rest, keys, "the mixture changes over save and restore", stop=stop, **info)
                    ctx.step()
                    ctx.state(repr(info), stop, limit)
        F.close(ds)
    ctx.trace()


def _plain(v):
    if isinstance(v, bytes):
        return {"$b": v.hex()}
    if isinstance(v, np.integer):
        return int(v)
    raise TypeError(type(v))


def _unplain(v):
    if isinstance(v, dict):
        return bytes.fromhex(v["$b"]) if set(v) == {"$b"} else {k: _unplain(x) for k, x in v.items()}
    if isinstance(v, list):
        return tuple(_unplain(x) for x in v)
    return v


def delivered(ctx, sync):
    """Through the whole data path: ids, masks and children of unshuffled batches."""
    root = ctx.mkdir("data")
    names = []
    for i, n in enumerate((7, 4, 9)):
        path = os.path.join(root, f"f{i}.npz")
        F.write_processed(path, range(100 * i, 100 * i + n))
        names.append((path, n))
    for ratio in ((1, 1, 1), (0.5, 0.25, 1), (2, 1, 3), (1.5, 1, 1), (4, 2, 2)):
        fr = [Fraction(str(r)) for r in ratio]
        m = math.lcm(*(f.denominator for f in fr))
        weights = reduced([int(f * m) for f in fr])
        cycle = cycle_of(weights)[0][: sum(weights)]
        want = [100 * c + i for c, i in sequence(weights, cycle, [n for _, n in names], sync)]
        dd = {f"d{i}": {"dataset_type": "iterative_processed_katago_numpy" if i % 2 else "batched_processed_katago_numpy", "data_paths": [p], "blend_ratio": r, "has_pass_move": True, "boardsizes": 5}
              for i, ((p, _), r) in enumerate(zip(names, ratio))}
        for batch, mode in itertools.product((1, 2, 3, 5), ("train", "validate")):
            ds = F.build(("iterative_multi", [], {"dataset_dict": dd, "sync_length": sync, "boardsizes": 5}), F.context(batch, mode=mode), shuffle=False)
            for e in range(2):
                envs = F.epoch(ds, mode)
                ids = [i for x in envs for i, ok in zip(F.ids_of(x), F.mask_of(x)) if ok]
                keys = [k for x in envs for k, ok in zip(x.sample_keys, F.mask_of(x)) if ok]
                expected = want[: len(want) // batch * batch] if mode == "train" else want
                ctx.equal(ids, expected, "the mixture does not follow its ratios", ratio=ratio, batch=batch, mode=mode, sync=sync)
                for i, k in zip(ids, keys):
                    ctx.check(k[:2] == ("composite", f"d{i // 100}"), "a record is attributed to another child", id=i, key=repr(k))
                ctx.step(len(envs))
                ctx.state(ratio, batch, mode, e)
            F.close(ds)
    ctx.trace()


def ratios(ctx):
    """Written ratios become their exact reduced integers."""
    root = ctx.mkdir("data")
    paths = []
    for i in range(3):
        paths.append(os.path.join(root, f"f{i}.npz"))
        F.write_processed(paths[-1], range(100 * i, 100 * i + 40))
    pool = [1, 2, 3, 4, 0.5, 0.25, 1.5, 0.1, 0.2, 0.3, 0.7, 2.5, 1e-1, 10, "2", "0.5", 6]
    cases = list(itertools.product(pool, repeat=2)) + [c for c in itertools.product((1, 2, 0.5, 0.1, 0.3, 4), repeat=3)]
    for case in cases:
        fr = [Fraction(str(float(r))) for r in case]
        m = math.lcm(*(f.denominator for f in fr))
        weights = reduced([int(f * m) for f in fr])
        dd = {f"d{i}": {"dataset_type": "iterative_processed_katago_numpy", "data_paths": [paths[i]], "blend_ratio": r} for i, r in enumerate(case)}
        ds = F.build(("iterative_multi", [], {"dataset_dict": dd, "boardsizes": 5}), F.context(1), shuffle=False)
        F.stream(ds)
        source = ds._record_source
        got = [e.source_id for e in drain(source, source.start_epoch(0, 0))]
        total = sum(weights)
        cycles = min(40 // w for w in weights)
        ctx.equal(len(got), cycles * total, "whole cycles are missing", ratios=case)
        for at in range(0, len(got), total):
            ctx.equal([got[at:at + total].count(i) for i in range(len(case))], list(weights), "a cycle does not hold the exact counts", ratios=case)
        F.close(ds)
        ctx.step()
        ctx.state(case)
    ctx.trace()


def refused(ctx):
    root = ctx.mkdir("data")
    a, b = os.path.join(root, "a.npz"), os.path.join(root, "b.npz")
    F.write_processed(a, range(6))
    F.write_processed(b, range(100, 106))

    def build(one=None, two=None, **options):
        dd = {"x": {"dataset_type": "iterative_processed_katago_numpy", "data_paths": [a], **(one or {})},
              "y": {"dataset_type": "iterative_processed_katago_numpy", "data_paths": [b], **(two or {})}}
        ds = F.build(("iterative_multi", [], {"dataset_dict": dd, "boardsizes": 5, **options}), F.context(1), shuffle=False)
        F.epoch(ds)
        F.close(ds)

    build()
    build({"blend_ratio": 0.000001}, {"blend_ratio": 0.000003}, sync_length=False)
    for bad in (0, -1, float("nan"), float("inf"), -0.5, 1 / 3, 1e-7, "x", None, 0.1234567):
        for where in (0, 1):
            ctx.step()
            ctx.raises(lambda: build(*([{}, {"blend_ratio": bad}][:: 1 if where else -1])), "an impossible ratio is accepted", ratio=repr(bad))
    ctx.raises(lambda: build({}, {"data_paths": [a]}), "one file in two children is accepted")
    ctx.raises(lambda: build({}, {"has_pass_move": True}), "children of different structure are accepted")
    ctx.raises(lambda: F.stream(F.build(("iterative_multi", [], {"dataset_dict": {}, "boardsizes": 5}), F.context(1))), "no children are accepted")
    from dataset.composite_source import CompositeRecordSource

    for weights in ((0, 1), (1, -1), (1,), (1, 1, 1), ()):
        ctx.raises(lambda: CompositeRecordSource([Child("a", 3, 0), Child("b", 3, 0)], ["a", "b"], weights, sync_length=True), "impossible weights are accepted", weights=weights)
    ctx.raises(lambda: CompositeRecordSource([Child("a", 3, 0), Child("b", 3, 0)], ["a", "a"], (1, 1), sync_length=True), "equal names are accepted")
    # damaged cursors
    def fresh():
        return composite([Child("n0", 5, 0), Child("n1", 5, 1)], (2, 1), True)

    source = fresh()
    cursor = source.start_cycle(1, 0, 0)
    _, cursor = source.next_envelopes(cursor, 2)
    good = source.save_cursor(cursor)
    fresh().restore_cursor(copy.deepcopy(good))
    for field in good:
        bad = copy.deepcopy(good)
        del bad[field]
        ctx.raises(lambda: fresh().restore_cursor(bad), "a cursor without a field is accepted", field=field)
        for value in ("x", -1, [], {}, 7.5j):
            bad = copy.deepcopy(good)
            if bad[field] == value or field == "pending" and value in ([], {}):
                continue
            bad[field] = value
            ctx.raises(lambda: fresh().restore_cursor(bad), "a damaged cursor is accepted", field=field, value=repr(value))
        ctx.step()
        ctx.state(field)
    for change in ({"exhausted": [0, 0]}, {"exhausted": [False]}, {"terminal": True}, {"child_cursors": good["child_cursors"][:1]}, {"rank": 1}, {"epoch": 2},
                   {"source_cycle": 1}, {"schema": "other"}, {"terminal": 1}):
        ctx.raises(lambda: fresh().restore_cursor({**copy.deepcopy(good), **change}), "a damaged cursor is accepted", change=repr(change))
    ctx.trace()


def shards(ctx, world):
    """Rank-local mixtures of rank-local children follow the same ratios in every source cycle."""
    root = ctx.mkdir("data")
    config = {}
    for i, n in enumerate((4, 3)):
        paths = []
        for f in range(world + i):
            paths.append(os.path.join(root, f"c{i}-{f}.npz"))
            F.write_processed(paths[-1], range(1000 * i + 100 * f, 1000 * i + 100 * f + n + f))
        config[f"d{i}"] = {"dataset_type": "iterative_processed_katago_numpy", "data_paths": paths}
    for ratio, sync, shuffle in itertools.product(((1, 1), (2, 1), (1, 2)), (True, False), (True, False)):
        dd = {k: {**v, "blend_ratio": r} for (k, v), r in zip(config.items(), ratio)}
        cycle = cycle_of(ratio)[0][: sum(ratio)]
        for rank in range(world):
            spec = ("iterative_multi", [], {"dataset_dict": dd, "sync_length": sync, "steps_per_epoch": 3, "boardsizes": 5})
            ds = F.build(spec, F.context(1, world=world, rank=rank), shuffle=shuffle)
            F.stream(ds)
            source = ds._record_source
            for epoch, turn in itertools.product((0, 1), (0, 1, 2)):
                alone = []
                for entry in config.values():
                    other = F.build((entry["dataset_type"], entry["data_paths"], {"steps_per_epoch": 3, "boardsizes": 5}), F.context(1, world=world, rank=rank), shuffle=shuffle)
                    F.stream(other)
                    alone.append([e.record_key for e in drain(other._record_source, other._record_source.start_cycle(epoch, turn, rank))])
                    F.close(other)
                want = [("composite", f"d{c}", alone[c][i]) for c, i in sequence(ratio, cycle, [len(x) for x in alone], sync)]
                for limit in (1, 2, 5, 64):
                    got = [e.record_key for e in drain(source, source.start_cycle(epoch, turn, rank), limit)]
                    ctx.equal(got, want, "the mixture does not follow its ratios", rank=rank, world=world, ratio=ratio, sync=sync, epoch=epoch, cycle=turn)
                    ctx.step()
                ctx.state(world, rank, ratio, sync, shuffle, epoch, turn)
            F.close(ds)
    ctx.trace()
