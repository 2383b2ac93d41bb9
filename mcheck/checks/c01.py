"""Every history of admissions, chunked admissions, snapshots, restores and the drain of the streaming
shuffle, up to a bounded number of items, is executed on the real reservoirs.  Oracles: exactly-once and
bound accounting computed from the inputs alone, and agreement with the one-at-a-time execution."""
import copy
import dataclasses
import hashlib
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

from mcheck import env

LEVEL = "model_checking"
ASSUMPTIONS = [
    "items are opaque: their values do not influence the buffer (checked with None/0/duplicate items)",
    "bounds: capacity 1..4, at most 7 items, byte sizes 0..3 with limits 3 and 5",
]

KEYS = [(1, 0, ()), (7, 3, ("s", 1, None))]


def scenarios(tier):
    deep = tier == "thorough"
    n_plain = 8 if deep else 7
    n_bytes = 6 if deep else 5
    for cap in (1, 2, 3, 4):
        for key in range(len(KEYS)):
            yield "plain", {"cap": cap, "key": key, "n": n_plain}
            yield "packed", {"cap": cap, "key": key, "n": n_plain}
        for limit in (3, 5):
            for first in range(4):
                yield "sized", {"cap": cap, "limit": limit, "n": n_bytes, "first": first, "key": 1}
        yield "refusals", {"cap": cap, "limit": None}
        yield "refusals", {"cap": cap, "limit": 5}
        yield "packed_refusals", {"cap": cap}
        yield "sensitivity", {"cap": cap, "seeds": 600}
    yield "processes", {}


def compositions(n):
    """All ordered ways to split n items into non-empty chunks."""
    for cuts in itertools.product((0, 1), repeat=max(0, n - 1)):
        parts, run = [], 1
        for c in cuts:
            if c:
                parts.append(run)
                run = 1
            else:
                run += 1
        if n:
            parts.append(run)
        yield tuple(parts)


class Generic:
    name = "generic"

    def __init__(self, cap, key, limit=None):
        from dataset.shuffle import StreamingShuffleReservoir

        seed, epoch, stream = KEYS[key] if isinstance(key, int) else key
        self.r = StreamingShuffleReservoir(cap, seed=seed, epoch=epoch, stream_key=stream, max_bytes=limit)

    def put(self, items, sizes, mode):
        if mode == "one":
            out = []
            for item, size in zip(items, sizes):
                out += list(self.r.offer(item, size_bytes=size))
            return out
        if mode == "many":
            return list(self.r.offer_many(list(zip(items, sizes))))
        if mode == "gen":
            return list(self.r.offer_many((i, s) for i, s in zip(items, sizes)))
        if mode == "zero":
            return list(self.r.offer_zero_sized(tuple(items)))
        return list(self.r.offer_zero_sized(list(items)))

    def drain(self):
        return list(self.r.drain())


class Packed:
    name = "packed"

    def __init__(self, cap, key, limit=None):
        from dataset.packed import PackedUInt64ShuffleReservoir

        seed, epoch, stream = KEYS[key] if isinstance(key, int) else key
        self.r = PackedUInt64ShuffleReservoir(cap, seed=seed, epoch=epoch, stream_key=stream)

    def put(self, items, sizes, mode):
        from dataset.packed import PackedRecordBlock

        out = []
        for chunk in ([[i] for i in items] if mode == "one" else [items]):
            got = self.r.offer_block(PackedRecordBlock(np.array(chunk, dtype=np.uint64)))
            out += [int(x) for x in got]
        return out

    def drain(self):
        return [int(x) for x in self.r.drain()]


def reference(make, items, sizes):
    """One-at-a-time execution: emission list after every admission, and the drain."""
    box = make()
    emitted = [box.put([i], [s], "one") for i, s in zip(items, sizes)]
    return emitted, box.drain()


def check_bounds(ctx, items, sizes, cap, limit, emitted, tail):
    """Exactly-once, bounds and forced-only eviction, from the inputs and the emissions alone."""
    size_of = dict(zip(map(id, items), sizes)) if not isinstance(items[0] if items else 0, int) else dict(zip(items, sizes))
    key = (lambda x: x) if items and isinstance(items[0], int) else id
    held = []
    for item, size, out in zip(items, sizes, emitted):
        for o in out:
            ctx.check(any(o is h or (key(o) == key(h)) for h in held), "an item was emitted that is not held")
            total = sum(size_of[key(h)] for h in held)
            ctx.check(len(held) >= cap or (limit is not None and total + size > limit),
                      "an item was emitted although the bound did not force it", held=len(held), bytes=total, size=size)
            held = [h for h in held if key(h) != key(o)]
        held.append(item)
        total = sum(size_of[key(h)] for h in held)
        ctx.check(len(held) <= cap, "more items held than the capacity", held=len(held), cap=cap)
        ctx.check(limit is None or total <= limit, "more bytes held than the limit", bytes=total, limit=limit)
    ctx.check(sorted(map(key, tail)) == sorted(map(key, held)), "the drain does not emit exactly the held items",
              tail=len(tail), held=len(held))


def run_history(ctx, make, items, sizes, chunks, modes, ref, resume=True):
    """Execute one chunking; snapshot after every chunk; then continue from every snapshot in several places."""
    ref_out, ref_tail = ref
    box = make()
    snaps = []
    raw = []
    pos = 0
    for length, mode in zip(chunks, modes):
        snaps.append((pos, box.r.state(), pickle.dumps(box.r.state())))
        got = box.put(items[pos:pos + length], sizes[pos:pos + length], mode)
        want = [o for out in ref_out[pos:pos + length] for o in out]
        ctx.equal(got, want, "a chunked admission emits something else than single admissions",
                  chunks=chunks, modes=modes, at=pos)
        pos += length
        stats = box.r.stats
        emitted_so_far = sum(len(o) for o in ref_out[:pos])
        ctx.equal((stats.offered, stats.emitted, stats.occupancy, len(box.r)),
                  (pos, emitted_so_far, pos - emitted_so_far, pos - emitted_so_far), "statistics are wrong")
        ctx.step()
        ctx.state(box.name, repr(box.r.state()) if box.name == "generic" else (pos, tuple(want), length))
    snaps.append((pos, box.r.state(), pickle.dumps(box.r.state())))
    raw.append(box.drain())
    ctx.equal(raw[0], ref_tail, "the drain order depends on how admissions were chunked", chunks=chunks, modes=modes)
    ctx.check(box.r.closed and len(box.r) == 0, "a drained buffer must be closed and empty")
    ctx.equal(box.drain(), [], "a second drain emits items again")
    closed_state = box.r.state()
    ctx.trace()
    if not resume:
        return
    used = box
    for at, live, frozen in snaps:
        for variant in ("fresh", "used", "pickled"):
            if variant == "used":
                target = used
                state = live
                target.r.state()  # whatever it keeps of its own state must not survive
            else:
                target = make()
                state = live if variant == "fresh" else pickle.loads(frozen)
            target.r.restore(state)
            ctx.check(target.r.state() == state, "a restored buffer reports another state than the one restored",
                      chunks=chunks, at=at, variant=variant)
            for i in range(at, len(items)):
                got = target.put([items[i]], [sizes[i]], "one")
                if variant != "pickled":
                    ctx.equal(got, ref_out[i], "a restored buffer continues differently",
                              chunks=chunks, at=at, item=i, variant=variant)
            got = target.drain()
            if variant != "pickled":
                ctx.equal(got, ref_tail, "a restored buffer drains differently", chunks=chunks, at=at, variant=variant)
            else:
                ctx.equal(len(got), len(ref_tail), "a restored buffer drains a different number of items")
            ctx.step(len(items) - at + 1)
        ctx.trace()
    fresh = make()
    fresh.r.restore(closed_state)
    ctx.check(fresh.r.closed, "the drained state is not restored as drained")
    ctx.equal(fresh.drain(), [], "a restored drained buffer emits items")


def all_histories(ctx, make, items, sizes, modes, cap, limit, snapshots=True):
    ref = reference(make, items, sizes)
    check_bounds(ctx, items, sizes, cap, limit, *ref)
    again = reference(make, items, sizes)
    ctx.equal(again, ref, "two identical executions differ")
    flat = tuple(map(repr, [o for out in ref[0] for o in out] + ref[1]))
    ctx.state("order", make().name, cap, limit, sizes, flat)
    for chunks in compositions(len(items)):
        if len(modes) == 1:
            run_history(ctx, make, items, sizes, chunks, modes * len(chunks), ref, snapshots)
            continue
        # every mode uniformly, and every rotation of the mode cycle (adjacent chunks use different entry points)
        for m in modes:
            run_history(ctx, make, items, sizes, chunks, [m] * len(chunks), ref, snapshots)
        for shift in range(len(modes)):
            mixed = [modes[(shift + i) % len(modes)] for i in range(len(chunks))]
            run_history(ctx, make, items, sizes, chunks, mixed, ref, False)


class Item:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"i{self.n}"

    def __eq__(self, other):
        return isinstance(other, Item) and other.n == self.n

    __hash__ = None  # opaque items need not be hashable


def plain(ctx, cap, key, n):
    make = lambda: Generic(cap, key)
    for k in range(n + 1):
        items = [Item(i) for i in range(k)]
        all_histories(ctx, make, items, (0,) * k, ["many", "zero", "zlist", "gen", "one"], cap, None)
    # items that compare equal, are falsy or None must be passed through untouched
    odd = [None, 0, False, "", (), None, 0][:n]
    box, twin = make(), make()
    positions = list(range(len(odd)))
    got = []
    order = []
    for i, o in zip(positions, odd):
        got += list(box.r.offer(o))
        order += list(twin.r.offer(i))
    got += list(box.r.drain())
    order += list(twin.r.drain())
    ctx.check(all(got[j] is odd[i] for j, i in enumerate(order)) and len(got) == len(odd),
              "the order depends on item values", got=repr(got), order=order)


def sized(ctx, cap, limit, n, first, key):
    make = lambda: Generic(cap, key, limit)
    for k in range(1, n + 1):
        for rest in itertools.product((0, 1, 2, 3), repeat=k - 1):
            sizes = (first,) + rest
            items = [Item(i) for i in range(k)]
            ref = reference(make, items, sizes)
            check_bounds(ctx, items, sizes, cap, limit, *ref)
            ctx.state("order", cap, limit, sizes, repr(ref))
            for chunks in compositions(k):
                run_history(ctx, make, items, sizes, chunks, ["many"] * len(chunks), ref, resume=(k >= n - 1))


def packed(ctx, cap, key, n):
    make = lambda: Packed(cap, key)
    pool = [0, (1 << 64) - 1, 1 << 63, 5, 1, (1 << 32), 77, 9, 10][:n]
    for k in range(n + 1):
        items = pool[:k]
        all_histories(ctx, make, items, (0,) * k, ["many"], cap, None)
    # empty chunks in between are harmless; emitted arrays are not overwritten later
    ref = reference(make, pool, (0,) * n)
    from dataset.packed import PackedRecordBlock

    box = make()
    held = []
    for i in pool:
        box.put([], [], "many")
        held.append(box.r.offer_block(PackedRecordBlock(np.array([i], dtype=np.uint64))))
        box.r.state()
    tail = box.r.drain()
    ctx.equal([[int(x) for x in h] for h in held], ref[0], "emitted blocks changed after later admissions")
    ctx.equal([int(x) for x in tail], ref[1], "the drain differs with empty admissions in between")


def _continue(box, items, sizes):
    out = [box.put([i], [s], "one") for i, s in zip(items, sizes)]
    return out + [box.drain()]


def refusals(ctx, cap, limit):
    """Inconsistent or foreign states, oversized items and use after drain are refused without effect."""
    sizes = (1, 2, 0, 3, 1, 2)
    items = [Item(i) for i in range(6)]
    make = lambda: Generic(cap, 1, limit)
    for upto in range(7):
        base = make()
        for i in range(upto):
            base.put([items[i]], [sizes[i]], "one")
        snap = base.r.state()
        expected = None
        probe = make()
        probe.r.restore(snap)
        expected = _continue(probe, items[upto:], sizes[upto:])
        occ = len(snap.slots)
        bad = {
            "algorithm": [snap.algorithm + "x", ""],
            "seed": [snap.seed + 1],
            "epoch": [snap.epoch + 1],
            "stream_key": [(), snap.stream_key + (0,)],
            "capacity": [snap.capacity + 1, snap.capacity - 1],
            "max_bytes": [6 if limit is None else None, 4],
            "slots": [snap.slots + (Item(99),)] + ([snap.slots[:-1]] if occ else []),
            "slot_sizes": [snap.slot_sizes + (0,)]
            + ([snap.slot_sizes[:-1], (snap.slot_sizes[0] + 1,) + snap.slot_sizes[1:],
                (-1,) + snap.slot_sizes[1:]] if occ else []),
            "resident_bytes": [snap.resident_bytes + 1, snap.resident_bytes - 1],
            "rng_counter": [-1, 1 << 63],
            "offered": [snap.offered + 1, snap.offered - 1],
            "emitted": [snap.emitted + 1, snap.emitted - 1],
            "peak_occupancy": [cap + 1] + ([occ - 1] if occ else [-1]),
            "peak_resident_bytes": [snap.resident_bytes - 1],
            "closed": [True] if occ else [],
        }
        for field, values in bad.items():
            for value in values:
                broken = dataclasses.replace(snap, **{field: value})
                victim = make()
                for i in range(upto):
                    victim.put([items[i]], [sizes[i]], "one")
                ctx.raises(lambda: victim.r.restore(broken), "an inconsistent or foreign state was accepted",
                           field=field, value=repr(value), upto=upto, cap=cap, limit=limit)
                ctx.equal(_continue(victim, items[upto:], sizes[upto:]), expected,
                          "a refused restore changed the buffer", field=field)
                ctx.step()
                ctx.state("bad", upto, field, repr(value))
        if occ:
            # an extra item whose counters were adapted but which exceeds the capacity
            over = dataclasses.replace(
                snap, slots=tuple(Item(50 + i) for i in range(cap + 1)), slot_sizes=(0,) * (cap + 1),
                resident_bytes=0, offered=snap.emitted + cap + 1, peak_occupancy=cap)
            ctx.raises(lambda: make().r.restore(over), "a state above the capacity was accepted")
            if limit is not None:
                over = dataclasses.replace(
                    snap, slots=(Item(50),), slot_sizes=(limit + 1,), resident_bytes=limit + 1,
                    offered=snap.emitted + 1, peak_occupancy=max(1, snap.peak_occupancy),
                    peak_resident_bytes=limit + 1)
                ctx.raises(lambda: make().r.restore(over), "a state above the byte limit was accepted")
        victim = make()
        victim.r.restore(snap)
        if limit is not None:
            ctx.raises(lambda: victim.r.offer(Item(9), size_bytes=limit + 1), "an oversized item was accepted")
            ctx.raises(lambda: victim.r.offer_many([(Item(9), 0), (Item(9), limit + 1)]),
                       "an oversized item was accepted in a chunk")
        for value in (-1, 1.0, True, None):
            ctx.raises(lambda: victim.r.offer(Item(9), size_bytes=value), "an invalid size was accepted")
            ctx.raises(lambda: victim.r.offer_many([(Item(8), 0), (Item(9), value)]), "an invalid size was accepted")
        ctx.equal(victim.put([], [], "many") + victim.put([], [], "zero"), [], "an empty chunk emits items")
        ctx.equal(_continue(victim, items[upto:], sizes[upto:]), expected, "a refused admission changed the buffer")
        for call in (lambda: victim.r.offer(Item(1)), lambda: victim.r.offer_many([(Item(1), 0)]),
                     lambda: victim.r.offer_zero_sized([Item(1)])):
            ctx.raises(call, "an admission after the drain was accepted")
        ctx.trace()
    from dataset.shuffle import StreamingShuffleReservoir

    for kw in ({"capacity": 0}, {"capacity": -1}, {"capacity": 1.5}, {"epoch": -1}, {"stream_key": [1]},
               {"max_bytes": 0}, {"max_bytes": -3}):
        args = {"capacity": 2, "seed": 1, "epoch": 0, "stream_key": (), "max_bytes": None, **kw}
        capacity = args.pop("capacity")
        ctx.raises(lambda: StreamingShuffleReservoir(capacity, **args), "an invalid configuration was accepted",
                   kw=repr(kw))


def packed_refusals(ctx, cap):
    items = [3, 0, (1 << 64) - 1, 8, 1 << 63, 2]
    make = lambda: Packed(cap, 1)
    for upto in range(7):
        base = make()
        base.put(items[:upto], (0,) * upto, "one")
        snap = base.r.state()
        probe = make()
        probe.r.restore(snap)
        expected = _continue(probe, items[upto:], (0,) * 6)
        occ = len(snap.slots_le) // 8
        bad = {
            "algorithm": [snap.algorithm + "x", "streaming-shuffle"],
            "seed": [snap.seed + 1],
            "epoch": [snap.epoch + 1],
            "stream_key": [(), snap.stream_key + (0,)],
            "capacity": [snap.capacity + 1, snap.capacity - 1],
            "slots_le": [snap.slots_le + b"\0" * 8, snap.slots_le + b"\0"]
            + ([snap.slots_le[:-1], snap.slots_le[:-8]] if occ else []),
            "rng_counter": [-1, 1 << 63],
            "offered": [snap.offered + 1, snap.offered - 1],
            "emitted": [snap.emitted + 1, snap.emitted - 1],
            "peak_occupancy": [cap + 1] + ([occ - 1] if occ else [-1]),
            "closed": [True] if occ else [],
        }
        for field, values in bad.items():
            for value in values:
                victim = make()
                victim.put(items[:upto], (0,) * upto, "one")

                def attempt():
                    victim.r.restore(dataclasses.replace(snap, **{field: value}))

                ctx.raises(attempt, "an inconsistent or foreign packed state was accepted",
                           field=field, value=repr(value), upto=upto)
                ctx.equal(_continue(victim, items[upto:], (0,) * 6), expected,
                          "a refused restore changed the packed buffer", field=field)
                ctx.step()
                ctx.state("bad", upto, field, repr(value))
        over = dataclasses.replace(snap, slots_le=b"\1" * 8 * (cap + 1), offered=snap.emitted + cap + 1,
                                   peak_occupancy=cap)
        ctx.raises(lambda: make().r.restore(over), "a packed state above the capacity was accepted")
        victim = make()
        victim.r.restore(snap)
        _continue(victim, items[upto:], (0,) * 6)
        ctx.raises(lambda: victim.put([1], [0], "one"), "an admission after the drain was accepted")
        ctx.trace()


def sensitivity(ctx, cap, seeds):
    """Seed, epoch and stream identity each matter, and every order the bound allows is reachable."""
    for adapter in (Generic, Packed):
        n = cap + 1

        def order(key):
            box = adapter(cap, key)
            out = []
            for i in range(n):
                out += box.put([i], [0], "one")
            ctx.step(n + 1)
            return tuple(out + box.drain())

        seen = {}
        for seed in range(seeds):
            seen.setdefault(order((seed, 0, ())), seed)
        legal = set()
        for first in range(cap):
            rest = [i for i in range(n) if i != first]
            for perm in itertools.permutations(rest):
                legal.add((first,) + perm)
        ctx.check(set(seen) <= legal, "an order outside the bound was produced")
        if cap <= 3:
            ctx.check(set(seen) == legal, "some legal orders are never produced", missing=len(legal - set(seen)))
        else:
            ctx.check(len(seen) > 0.9 * len(legal), "many legal orders are never produced",
                      seen=len(seen), legal=len(legal))
        if cap > 1:
            for vary in (lambda j: (3, j, ()), lambda j: (3, 0, (j,)), lambda j: (3, 0, ("k", str(j)))):
                ctx.check(len({order(vary(j)) for j in range(40)}) > 1,
                          "the order does not depend on epoch or stream identity")
        ctx.state(adapter.name, cap, len(seen))
        ctx.trace(len(seen))


_CHILD = """
import sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
from mcheck import env
env.setup_imports()
from mcheck.checks import c01
print(c01.digest())
"""


def digest():
    h = hashlib.sha256()
    for cap in (1, 2, 3, 5):
        for key in (0, 1, (-5, 2, ("a", ("b", 1), None, True))):
            for adapter in (Generic, Packed):
                box = adapter(cap, key)
                out = []
                for i in range(12):
                    out += box.put([i], [0], "one")
                h.update(repr(out + box.drain()).encode())
    return h.hexdigest()


def processes(ctx):
    """The order is the same in other processes (string hashing, global random state)."""
    mine = digest()
    import random

    random.seed(5)
    np.random.seed(5)
    ctx.equal(digest(), mine, "the order depends on the process-global random state")
    for hashseed in ("1", "2", "31337"):
        environment = dict(os.environ, PYTHONHASHSEED=hashseed)
        got = subprocess.run([sys.executable, "-c", _CHILD, env.VERIF, env.REPO], env=environment,
                             capture_output=True, text=True, timeout=200)
        ctx.check(got.returncode == 0, "child process failed", err=got.stderr[-500:])
        ctx.equal(got.stdout.strip(), mine, "the order differs in another process", hashseed=hashseed)
        ctx.step()
        ctx.state("process", hashseed)
    ctx.trace()
