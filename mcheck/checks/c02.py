"""Packed planning: the compiled shuffle buffer and the id queue are driven through every sequence of operations up to a
depth next to the generic shuffle and a plain list, and the real planner over the real sources is driven through every
sequence of plan / commit / roll back / save-and-load / next-epoch operations next to the same planner over the same
source with its packed entry points hidden."""
import itertools
import pickle
from dataclasses import replace

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "buffers of 1..5 (quick) places and blocks of up to capacity+2 ids; extreme counters are put in through snapshots",
    "planners over up to three files of up to 5 rows, batches of 1..3 rows per rank on one or two ranks",
    "the object path is obtained by hiding the packed entry points of the real source",
]
RULE = ("all operation sequences up to the given length are enumerated; the compiled implementation must be "
        "indistinguishable from the generic one at every step")

IDS = [0, 1, (1 << 64) - 1, 1 << 63, 12345678901234567890, 7, 7]


def scenarios(tier):
    deep = tier == "thorough"
    for capacity in range(1, 8 if deep else 6):
        for seed in ((0, 5, -3) if deep else (0, 5)):
            yield "buffer", {"capacity": capacity, "seed": seed, "depth": 6 if deep or capacity < 3 else 5}
    for capacity in (1, 3, 4):
        yield "damaged", {"capacity": capacity}
    for capacity in (1, 2, 3, 11, 1000):
        yield "extremes", {"capacity": capacity}
    yield "queue", {"depth": 6 if deep else 5}
    kinds = ["processed", "batched", "raw", "sparse", "processed/filter", "batched/filter", "batched/stm", "raw/sampled",
             "processed/sampled", "batched/filter+sampled"]
    for kind in kinds:
        for layout in ((5, 0, 3), (1,)) if not deep else ((5, 0, 3), (1,), (4, 4), (2, 3, 2)):
            yield "planners", {"kind": kind, "layout": layout, "deep": deep}
    for kind in ("batched", "processed/filter", "raw"):
        for shuffle in (True, False):
            yield "histories", {"kind": kind, "shuffle": shuffle, "depth": 7 if deep else 5}
    for kind in kinds:
        yield "views", {"kind": kind}
    yield "storage", {}


# ---------------------------------------------------------------- the shuffle buffer

def generic(capacity, seed, key=("k",), epoch=2):
    from dataset.shuffle import StreamingShuffleReservoir

    return StreamingShuffleReservoir(capacity, seed=seed, epoch=epoch, stream_key=key)


def compiled(capacity, seed, key=("k",), epoch=2):
    from dataset.packed import PackedUInt64ShuffleReservoir

    return PackedUInt64ShuffleReservoir(capacity, seed=seed, epoch=epoch, stream_key=key)


def block(ids, **kw):
    from dataset.packed import PackedRecordBlock

    return PackedRecordBlock(np.array(ids, np.uint64), **kw)


def attempt(fn):
    try:
        return "ok", fn()
    except (RuntimeError, ValueError, TypeError, OverflowError) as exc:
        return "refused", type(exc).__name__


def stats(r):
    s = r.stats
    return s.offered, s.emitted, s.occupancy, s.peak_occupancy, len(r), bool(r.closed)


def snapshot(r):
    s = r.state()
    slots = s.slot_array() if hasattr(s, "slot_array") else s.slots
    return plain(slots), s.rng_counter, s.offered, s.emitted, s.peak_occupancy, bool(s.closed)


def plain(values):
    return [int(v) for v in values]


def compare_offer(ctx, a, b, ids, how, **info):
    """Offer ids to the generic and the compiled buffer."""
    if how == "many":
        one = attempt(lambda: plain(a.offer_many((i, 0) for i in ids)))
    elif how == "zero":
        one = attempt(lambda: plain(a.offer_zero_sized(ids)))
    else:
        one = attempt(lambda: [int(x) for i in ids for x in a.offer(i)])
    two = attempt(lambda: plain(b.offer_block(block(ids))))
    if not ids and one[0] != two[0]:  # nothing offered: refusing after the end or not is the same
        return one[0] == "ok"
    ctx.equal(two if two[0] == "ok" else two[0], one if one[0] == "ok" else one[0],
              "the compiled buffer emits other records", **info)
    return one[0] == "ok"


def buffer(ctx, capacity, seed, depth):
    sizes = sorted({0, 1, 2, capacity, capacity + 2})
    ops = [("offer", n) for n in sizes] + [("drain",), ("save",), ("load",), ("reuse",)]
    count = [0]

    def fresh(history):
        a, b = generic(capacity, seed), compiled(capacity, seed)
        saved = None
        at = 0
        how = ("many", "zero", "one")[len(history) % 3]
        for i, op in enumerate(history):
            info = {"history": str(history), "at": i}
            if op[0] == "offer":
                ids = [IDS[(at + j) % len(IDS)] if (at + j) % 3 else at + j for j in range(op[1])]
                at += op[1]
                if not compare_offer(ctx, a, b, ids, how, **info):
                    ctx.equal(stats(b), stats(a), "a refused offer changed the buffer", **info)
            elif op[0] == "drain":
                ctx.equal(plain(b.drain()), plain(a.drain()), "the compiled buffer drains other records", **info)
            elif op[0] == "save":
                saved = pickle.loads(pickle.dumps((a.state(), b.state())))
            elif op[0] in ("load", "reuse") and saved:
                if op[0] == "load":
                    a, b = generic(capacity, seed), compiled(capacity, seed)
                else:  # into buffers in use, whose own state was asked for
                    ctx.equal(snapshot(b), snapshot(a), "the compiled buffer's state differs", **info)
                a.restore(saved[0])
                b.restore(saved[1])
            ctx.equal(stats(b), stats(a), "the compiled buffer counts otherwise", **info)
        ctx.equal(snapshot(b), snapshot(a), "the compiled buffer's state differs", history=str(history))
        # whatever is inside must come out alike from here on
        tail = list(range(900, 900 + 2 * capacity + 1))
        if not a.closed:
            compare_offer(ctx, a, b, tail, "many", history=str(history), at="tail")
        ctx.equal(plain(b.drain()), plain(a.drain()), "the compiled buffer drains other records", history=str(history))
        ctx.equal(stats(b), stats(a), "the compiled buffer counts otherwise", history=str(history))
        count[0] += 1
        ctx.step()
        ctx.trace()

    stack = [()]
    while stack:
        h = stack.pop()
        if len(h) == depth:
            fresh(h)
            ctx.state((capacity, seed, h))
            continue
        drained = sum(1 for o in h if o == ("drain",))
        last = h[-1] if h else None
        for op in ops:
            if op == ("save",) and last == ("save",):
                continue
            if op[0] in ("load", "reuse") and (("save",) not in h or last in (("save",), ("load",), ("reuse",))):
                continue
            if op == ("drain",) and drained >= 2:
                continue
            if op == ("offer", 0) and (last == op or len(h) > 2):
                continue
            stack.append(h + (op,))


def _filled(make, capacity, seed, n):
    r = make(capacity, seed)
    ids = list(range(100, 100 + n))
    if hasattr(r, "offer_block"):
        r.offer_block(block(ids))
    else:
        r.offer_many((i, 0) for i in ids)
    return r


def damaged(ctx, capacity):
    """Every single and double change of a snapshot's fields: refused exactly where the generic buffer refuses."""
    seed = 4
    for n in sorted({0, 1, capacity, capacity + 3}):
        for drained in (False, True):
            sa, sb = _filled(generic, capacity, seed, n), _filled(compiled, capacity, seed, n)
            if drained:
                sa.drain(), sb.drain()
            sa, sb = sa.state(), sb.state()

            def put(key, value):
                return lambda s: replace(s, **{key: value(s) if callable(value) else value})

            def slots(fn):
                def change(s):
                    if hasattr(s, "slots_le"):
                        ids = [int(v) for v in s.slot_array()]
                        return replace(s, slots_le=np.array(fn(ids), "<u8").tobytes())
                    ids = list(fn(list(s.slots)))
                    return replace(s, slots=tuple(ids), slot_sizes=(0,) * len(ids))
                return change

            changes = {"slot dropped": slots(lambda x: x[:-1]), "slot added": slots(lambda x: x + [5]),
                       "too many": slots(lambda x: list(range(capacity + 1))), "none": slots(lambda x: []),
                       "seed": put("seed", 5), "epoch": put("epoch", 3), "key": put("stream_key", ("other",)),
                       "capacity": put("capacity", capacity + 1), "algorithm": put("algorithm", "old"),
                       "closed": put("closed", lambda s: not s.closed)}
            for field in ("rng_counter", "offered", "emitted", "peak_occupancy"):
                for name, value in (("-1", -1), ("+1", lambda s, f=field: getattr(s, f) + 1),
                                    ("--", lambda s, f=field: getattr(s, f) - 1), ("limit", 1 << 63),
                                    ("capacity+1", capacity + 1), ("zero", 0)):
                    changes[f"{field}{name}"] = put(field, value)
            names = list(changes)
            combos = [(c,) for c in names] + list(itertools.combinations(names, 2))
            for combo in combos:
                ca, cb = sa, sb
                for c in combo:
                    ca, cb = changes[c](ca), changes[c](cb)
                a, b = _filled(generic, capacity, seed, 1), _filled(compiled, capacity, seed, 1)
                one, two = attempt(lambda: a.restore(ca)), attempt(lambda: b.restore(cb))
                info = {"changes": str(combo), "records": n, "drained": drained}
                ctx.equal(two[0], one[0], "the compiled buffer judges a snapshot otherwise", **info)
                ctx.equal(stats(b), stats(a), "the buffers differ after loading a snapshot", **info)
                low = max(ca.rng_counter, 0) < 1 << 62
                if low and not a.closed:
                    compare_offer(ctx, a, b, list(range(capacity + 2)), "many", **info)
                if low:
                    ctx.equal(attempt(lambda: plain(b.drain())), attempt(lambda: plain(a.drain())),
                              "other records after loading a snapshot", **info)
                ctx.step()
                ctx.state((capacity, n, drained, combo))
            for cut in range(1, 8):
                b = _filled(compiled, capacity, seed, 1)
                before = stats(b)
                if len(sb.slots_le) < cut:
                    continue
                ctx.check(attempt(lambda: b.restore(replace(sb, slots_le=sb.slots_le[:-cut])))[0] == "refused",
                          "a snapshot cut in the middle of an id was loaded", cut=cut)
                ctx.equal(stats(b), before, "a refused snapshot changed the buffer", cut=cut)
                ctx.step()


def extremes(ctx, capacity):
    """Counters next to their limit, and counters whose draw is rejected as biased."""
    from dataset.core import rng_u64
    from dataset.shuffle import RESERVOIR_ALGORITHM

    seed = 4
    counters = [0, 1, (1 << 32) - 1, 1 << 32, (1 << 62) + 5, (1 << 63) - 1, (1 << 63) - 2, (1 << 63) - 3]
    base = rng_u64(seed, "shuffle_reservoir", (RESERVOIR_ALGORITHM, 2, ("k",)))
    mask = (1 << 64) - 1
    inverse = pow(0x9E3779B97F4A7C15, -1, 1 << 64)
    rejected = []
    for value in [mask - i for i in range((1 << 64) % capacity + 2)]:
        x = value
        x = x ^ (x >> 31) ^ (x >> 62)
        x = (x * pow(0x94D049BB133111EB, -1, 1 << 64)) & mask
        x = x ^ (x >> 27) ^ (x >> 54)
        x = (x * pow(0xBF58476D1CE4E5B9, -1, 1 << 64)) & mask
        x = x ^ (x >> 30) ^ (x >> 60)
        rejected.append(((x - base) * inverse) & mask)
    counters += [c for c in rejected if c < 1 << 63] + [c - 1 for c in rejected if 0 < c < 1 << 63]
    for counter in counters:
        for n in (1, 2, 3):
            a, b = _filled(generic, capacity, seed, capacity), _filled(compiled, capacity, seed, capacity)
            sa, sb = replace(a.state(), rng_counter=counter), replace(b.state(), rng_counter=counter)
            a, b = generic(capacity, seed), compiled(capacity, seed)
            one, two = attempt(lambda: a.restore(sa)), attempt(lambda: b.restore(sb))
            ctx.equal(two[0], one[0], "the compiled buffer judges a counter otherwise", counter=counter)
            ids = list(range(500, 500 + n))
            before = stats(b)
            one, two = attempt(lambda: plain(a.offer_many((i, 0) for i in ids))), attempt(
                lambda: plain(b.offer_block(block(ids))))
            if one[0] == "ok" and two[0] == "refused" and counter + n + 2 >= 1 << 63:
                one = two  # may stop one draw earlier, where no further state could be saved
            ctx.equal(two if two[0] == "ok" else two[0], one if one[0] == "ok" else one[0],
                      "the compiled buffer emits other records", counter=counter, records=n)
            if two[0] == "ok":
                ctx.equal(plain(b.drain()), plain(a.drain()), "the compiled buffer drains other records", counter=counter)
            else:
                ctx.equal(stats(b), before, "a refused offer changed the buffer", counter=counter)
            ctx.step()
            ctx.state((capacity, counter, n))


# ---------------------------------------------------------------- the id queue

def queue(ctx, depth):
    from dataset.packed import PackedUInt64ReadyBuffer

    ops = [("put", 0), ("put", 1), ("put", 3), ("pop", 0), ("pop", 1), ("pop", 2), ("pop", "all"), ("pop", "more"),
           ("copy",), ("clear",)]
    for history in itertools.product(ops, repeat=depth):
        if any(a == b and a[0] in ("copy", "clear") or a == ("pop", 0) for a, b in zip(history, history[1:])):
            continue
        q, model, at = PackedUInt64ReadyBuffer(), [], 0
        for op in history:
            if op[0] == "put":
                ids = list(range(at, at + op[1]))
                at += op[1]
                q.extend(np.array(ids, np.uint64))
                model += ids
            elif op[0] == "pop":
                n = {"all": len(model), "more": len(model) + 1}.get(op[1], op[1])
                got = attempt(lambda: plain(q.pop(n)))
                if n > len(model):
                    ctx.equal(got[0], "refused", "more ids were taken than there are", history=str(history))
                else:
                    ctx.equal(got[1], model[:n], "other ids were taken", history=str(history))
                    model = model[n:]
            elif op[0] == "copy":
                state = pickle.loads(pickle.dumps(q.state()))
                q = PackedUInt64ReadyBuffer()
                q.extend(np.arange(3, dtype=np.uint64))
                q.restore(state)
            else:
                q.clear()
                model = []
            ctx.equal(len(q), len(model), "the queue has another length", history=str(history))
        ctx.equal(plain(q.state().record_ids()), model, "the queue's snapshot differs", history=str(history))
        ctx.equal(plain(q.pop(len(model))), model, "the queue holds other ids", history=str(history))
        ctx.step()
    ctx.state(("queue", depth))


# ---------------------------------------------------------------- planners

class Hidden:
    """A source without packed entry points."""

    def __init__(self, source, single):
        self._inner = source
        self._hide = {"next_packed_records", "envelopes_from_record_ids"} | ({"next_envelopes"} if single else set())

    def __getattr__(self, name):
        if name in self.__dict__["_hide"]:
            raise AttributeError(name)
        return getattr(self.__dict__["_inner"], name)


def spec_of(ctx, kind, layout):
    base, _, extra = kind.partition("/")
    t, paths, opts = F.make(base, ctx.mkdir("data"), layout)
    opts = dict(opts)
    if "filter" in extra:
        opts["filter_condition"] = f"(vt[:, 0] != {1 / 1024}) & (vt[:, 0] != {5 / 1024})"
    if "stm" in extra:
        opts["filter_stm"] = 1
    if "sampled" in extra:
        opts["sample_rate"] = 0.6
    return t, paths, opts


def source_of(ctx, kind, layout, context):
    """A fresh real source."""
    ds = F.build(spec_of(ctx, kind, layout), context, shuffle=True)
    source = getattr(ds, "_record_source", None) or getattr(F.stream(ds), "source", None)
    return ds, source


def usable(source):
    return callable(getattr(source, "next_packed_records", None)) and len(getattr(source, "shape_codes", {})) == 1


def planner(source, context, packed, single=False, **config):
    from dataset.planner import DatasetPlanner, PlannerConfig

    return DatasetPlanner(source if packed else Hidden(source, single), context, PlannerConfig(**config))


def seen(batch):
    if batch is None:
        return None
    return ([e.record_key for e in batch.envelopes], [int(e.shape_code) for e in batch.envelopes], list(batch.is_real),
            batch.epoch, batch.batch_index, bool(batch.is_last), len(batch.envelopes))


def sliced(p, batch):
    envelopes, mask = p.local_slice(batch)
    return [e.record_key for e in envelopes], [bool(m) for m in mask]


def chunk(n):
    from dataset import planner as module

    if hasattr(module, "SOURCE_CHUNK_SIZE"):
        module.SOURCE_CHUNK_SIZE = n


def planners(ctx, kind, layout, deep):
    total = sum(layout)
    for mode, world in (("train", 1), ("validate", 1), ("train", 2), ("validate", 2)):
        for batch in (1, 2, 3):
            context = F.context(batch, world=world, rank=world - 1, mode=mode)
            try:
                ds, source = source_of(ctx, kind, layout, context)
            except (ValueError, RuntimeError):
                ctx.tag("the selection leaves nothing to plan")
                continue
            if not usable(source):
                ctx.tag("source is not packed")
                continue
            for shuffle, window, steps in itertools.product((True, False), (1, 2, 3, total + 2), (None, 1, 2)):
                if not shuffle and window != 1:
                    continue
                config = {"shuffle": shuffle, "shuffle_buffer_size": window, "steps_per_epoch": steps}
                reference = None
                for size in (1, 2, 3, 1024):
                    chunk(size)
                    for packed, single in ((False, False), (False, True), (True, False)):
                        p = planner(source, context, packed, single, **config)
                        out = []
                        for epoch in range(2):
                            while True:
                                item = p.next_transactional_batch()
                                if item is None:
                                    break
                                out.append((seen(item[0]), sliced(p, item[0])))
                                p.commit_batch(item[1])
                                if p.finished:
                                    break
                            out.append(("end", p.finished))
                            p.begin_next_epoch()
                        p.close()
                        if reference is None:
                            reference = out
                        ctx.equal(out, reference, "packed and object planning differ", kind=kind, mode=mode, world=world,
                                  batch=batch, config=str(config), chunk=size, packed=packed, single=single)
                        ctx.step(len(out))
                        ctx.trace()
                ctx.state((kind, layout, mode, world, batch, shuffle, window, steps))
            F.close(ds)
    chunk(1024)


def histories(ctx, kind, shuffle, depth):
    """All sequences of n(ext) c(ommit oldest) C(ommit all) r(oll back) s(ave, load into a new planner) e(poch)."""
    layout = (3, 4)
    chunk(2)
    for mode, world, batch, steps in (("train", 1, 2, None), ("validate", 1, 3, None), ("train", 2, 1, 2)):
        context = F.context(batch, world=world, mode=mode)
        ds, source = source_of(ctx, kind, layout, context)
        ctx.check(usable(source), "the source offers no packed records", kind=kind)
        config = {"shuffle": shuffle, "shuffle_buffer_size": 3, "steps_per_epoch": steps}

        def replay(history):
            pair = [planner(source, context, packed, **config) for packed in (False, True)]
            out = [[], []]
            alive = True
            for i, op in enumerate(history):
                results = []
                for k in range(2):
                    p = pair[k]
                    if op == "n":
                        item = p.next_transactional_batch()
                        if item is not None:
                            out[k].append(item[1])
                        results.append(("n", seen(item[0]) if item else None))
                    elif op == "c":
                        results.append(attempt(lambda: p.commit_batch(out[k].pop(0)) if out[k] else None))
                    elif op == "C":
                        tokens, out[k] = out[k], []
                        results.append(attempt(lambda: p.commit_prepared(p.prepare_commit(tokens)) if tokens else None))
                    elif op == "r":
                        out[k] = []
                        results.append(attempt(p.rollback_uncommitted))
                    elif op == "s":
                        state = pickle.loads(pickle.dumps(p.state_dict()))
                        p.close()
                        out[k] = []
                        pair[k] = planner(source, context, k == 1, **config)
                        results.append(attempt(lambda: pair[k].load_state_dict(state)))
                    elif op == "e":
                        done = attempt(p.begin_next_epoch)
                        if done[0] == "ok":
                            out[k] = []
                        results.append(done)
                    p = pair[k]
                    results[-1] = (results[-1], p.finished, p.epoch, p.batch_index, p.committed_epoch)
                ctx.equal(results[1], results[0], "packed and object planning differ", history=history, at=i, kind=kind,
                          mode=mode)
                alive = results[0][0][0] != "refused"
            # the rest of the epoch
            rest = [[seen(b) for b in iter(p.next_batch, None)] for p in pair]
            ctx.equal(rest[1], rest[0], "packed and object planning go on differently", history=history, kind=kind)
            for p in pair:
                p.close()
            return alive

        stack = [""]
        while stack:
            h = stack.pop()
            if h:
                alive = replay(h)
                ctx.step()
                ctx.trace()
                if not alive:
                    continue
            ctx.state((kind, shuffle, mode, world, h))
            if len(h) < depth:
                for op in "ncCrse":
                    if op in "rs" and h[-1:] in ("r", "s"):
                        continue
                    if op in "cC" and "n" not in h:
                        continue
                    stack.append(h + op)
        F.close(ds)
    chunk(1024)


def views(ctx, kind):
    """The packed view of a batch is the tuple of its envelopes, and both are read from disk to the same rows."""
    layout = (4, 3)
    context = F.context(3, mode="validate")
    try:
        ds, source = source_of(ctx, kind, layout, context)
    except (ValueError, RuntimeError):
        ctx.tag("the selection leaves nothing to plan")
        return
    if not usable(source):
        ctx.tag("source is not packed")
        return
    config = {"shuffle": True, "shuffle_buffer_size": 3}
    a, b = planner(source, context, False, **config), planner(source, context, True, **config)
    while True:
        x, y = a.next_batch(), b.next_batch()
        ctx.equal(seen(y), seen(x), "packed and object planning differ", kind=kind)
        if x is None:
            break
        old, new = tuple(x.envelopes), y.envelopes
        n = len(old)
        for i in range(-n - 2, n + 2):
            one = attempt_any(lambda: old[i].record_key)
            two = attempt_any(lambda: new[i].record_key)
            ctx.equal(two, one, "indexing a packed batch differs", index=i)
            for j in range(-n - 1, n + 2):
                for step in (None, 2, -1):
                    ctx.equal([e.record_key for e in new[i:j:step]], [e.record_key for e in old[i:j:step]],
                              "slicing a packed batch differs", begin=i, end=j, stride=step)
        ctx.equal([e.record_key for e in reversed(new)], [e.record_key for e in reversed(old)], "reversed batch")
        for lo, hi in ((0, n), (0, 1), (1, n), (n - 1, n)):
            if lo == hi:
                continue
            part, ref = new[lo:hi], old[lo:hi]
            ctx.equal(F.data_repr(source.materialize_batch(part)), F.data_repr(source.materialize_batch(ref)),
                      "a packed batch is read to other rows", kind=kind, begin=lo, end=hi)
            if hasattr(source, "sample_keys_for_batch"):
                ctx.equal(list(source.sample_keys_for_batch(part)), [e.record_key for e in ref],
                          "a packed batch names other samples", kind=kind)
            if hasattr(source, "materialize_batch_with_keys"):
                one, two = source.materialize_batch_with_keys(ref), source.materialize_batch_with_keys(part)
                ctx.equal((F.data_repr(two[0]), list(two[1])), (F.data_repr(one[0]), list(one[1])),
                          "a packed batch is read to other rows or names", kind=kind)
            ctx.step()
        ctx.state((kind, str(seen(x))))
    # the raw chunks
    for first in range(1, 5):
        ca = cb = None
        ca, cb = source.start_epoch(0, 0), source.start_epoch(0, 0)
        for i in range(20):
            n = first if i % 2 == 0 else 2
            envelopes, ca = source.next_envelopes(ca, n)
            ids, cb = source.next_packed_records(cb, n)
            ctx.equal([e.record_key for e in source.envelopes_from_record_ids(ids.record_ids)],
                      [e.record_key for e in envelopes], "packed and object records differ", kind=kind, chunk=n)
            ctx.equal(source.save_cursor(cb), source.save_cursor(ca), "packed and object positions differ", kind=kind)
            if i % 3 == 1:
                ca = source.restore_cursor(source.save_cursor(cb))
            ctx.step()
            if not envelopes:
                break
    F.close(ds)


def attempt_any(fn):
    try:
        return "ok", fn()
    except IndexError:
        return "index", None


def storage(ctx):
    """A saved position belongs to the kind of planner that saved it."""
    context = F.context(2)
    ds, source = source_of(ctx, "batched", (5, 4), context)
    config = {"shuffle": True, "shuffle_buffer_size": 3}
    for steps in range(4):
        for packed in (True, False):
            p = planner(source, context, packed, **config)
            for _ in range(steps):
                p.commit_batch(p.next_transactional_batch()[1])
            state = p.state_dict()
            other = planner(source, context, not packed, **config)
            got = attempt(lambda: other.load_state_dict(state))
            if got[0] == "ok":  # converting it would be fine, too
                ctx.equal([seen(b) for b in iter(other.next_batch, None)], [seen(b) for b in iter(p.next_batch, None)],
                          "a position of the other kind was loaded to another place")
            p.close(), other.close()
            ctx.step()
            ctx.state((steps, packed))
    F.close(ds)
    # blocks no packed buffer can hold exactly
    for kw in ({"default_cycle": 1}, {"cycles": np.array([0, 1], np.uint32)}):
        r = compiled(2, 1)
        made = attempt(lambda: r.offer_block(block([1, 2], **kw)))
        ctx.equal(made[0], "refused", "records of a later cycle lost their cycle")
        ctx.equal(stats(r)[0], 0, "a refused offer changed the buffer")
        ctx.step()
    for values in ([1.5], [-1], np.array([[1]], np.uint64), np.arange(6, dtype=np.uint64)[::2], np.array([1], np.int64)):
        from dataset.packed import PackedRecordBlock

        ctx.equal(attempt(lambda: PackedRecordBlock(np.asarray(values)))[0], "refused", "ids were converted silently",
                  values=str(values))
