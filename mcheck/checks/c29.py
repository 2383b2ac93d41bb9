"""Batches staged onto a simulated accelerator: every order in which the host, the copy stream and the compute stream can
make progress, for every look-ahead, an error or an abandonment at every batch, and repeated epochs; the compute stream
reads every delivered batch late and the values it saw are compared with the host batches. Device memory that was given
up is overwritten as soon as its allocator may reuse it."""
import gc
import os
import weakref
from types import SimpleNamespace

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

from mcheck import fixtures as F
from mcheck import train as T
from mcheck.sched import First, Tape
from mcheck.simcuda import DevTensor, Sim

LEVEL = "model_checking"
RULE = __doc__
PRELOAD = ("torch", "dataset", "trainer")
SCENARIO_LIMIT = 600
ASSUMPTIONS = [
    "the accelerator is simulated: streams execute in order, asynchronously to the host and to each other, ordered only "
    "by the events and waits the code issues; a freed block may be reused at once by its allocating stream and, after "
    "record_stream, only behind the work the recorded stream held when it was freed",
    "host memory is guarded by the pinned allocator (except for the look-ahead wrapper, which promises to hold it)",
]
HELD = ("prefetch1", "prefetch2", "prefetch3", "prefetch4")
KINDS = ("slot",) + HELD


def scenarios(tier):
    deep = tier == "thorough"
    for kind in KINDS + ("plain", "observed"):
        for shape in ("envelope", "numpy", "dict", "planned", "nested"):
            if shape == "nested" and kind == "slot":
                continue
            for stats in (False, True):
                if stats and kind in ("plain",) or not stats and kind == "observed":
                    continue
                for end in ("all", "terminal", "leave", "error"):
                    if end == "terminal" and shape == "dict":
                        continue
                    main = shape == "envelope" and (not stats or kind == "observed")
                    batches = (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 5) if main else (2, 5)
                    bound = (5 if deep else 3) if main else (2 if deep else 1)
                    for n in batches:
                        for at in range(n) if end in ("leave", "error") else (n,):
                            if not deep and n == 5 and end in ("leave", "error") and at not in (2, 4):
                                continue
                            yield "staging", {"kind": kind, "shape": shape, "stats": stats, "end": end, "n": n,
                                              "at": at, "bound": min(bound, 4 if deep else 2) if n > 1 else bound,
                                              "epochs": 2 if n < 3 and end != "error" else 1}
    for kind in KINDS:
        yield "failing", {"kind": kind}
    for kind in HELD + ("slot", "plain", "observed"):
        yield "stream", {"kind": kind}
    yield "schema", {}
    yield "options", {}
    for variant in ("plain", "accumulate2", "accumulate3", "codebook", "codebook_accumulate", "teacher", "teacher_train",
                    "clip_norm", "validated", "logged"):
        for kind in ("batched", "simple", "composite") if deep else ("batched", "simple")[:2 if variant != "logged" else 1]:
            yield "training", {"kind": kind, "variant": variant}


def prepare(tier):
    T.warm(vq=True)
    import torch._dynamo  # noqa: F401


class Poison:
    def __repr__(self):
        return "reused device memory"


POISON = Poison()


class Device(TorchFunctionMode):
    """Transfers to the simulated device, and its memory."""

    def __init__(self, sim, hold):
        super().__init__()
        self.sim, self.hold = sim, hold
        self.owner = {}
        self.copies = 0  # still outstanding
        self.blocks = []

    def own(self, obj):
        t = torch.as_tensor(obj)
        self.owner[t.data_ptr()] = weakref.ref(obj)

    def make(self, shape, dtype):
        t = self.sim.tensor("uninitialised")
        t.meta = (tuple(shape), dtype)
        t.uses = []
        weakref.finalize(t, self.freed, t.cell, t.uses, self.sim.stream_of())
        self.blocks.append(t.cell)
        return t

    def freed(self, cell, uses, stream):
        target = uses[-1] if uses else stream
        target.push(lambda: cell.__setitem__(0, POISON))

    def copy(self, dst, src, blocking):
        ref = weakref.ref(src)
        owner = self.owner.get(src.data_ptr())
        value = src.clone()
        cell = dst.cell
        done = []
        self.copies += 1

        def run():
            alive = not self.hold or ref() is not None or owner is not None and owner() is not None
            cell[0] = value if alive else "freed host memory"
            self.copies -= 1
            done.append(1)

        self.sim.stream_of().push(run)
        if blocking:
            self.sim.point(lambda: bool(done))

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", "")
        if name in ("to", "cuda") and args and not isinstance(args[0], DevTensor):
            target = kwargs.get("device", args[1] if len(args) > 1 else "cuda" if name == "cuda" else None)
            if isinstance(target, (str, torch.device)) and torch.device(target).type == "cuda":
                with torch._C.DisableTorchFunction():
                    dst = self.make(args[0].shape, args[0].dtype)
                    self.copy(dst, args[0], not kwargs.get("non_blocking", False))
                return dst
        if name in ("empty", "zeros", "empty_like", "zeros_like") and torch.device(kwargs.get("device") or "cpu").type == "cuda":
            with torch._C.DisableTorchFunction():
                like = args[0] if name.endswith("_like") else torch.empty(*args, device="meta")
                return self.make(like.shape, kwargs.get("dtype") or like.dtype)
        if name == "copy_" and isinstance(args[0], DevTensor) and not isinstance(args[1], DevTensor):
            with torch._C.DisableTorchFunction():
                self.copy(args[0], args[1], not (kwargs.get("non_blocking", False) or len(args) > 2 and args[2]))
            return args[0]
        if name == "is_pinned":
            return True
        return func(*args, **kwargs)


class Delays:
    """At most so many departures from the default schedule, which lets the host run until it has to wait and then the
    first (or the last) stream that can go on."""

    def __init__(self, tape, budget, backwards):
        self.tape, self.budget, self.backwards = tape, budget, backwards

    def choose(self, n):
        if not self.budget:
            return 0
        got = self.tape.choose(n)
        self.budget -= bool(got)
        return got


def drain(sim):
    while True:
        ready = [s for s in sim.streams if s.executable()]
        if not ready:
            return
        if getattr(sim.tape, "backwards", False):
            ready.reverse()
        ready[sim.tape.choose(len(ready)) if len(ready) > 1 else 0].execute()


def host_batch(shape, k, last, device):
    """(what the source yields, what must arrive, is_real)"""
    from dataset.stream import BatchEnvelope

    planes = torch.arange(6, dtype=torch.float32).reshape(2, 3) + 10 * k
    value = torch.full((2,), k, dtype=torch.int64)
    mask = torch.tensor([True, k % 2 == 0])
    data = {"planes": planes, "value": value}
    wanted = {"planes": planes.clone(), "value": value.clone()}
    if shape == "numpy":
        data, mask = {key: v.numpy().copy() for key, v in data.items()}, mask.numpy().copy()
    if shape == "nested":
        data = {"planes": planes, "more": [value, {"inner": value + 1}]}
        wanted = {"planes": planes.clone(), "more": [value.clone(), {"inner": value + 1}]}
    flat = []
    leaves(data, flat)
    for leaf in flat + [mask]:
        device.own(leaf)
    real = torch.as_tensor(mask).clone()
    if shape == "dict":
        return data, wanted, None
    token = SimpleNamespace(number=k, is_last=last)
    if shape == "planned":
        token = SimpleNamespace(number=k, batch=SimpleNamespace(is_last=last))
    return BatchEnvelope(data, token, mask, (("key", k),)), wanted, real


def leaves(value, out):
    if isinstance(value, dict):
        for v in value.values():
            leaves(v, out)
    elif isinstance(value, (list, tuple)):
        for v in value:
            leaves(v, out)
    else:
        out.append(value)


def shape_of(value):
    if isinstance(value, dict):
        return {k: shape_of(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [shape_of(v) for v in value]
    return None


class Source:
    """The host side: hands out batches and records how it is used."""

    def __init__(self, sim, device, shape, n, end, at, epoch, consumer):
        self.__dict__.update(sim=sim, device=device, shape=shape, n=n, end=end, at=at, epoch=epoch, consumer=consumer)
        self.fetched = 0
        self.wanted = []
        self.closed = 0
        self.outstanding = None
        self.beyond = False
        self.deepest = 0
        self.dataset = SimpleNamespace(pipeline_stats=None)

    def __iter__(self):
        try:
            for k in range(self.n):
                self.sim.point()
                if self.end == "error" and k == self.at:
                    raise LookupError(f"batch {k} cannot be read")
                self.fetched += 1
                self.deepest = max(self.deepest, self.fetched - self.consumer.asked)
                last = self.end == "terminal" and k == self.n - 1
                made = host_batch(self.shape, 100 * self.epoch + k, last, self.device)
                self.wanted.append(made[1:])
                out = made[0]
                made = None
                yield out
                out = None
                if last and self.consumer.asked <= self.fetched:
                    self.beyond = True
        except GeneratorExit:
            self.outstanding = self.device.copies
            raise
        finally:
            self.closed += 1


class Consumer:
    """The training thread: enqueues two reads of every batch on the compute stream and goes on."""

    def __init__(self, sim):
        self.sim = sim
        self.asked = 0
        self.seen = []
        self.cells = []

    def take(self, batch):
        from dataset.stream import BatchEnvelope

        data = batch.data if isinstance(batch, BatchEnvelope) else batch
        flat = []
        leaves(data, flat)
        mask = batch.is_real if isinstance(batch, BatchEnvelope) else None
        record = {"shape": shape_of(data), "first": [], "second": [], "mask": [],
                  "token": getattr(batch, "token", None), "keys": getattr(batch, "sample_keys", None),
                  "placed": all(isinstance(x, DevTensor) for x in flat + ([mask] if mask is not None else []))}
        self.seen.append(record)
        if not record["placed"]:
            return
        cells = [x.cell for x in flat]
        self.cells.append([id(c) for c in cells] + ([id(mask.cell)] if mask is not None else []))
        record["held"] = cells  # so that identities stay unique
        stream = torch.cuda.current_stream()
        stream.push(lambda: record["first"].extend(c[0] for c in cells))
        if mask is not None:
            cell = mask.cell
            stream.push(lambda: record["mask"].append(cell[0]))
        stream.record_event()
        stream.push(lambda: record["second"].extend(c[0] for c in cells))


def wrap(kind, source, stats):
    from utils import training_utils as U

    device = torch.device("cuda", 0)
    if kind == "slot":
        return U.StaticSlotLoaderWrapper(source, device, pipeline_stats=stats)
    if kind == "plain":
        return U.DeviceLoaderWrapper(source, device)
    if kind == "observed":
        return U.ObservedDeviceLoaderWrapper(source, device, stats)
    return U.CudaPrefetchLoaderWrapper(source, device, prefetch_batches=int(kind[-1]), pipeline_stats=stats)


class patched:
    """mark_static_address on simulated tensors."""

    def __enter__(self):
        import torch._dynamo as D

        self.real, self.module, self.marked = D.mark_static_address, D, []
        D.mark_static_address = lambda t, *a, **k: self.marked.append(t)
        return self

    def __exit__(self, *exc):
        self.module.mark_static_address = self.real


def same(a, b):
    return isinstance(a, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())


def staging(ctx, kind, shape, stats, end, n, at, bound, epochs):
    runs = 0
    for backwards in (False, True):
        tape = Tape()
        while True:
            one_run(ctx, tape, backwards, kind, shape, stats, end, n, at, bound, epochs)
            runs += 1
            ctx.step()
            if not tape.advance():
                break
            if runs >= (60000 if ctx.thorough else 5000):
                ctx.tag("schedule limit")
                break
    ctx.state(("schedules", kind, shape, end, n, at, stats, runs))


class Switch:
    """A loader that hands out the source of the current epoch."""

    def __init__(self):
        self.dataset = SimpleNamespace(pipeline_stats=None)
        self.current = None

    def __iter__(self):
        return iter(self.current)


def one_run(ctx, tape, backwards, kind, shape, stats, end, n, at, bound, epochs):
    from dataset.telemetry import PipelineStats

    sim = Sim(Delays(tape, bound, backwards))
    sim.backwards = backwards
    device = Device(sim, kind in HELD)
    counters = PipelineStats() if stats else None
    ahead = int(kind[-1]) if kind in HELD else 0
    info = dict(kind=kind, source=shape, stats=stats, end=end, batches=n, at=at)
    runs = []
    with sim.installed(), device, patched():
        switch = Switch()
        loader = wrap(kind, switch, counters)
        for epoch in range(epochs):
            consumer = Consumer(sim)
            source = switch.current = Source(sim, device, shape, n, end, at, epoch, consumer)
            runs.append((consumer, source))
            iterator = iter(loader)
            failed = None
            try:
                while True:
                    if end == "leave" and consumer.asked == at + 1:
                        sim.point()
                        iterator.close()
                        break
                    consumer.asked += 1
                    batch = next(iterator)
                    consumer.take(batch)
                    batch = None
                    sim.point()
            except StopIteration:
                failed = "finished"
            except LookupError as exc:
                failed = str(exc)
            del iterator
            info = dict(kind=kind, source=shape, stats=stats, end=end, batches=n, at=at, epoch=epoch)
            if source.closed != 1:
                gc.collect()
            ctx.check(source.closed == 1, "the underlying loader was not closed when the iteration ended",
                      closed=source.closed, **info)
            if kind in KINDS:
                ctx.check(device.copies == 0, "a copy is still outstanding after the iteration ended",
                          copies=device.copies, **info)
                ctx.check(not source.outstanding, "the underlying loader was closed while copies of its batches were "
                          "outstanding", copies=source.outstanding, **info)
            if end == "error":
                ctx.equal(failed, f"batch {at} cannot be read", "the loader's error was not passed on", **info)
            elif end != "leave":
                ctx.equal(failed, "finished", "iteration did not end with the source", **info)
                ctx.equal(len(consumer.seen), n, "the number of delivered batches differs", **info)
            else:
                ctx.equal(len(consumer.seen), at + 1, "the number of delivered batches differs", **info)
            ctx.check(source.deepest <= ahead, "the source was read further ahead than configured",
                      ahead=source.deepest, **info)
            ctx.check(not source.beyond, "the source was asked for more after its last batch", **info)
        drain(sim)
        for epoch, (consumer, source) in enumerate(runs):
            info["epoch"] = epoch
            for k, record in enumerate(consumer.seen):
                judge(ctx, record, source.wanted[k], 100 * epoch + k, shape, dict(info, number=k))
        if kind == "slot":
            cells = [tuple(c) for consumer, _ in runs for c in consumer.cells]
            ctx.check(len(set(cells)) <= 1, "the staging slots moved although compiled steps replay against them", **info)
    ctx.state((kind, shape, end, n, at, tuple(v for v, _ in tape.used)))


def judge(ctx, record, wanted, number, shape, info):
    data, mask = wanted
    flat = []
    leaves(data, flat)
    ctx.check(record["placed"], "a delivered value is not on the device", **info)
    ctx.equal(record["shape"], shape_of(data), "the delivered structure differs", **info)
    for name in ("first", "second"):
        got = record[name]
        ctx.check(len(got) == len(flat) and all(same(a, b) for a, b in zip(got, flat)),
                  "the step saw values other than its batch's", read=name, got=[str(x) for x in got],
                  wanted=[str(x) for x in flat], **info)
    if mask is not None:
        ctx.check(len(record["mask"]) == 1 and same(record["mask"][0], mask), "the step saw another row mask",
                  got=[str(x) for x in record["mask"]], wanted=str(mask), **info)
        ctx.equal(getattr(record["token"], "number", None), number, "the batch carries another token", **info)
        ctx.equal(record["keys"], (("key", number),), "the batch carries other sample keys", **info)


# failures -------------------------------------------------------------------------------------------------------------

class DeviceFailure(RuntimeError):
    pass


def failing(ctx, kind):
    """The device fails asynchronously (seen when a stream is synchronised), the loader's close fails, or both."""
    for n in (2, 4):
        for end in ("all", "terminal", "leave", "error"):
            for at in range(n) if end in ("leave", "error") else (n,):
                for what in (("device",), ("close",), ("device", "close")):
                    run_failing(ctx, kind, n, end, at, what)


def run_failing(ctx, kind, n, end, at, what):
    sim = Sim(First())
    device = Device(sim, False)
    info = dict(kind=kind, batches=n, end=end, at=at, failures=what)

    class Loader(Source):
        """An iterator object with a close method, as a data loader may return."""

        def __iter__(self):
            self.inner = Source.__iter__(self)
            return self

        def __next__(self):
            return next(self.inner)

        def close(self):
            self.inner.close()
            self.shut = True
            if "close" in what:
                raise OSError("cannot close")

    class Failing:
        armed = False

    real = type(sim.compute).synchronize

    def synchronize(stream):
        real(stream)
        if Failing.armed and "device" in what:
            raise DeviceFailure("device lost")

    with sim.installed(), device, patched():
        consumer = Consumer(sim)
        source = Loader(sim, device, "envelope", n, end, at, 0, consumer)
        source.shut = False
        loader = wrap(kind, source, None)
        type(sim.compute).synchronize = synchronize
        try:
            iterator = iter(loader)
            failed = None
            try:
                while True:
                    if end == "leave" and consumer.asked == at + 1:
                        Failing.armed = True
                        iterator.close()
                        break
                    if consumer.asked == (at if end == "error" else n) or end == "error":
                        Failing.armed = True
                    consumer.asked += 1
                    consumer.take(next(iterator))
            except StopIteration:
                pass
            except Exception as exc:
                failed = exc
        finally:
            type(sim.compute).synchronize = real
        ctx.check(failed is not None, "a failure was swallowed", **info)
        if failed is not None and "device" in what:
            chain, seen = failed, []
            while chain is not None:
                seen.append(type(chain).__name__)
                chain = chain.__cause__ or chain.__context__
            ctx.check("DeviceFailure" in seen, "the device's failure was lost", chain=seen, **info)
        ctx.check(source.shut, "the underlying loader was not closed", **info)
        # the error's traceback must not be what keeps it closed or open
        failed = None
        drain(sim)
    ctx.step()
    ctx.state(("failing", kind, n, end, at, what))


def schema(ctx):
    """A batch of another layout is refused, never delivered from slots of the first one's layout."""
    from dataset.stream import BatchEnvelope

    base = lambda k: {"a": torch.full((2, 3), float(k)), "b": torch.full((2,), k)}
    others = {
        "shape": {"a": torch.ones(2, 4), "b": torch.ones(2, dtype=torch.int64)},
        "smaller": {"a": torch.ones(1, 3), "b": torch.ones(1, dtype=torch.int64)},
        "broadcast": {"a": torch.ones(1, 3), "b": torch.ones(2, dtype=torch.int64)},
        "type": {"a": torch.ones(2, 3, dtype=torch.float64), "b": torch.ones(2, dtype=torch.int64)},
        "missing": {"a": torch.ones(2, 3)},
        "renamed": {"a": torch.ones(2, 3), "c": torch.ones(2, dtype=torch.int64)},
        "extra": {"a": torch.ones(2, 3), "b": torch.ones(2, dtype=torch.int64), "c": torch.ones(2)},
        "exchanged": {"b": torch.ones(2, 3), "a": torch.ones(2, dtype=torch.int64)},
        "list": [torch.ones(2, 3)],
        "nested": {"a": torch.ones(2, 3), "b": [torch.ones(2, dtype=torch.int64)]},
    }
    for name, odd in others.items():
        for where in (1, 2):
            for fresh in (False, True):
                for envelope in (True, False):
                    sim = Sim(First())
                    device = Device(sim, False)
                    closed = []

                    def batch(k):
                        data = odd if k == where else base(k)
                        return BatchEnvelope(data, SimpleNamespace(is_last=False), torch.ones(2, dtype=torch.bool), ()) \
                            if envelope else data

                    def source(start, stop):
                        try:
                            for k in range(start, stop):
                                yield batch(k)
                        finally:
                            closed.append(1)

                    with sim.installed(), device, patched():
                        switch = Switch()
                        loader = wrap("slot", switch, None)
                        spans = [(0, where), (where, where + 2)] if fresh else [(0, where + 2)]
                        got, failed = 0, None
                        for span in spans:
                            switch.current = source(*span)
                            try:
                                for item in loader:
                                    got += 1
                                    item = None
                            except Exception as exc:
                                failed = exc
                            switch.current = None
                        ctx.check(failed is not None and got == where, "a batch of another layout was delivered",
                                  layout=name, where=where, fresh=fresh, envelope=envelope, delivered=got)
                        failed = None
                        ctx.equal(len(closed), len(spans), "the loader was not closed after a refusal", layout=name,
                                  where=where)
                        drain(sim)
                    ctx.step()
                    ctx.state(("schema", name, where, fresh, envelope))


def options(ctx):
    """Look-ahead depths outside 1..4 and other devices are refused."""
    from utils import training_utils as U

    sim = Sim(First())
    with sim.installed():
        for depth in (0, -1, 5, 100, True, 1.0, "1", None):
            ctx.raises(lambda: U.CudaPrefetchLoaderWrapper([], torch.device("cuda"), prefetch_batches=depth),
                       "an unsupported look-ahead was accepted", kinds=(ValueError, TypeError), depth=repr(depth))
        ctx.raises(lambda: U.CudaPrefetchLoaderWrapper([], torch.device("cpu")), "look-ahead on the CPU was accepted",
                   kinds=(ValueError,))
    root = ctx.mkdir("options")
    kind, paths, opts = F.make("batched", os.path.join(root, "data"), (4, 3))
    data = dict(dataset_type=kind, train_datas=paths, dataset_args=opts)
    for depth in (1, 4):
        ctx.raises(lambda: T.make(os.path.join(root, f"d{depth}"), cuda_prefetch_batches=depth, **data),
                   "look-ahead without an accelerator was accepted", kinds=(ValueError,), depth=depth)
    for depth in (-1, 5, True, 1.5, "1", None):
        ctx.raises(lambda: T.make(os.path.join(root, "bad"), cuda_prefetch_batches=depth, **data),
                   "an unsupported look-ahead was accepted", kinds=(ValueError, TypeError), depth=repr(depth))
    ctx.state("options")


# real datasets --------------------------------------------------------------------------------------------------------

def stream(ctx, kind):
    """A real resumable dataset behind each wrapper: whatever was staged but not consumed is delivered again."""
    from dataset.telemetry import PipelineStats

    for dataset in ("processed", "batched", "sparse") + (("simple",) if kind != "slot" else ()):
        for batch in (1, 2, 3):
            root = ctx.mkdir(f"{dataset}{batch}")
            spec = F.make(dataset, root, (4, 3, 2))

            def opened():
                return F.build(spec, F.context(batch), shuffle=True, steps_per_epoch=5)

            ds = opened()
            wanted = []
            for _ in range(3):
                for env in ds:
                    wanted.append(content(env.data))
                    F.commit(ds, env)
            F.close(ds)
            for leave in range(1, 7):
                sim = Sim(First())
                device = Device(sim, False)
                ds = opened()
                got = []
                with sim.installed(), device, patched():
                    loader = wrap(kind, ds, PipelineStats() if kind == "observed" else None)
                    for part in range(5):
                        iterator = iter(loader)
                        count = 0
                        for env in iterator:
                            drain(sim)
                            got.append(content({k: v.cell[0] if isinstance(v, DevTensor) else v for k, v in env.data.items()}))
                            F.commit(ds, env)
                            count += 1
                            env = None
                            if count == leave and part % 2 == 0:
                                break
                        if hasattr(iterator, "close"):
                            iterator.close()
                        iterator = None
                        if len(got) >= 12:
                            break
                    drain(sim)
                F.close(ds)
                short = min(len(got), len(wanted))
                ctx.check(short >= 5, "the wrapped dataset stopped early", delivered=len(got), wrapper=kind,
                          dataset=dataset, batch=batch, leave=leave)
                ctx.equal(got[:short], wanted[:short], "a wrapped dataset delivered another sequence of batches",
                          wrapper=kind, dataset=dataset, batch=batch, leave=leave)
                ctx.step(len(got))
                ctx.state((kind, dataset, batch, leave))


def content(data):
    import hashlib

    h = hashlib.sha256()
    for k in sorted(data):
        v = data[k]
        if not isinstance(v, (torch.Tensor, np.ndarray)):
            h.update(repr((k, v)).encode())
            continue
        a = np.ascontiguousarray(torch.as_tensor(v).numpy())
        h.update(repr((k, a.dtype.str, a.shape)).encode() + a.tobytes())
    return h.hexdigest()


# the trainer ----------------------------------------------------------------------------------------------------------

class Slots:
    """The same tensors for every batch; their contents are destroyed as soon as the next batch is asked for."""

    def __init__(self, dataloader, device, *args, **kwargs):
        self.dataloader, self.device = dataloader, device
        self.slots = {}

    @property
    def dataset(self):
        return self.dataloader.dataset

    def __iter__(self):
        from dataclasses import replace

        from dataset.stream import BatchEnvelope

        source = iter(self.dataloader)
        try:
            while True:
                try:
                    batch = next(source)
                except StopIteration:
                    return
                envelope = isinstance(batch, BatchEnvelope)
                data = dict(batch.data if envelope else batch)
                if envelope:
                    data["__mask"] = torch.as_tensor(batch.is_real)
                placed = {}
                for k, v in data.items():
                    v = torch.as_tensor(v) if not isinstance(v, (list, str)) else v
                    if not isinstance(v, torch.Tensor):
                        placed[k] = v
                        continue
                    slot = self.slots.get((k, tuple(v.shape), v.dtype))
                    if slot is None:
                        slot = self.slots[(k, tuple(v.shape), v.dtype)] = torch.empty_like(v)
                    slot.copy_(v)
                    placed[k] = slot
                mask = placed.pop("__mask", None)
                yield replace(batch, data=placed, is_real=mask) if envelope else placed
                with torch.no_grad():
                    for slot in self.slots.values():
                        slot.fill_(float("nan") if slot.is_floating_point() else
                                   False if slot.dtype == torch.bool else 77)
        finally:
            if hasattr(source, "close"):
                source.close()


def training(ctx, kind, variant):
    """Training on slots whose contents vanish as soon as the next batch is asked for gives the same run."""
    import trainer.base as B

    from mcheck.checks import c22

    root, options = c22.setup(ctx, kind, variant)
    reference, end, _ = c22.go(os.path.join(root, "plain"), options)
    real = B.DeviceLoaderWrapper
    made = []

    def first(*args, **kwargs):  # only the training loader is staged in slots
        made.append(1)
        return (Slots if len(made) == 1 else real)(*args, **kwargs)

    B.DeviceLoaderWrapper = first
    try:
        trail, final, _ = c22.go(os.path.join(root, "slots"), options)
    finally:
        B.DeviceLoaderWrapper = real
    ctx.tag("loaders wrapped", len(made))
    c22.compare(ctx, trail, reference, "staging in slots", kind=kind, variant=variant)
    ctx.equal(sorted(trail.steps), sorted(reference.steps), "the steps made differ")
    ctx.equal(final, end, "training depends on a batch after asking for the next one", kind=kind, variant=variant)
    ctx.step(len(trail.steps))
    ctx.state((kind, variant, len(made)))
