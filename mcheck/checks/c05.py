"""The prefetching loader under a controlled thread pool: every choice of which running decode job finishes next,
before or after the consumer's next step, is enumerated; the consumer's view must equal the synchronous loader's."""
import threading
import time

from mcheck import fixtures as F
from mcheck.sched import First, Pool, Tape, controlled

LEVEL = "model_checking"
ASSUMPTIONS = [
    "decode jobs are atomic for the scheduler (interleavings inside one decode are explored by C11)",
    "1..3 workers, depth 1..5, epochs of 3..5 batches; one run per configuration also uses real threads",
]


def scenarios(tier):
    deep = tier == "thorough"
    for kind in ("batched", "batched+mixed"):
        for workers, depth in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (2, 4), (1, 5), (3, 5)):
            for opts in ({}, {"observability": True}, {"steps_per_epoch": 2}):
                yield "schedules", {"kind": kind, "workers": workers, "depth": depth, "opts": opts,
                                    "layout": (5, 5) if deep else (4, 4), "limit": 90000 if deep else 20000}
            yield "abandon", {"kind": kind, "workers": workers, "depth": depth, "limit": 90000 if deep else 20000,
                              "layout": (5, 5) if deep else (4, 4)}
            yield "errors", {"kind": kind, "workers": workers, "depth": depth, "limit": 90000 if deep else 20000,
                             "layout": (5, 5) if deep else (4, 4)}
            yield "threads", {"kind": kind, "workers": workers, "depth": depth}
        yield "schedules", {"kind": kind, "workers": 2, "depth": 3, "opts": {}, "layout": (4, 4), "limit": 6000,
                            "mode": "validate"}
        yield "schedules", {"kind": kind, "workers": 2, "depth": 3, "opts": {}, "layout": (3, 3, 2), "limit": 6000,
                            "world": 2}
        for workers, depth in ((1, 5), (2, 5), (1, 7), (4, 9)):
            yield "schedules", {"kind": kind, "workers": workers, "depth": depth, "opts": {}, "sparse": True,
                                "layout": (12, 10), "limit": 90000 if deep else 20000}
        yield "pipelines", {"kind": kind}
    yield "manifests", {}


def maker(ctx, kind, layout, batch=2, mode="train", world=1, rank=0, opts=None):
    spec = F.make(kind, ctx.mkdir("data"), tuple(layout))
    F.register_pipelines()

    def new(workers, depth, pipelines=None):
        return F.build(spec, F.context(batch, mode=mode, world=world, rank=rank), shuffle=mode == "train",
                       shuffle_window_size=3, pipeline_args=pipelines, prefetch_threads=workers,
                       prefetch_batches=depth, **(opts or {}))

    return new


def reference(new, mode, epochs):
    ds = new(0, 1)
    s = F.stream(ds)
    out, states = [], [s.state_dict()]
    for _ in range(epochs):
        for env in ds:
            out.append((F.batch_repr(env), env.token.coordination_descriptor))
            if mode == "train":
                F.commit(ds, env)
            states.append(s.state_dict())
    F.close(ds)
    return out, states


class Watch:
    """Counts batches planned by the stream against batches handed to the consumer."""

    def __init__(self, ctx, s, depth):
        self.ctx, self.depth, self.planned, self.delivered = ctx, depth, 0, 0
        real = s.next_transactional_batch

        def counted(*a, **k):
            result = real(*a, **k)
            if result is not None:
                self.planned += 1
                # one batch of look-ahead tells whether a batch is the last (the synchronous loader has it too)
                ctx.check(self.planned - self.delivered <= depth + 1, "more batches planned than the prefetch depth",
                          planned=self.planned, delivered=self.delivered, depth=depth)
            return result

        s.next_transactional_batch = counted


def workers_ok(ctx, workers):
    for pool in Pool.pools:
        ctx.check(pool.max_workers <= max(workers, 1), "more worker threads than configured", got=pool.max_workers)
        ctx.check(pool.closed and all(j.done() for j in pool.jobs), "a decode job outlives the iteration")


def explore(ctx, limit, body, sparse=False):
    """Run body once per schedule; returns the number of schedules."""
    tape = Tape()
    count = 0
    orders = set()
    with controlled():
        while True:
            Pool.tape = tape
            Pool.pools = []
            Pool.eager = not sparse
            body()
            count += 1
            ctx.trace()
            orders.add(tuple(tuple(p.order) for p in Pool.pools))
            if not tape.advance():
                ctx.tag("exhausted")
                break
            if count >= limit:
                ctx.tag("schedule limit reached")
                break
    for o in orders:
        ctx.state(repr(ctx.scenario), o)
    ctx.tag("schedules", count)
    return count


def schedules(ctx, kind, workers, depth, opts, layout, limit, mode="train", world=1, sparse=False):
    """With `sparse`, only the decode jobs the consumer waits for run (long epochs, to reach the depth bound)."""
    for rank in range(world):
        new = maker(ctx, kind, layout, mode=mode, world=world, rank=rank, batch=2 if world == 1 else 1, opts=opts)
        ref, states = reference(new, mode, 1)
        ds = new(workers, depth)
        s = F.stream(ds)
        start = s.state_dict()
        jobs = []

        def body():
            s.load_state_dict(start)
            watch = Watch(ctx, s, depth)
            got = []
            for env in ds:
                watch.delivered += 1
                got.append((F.batch_repr(env), env.token.coordination_descriptor))
                if Pool.pools and not sparse:
                    Pool.pools[-1].point()
                if mode == "train":
                    F.commit(ds, env)
                ctx.check(s.state_dict() == states[len(got)], "committed state differs", position=len(got))
                ctx.step()
            del s.next_transactional_batch
            ctx.equal([g[0] for g in got], [r[0] for r in ref], "prefetching changed the batches",
                      order=[p.order for p in Pool.pools])
            ctx.equal([g[1] for g in got], [r[1] for r in ref], "prefetching changed the tokens")
            workers_ok(ctx, workers)
            jobs.append(sum(len(p.jobs) for p in Pool.pools))

        explore(ctx, limit, body, sparse)
        ctx.sample({"batches": len(ref), "jobs": jobs[:1]})
        F.close(ds)


def abandon(ctx, kind, workers, depth, limit, layout):
    """The consumer stops after any number of batches, having committed any number of them."""
    new = maker(ctx, kind, layout)
    ref, states = reference(new, "train", 1)
    for stop in range(1, len(ref)):
        for commits in range(stop + 1):
            ds = new(workers, depth)
            s = F.stream(ds)
            start = s.state_dict()

            def body():
                s.load_state_dict(start)
                it = iter(ds)
                got = [next(it) for _ in range(stop)]
                for env in got[:commits]:
                    F.commit(ds, env)
                if Pool.pools:
                    Pool.pools[-1].point()
                it.close()
                workers_ok(ctx, workers)
                ctx.check(s.state_dict() == states[commits], "abandoning moved the committed position")
                rest = []
                Pool.tape = First
                for env in ds:
                    rest.append((F.batch_repr(env), env.token.coordination_descriptor))
                    F.commit(ds, env)
                ctx.equal(rest, ref[commits:], "the iteration after an abandoned one differs", stop=stop,
                          commits=commits)
                ctx.step(stop + len(rest))

            explore(ctx, limit, body)
            F.close(ds)


class Injected(OSError):
    pass


def errors(ctx, kind, workers, depth, limit, layout):
    """One record cannot be decoded (once): the error arrives after the earlier batches, then the epoch goes on."""
    new = maker(ctx, kind, layout)
    ref, states = reference(new, "train", 1)
    keys = [r[0][4] for r in ref]
    for bad in range(len(ref)):
        ds = new(workers, depth)
        s = F.stream(ds)
        start = s.state_dict()
        armed = []

        def wrap(name):
            real = getattr(ds._record_source, name, None)
            if real is None:
                return

            def hooked(batches, *a, **k):
                if armed:
                    groups = batches if name.endswith("batches_with_keys") or name.endswith("batches") else [batches]
                    for group in groups:
                        if tuple(e.record_key for e in group) == tuple(keys[bad]):
                            armed.clear()
                            raise Injected("bad record")
                return real(batches, *a, **k)

            setattr(ds._record_source, name, hooked)

        for name in ("materialize_batch", "materialize_batches", "materialize_batch_with_keys",
                     "materialize_batches_with_keys"):
            wrap(name)

        def body():
            s.load_state_dict(start)
            armed[:] = [1]
            got = []
            failed = False
            try:
                for env in ds:
                    got.append((F.batch_repr(env), env.token.coordination_descriptor))
                    F.commit(ds, env)
            except Injected:
                failed = True
            ctx.check(failed, "a failing decode job was swallowed", bad=bad)
            workers_ok(ctx, workers)
            ctx.equal(got, ref[: len(got)], "batches before the failing one differ", bad=bad)
            first = bad
            for pool in Pool.pools[:1]:  # batches decoded by the same job as the bad one are lost with it
                for job in pool.jobs:
                    if job.error is not None:
                        sizes = [len(j.args[-1]) for j in pool.jobs[: pool.jobs.index(job)]]
                        first = sum(sizes)
            ctx.check(first <= len(got) <= bad, "batches of earlier jobs were not delivered before the error", bad=bad,
                      delivered=len(got), expected=first)
            ctx.check(s.state_dict() == states[len(got)], "a failure moved the committed position")
            Pool.tape = First
            for env in ds:
                got.append((F.batch_repr(env), env.token.coordination_descriptor))
                F.commit(ds, env)
            ctx.equal(got, ref, "the epoch continued after an error differs", bad=bad)
            ctx.step(len(got))

        explore(ctx, limit, body)
        F.close(ds)


def threads(ctx, kind, workers, depth):
    """The same comparison on the real thread pool, with decode jobs delayed so that later ones finish first."""
    for opts in ({}, {"observability": True}):
        new = maker(ctx, kind, (5, 4), opts=opts)
        ref, states = reference(new, "train", 2)
        for pattern in range(4):
            ds = new(workers, depth)
            s = F.stream(ds)
            source = ds._record_source
            lock, calls = threading.Lock(), [0]
            for name in ("materialize_batches_with_keys", "materialize_batches", "materialize_batch_with_keys",
                         "materialize_batch"):
                real = getattr(source, name, None)
                if real is None:
                    continue

                def slow(*a, _real=real, **k):
                    with lock:
                        n = calls[0]
                        calls[0] += 1
                    time.sleep(0.004 * ((n ^ pattern) % 3 == pattern % 3))
                    return _real(*a, **k)

                setattr(source, name, slow)
                break
            before = threading.active_count()
            got = []
            for _ in range(2):
                for env in ds:
                    got.append((F.batch_repr(env), env.token.coordination_descriptor))
                    F.commit(ds, env)
                    ctx.check(s.state_dict() == states[len(got)], "committed state differs (threads)")
            ctx.equal(got, ref, "prefetching with real threads changed the batches")
            ctx.check(threading.active_count() <= before, "worker threads outlive the iteration")
            it = iter(ds)
            next(it)
            it.close()
            ctx.check(threading.active_count() <= before, "worker threads outlive an abandoned iteration")
            ctx.trace()
            ctx.step(len(got))
            F.close(ds)


def pipelines(ctx, kind):
    """Batch pipelines see the batches in order whatever prefetching was asked for."""
    pipe = {"mcheck_counter": {"salt": 1}, "mcheck_second": {}}
    new = maker(ctx, kind, (4, 4))

    def run(workers, depth):
        ds = new(workers, depth, pipe)
        out = []
        for _ in range(2):
            for env in ds:
                out.append(F.batch_repr(env))
                F.commit(ds, env)
        F.close(ds)
        return out

    ref = run(0, 1)
    for workers, depth in ((1, 1), (2, 3), (3, 4)):
        def body():
            ctx.equal(run(workers, depth), ref, "prefetching changed pipeline results", workers=workers)
            workers_ok(ctx, workers)

        explore(ctx, 500, body)


def manifests(ctx):
    """Files inspected by two workers at construction keep their configured order whichever finishes first."""
    new = maker(ctx, "batched", (3, 2, 4, 1), opts={"observability": False})
    ds = new(0, 1)
    s = F.stream(ds)
    expected = (s.state_dict()["signature"], [F.batch_repr(e) for e in F.epoch(ds)])
    F.close(ds)

    def body():
        ds = new(2, 1)
        s = F.stream(ds)
        ctx.equal(s.state_dict()["signature"], expected[0], "the manifest depends on the inspection order")
        F.close(ds)

    explore(ctx, 2000, body)
