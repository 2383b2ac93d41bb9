"""Every sequence of {produce, commit one, commit two, prepare, commit the earlier preparation, roll back} up to a
bounded depth is executed on real datasets and compared with a model whose whole state is (committed position,
number of outstanding batches).  After every operation all illegal requests are issued and must be refused
without effect."""
import itertools
import pickle

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "epochs of 1..4 batches, histories of at most 7 operations (8 in the thorough tier), one process",
    "tokens that were rolled back are not offered for commit again",
]
KINDS = ["processed", "processed+mixed", "raw", "sparse", "simple", "simple+mixed", "packed", "packed+mixed",
         "composite", "batched"]


def scenarios(tier):
    deep = tier == "thorough"
    for kind in KINDS:
        main = kind in ("processed", "processed+mixed", "packed")
        for probe in (True, False):
            depth = (7 if main else 6) + (1 if deep else 0) - (1 if probe else 0)
            for first in ("NN", "NC", "NA", "NP"):
                yield "explore", {"kind": kind, "depth": depth, "probe": probe, "prefix": first,
                                  "pipelines": kind != "batched", "steps": None, "prefetch": None}
        yield "explore", {"kind": kind, "depth": 5 + deep, "probe": True, "prefix": "N", "pipelines": True,
                          "steps": 1, "prefetch": None}
    for prefetch in ((1, 1), (2, 3)):
        for first in ("NN", "NC", "NA", "NP"):
            yield "explore", {"kind": "batched", "depth": 5 + deep, "probe": True, "prefix": first,
                              "pipelines": False, "steps": None, "prefetch": prefetch}
    for kind in KINDS:
        yield "failures", {"kind": kind}
        yield "evaluation", {"kind": kind}
    yield "foreign", {}


OPS = "NCDAPQ"


class Reference:
    """The uninterrupted run: batch at each position and committed state after each."""

    def __init__(self, new, count):
        ds = new()
        self.batches, self.states, self.start = [], [F.stream(ds).state_dict()], {}
        self.epoch_start = {}
        while len(self.batches) < count:
            k = len(self.batches)
            for env in ds:
                if len(self.batches) == k:
                    # the epoch has been entered: the committed state is now the start of this epoch
                    self.epoch_start[k] = F.stream(ds).state_dict()
                self.batches.append(F.batch_repr(env))
                F.commit(ds, env)
                self.states.append(F.stream(ds).state_dict())
        F.close(ds)


def setup(ctx, kind, pipelines, steps, prefetch, layout=(3, 3), batch=2, seed=3):
    F.register_pipelines()
    from dataset import planner

    planner.SOURCE_CHUNK_SIZE = 2
    spec = F.make(kind, ctx.mkdir("data"), layout)
    opts = {"shuffle_window_size": 2}
    if steps:
        opts["steps_per_epoch"] = steps
    if prefetch:
        opts.update(prefetch_threads=prefetch[0], prefetch_batches=prefetch[1])
    pipe = {"mcheck_counter": {"salt": 2}} if pipelines else None

    def new(mode="train", **extra):
        return F.build(spec, F.context(extra.pop("batch", batch), seed=extra.pop("seed", seed), mode=mode),
                       shuffle=True, pipeline_args=pipe, **{**opts, **extra})

    return new


class Run:
    """One real dataset driven by operations, mirrored by the model (base, outstanding)."""

    def __init__(self, ctx, new, ref, history):
        self.ctx, self.ref, self.history = ctx, ref, history
        self.ds = new()
        self.s = F.stream(self.ds)
        self.it = None
        self.done = False          # the current iterator has delivered its last batch
        self.base = 0              # committed batches
        self.out = []              # outstanding envelopes
        self.entered = {0}         # epoch starts that were entered
        self.prepared = None       # (candidate, base at preparation, number of tokens)

    def fail(self, message, **info):
        self.ctx.check(False, message, history="".join(self.history), **info)

    def expected_state(self):
        if self.base in self.ref.epoch_start and self.base in self.entered:
            return self.ref.epoch_start[self.base]
        return self.ref.states[self.base]

    def verify(self):
        if self.s.state_dict() != self.expected_state():
            self.fail("committed state is not the one of the committed position", base=self.base,
                      outstanding=len(self.out))

    def refused(self, fn, what):
        try:
            fn()
        except (RuntimeError, ValueError):
            return
        self.fail("an illegal request was accepted: " + what, base=self.base, outstanding=len(self.out))

    def legal(self, op):
        if op == "C":
            return len(self.out) >= 1
        if op == "D":
            return len(self.out) >= 2
        if op == "P":
            return len(self.out) >= 1 and self.prepared is None
        if op == "Q":
            return self.prepared is not None
        return True

    def apply(self, op):
        pos = self.base + len(self.out)
        if op == "N":
            if self.it is None or self.done:
                if self.done and self.out:
                    self.refused(lambda: next(iter(self.ds)), "a new epoch with uncommitted batches")
                    return
                self.it = iter(self.ds)
                self.done = False
            env = next(self.it)
            if pos in self.ref.epoch_start:
                self.entered.add(pos)
            if F.batch_repr(env) != self.ref.batches[pos]:
                self.fail("produced batch differs from the uninterrupted run", position=pos,
                          got=repr(F.batch_repr(env))[:700], expected=repr(self.ref.batches[pos])[:700])
            self.out.append(env)
            if env.token.batch.is_last:
                try:
                    next(self.it)
                except StopIteration:
                    self.done = True
                else:
                    self.fail("batches follow the last batch of an epoch", position=pos)
        elif op in "CD":
            n = 1 if op == "C" else 2
            self.s.commit_prepared(self.s.prepare_commit([e.token for e in self.out[:n]]))
            self.out = self.out[n:]
            self.base += n
        elif op == "P":
            self.prepared = (self.s.prepare_commit([self.out[0].token]), self.base)
        elif op == "Q":
            candidate, base = self.prepared
            self.prepared = None
            if base == self.base and self.out:
                self.s.commit_prepared(candidate)
                self.out = self.out[1:]
                self.base += 1
            elif base != self.base:
                self.refused(lambda: self.s.commit_prepared(candidate), "a preparation that was overtaken")
        elif op == "A":
            if self.it is not None and not self.done:
                self.it.close()
            elif self.it is not None and self.out:
                self.s.rollback_uncommitted()
                self.done = False
            self.it = None if not self.done else self.it
            self.out = []
            if self.prepared and self.prepared[1] == self.base:
                self.prepared = None
        self.verify()

    def probes(self, committed):
        """Requests that must be refused in the present state."""
        tokens = [e.token for e in self.out]

        def commit(*toks):
            return lambda: self.s.commit_prepared(self.s.prepare_commit(list(toks)))

        self.refused(commit(), "an empty commit")
        if committed is not None:
            self.refused(commit(committed), "a token that was already committed")
            if tokens:
                self.refused(commit(committed, tokens[0]), "a committed token followed by the next")
        if len(tokens) >= 1:
            self.refused(commit(tokens[0], tokens[0]), "a repeated token")
        if len(tokens) >= 2:
            self.refused(commit(tokens[1]), "a skipped token")
            self.refused(commit(tokens[1], tokens[0]), "reordered tokens")
        if len(tokens) >= 3:
            self.refused(commit(tokens[0], tokens[2]), "a gap inside a commit")
        if tokens or not self.done:
            self.refused(self.s.begin_next_epoch, "advancing the epoch")
        self.verify()


def run_history(ctx, new, ref, history, probe):
    run = Run(ctx, new, ref, history)
    committed = None
    for op in history:
        before = run.out
        if not run.legal(op):
            F.close(run.ds)
            return run, False
        run.apply(op)
        if op in "CDQ" and len(run.out) < len(before):
            committed = before[len(before) - len(run.out) - 1].token
        ctx.step()
        if probe:
            run.probes(committed)
    return run, True


def explore(ctx, kind, depth, probe, prefix, pipelines, steps, prefetch):
    new = setup(ctx, kind, pipelines, steps, tuple(prefetch) if prefetch else None)
    ref = Reference(new, depth + 2)

    def visit(history):
        run, ok = run_history(ctx, new, ref, history, probe)
        if not ok:
            return
        ctx.state(kind, probe, steps, prefetch, tuple(history))
        ctx.trace()
        # the rest of the run, from this very object
        options = [op for op in OPS if run.legal(op)] if len(history) < depth else []
        if not options:
            if run.it is not None and not run.done:
                for env in itertools.islice(run.it, 1):
                    if F.batch_repr(env) != ref.batches[run.base + len(run.out)]:
                        run.fail("continuation differs")
        if run.it is not None:
            run.it.close()
        F.close(run.ds)
        for op in options:
            if op == history[-1] == "A":
                continue
            visit(history + [op])

    visit(list(prefix))
    ctx.sample({"positions": len(ref.batches)})


def failures(ctx, kind):
    """A pipeline or decoding error at any batch, once: the epoch continues with exactly the missing batches."""
    import dataset.pipeline as dp

    new = setup(ctx, kind, True, None, None, layout=(4, 4))
    ref = Reference(new, 6)
    counter = dp.PIPELINES["mcheck_counter"]
    original = counter.prepare_batch
    for fail_at in range(6):
        for lag in (0, 1, 2):
            calls = {"n": 0}
            failed = []

            def prepare(self, data, **kw):
                calls["n"] += 1
                if calls["n"] == fail_at + 1:
                    failed.append(1)
                    raise OSError("injected")
                return original(self, data, **kw)

            counter.prepare_batch = prepare
            try:
                ds = new()
                s = F.stream(ds)
                base, pending = 0, []
                while base < 6:
                    try:
                        for env in ds:
                            got = F.batch_repr(env)
                            ctx.equal(got, ref.batches[base + len(pending)], "batch after a failure differs",
                                      fail_at=fail_at, lag=lag)
                            pending.append(env)
                            if len(pending) > lag:
                                F.commit(ds, pending.pop(0))
                                base += 1
                            if env.token.batch.is_last:
                                while pending:
                                    F.commit(ds, pending.pop(0))
                                    base += 1
                            ctx.check(s.state_dict() == ref.states[base] or base in ref.epoch_start,
                                      "committed state differs", fail_at=fail_at)
                            ctx.step()
                    except OSError:
                        pending = []
                ctx.check(failed, "the injected failure did not happen")
                ctx.state(kind, fail_at, lag)
                ctx.trace()
                F.close(ds)
            finally:
                counter.prepare_batch = original


def evaluation(ctx, kind):
    """Outside training every delivered batch is already committed: its token is refused, abandoning keeps it."""
    new = setup(ctx, kind, True, None, None, layout=(4, 3))
    whole = [F.batch_repr(e) for e in new(mode="validate")]
    for stop in range(1, len(whole) + 1):
        ds = new(mode="validate")
        s = F.stream(ds)
        it = iter(ds)
        got = [next(it) for _ in range(stop)]
        for env in got:
            ctx.raises(lambda: s.commit_prepared(s.prepare_commit([env.token])),
                       "an evaluation token was committed twice", kind=kind, stop=stop)
        it.close()
        rest = []
        if stop < len(whole):
            rest = [F.batch_repr(e) for e in ds]
        ctx.equal([F.batch_repr(e) for e in got] + rest, whole, "evaluation after abandoning differs", stop=stop)
        ctx.trace()
        ctx.step(len(whole))
        ctx.state(kind, "eval", stop)
        F.close(ds)


def foreign(ctx):
    """Tokens of another stream (seed, files, batch size, mode of pipelines) are refused at every position."""
    for kind in ("processed", "processed+mixed", "simple", "packed", "composite"):
        new = setup(ctx, kind, False, None, None, layout=(4, 4))
        others = {
            "seed": lambda: new(seed=4), "batch": lambda: new(batch=1), "window": lambda: new(shuffle_window_size=3),
            "files": lambda: setup(ctx, kind, False, None, None, layout=(4, 5))(),
            "pipelines": lambda: setup(ctx, kind, True, None, None, layout=(4, 4))(),
        }
        for name, make in others.items():
            for position in range(3):
                ds, other = new(), make()
                out = []
                for target in (ds, other):
                    it = iter(target)
                    for _ in range(position):
                        env = next(it, None)
                        if env is None:
                            it = iter(target)
                            env = next(it)
                        F.commit(target, env)
                    env = next(it, None) or next(iter(target))
                    out.append((it, env))
                s = F.stream(ds)
                before = pickle.dumps(s.state_dict())
                ctx.raises(lambda: s.commit_prepared(s.prepare_commit([out[1][1].token])),
                           "a token of another stream was committed", kind=kind, other=name, position=position)
                ctx.check(pickle.loads(before) == s.state_dict(), "a refused commit changed the state", other=name)
                F.commit(ds, out[0][1])
                ctx.state(kind, name, position)
                ctx.trace()
                ctx.step()
                for it, _ in out:
                    it.close()
                F.close(ds), F.close(other)
