"""The background checkpoint writer on a simulated accelerator: every interleaving of the training thread, the writer
thread and the device streams, for every short sequence of updates, saves and flushes, with every single write failing
in turn and with memory running out at every allocation; and inside the real trainer."""
import hashlib
import itertools
import os
import re
import shutil
from types import SimpleNamespace

import torch

from mcheck import fixtures as F
from mcheck import train as T
from mcheck.sched import Tape
from mcheck.simcuda import Deadlock, DevTensor, Sim

LEVEL = "model_checking"
RULE = __doc__
PRELOAD = ("torch", "dataset", "trainer")
ASSUMPTIONS = [
    "the accelerator is simulated: streams execute in order, asynchronously to the host and to each other, and are "
    "ordered only by the events and waits the code issues; freed device memory is not reused",
    "threads are switched at device synchronisation, thread start and join, file commits and between trainer actions",
]
FILES = 2


def scripts(depth, saves):
    for n in range(1, depth + 1):
        for s in itertools.product("MSF", repeat=n):
            text = "".join(s)
            if 1 <= text.count("S") <= saves and "FF" not in text and "MM" not in text and "S" in text:
                yield text


def scenarios(tier):
    deep = tier == "thorough"
    for script in scripts(5 if deep else 4, 2):
        if script.endswith("F") or script.startswith("F"):
            continue  # every script ends with two flushes
        yield "writer", {"script": script, "bound": 3 if deep else 2}
    for script in ("FS", "MSMSM") + (("SSS", "MSSMS") if deep else ()):
        yield "writer", {"script": script, "bound": 2 if deep else 1}
    for script in ("MS", "SM", "MSM") + (("SS", "SMS", "SFS") if deep else ()):
        yield "writer", {"script": script, "bound": None if len(script) < 3 or script == "MSM" and deep else 5}
    for variant in ("plain", "codebook"):
        for schedule in ("each", "temp", "keep1"):
            yield "trainer", {"variant": variant, "schedule": schedule, "bound": 3 if deep else 2}


def prepare(tier):
    T.warm(vq=True)


class Live:
    """The state being trained: device tensors, a host tensor, and plain values."""

    def __init__(self, sim):
        self.sim = sim
        self.dev = sim.tensor(0)
        self.other = sim.tensor(100)
        self.host = torch.zeros(2)
        self.plain = {"list": [0], "count": 0}
        self.updates = 0

    def update(self):
        self.dev.add_(1)
        self.other.add_(1)
        self.host.add_(1)
        self.updates += 1
        self.plain["list"].append(self.updates)
        self.plain["count"] = self.updates

    def tree(self, which):
        if which == 0:
            return {"w": self.dev, "nested": [self.other, {"h": self.host}], "n": None, "s": "text"}
        return {"shared": self.dev, "plain": self.plain, "pair": (self.dev, 3), 5: [self.host, 2.5, True]}

    @staticmethod
    def expected(which, k):
        h = [float(k), float(k)]
        if which == 0:
            return {"w": k, "nested": [100 + k, {"h": h}], "n": None, "s": "text"}
        return {"shared": k, "plain": {"list": list(range(k + 1)), "count": k}, "pair": (k, 3), 5: [h, 2.5, True]}


def resolve(tree):
    if isinstance(tree, DevTensor):
        return tree.fetch()
    if isinstance(tree, torch.Tensor):
        return tree.tolist()
    if isinstance(tree, dict):
        return {k: resolve(v) for k, v in tree.items()}
    if isinstance(tree, (list, tuple)):
        return type(tree)(resolve(v) for v in tree)
    return tree


def writer(ctx, script, bound):
    saves = script.count("S")
    faults = [None] + [(s, p) for s in range(saves) for p in range(FILES + 1)]
    for fault in faults:
        explore(ctx, script, bound, fault=fault)
    for oom in range(1, 3 * saves + 1):
        explore(ctx, script, bound, oom=oom)
    explore(ctx, script, bound, mode="cpu")
    explore(ctx, script, bound, mode="env")
    for fault in faults[1:]:
        explore(ctx, script, bound, fault=fault, mode="cpu")


def explore(ctx, script, bound, **kw):
    tape = Tape()
    while True:
        play(ctx, Sim(tape, bound), script, tape, **kw)
        ctx.trace()
        if not tape.advance():
            break


def play(ctx, sim, script, tape, fault=None, oom=None, mode="cuda"):
    import utils.async_checkpoint as module

    sim.oom_at = oom
    info = dict(script=script, fault=fault, oom=oom, mode=mode)

    def ok(condition, message, **more):
        ctx.check(condition, message, schedule=[v for v, _ in tape.used], **info, **more)

    committed = []  # (save, part, values)
    broken = [None]
    old = os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
    if mode == "env":
        os.environ["NNUE_SYNC_CHECKPOINT"] = "1"
    try:
        with sim.installed(module):
            live = Live(sim)
            w = module.AsyncCheckpointWriter(SimpleNamespace(type="cpu" if mode == "cpu" else "cuda", index=0))
            expect = []  # what must have been committed once everything is flushed
            problem = None  # the failure that has not been reported yet
            number = 0

            def part(save, which):
                def finalize(obj):
                    sim.point()
                    values = resolve(obj)
                    if fault == (save, which):
                        raise OSError(f"write {save}.{which} failed")
                    committed.append((save, which, values))

                return finalize

            def hook(save):
                def run():
                    sim.point()
                    if fault == (save, FILES):
                        raise OSError(f"write {save}.{FILES} failed")
                    committed.append((save, "hook", None))

                return run

            for action in script + "FF":
                sim.point()
                if action == "M":
                    live.update()
                    continue
                reported = None
                payloads = [(live.tree(i), part(number, i)) for i in range(FILES)]
                try:
                    if action == "S":
                        w.submit(payloads, post_hook=hook(number))
                    else:
                        w.flush()
                except Deadlock:
                    raise
                except Exception as exc:
                    reported = exc
                if problem is not None:
                    ok(reported is not None and f"write {problem} failed" in str(reported),
                       "a failed write is not reported by the next save or flush", action=action, got=str(reported))
                    problem = None
                    if action == "S":
                        number += 1
                        ok(not [c for c in committed if c[0] == number - 1],
                           "a save that was refused has been written", save=number - 1)
                        continue
                elif action == "F":
                    ok(reported is None, "a flush reports a failure that did not happen", got=str(reported))
                if action == "F":
                    ok(sorted(map(repr, committed)) == sorted(map(repr, expect)) and committed == expect,
                       "after a flush the files on disk are not those of the saves before it, in order",
                       got=repr(committed), want=repr(expect))
                    continue
                # a save: everything before it is on disk, its own files follow
                ok(committed[: len(expect)] == expect, "a save overtook the one before it", got=repr(committed),
                   want=repr(expect))
                now = fault is not None and fault[0] == number
                for i in range(FILES):
                    if now and fault[1] == i:
                        break
                    expect.append((number, i, Live.expected(i, live.updates)))
                else:
                    if not now:
                        expect.append((number, "hook", None))
                if now:
                    if reported is None:
                        problem = f"{fault[0]}.{fault[1]}"
                    else:
                        ok(f"write {fault[0]}.{fault[1]} failed" in str(reported), "another failure is reported",
                           got=str(reported))
                        ok(committed == expect, "a failed save left other files", got=repr(committed))
                else:
                    ok(reported is None, "a save reports a failure that did not happen", got=str(reported))
                if mode != "cuda":
                    ok(committed == expect and not now or reported is not None,
                       "a synchronous save returned before its files were written")
                number += 1
            ok(problem is None, "a failed write was never reported")
            ok(not sim.lost, "an error escaped from the writer thread", got=str(sim.lost))
            ok(all(h.finished for h in sim.hosts[1:]), "the writer is still running after the last flush")
            ctx.step(len(tape.used))
            ctx.state(script, fault, oom, mode, tuple(v for v, _ in tape.used))
    except Deadlock:
        ok(False, "the trainer waits for a writer that cannot go on")
    finally:
        os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
        if old is not None:
            os.environ["NNUE_SYNC_CHECKPOINT"] = old


SCHEDULES = {
    "each": dict(save_interval=1, num_keep_states=-1),
    "temp": dict(save_interval=3, temp_save_interval=1, num_keep_states=1),
    "keep1": dict(save_interval=2, temp_save_interval=1, state_save_interval=2, num_keep_states=1),
}


def contents(run):
    """What the run directory says: the data of every checkpoint file, by name (random parts of names removed)."""
    out = {}
    for name in sorted(os.listdir(os.path.join(run, "ckpts"))):
        path = os.path.join(run, "ckpts", name)
        kind = re.sub(r"[0-9a-f]{32}", "*", name)
        data = torch.load(path, map_location="cpu", weights_only=False) if name.endswith(".pt") else b""
        if name.startswith("state_"):
            data = {k: data[k] for k in ("optimizers", "schedulers", "metadata")}
        out[kind] = T.digest(data) if not name.startswith("runtime_") else "sidecar"
    return out


def trainer(ctx, variant, schedule, bound):
    """Saves of the real trainer, written in the background at every possible moment, leave the same files."""
    import utils.async_checkpoint as module

    root = ctx.mkdir("c21")
    dataset_type, paths, opts = F.make("batched", os.path.join(root, "data"), (7, 6))
    options = dict(dataset_type=dataset_type, train_datas=paths, dataset_args=opts, iterations=3,
                   model_args={"drop": 0.25, "vq": variant == "codebook"}, **SCHEDULES[schedule])
    t = T.make(os.path.join(root, "plain"), **options)
    T.run(t)
    want, end = contents(os.path.join(root, "plain")), T.standing(t)
    base = sys_modules("trainer.base")
    tape = Tape()
    while True:
        sim = Sim(tape, bound)
        run = os.path.join(root, "run")
        with sim.installed(module):
            real = module.AsyncCheckpointWriter

            class Background(real):
                def __init__(self, device):
                    super().__init__(SimpleNamespace(type="cuda", index=0))

                def submit(self, payloads, post_hook=None):
                    def slow(finalize):
                        def write(obj):
                            sim.point()
                            finalize(obj)

                        return write

                    def later():
                        sim.point()
                        post_hook()

                    super().submit([(o, slow(f)) for o, f in payloads], post_hook=post_hook and later)

            base.AsyncCheckpointWriter = Background
            try:
                t = T.make(run, hooks={"before": lambda *a: sim.point(), "after": lambda *a: sim.point()}, **options)
                T.run(t)
                ctx.check(all(h.finished for h in sim.hosts[1:]), "the run ended before its checkpoints were written",
                          schedule=[v for v, _ in tape.used])
                got = contents(run)
            finally:
                base.AsyncCheckpointWriter = real
        ctx.equal(got, want, "background writing leaves other files than writing at once",
                  schedule=[v for v, _ in tape.used])
        ctx.equal(T.standing(t), end, "background writing changes the run")
        ctx.trace()
        ctx.step(len(tape.used))
        ctx.state(variant, schedule, tuple(v for v, _ in tape.used))
        shutil.rmtree(run)
        if not tape.advance():
            break


def sys_modules(name):
    import importlib

    return importlib.import_module(name)
