"""Every phase of every training step (and every micro-batch of it) is made to fail in turn, and a run is interrupted
at every source line it executes; what is left on disk and in memory is compared with the run that did not fail."""
import glob
import os
import random
import re
import shutil
import sys

import numpy as np
import torch

from mcheck import fixtures as F
from mcheck import train as T

LEVEL = "model_checking"
RULE = __doc__
PRELOAD = ("torch", "dataset", "trainer")
ASSUMPTIONS = [
    "one process, CPU: agreement between ranks about a failure is not explored",
    "a non-finite result may be reported while the following step runs, but not after a validation or a checkpoint",
    "interrupts are delivered between source lines of trainer/base.py (Python delivers signals between bytecodes)",
]

MARK = "injected failure"
KINDS = ["batched", "simple", "map_processed", "composite", "simple+mixed"]
VARIANTS = {
    "plain": {},
    "accumulate2": dict(gradient_accumulation_steps=2),
    "codebook": dict(model_args={"drop": 0.25, "vq": True}),
    "clipped": dict(clip_grad_norm=0.5, clip_grad_value=0.1, model_args={"drop": 0.25, "limit": 0.2}),
}
N = 5
COMMON = dict(iterations=N, save_interval=2, num_keep_states=-1, val_interval=3, log_interval=2, show_interval=2)
STEP = ["before", "forward", "returned", "backward", "hook"]
ONCE = ["optimizer", "optimizer_done", "scheduler", "after"]
BAD = ["nan_loss", "inf_loss", "nan_metric", "nan_aux", "nan_grad", "inf_grad"]
SHAPE = ["no_loss", "vector_loss", "detached_loss", "int_loss", "new_metric", "lost_metric", "list_metrics"]
LATER = ["tensorboard", "logfile", "display", "validate", "validate_metric", "save", "save_state", "replace"]


def scenarios(tier):
    deep = tier == "thorough"
    for kind in KINDS if deep else KINDS[:4]:
        for variant in VARIANTS:
            if not deep and variant in ("codebook", "clipped") and kind != "batched":
                continue
            for group in ("step", "once", "bad", "shape", "later", "fetch"):
                yield "failing", {"kind": kind, "variant": variant, "group": group}
    for kind in ("batched", "map_processed", "simple") if deep else ("batched", "map_processed"):
        for variant in ("plain", "accumulate2"):
            for poison in (False, True):
                parts = 16 if deep else 2
                for part in range(parts):
                    yield "interrupted", {"kind": kind, "variant": variant, "poison": poison, "depth": 99 if deep else 1,
                                          "part": part, "parts": parts}
    for optim in ("sgd", "sgd-momentum", "adamw"):
        for accumulation in (1, 2, 3):
            for clip in ({}, {"clip_grad_norm": 0.05}, {"clip_grad_value": 0.01},
                         {"clip_grad_norm": 0.05, "clip_grad_value": 0.02}):
                yield "one_update", {"optim": optim, "accumulation": accumulation, "clip": clip}


def prepare(tier):
    T.warm(vq=True)


fail_data = [None, 0]  # call number at which the pipeline fails, calls so far


def register_failing():
    from dataset.core import FieldSpec, PreparedPipelineResult
    from dataset.pipeline import PIPELINES, BasePipeline

    if "mcheck_fail" in PIPELINES:
        return

    @PIPELINES.register("mcheck_fail")
    class Fail(BasePipeline):
        pipeline_id = "mcheck_fail"
        schema_version = 1
        input_fields = (FieldSpec("value_target", True, "per_sample", None, None, "stack", ("f",), "plain"),)
        output_fields = (FieldSpec("mcheck_flag", True, "per_sample", None, None, "stack", ("i",), "plain"),)

        def __init__(self):
            super().__init__()

        def signature_state(self):
            return {}

        def initial_state(self):
            return {}

        def tick(self):
            fail_data[1] += 1
            if fail_data[0] is not None and fail_data[1] == fail_data[0]:
                raise ValueError(MARK)

        def process(self, data):
            self.tick()
            return data

        def process_batch(self, data, *, sample_keys=None, rng_keys=None):
            self.tick()
            return data

        def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
            self.tick()
            flag = np.zeros(len(sample_keys), dtype=np.int64)
            return PreparedPipelineResult({**data, "mcheck_flag": flag}, current_state)


def setup(ctx, kind, variant, pipeline=False):
    root = ctx.mkdir("c23")
    layout = (8, 7) if kind.startswith(("simple", "composite")) else (7, 6)
    dataset_type, paths, opts = F.make(kind, os.path.join(root, "data"), layout)
    options = dict(COMMON, dataset_type=dataset_type, train_datas=paths, dataset_args=opts, batch_size=3,
                   val_datas=paths, **VARIANTS[variant])
    if "mixed" in kind:
        options["dataloader_args"] = {"batch_by_boardsize": True}
        options["batch_size"] = 2
    if pipeline:
        register_failing()
        options["data_pipelines"] = {"mcheck_fail": {}}
    return root, options


class Reference:
    """Per iteration: the state the uninterrupted run had after it."""

    def __init__(self, root, options):
        self.trail = T.Trail()
        self.models, self.positions, self.epochs = {}, {}, {}

        def before(t, _):
            # first micro-batch of a step: everything is as the previous step left it
            it = t.state.iteration - 1
            if it not in self.positions:
                self.note(t, it)

        def after(t, _):
            self.models[t.state.iteration] = T.digest(t.model.state_dict())

        t = T.make(os.path.join(root, "plain"), hooks=self.trail.hooks(before=before, after=after), **options)
        T.run(t)
        self.note(t, t.state.iteration)
        self.end = T.standing(t)

    def note(self, t, it):
        self.positions[it] = position(t)
        self.epochs[it] = t.state.epoch


def position(t):
    stream = getattr(t.train_dataset, "_partitioned_stream", None)
    if stream is None:
        return None
    state = stream.state_dict()
    cursor = state["cursor"]
    if cursor["finished"]:  # the same place as the start of the next epoch
        return (cursor["epoch"] + 1, 0, None)
    return (cursor["epoch"], cursor["batch_index"], T.digest(state) if cursor["batch_index"] else None)


def place(ctx, t, ref, done, **info):
    """The committed position: that of the last completed step, or the epoch end its accumulation window crossed."""
    got = position(t)
    ends = {ref.positions[done]}
    if got is not None and done + 1 in ref.positions and ref.positions[done + 1][0] > ref.positions[done][0]:
        ends.add((ref.positions[done][0] + 1, 0, None))
    ctx.check(got in ends, "the data position is not that of the last completed step", got=got, want=sorted(map(str, ends)),
              **info)


def finite(tree):
    if isinstance(tree, torch.Tensor):
        return not tree.is_floating_point() or bool(torch.isfinite(tree).all())
    if isinstance(tree, dict):
        return all(finite(v) for v in tree.values())
    if isinstance(tree, (list, tuple)):
        return all(finite(v) for v in tree)
    return not isinstance(tree, float) or np.isfinite(tree)


def on_disk(run):
    found = {}
    for path in glob.glob(os.path.join(run, "ckpts", "*.pt")):
        found.setdefault(int(re.search(r"_(\d{7})", path).group(1)), []).append(path)
    return found


def judge_disk(ctx, run, ref, newest, **info):
    """Only complete states of the reference run may be on disk."""
    from utils.file_utils import load_torch_ckpt

    states = []
    for it, paths in on_disk(run).items():
        for path in paths:
            name = os.path.basename(path)
            ctx.check(it <= newest, "a checkpoint of a step that was not completed exists", file=name, **info)
            if name.startswith("ckpt_") and it:
                weights = load_torch_ckpt(path)
                weights = weights[0] if isinstance(weights, tuple) else weights
                weights = weights.get("model", weights) if isinstance(weights, dict) else weights
                ctx.check(finite(weights), "a checkpoint holds non-finite weights", file=name, **info)
                if it in ref.models:
                    ctx.equal(T.digest(dict(weights)), ref.models[it], "weights of a checkpoint differ from the run",
                              file=name, **info)
            if name.startswith("state_"):
                state = torch.load(path, weights_only=False, map_location="cpu")
                ctx.check(finite(state["optimizers"]), "a checkpoint holds non-finite optimizer state", file=name, **info)
                states.append(it)
    return states


def judge_restart(ctx, run, options, ref, **info):
    """Whatever was left continues as the uninterrupted run."""
    fail_data[0] = None
    states = [it for it, paths in on_disk(run).items() if any("/state_" in p for p in paths)]
    trail = T.Trail()
    t = T.make(run, hooks=trail.hooks(), **options)
    ctx.equal(t.state.iteration, max(states, default=0), "the newest state on disk is not the one continued", **info)
    T.run(t)
    for it, step in trail.steps.items():
        for field in ("micro", "model", "optimizer", "rates", "rows"):
            ctx.equal(step.get(field), ref.trail.steps[it][field], f"{field} differs after restarting the failed run",
                      step=it, **info)
    ctx.equal(T.standing(t), ref.end, "the restarted run ends differently", **info)


class Fault:
    """One failure, armed for one step and micro-batch."""

    def __init__(self, what, it, micro):
        self.what, self.it, self.micro = what, it, micro
        self.seen, self.fired, self.undo = 0, False, []
        self.validated = []

    def now(self, t):
        return t.state.iteration == self.it and self.seen == self.micro and not self.fired

    def fire(self):
        self.fired = True
        raise ValueError(MARK)

    def patch(self, obj, name, value):
        old = obj.__dict__.get(name, self)
        setattr(obj, name, value)
        self.undo.append((obj, name, old))

    def restore(self):
        for obj, name, old in reversed(self.undo):
            if old is self:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    def hooks(self, t_of):
        def before(t, _):
            if t.state.iteration != getattr(self, "last", None):
                self.last, self.seen = t.state.iteration, 0
            else:
                self.seen += 1
            if self.now(t):
                if self.what == "before":
                    self.fire()
                if self.what in ("backward", "nan_grad", "inf_grad", "hook"):
                    self.grads(t)
                if self.what in ("optimizer", "optimizer_done", "scheduler"):
                    self.updates(t)

        def forward(t, _):
            if self.now(t) and self.what == "forward":
                self.fire()

        def step(t, _, result):
            if not self.now(t):
                return result
            if self.what == "returned":
                self.fire()
            return self.spoil(*result)

        def after(t, _):
            if t.state.iteration == self.it and not self.fired:
                if self.what == "after":
                    self.fire()
                self.later(t)

        def validate(t, _):
            self.validated.append(t.state.iteration)
            if self.what == "validate" and t.state.iteration >= self.it and not self.fired:
                self.fire()

        return {"before": before, "forward": forward, "step": step, "after": after, "validate": validate}

    def grads(self, t):
        p = next(iter(t.model.parameters()))

        def hook(g):
            self.fired = True
            handle.remove()
            if self.what in ("backward", "hook"):
                raise ValueError(MARK)
            g = g.clone()
            g.view(-1)[0] = float("nan" if self.what == "nan_grad" else "inf")
            return g

        handle = p.register_hook(hook)

    def updates(self, t):
        opt = next(iter(t.optimizers.values()))
        inner = getattr(opt, "optimizer", opt)
        if self.what == "scheduler":
            sched = next(iter(t.schedulers.values()))
            real = sched.step

            def broken(*a, **k):
                self.fire()

            self.patch(sched, "step", broken)
        elif self.what == "optimizer":
            inner.register_step_pre_hook(lambda *a: self.fire() if not self.fired else None)
        else:
            inner.register_step_post_hook(lambda *a: self.fire() if not self.fired else None)

    def spoil(self, loss, losses, aux):
        w = self.what
        first = next(iter(losses))
        if w in ("nan_loss", "inf_loss"):
            loss = loss * float("nan") if w == "nan_loss" else loss + float("inf")
        elif w == "nan_metric":
            losses = {**losses, first: losses[first] * float("nan")}
        elif w == "nan_aux":
            if not aux:
                return loss, losses, aux
            k = next(iter(aux))
            aux = {**aux, k: aux[k] * float("nan")}
        elif w == "no_loss":
            loss = None
        elif w == "vector_loss":
            loss = loss.reshape(1)
        elif w == "detached_loss":
            loss = loss.detach()
        elif w == "int_loss":
            loss = torch.tensor(1)
        elif w == "new_metric":
            losses = {**losses, "more": loss.detach()}
        elif w == "lost_metric":
            losses = {k: v for k, v in losses.items() if k != first}
        elif w == "list_metrics":
            losses = list(losses.values())
        else:
            return loss, losses, aux
        self.fired = True
        return loss, losses, aux

    def later(self, t):
        w = self.what
        if w == "tensorboard":
            for name in ("add_scalar", "add_scalars"):
                self.patch(t.tb_logger, name, lambda *a, **k: self.fire())
        elif w == "logfile":
            class Broken:
                write = staticmethod(lambda *a: self.fire())
                flush = close = staticmethod(lambda *a: None)

            t.log_file.close()
            t.log_file = Broken()
        elif w == "display":
            class Out:
                @staticmethod
                def write(text):
                    if not self.fired:
                        self.fire()

                flush = staticmethod(lambda: None)

            self.patch(sys, "stdout", Out())
        elif w in ("save", "save_state"):
            real = torch.save

            def save(obj, f, *a, **k):
                state = isinstance(obj, dict) and "optimizers" in obj
                if state == (w == "save_state") and not self.fired:
                    if hasattr(f, "write"):
                        f.write(b"torn")
                    self.fire()
                return real(obj, f, *a, **k)

            self.patch(torch, "save", save)
        elif w == "replace":
            real = os.replace

            def replace(*a):
                if not self.fired:
                    self.fire()
                return real(*a)

            self.patch(os, "replace", replace)


def failing(ctx, kind, variant, group):
    root, options = setup(ctx, kind, variant, pipeline=group == "fetch")
    micro = options.get("gradient_accumulation_steps", 1)
    fail_data[:] = [None, 0]
    ref = Reference(root, options)
    ctx.check(len(ref.trail.steps) == N, "the run did not make all its steps")
    if group == "fetch":
        return fetch(ctx, root, options, ref, kind, variant)
    names = {"step": STEP, "once": ONCE, "bad": BAD, "shape": SHAPE, "later": LATER}[group]
    for what in names:
        for it in range(1, N + 1):
            for m in range(micro if what in STEP + BAD + SHAPE else 1):
                if what in ("new_metric", "lost_metric", "nan_aux") and it == 1 and m == 0:
                    continue  # the first batch defines the metrics
                if what == "validate" and it > 3 or what in ("tensorboard", "logfile", "display") and it > 4:
                    continue
                fault = Fault(what, it, m if what not in ("optimizer", "optimizer_done", "scheduler") else micro - 1)
                one(ctx, root, options, ref, fault, what, it, m, kind=kind, variant=variant)


def one(ctx, root, options, ref, fault, what, it, m, **info):
    run = os.path.join(root, "run")
    t = T.make(run, hooks=fault.hooks(None), **options)
    error = None
    try:
        T.run(t)
    except BaseException as exc:
        error = exc
    finally:
        fault.restore()
    info = dict(fault=what, at=it, micro=m)
    if not fault.fired:
        ctx.tag("not reached", 1)
        ctx.check(error is None, f"the run failed by itself: {error}", **info)
        shutil.rmtree(run)
        return
    ctx.check(error is not None, "the run goes on after a failure", **info)
    text = str(error)
    if what not in BAD and what not in SHAPE:
        ctx.check(MARK in text, f"the run stopped with another error: {text[:200]}", **info)
    else:
        ctx.check("valid" in text.lower() or "finite" in text or "metric" in text or "loss" in text,
                  f"the run stopped with another error: {text[:200]}", **info)
    done = t.state.iteration
    if what in LATER:
        # the step itself was completed; the operation after it failed
        ctx.check(done >= it, "a completed step is not counted", done=done, **info)
        allowed = (done,)
        newest = done - 1 if what in ("tensorboard", "logfile", "display", "validate") else done
    elif what in BAD:
        allowed = (it - 1, it, it + 1)
        newest = it - 1
        ctx.check(it not in fault.validated, "a non-finite step was validated", **info)
    else:
        allowed = (it - 1,)
        newest = it - 1
    ctx.check(done in allowed, "the iteration count is not that of the last completed step", done=done, **info)
    ctx.equal(t.state.rows, done * options["batch_size"] * options.get("gradient_accumulation_steps", 1),
              "the row count is not that of the last completed step", **info)
    if what not in BAD:
        at = done
        place(ctx, t, ref, at, **info)
        ctx.equal(t.state.epoch, ref.epochs[at], "the epoch is not that of the last completed step", **info)
    judge_disk(ctx, run, ref, newest, **info)
    judge_restart(ctx, run, options, ref, **info)
    ctx.trace()
    ctx.step(it)
    ctx.tag(what, 1)
    ctx.state(what, it, m, tuple(sorted(options)), options["dataset_type"])
    shutil.rmtree(run)


def fetch(ctx, root, options, ref, kind, variant):
    micro = options.get("gradient_accumulation_steps", 1)
    call = 0
    while True:
        call += 1
        run = os.path.join(root, "run")
        fail_data[:] = [call, 0]
        error = None
        t = T.make(run, **options)
        try:
            T.run(t)
        except BaseException as exc:
            error = exc
        if fail_data[1] < call:
            ctx.check(error is None, f"the run failed by itself: {error}", call=call)
            break
        info = dict(fault="fetch", call=call)
        ctx.check(error is not None, "the run goes on after a failed fetch", **info)
        ctx.check(MARK in str(error), f"the run stopped with another error: {str(error)[:200]}", **info)
        done = t.state.iteration
        ctx.equal(t.state.rows, done * options["batch_size"] * micro, "row count after a failed fetch", **info)
        ctx.equal(t.state.epoch, ref.epochs[done], "epoch after a failed fetch", **info)
        place(ctx, t, ref, done, **info)
        judge_disk(ctx, run, ref, done, **info)
        judge_restart(ctx, run, options, ref, **info)
        ctx.trace()
        ctx.step()
        ctx.state("fetch", kind, variant, call)
        shutil.rmtree(run)
        fail_data[:] = [call, 0]
        if call > 400:
            ctx.check(False, "no end of the data reads", calls=call)
    fail_data[:] = [None, 0]


def interrupted(ctx, kind, variant, poison, depth, part, parts):
    root, options = setup(ctx, kind, variant)
    options.update(iterations=3, val_interval=2, save_interval=3, temp_save_interval=T.BIG)
    if poison:
        options.update(val_interval=T.BIG)
    ref = Reference(root, options)
    target = sys.modules["trainer.base"].__file__
    bad_at = 1

    def drive(run, stop_at):
        """One run, interrupted at the stop_at-th distinct (step, line)."""
        seen, hit = set(), [None]
        state = {"depth": 0}

        def local(frame, event, arg):
            if event == "line" and hit[0] is None:
                key = (t.state.iteration, frame.f_code.co_name, frame.f_lineno)
                if key not in seen:
                    seen.add(key)
                    if len(seen) - 1 == stop_at:
                        hit[0] = key
                        raise KeyboardInterrupt(MARK)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename != target:
                return None
            level, f = 0, frame.f_back
            while f is not None and level <= depth:
                if f.f_code.co_filename == target:
                    level += 1
                f = f.f_back
            return local if level <= depth else None

        def step(t, _, result):
            if poison and t.state.iteration == bad_at:
                return result[0] * float("nan"), result[1], result[2]
            return result

        t = T.make(run, hooks={"step": step}, **options)
        error = None
        try:
            with T.silent():
                sys.settrace(trace)
                try:
                    t.run()
                finally:
                    sys.settrace(None)
        except BaseException as exc:
            error = exc
        return t, error, hit[0], len(seen)

    index = part
    while True:
        run = os.path.join(root, "run")
        t, error, hit, total = drive(run, index)
        info = dict(kind=kind, variant=variant, poison=poison, index=index, at=hit)
        if hit is None:
            ctx.check(poison == (error is not None), f"the run failed by itself: {error}", **info)
        elif error is None:
            ctx.tag("absorbed", 1)
            ctx.equal(T.standing(t), ref.end, "an absorbed interrupt changed the run", **info)
        else:
            ctx.check(error is not None, "an interrupt was lost", **info)
        newest = t.state.iteration if not poison else bad_at - 1
        judge_disk(ctx, run, ref, newest, **info)
        judge_restart(ctx, run, options, ref, **info)
        ctx.trace()
        ctx.step()
        ctx.state("interrupt", kind, variant, poison, hit)
        shutil.rmtree(run)
        if hit is None:
            break
        index += parts


def one_update(ctx, optim, accumulation, clip):
    """A step is one update by the mean gradient of its micro-batches, clipped as asked, at the scheduled rate."""
    root, options = setup(ctx, "batched", "plain")
    wd = 0.1
    options.update(optim_type=optim, weight_decay=wd, learning_rate=0.05, lr_scheduler_type="cosine",
                   gradient_accumulation_steps=accumulation, model_args={"drop": 0.0}, **clip)
    grads, before, calls = [], {}, {"opt": 0, "sched": 0}
    memory = {}

    def on_before(t, _):
        if not grads:
            before.update({k: p.detach().clone() for k, p in t.model.named_parameters()})
            before["lr"] = T.rates(t)[0][0]
            if "armed" not in memory:
                memory["armed"] = True
                for opt in t.optimizers.values():
                    getattr(opt, "optimizer", opt).register_step_post_hook(
                        lambda *a: calls.__setitem__("opt", calls["opt"] + 1))

    def on_step(t, _, result):
        params = dict(t.model.named_parameters())
        g = torch.autograd.grad(result[0], list(params.values()), retain_graph=True, allow_unused=True)
        grads.append({k: torch.zeros_like(p) if x is None else x for (k, p), x in zip(params.items(), g)})

    def on_after(t, _):
        it = t.state.iteration
        ctx.equal(len(grads), accumulation, "micro-batches of a step", step=it)
        ctx.equal(calls["opt"], it, "optimizer updates", step=it)
        mean = {k: sum(g[k] for g in grads) / accumulation for k in grads[0]}
        if "clip_grad_norm" in clip:
            norm = torch.sqrt(sum((g.double() ** 2).sum() for g in mean.values()))
            factor = min(1.0, clip["clip_grad_norm"] / (float(norm) + 1e-6))
            mean = {k: g * factor for k, g in mean.items()}
        if "clip_grad_value" in clip:
            mean = {k: g.clamp(-clip["clip_grad_value"], clip["clip_grad_value"]) for k, g in mean.items()}
        lr = 1e-5 + (0.05 - 1e-5) * (1 + np.cos(np.pi * (it - 1) / N)) / 2
        ctx.check(abs(before["lr"] - lr) < 1e-9, "learning rate of a step", step=it, got=before["lr"], want=lr)
        for k, p in t.model.named_parameters():
            want = reference(k, before[k], mean[k], lr, it)
            # the sign of a vanishing gradient (a bias in front of the batch norm) is only rounding
            clear = memory.get((k, "clear"), True) & (mean[k].abs() > 1e-5 if optim == "adamw" else True)
            memory[(k, "clear")] = clear
            ctx.check(bool((torch.isclose(p.detach(), want, rtol=1e-4, atol=1e-5)
                            | ~torch.as_tensor(clear)).all()),
                      "the update is not that of the mean gradient", parameter=k, step=it,
                      error=float((p.detach() - want).abs().max()))
        for p in t.model.parameters():
            ctx.check(p.grad is None or not p.grad.any(), "gradients are left over after a step", step=it)
        grads.clear()
        ctx.step()
        ctx.state(optim, accumulation, tuple(sorted(clip.items())), it)

    def reference(k, p, g, lr, it):
        p, g = p.double(), g.double()
        decayed = memory["decay"](k)
        if optim == "adamw":
            m, v = memory.get((k, "m"), 0 * g), memory.get((k, "v"), 0 * g)
            b1, b2 = memory["betas"]
            m, v = b1 * m + (1 - b1) * g, b2 * v + (1 - b2) * g * g
            memory[(k, "m")], memory[(k, "v")] = m, v
            p = p * (1 - lr * decayed)
            return (p - lr * (m / (1 - b1**it)) / ((v / (1 - b2**it)).sqrt() + memory["eps"])).float()
        g = g + decayed * p
        if optim == "sgd-momentum":
            b = memory.get((k, "b"))
            b = g if b is None else memory["momentum"] * b + (1 - memory["dampening"]) * g
            memory[(k, "b")] = b
            g = b
        return (p - lr * g).float()

    t = T.make(os.path.join(root, "run"), hooks={"before": on_before, "step": on_step, "after": on_after}, **options)
    opt = next(iter(t.optimizers.values()))
    names = {id(p): k for k, p in t.model.named_parameters()}
    decay = {names[id(p)]: g["weight_decay"] for g in opt.param_groups for p in g["params"]}
    memory["decay"] = decay.__getitem__
    group = opt.param_groups[0]
    memory.update(betas=group.get("betas"), eps=group.get("eps"), momentum=group.get("momentum"),
                  dampening=group.get("dampening"))
    ctx.equal(sorted(decay), sorted(names.values()), "every parameter is optimised once")
    T.run(t)
    ctx.equal(calls["opt"], N, "optimizer updates")
    ctx.trace()
