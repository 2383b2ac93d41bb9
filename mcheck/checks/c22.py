"""Every point at which a training run can be stopped and started again: after each step (from every saved state, and
by stopping at every step in turn) and inside each step (at every hook of every micro-batch). The remaining steps are
compared bit for bit with the run that was never stopped."""
import os
import random
import shutil

import numpy as np
import torch

from mcheck import fixtures as F
from mcheck import train as T

LEVEL = "model_checking"
RULE = __doc__
PRELOAD = ("torch", "dataset", "trainer")
ASSUMPTIONS = [
    "one process, CPU, a tiny model with batch norm, dropout and (in some configurations) a code book",
    "runs of 5 to 8 steps over two or three epochs; loader workers are excluded because resuming them is refused",
]

KINDS = ["batched", "batched+mixed", "processed", "raw", "sparse", "simple", "simple+mixed", "packed", "composite",
         "map_processed", "map_raw"]
VARIANTS = {
    "plain": {},
    "accumulate2": dict(gradient_accumulation_steps=2),
    "accumulate3": dict(gradient_accumulation_steps=3, iterations=5),
    "cosine": dict(lr_scheduler_type="cosine"),
    "step": dict(lr_scheduler_type="step", lr_scheduler_args={"step_size": 2, "step_gamma": 0.5}),
    "sgd": dict(optim_type="sgd", learning_rate=0.5),
    "momentum": dict(optim_type="sgd-momentum", lr_scheduler_type="cosine"),
    "nesterov": dict(optim_type="sgd-nesterov"),
    "amsgrad": dict(optim_type="adamw-ams"),
    "muon": dict(optim_type="muon-adamw", lr_scheduler_type="cosine"),
    "clip_norm": dict(clip_grad_norm=0.1),
    "clip_value": dict(clip_grad_value=0.01),
    "clip_weights": dict(model_args={"drop": 0.25, "limit": 0.2}),
    "unshuffled": dict(no_shuffle=True),
    "validated": dict(val=True, val_interval=2),
    "logged": dict(val=True, val_interval=3, log_interval=1, show_interval=2),
    "teacher": dict(kd=True),
    "teacher_train": dict(kd=True, kd_use_train_mode=True),
    "codebook": dict(model_args={"drop": 0.25, "vq": True}),
    "codebook_accumulate": dict(model_args={"drop": 0.25, "vq": True}, gradient_accumulation_steps=2),
}
DATA = {
    "prefetch": dict(prefetch_threads=2, prefetch_batches=2),
    "budget": dict(steps_per_epoch=3),
    "symmetry": dict(apply_symmetry=True),
    "window": dict(shuffle_window_size=3),
    "sampled": dict(sample_rate=0.7),
    "autotune": dict(prefetch_threads=2, prefetch_batches=1, autotune={"enabled": True}),
}
SCHEDULES = {
    "two": dict(save_interval=2),
    "temp": dict(save_interval=4, temp_save_interval=1),
    "state3": dict(save_interval=2, temp_save_interval=1, state_save_interval=3),
    "keep2": dict(save_interval=3, temp_save_interval=2, num_keep_states=2),
    "final": {},
}


def scenarios(tier):
    deep = tier == "thorough"
    for kind in KINDS:
        for variant in ("plain", "accumulate2") + (("cosine", "muon", "codebook") if deep else ()):
            yield "resume", {"kind": kind, "variant": variant}
    for variant in VARIANTS:
        for kind in ("batched", "map_processed") if deep else ("batched",):
            yield "resume", {"kind": kind, "variant": variant}
    for variant in ("codebook", "validated", "accumulate3"):
        yield "resume", {"kind": "map_processed", "variant": variant}
    for data in DATA:
        for variant in ("plain", "accumulate2"):
            yield "resume", {"kind": "batched", "variant": variant, "data": data}
    for data in ("budget", "symmetry", "window"):
        yield "resume", {"kind": "simple", "variant": "plain", "data": data}
    yield "resume", {"kind": "map_processed", "variant": "accumulate2", "data": "symmetry"}
    for pipeline in ("batched", "simple"):
        yield "resume", {"kind": pipeline, "variant": "accumulate2", "pipeline": True}
    for schedule in SCHEDULES:
        for kind in ("batched", "map_processed", "simple") + (("composite", "packed") if deep else ()):
            for variant in ("plain", "accumulate2") + (("codebook", "validated") if deep else ()):
                yield "stopped", {"kind": kind, "variant": variant, "schedule": schedule}
    for kind in ("batched", "map_processed", "simple", "composite"):
        yield "refused", {"kind": kind}


def prepare(tier):
    T.warm(vq=True)


def setup(ctx, kind, variant, data=None, pipeline=False):
    root = ctx.mkdir("c22")
    small = kind.startswith(("simple", "packed", "composite"))
    layout = (5, 4) if kind.startswith("packed") else (8, 7) if small else (7, 6)
    dataset_type, paths, opts = F.make(kind, os.path.join(root, "data"), layout)
    options = dict(dataset_type=dataset_type, train_datas=paths, dataset_args={**opts, **(DATA[data] if data else {})},
                   batch_size=2 if "mixed" in kind else 3, iterations=7)
    options.update(VARIANTS[variant])
    if options.pop("val", False):
        options["val_datas"] = paths
    if options.pop("kd", False):
        t = T.make(os.path.join(root, "teacher"), **{**options, "iterations": 1, "model_args": {"name": "teacher"},
                                                     "kd_use_train_mode": False})
        T.run(t)
        options.update(kd_model_type=T.MODEL, kd_model_args={"name": "teacher"}, kd_alpha=0.5, kd_T=2.0,
                       kd_checkpoint=os.path.join(root, "teacher", "ckpts", "ckpt_teacher_0000001.pt"))
    if "mixed" in kind:
        options["dataloader_args"] = {"batch_by_boardsize": True}
    if pipeline:
        F.register_pipelines()
        options["data_pipelines"] = {"mcheck_counter": {"salt": 5}, "mcheck_second": {}}
    return root, options


class Stop(BaseException):
    raised = False

    def __init__(self):
        Stop.raised = True


def go(rundir, options, hooks=None, trail=None, **more):
    trail = trail or T.Trail()
    hooks = dict(hooks or {})
    inner = hooks.get("forward")

    def draw(t, data):  # a user's step may draw from any of the global generators
        trail.current.append((random.random(), random.gauss(0, 1), np.random.standard_normal(), np.random.rand(),
                              float(torch.rand(()))))
        if inner is not None:
            inner(t, data)

    hooks["forward"] = draw
    t = T.make(rundir, hooks=trail.hooks(**hooks), **{**options, **more})
    first = t.state.iteration
    trail.current = []
    Stop.raised = False
    try:
        T.run(t)
    except BaseException:  # reported as the failure of the step in which it was raised
        if not Stop.raised:
            raise
        return trail, None, first
    return trail, {**T.standing(t), "rng": T.rng_state()}, first


def compare(ctx, trail, reference, what, **info):
    for it, step in trail.steps.items():
        want = reference.steps[it]
        for field in want:
            ctx.equal(step.get(field), want[field], f"{field} of a step after {what} differs from the uninterrupted run",
                      step=it, **info)


def resume(ctx, kind, variant, data=None, pipeline=False):
    root, options = setup(ctx, kind, variant, data, pipeline)
    n = options["iterations"]
    reference, end, _ = go(os.path.join(root, "plain"), options)
    ctx.check(len(reference.steps) == n, "the run did not make all its steps")
    ctx.tag("epochs", end["epoch"])
    # saving at every step changes nothing
    saving = dict(save_interval=1, num_keep_states=-1)
    run = os.path.join(root, "run")
    trail, final, _ = go(run, options, **saving)
    compare(ctx, trail, reference, "saving")
    ctx.equal(final, end, "saving changes the run")
    ctx.trace()
    for k in range(1, n):
        again = os.path.join(root, "again")
        shutil.copytree(run, again, ignore=shutil.ignore_patterns("log"))
        for i in range(k + 1, n + 1):
            os.remove(os.path.join(again, "ckpts", f"state_{i:07d}.pt"))
        trail, final, first = go(again, options, **saving)
        ctx.equal(first, k, "resumed iteration")
        compare(ctx, trail, reference, "resuming", state=k)
        ctx.equal(sorted(trail.steps), list(range(k + 1, n + 1)), "steps made after resuming", state=k)
        ctx.equal(final, end, "the resumed run ends differently", state=k)
        ctx.trace()
        ctx.step(n - k)
        ctx.state(kind, variant, data, k)
        shutil.rmtree(again)
    # stop before every step in turn
    chain = os.path.join(root, "chain")
    trail = T.Trail()
    for k in range(1, n + 1):
        def halt(t, _):
            if t.state.iteration > k:
                raise Stop

        trail, final, first = go(chain, options, {"before": halt}, trail, save_interval=1)
        ctx.equal(first, k - 1, "resumed iteration")
        trail.before.pop(k + 1, None)
    compare(ctx, trail, reference, "stopping at every step")
    ctx.equal(final, end, "the run stopped at every step ends differently")
    ctx.trace()


def stopped(ctx, kind, variant, schedule):
    """A stop inside a step (any hook, any micro-batch): the restarted run continues from the last saved step."""
    root, options = setup(ctx, kind, variant)
    options.update(SCHEDULES[schedule])
    n = options["iterations"]
    reference, end, _ = go(os.path.join(root, "plain"), options)
    micro = options.get("gradient_accumulation_steps", 1)
    saves = sorted({i for i in range(1, n + 1) for s in ("save_interval", "temp_save_interval")
                    if i % options.get(s, T.BIG) == 0})
    every = options.get("state_save_interval")
    states = [i for i in saves if every is None or i % every == 0]
    points = [(it, where, m) for it in range(1, n + 1) for where in ("before", "forward", "step", "after")
              for m in range(1 if where == "after" else micro)]
    for it, where, m in points:
        path = os.path.join(root, "run")
        count = [0]

        def halt(t, *_):
            if t.state.iteration == it:
                count[0] += 1
                if count[0] == m + 1:
                    raise Stop

        _, final, _ = go(path, options, {where: halt})
        ctx.check(final is None, "a stop inside a step was swallowed", step=it, where=where)
        trail, final, first = go(path, options)
        ctx.equal(first, max([0] + [s for s in states if s < it]), "resumed iteration", stop=(it, where, m))
        compare(ctx, trail, reference, "a stop inside a step", stop=(it, where, m))
        ctx.equal(final, end, "the run stopped inside a step ends differently", stop=(it, where, m))
        ctx.trace()
        ctx.step()
        ctx.state(kind, variant, schedule, it, where, m)
        shutil.rmtree(path)


def refused(ctx, kind):
    root, options = setup(ctx, kind, "plain")
    options["save_interval"] = 2
    run = os.path.join(root, "run")

    def halt(t, _):
        if t.state.iteration > 4:
            raise Stop

    go(run, options, {"before": halt})
    reference = os.path.join(root, "fine")
    shutil.copytree(run, reference, ignore=shutil.ignore_patterns("log"))
    _, final, first = go(reference, options)
    ctx.equal(first, 4, "the unchanged configuration does not resume")
    changes = {
        "optimizer": dict(optim_type="sgd"),
        "optimizer args": dict(optim_args={"betas": [0.8, 0.99]}),
        "learning rate": dict(learning_rate=0.01),
        "weight decay": dict(weight_decay=0.5),
        "scheduler": dict(lr_scheduler_type="cosine"),
        "scheduler args": dict(lr_scheduler_args={"step_size": 3}),
        "iterations": dict(iterations=9),
        "batch size": dict(batch_size=2),
        "accumulation": dict(gradient_accumulation_steps=2),
        "seed": dict(random_seed=8),
        "shuffle": dict(no_shuffle=True),
        "model": dict(model_args={"drop": 0.25, "width": 4}),
        "symmetry": dict(dataset_args={**options["dataset_args"], "apply_symmetry": True}),
        "pipelines": dict(data_pipelines={"mcheck_second": {}}),
    }
    F.register_pipelines()
    if kind == "composite":
        changes.pop("symmetry")
    else:
        other = os.path.join(root, "other")
        base = kind if kind != "map_processed" else "map_processed"
        _, paths, _ = F.make(base, other, (6, 7) if kind != "simple" else (7, 8))
        changes["data contents"] = dict(train_datas=paths)
        changes["file missing"] = dict(train_datas=options["train_datas"][:1])
        changes["file twice as a copy"] = dict(train_datas=[*options["train_datas"], paths[0]])
        changes["file order"] = dict(train_datas=options["train_datas"][::-1])
    for name, change in changes.items():
        path = os.path.join(root, "again")
        shutil.copytree(run, path, ignore=shutil.ignore_patterns("log"))
        made = []
        try:
            t = T.make(path, hooks={"before": lambda *a: made.append(1)}, **{**options, **change})
            T.run(t)
            ok = False
        except Exception:
            ok = not made
        if kind == "batched" or kind == "map_processed" or name != "symmetry":
            ctx.check(ok, f"the run directory of another configuration was continued ({name} changed)")
        ctx.tag("refused", int(ok))
        ctx.trace()
        ctx.step()
        ctx.state(kind, name)
        shutil.rmtree(path)
