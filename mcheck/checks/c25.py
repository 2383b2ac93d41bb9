"""Learning-rate schedules: every small parameter setting, every iteration and every point of interruption, as definitions and as the
rates the optimizers of a real run actually step with."""
import json
import itertools
import math
import os
import shutil

import torch

from mcheck import fixtures as F
from mcheck import train as T

LEVEL = "model_checking"
PRELOAD = ("torch", "dataset", "trainer")
ASSUMPTIONS = [
    "runs of up to 9 iterations (schedules alone up to 400); agreement with the definition to 1e-6, with the uninterrupted run exactly",
    "loss scaling, where a skipped step leaves the rate unchanged, needs an accelerator and is not covered",
]


def settings(deep):
    yield "constant", {}
    for size, gamma in itertools.product((1, 2, 3, 5), (0.5, 0.9, 1.0, 0.0)):
        yield "step", {"step_size": size, "step_gamma": gamma}
    yield "step", {}
    yield "step", {"step_size": 2}
    yield "step", {"step_gamma": 0.5}
    for low in (0.0, 1e-3, 0.02):
        yield "cosine", {"eta_min": low}
    yield "cosine", {}


def wanted(kind, args, iterations, base, t):
    if kind == "constant":
        return base
    if kind == "step":
        return base * args.get("step_gamma", 0.9) ** (t // args.get("step_size", 50000))
    low = args.get("eta_min", 1e-5)
    return low + (base - low) * (1 + math.cos(math.pi * t / iterations)) / 2


def scenarios(tier):
    deep = tier == "thorough"
    for kind, args in settings(deep):
        yield "alone", {"kind": kind, "args": args, "longest": 12 if deep else 8}
    for kind, args in (("step", {"step_size": 7}), ("cosine", {}), ("constant", {}), ("step", {})):
        yield "long", {"kind": kind, "args": args, "iterations": 100000 if kind == "step" and not args else 400}
    some = [("constant", {}), ("step", {"step_size": 2, "step_gamma": 0.5}), ("step", {"step_size": 1}), ("step", {"step_size": 3, "step_gamma": 0.1}),
            ("cosine", {}), ("cosine", {"eta_min": 0.0}), ("cosine", {"eta_min": 0.01})]
    for (kind, args), shape in itertools.product(some, SHAPES):
        yield "trained", {"kind": kind, "args": args, "shape": shape, "iterations": 9 if deep else 6}
    yield "refused", {}


def prepare(tier):
    T.warm()


def near(a, b):
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-12


def optimizer(name):
    from utils.training_utils import build_optimizer

    ps = [torch.nn.Parameter(torch.ones(2, 2)) for _ in range(4)]
    if name == "adamw":
        return torch.optim.AdamW([{"params": ps[:1], "lr": 0.1}, {"params": ps[1:3], "lr": 0.01}, {"params": ps[3:]}], lr=0.5)
    if name == "sgd":
        return torch.optim.SGD([{"params": ps[:2], "lr": 2.0}, {"params": ps[2:], "lr": 1e-6}], lr=0.1)
    net = torch.nn.Linear(2, 2)
    return build_optimizer(name, net, lr=0.3)


def rates(opt):
    return [g["lr"] for g in opt.param_groups]


def alone(ctx, kind, args, longest):
    from utils.training_utils import build_lr_scheduler

    for name, iterations in itertools.product(("adamw", "sgd", "muon-adamw"), range(1, longest + 1)):
        opt = optimizer(name)
        bases = rates(opt)
        sched = build_lr_scheduler(opt, kind, iterations, **args)
        line, saved = [], []
        for t in range(iterations + 1):
            line.append(rates(opt))
            for base, rate in zip(bases, line[-1]):
                ctx.check(near(rate, wanted(kind, args, iterations, base, t)), "a learning rate is not the one of its schedule", kind=kind, args=args,
                          iterations=iterations, iteration=t, rate=rate, expected=wanted(kind, args, iterations, base, t), base=base)
                ctx.check(rate >= 0, "a learning rate is negative", kind=kind, args=args, iteration=t, rate=rate)
            ctx.equal(list(sched.get_last_lr()), line[-1], "the scheduler reports other rates than it set", iteration=t)
            saved.append((json.dumps(sched.state_dict()), opt.state_dict()))
            ctx.step()
            if t < iterations:
                opt.step()
                sched.step()
        for k, (state, inside) in enumerate(saved):  # as after a restart: new objects, states loaded, rates put back
            opt = optimizer(name)
            opt.load_state_dict(inside)
            kept = rates(opt)
            sched = build_lr_scheduler(opt, kind, iterations, last_it=-1, **args)
            sched.load_state_dict(json.loads(state))
            for g, rate in zip(opt.param_groups, kept):
                g["lr"] = rate
            for t in range(k, iterations + 1):
                ctx.equal(rates(opt), line[t], "a restored schedule continues with other rates", kind=kind, args=args, iterations=iterations, restored=k, iteration=t)
                ctx.step()
                if t < iterations:
                    opt.step()
                    sched.step()
            ctx.state(name, iterations, k)
    for bad in ("unknown", "", None):
        ctx.raises(lambda: build_lr_scheduler(optimizer("sgd"), bad, 5), "an unknown schedule is accepted", name=bad)
    ctx.trace()


def long(ctx, kind, args, iterations):
    from utils.training_utils import build_lr_scheduler

    opt = torch.optim.SGD([torch.nn.Parameter(torch.ones(1))], lr=0.2)
    sched = build_lr_scheduler(opt, kind, iterations, **args)
    opt.step()
    for t in range(iterations + 1):
        rate = opt.param_groups[0]["lr"]
        ctx.check(near(rate, wanted(kind, args, iterations, 0.2, t)) and rate >= 0, "a learning rate is not the one of its schedule", kind=kind, args=args,
                  iteration=t, rate=rate, expected=wanted(kind, args, iterations, 0.2, t))
        ctx.step()
        if t < iterations:
            sched.step()
    ctx.state(kind, iterations)
    ctx.trace()


# ------------------------------------------------------------------ in the trainer
SHAPES = {
    "adamw": dict(optim_type="adamw"),
    "sgd-accumulate": dict(optim_type="sgd", gradient_accumulation_steps=2),
    "muon": dict(optim_type="muon-adamw", optim_args={"adamw_args": {"eps": 1e-3}}),
    "groups": dict(optim_type="sgd-momentum"),
    "two": dict(optim_type="adamw"),
}
SCALES = (1.0, 0.1)


class Stop(BaseException):
    pass


class Used:
    """The rates every optimizer stepped with, by update."""

    def __init__(self):
        self.rates = {}

    def attach(self, t):
        for name, opt in t.optimizers.items():
            inner = getattr(opt, "optimizer", opt)
            parts = getattr(inner, "optimizers", None) or [inner]
            for number, part in enumerate(parts):
                part.register_step_pre_hook(
                    lambda o, *a, key=(name, number): self.rates.setdefault(t.state.iteration, {}).setdefault(key, []).append([g["lr"] for g in o.param_groups]))


def build(rundir, shape, options, hooks):
    """A trainer whose optimizers have the given shape: one, several groups with their own base rates, or two optimizers."""
    from trainer import TRAINERS

    base = TRAINERS["supervised"]
    if shape in ("groups", "two"):
        class Shaped(base):
            def _setup_optimizer(self):
                super()._setup_optimizer()
                ps = list(self.optimizers["main"].param_groups[0]["params"])
                cls = type(self.optimizers["main"])
                halves = (ps[: len(ps) // 2], ps[len(ps) // 2:])
                rates = [self.learning_rate * s for s in SCALES]
                if shape == "groups":
                    self.optimizers = {"main": cls([{"params": h, "lr": r} for h, r in zip(halves, rates)], lr=1.0)}
                else:
                    self.optimizers = {n: cls(h, lr=r) for n, h, r in zip(("main", "second"), halves, rates)}

        TRAINERS["mcheck_shaped"] = Shaped
        return T.make(rundir, hooks=hooks, kind="mcheck_shaped", **options)
    return T.make(rundir, hooks=hooks, **options)


def go(rundir, shape, options, stop=None, used=None):
    used = used or Used()

    stopping = []

    def before(t, data):
        if stop is not None and t.state.iteration > stop:
            stopping.append(1)
            raise Stop

    t = build(rundir, shape, options, {"before": before})
    first = t.state.iteration
    used.attach(t)
    stopped = False
    try:
        T.run(t)
    except BaseException:
        if not stopping:
            raise
        stopped = True
    return used, t, first, stopped


def trained(ctx, kind, args, shape, iterations):
    root = ctx.mkdir()
    dataset_type, paths, opts = F.make("batched", os.path.join(root, "data"), (8, 6))
    options = dict(dataset_type=dataset_type, train_datas=paths, dataset_args=opts, iterations=iterations, lr_scheduler_type=kind, lr_scheduler_args=args,
                   learning_rate=0.05, log_interval=1, **SHAPES[shape])
    plain = os.path.join(root, "plain")
    used, t, _, _ = go(plain, shape, options)
    bases = {"two": {("main", 0): [0.05], ("second", 0): [0.005]}, "groups": {("main", 0): [0.05, 0.005]}}.get(shape)
    if bases is None:
        bases = {key: [0.05] * len(calls[0]) for key, calls in next(iter(used.rates.values())).items()}
    steps = sorted(used.rates)
    ctx.equal(len(steps), iterations, "another number of updates", steps=steps)
    micro = SHAPES[shape].get("gradient_accumulation_steps", 1)
    for t_, step in enumerate(steps):
        ctx.equal(sorted(used.rates[step]), sorted(bases), "an optimizer does not step", iteration=t_)
        for key, calls in used.rates[step].items():
            ctx.equal(len(calls), 1, "an optimizer steps several times in an update", iteration=t_, micro=micro)
            for base, rate in zip(bases[key], calls[0]):
                ctx.check(near(rate, wanted(kind, args, iterations, base, t_)), "an update uses another learning rate than its schedule gives", kind=kind, args=args,
                          iteration=t_, rate=rate, expected=wanted(kind, args, iterations, base, t_), optimizer=key)
        ctx.step()
    for name, opt in t.optimizers.items():
        for base, rate in zip([b for k in sorted(bases) if k[0] == name for b in bases[k]], rates(opt)):
            ctx.check(near(rate, wanted(kind, args, iterations, base, iterations)), "the rate after the last update is not the schedule's", rate=rate)
    logs = [os.path.join(d, f) for d, _, fs in os.walk(plain) for f in sorted(fs) if f.endswith(".jsonl")]
    logged = 0
    for path in logs:
        for text in open(path):
            try:
                record = json.loads(text)
            except ValueError:
                continue
            got = record.get("running_stat", {})
            for key, base in (("lr", 0.05),) + ((("lr_second", 0.005),) if shape == "two" else ()):
                if key in got:
                    logged += 1
                    at = [wanted(kind, args, iterations, base, record["it"] - d) for d in (0, 1)]
                    ctx.check(any(near(got[key], w) for w in at), "the logged learning rate is not the schedule's", iteration=record["it"], logged=got[key], expected=at)
    ctx.tag("logged rates", logged)
    # every interruption
    for k in range(1, iterations):
        again = os.path.join(root, "again")
        first_used, _, first, stopped = go(again, shape, {**options, "save_interval": 1, "num_keep_states": -1}, stop=k)
        ctx.check(stopped and first == 0, "the run did not stop", stop=k)
        rest, t2, first, _ = go(again, shape, {**options, "save_interval": 1, "num_keep_states": -1})
        ctx.equal(first, k, "the run does not continue from its last checkpoint", stop=k)
        ctx.equal(sorted(rest.rates), steps[k:], "other updates after a restart", stop=k)
        for step in steps[k:]:
            ctx.equal(rest.rates[step], used.rates[step], "an update after a restart uses another learning rate", stop=k, iteration=step)
        ctx.equal([rates(o) for o in t2.optimizers.values()], [rates(o) for o in t.optimizers.values()], "the rates after the last update differ after a restart", stop=k)
        ctx.state(kind, args, shape, k)
        shutil.rmtree(again)
    # an interruption after every single update
    chain, chained = os.path.join(root, "chain"), Used()
    for k in range(1, iterations + 1):
        go(chain, shape, {**options, "save_interval": 1}, stop=k if k < iterations else None, used=chained)
    for step in steps:
        ctx.equal({key: calls[:1] for key, calls in chained.rates[step].items()}, used.rates[step], "an update of a run restarted every time uses another learning rate", iteration=step)
    ctx.trace()


def refused(ctx):
    """A restart with another schedule, base rate or length never continues silently with rates of neither."""
    root = ctx.mkdir()
    dataset_type, paths, opts = F.make("batched", os.path.join(root, "data"), (8, 6))
    options = dict(dataset_type=dataset_type, train_datas=paths, dataset_args=opts, iterations=6, lr_scheduler_type="step",
                   lr_scheduler_args={"step_size": 2, "step_gamma": 0.5}, learning_rate=0.05, save_interval=1)
    cosine = {"lr_scheduler_type": "cosine", "lr_scheduler_args": {"eta_min": 0.001}}
    for start, change in [(cosine, {"iterations": 7}), (cosine, {"learning_rate": 0.02}), (cosine, {"lr_scheduler_args": {"eta_min": 0.0}})] + [({}, c) for c in ({"lr_scheduler_type": "cosine", "lr_scheduler_args": {}}, {"lr_scheduler_args": {"step_size": 3, "step_gamma": 0.5}}, {"learning_rate": 0.01},
                   {"iterations": 7}, {"lr_scheduler_args": {"step_size": 2, "step_gamma": 0.25}})]:
        run = os.path.join(root, "run")
        go(run, "adamw", {**options, **start}, stop=3)
        new = {**options, **start, **change}
        try:
            used, t, first, _ = go(run, "adamw", new)
        except (RuntimeError, ValueError):
            ctx.tag("refused")
        else:
            for step, calls in used.rates.items():
                for key, (got,) in calls.items():
                    w = wanted(new["lr_scheduler_type"], new["lr_scheduler_args"], new["iterations"], new["learning_rate"], step - 1)
                    ctx.check(near(got[0], w), "a restart with other settings continues with rates of neither", change=change, iteration=step, rate=got[0], expected=w)
            ctx.tag("accepted")
        ctx.step()
        ctx.state(str(start), str(change))
        shutil.rmtree(run)
    ctx.trace()
