"""Optimizers and gradient utilities: every pattern of missing gradients, gradient layout, save point and queue delay over short
histories, against the update rules written out in double precision."""
import contextlib
import copy
import io
import itertools
import math
import os

os.environ["TRITON_INTERPRET"] = "1"  # the device kernel runs in Triton's interpreter; must precede the import of triton

import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = [
    "parameters of up to 2,049 elements, histories of 3 to 6 steps, gradients of fixed values (zeros included); agreement within single precision rounding",
    "the device is simulated: CPU tensors that claim to be on the device, the real kernel in Triton's interpreter, and a launch queue that runs "
    "at once, at the latest possible moment, or at any step boundary; the GPU's own arithmetic is not covered",
    "Muon's orthogonalisation is compared with the same iteration in double precision",
]
TOL = 3e-5


def scenarios(tier):
    deep = tier == "thorough"
    for which in range(len(HYPER)):
        yield "adamw", {"hyper": which, "steps": 3, "cls": "multi"}
    for name in ("adamw", "adamw-ams", "sgd", "sgd-momentum", "sgd-nesterov"):
        yield "registry", {"name": name, "steps": 3}
    for first in range(len(LAYOUTS)):
        yield "layouts", {"first": first, "steps": 4 if deep else 3}
    for seen in range(8):
        yield "presence", {"first": seen, "steps": 4 if deep else 3}
    for delays in range(4):
        yield "queue", {"part": delays, "parts": 4, "steps": 8 if deep else 7}
    for first in range(9):
        yield "moved", {"first": first, "steps": 4 if deep else 3}
    yield "sizes", {}
    yield "faults", {}
    for baddbmm in (True, False):
        for nesterov in (True, False):
            yield "muon", {"baddbmm": baddbmm, "nesterov": nesterov}
    for part in range(4):
        yield "muon_presence", {"part": part, "parts": 4}
    for decay in (0.0, 0.1):
        for part in range(2):
            yield "chained", {"decay": decay, "part": part, "parts": 2}
    yield "groups", {}
    yield "routing", {}
    for norm in (1.0, 2.0, 3.0, math.inf):
        yield "clip", {"norm": norm}
    yield "clipping", {}


# ------------------------------------------------------------------ reference rules, double precision
class Adam:
    def __init__(self, value, lr=1e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=1e-2, amsgrad=False, maximize=False):
        self.w = np.asarray(value, np.float64).copy()
        self.m = np.zeros_like(self.w)
        self.v = np.zeros_like(self.w)
        self.top = np.zeros_like(self.w)
        self.t = 0
        self.args = (lr, betas, eps, weight_decay, amsgrad, maximize)

    def step(self, g, lr=None):
        if g is None:
            return
        rate, (b1, b2), eps, decay, ams, maximize = self.args
        rate = rate if lr is None else lr
        g = -np.asarray(g, np.float64) if maximize else np.asarray(g, np.float64)
        self.t += 1
        self.w *= 1 - rate * decay
        self.m = b1 * self.m + (1 - b1) * g
        self.v = b2 * self.v + (1 - b2) * g * g
        self.top = np.maximum(self.top, self.v)
        v = (self.top if ams else self.v) / (1 - b2 ** self.t)
        self.w -= rate * (self.m / (1 - b1 ** self.t)) / (np.sqrt(v) + eps)


class Sgd:
    def __init__(self, value, lr, momentum=0.0, dampening=0.0, nesterov=False, weight_decay=0.0):
        self.w = np.asarray(value, np.float64).copy()
        self.b = None
        self.args = (lr, momentum, dampening, nesterov, weight_decay)

    def step(self, g, lr=None):
        if g is None:
            return
        rate, mom, damp, nesterov, decay = self.args
        rate = rate if lr is None else lr
        g = np.asarray(g, np.float64) + decay * self.w
        if mom:
            self.b = g.copy() if self.b is None else mom * self.b + (1 - damp) * g
            g = g + mom * self.b if nesterov else self.b
        self.w -= rate * g


class MuonRule:
    def __init__(self, value, lr, weight_decay=0.01, momentum=0.95, nesterov=True, ns_steps=5):
        self.w = np.asarray(value, np.float64).copy()
        self.b = np.zeros_like(self.w)
        self.args = (lr, weight_decay, momentum, nesterov, ns_steps)

    def step(self, g, lr=None):
        if g is None:
            return
        rate, decay, mom, nesterov, steps = self.args
        rate = rate if lr is None else lr
        g = np.asarray(g, np.float64)
        self.b = mom * self.b + (1 - mom) * g
        g = (1 - mom) * g + mom * self.b if nesterov else self.b
        x = g.reshape(g.shape[0], -1) if g.ndim != 2 else g
        rows, cols = x.shape
        x = x.T if rows > cols else x
        x = x / max(math.sqrt((x * x).sum()), 1e-7)
        for _ in range(steps):
            a = x @ x.T
            x = 3.4445 * x + (-4.7750 * a + 2.0315 * (a @ a)) @ x
        x = x.T if rows > cols else x
        self.w = self.w * (1 - rate * decay) - rate * math.sqrt(max(rows, cols)) * x.reshape(self.w.shape)


# ------------------------------------------------------------------ helpers
def table(shape, k):
    """Fixed values of mixed sign and size; every third set has zeros."""
    n = math.prod(shape)
    v = np.array([math.sin(1.7 * i + 0.9 * k + 0.3) * (1.0 + (i * 7 + k * 3) % 5) / 2 for i in range(n)], np.float32).reshape(shape)
    if k % 3 == 2 and n:
        v.reshape(-1)[::2] = 0.0
    return v


def params(shapes, at=0):
    import torch

    return [torch.nn.Parameter(torch.tensor(table(s, at + 11 + i))) for i, s in enumerate(shapes)]


def close(a, b, tol=TOL):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def judge(ctx, ps, refs, message, tol=TOL, **info):
    for i, (p, r) in enumerate(zip(ps, refs)):
        got = p.detach().numpy()
        ctx.check(close(got, r.w, tol), message, parameter=i, got=got.ravel()[:4].tolist(), expected=r.w.ravel()[:4].tolist(),
                  apart=float(np.abs(got - r.w).max()) if got.size else 0.0, **info)


def bits(ps):
    return [p.detach().numpy().tobytes() for p in ps]


def stored(state):
    import torch

    f = io.BytesIO()
    torch.save(state, f)
    f.seek(0)
    return torch.load(f, weights_only=False)


def give(ps, values):
    import torch

    for p, v in zip(ps, values):
        p.grad = None if v is None else torch.tensor(v)


# ------------------------------------------------------------------ reference path
HYPER = (
    {"lr": 0.1},
    {"lr": 0.05, "betas": (0.5, 0.75), "eps": 0.125, "weight_decay": 0.25},
    {"lr": 0.02, "betas": (0.0, 0.9), "weight_decay": 0.0},
    {"lr": 0.3, "betas": (0.9, 0.0), "eps": 1e-3},
    {"lr": 0.1, "amsgrad": True, "betas": (0.5, 0.25)},
    {"lr": 0.1, "maximize": True, "weight_decay": 0.5},
    {"lr": 0.0, "weight_decay": 0.5},
)
SHAPES = ((3,), (2, 2), ())


def adamw(ctx, hyper, steps, cls):
    """Every pattern of missing gradients, with the learning rate changing; saved and restored after every step, into both classes."""
    import torch

    from utils.fused_adamw import MultiTensorAdamW

    args = HYPER[hyper]
    options = list(itertools.product((0, 1), repeat=len(SHAPES)))
    for pattern in itertools.product(options, repeat=steps):
        ps = params(SHAPES)
        opt = MultiTensorAdamW(ps, **args)
        refs = [Adam(p.detach().numpy(), **args) for p in ps]
        others = []
        for t, present in enumerate(pattern):
            rate = args["lr"] * (1.0, 0.5, 2.0, 0.1)[t % 4]
            grads = [table(s, 3 * t + i) if present[i] else None for i, s in enumerate(SHAPES)]
            for o, q in [(opt, ps)] + others:
                for g in o.param_groups:
                    g["lr"] = rate
                give(q, grads)
                o.step()
            for r, g in zip(refs, grads):
                r.step(g, rate)
            judge(ctx, ps, refs, "an AdamW step differs from its rule", hyper=args, step=t, pattern=pattern)
            for (o, q), name in zip(others, names if t else ()):
                if name == "same":
                    ctx.equal(bits(q), bits(ps), "a restored optimizer continues differently", hyper=args, step=t, pattern=pattern)
                else:
                    judge(ctx, q, refs, "an optimizer state moved to or from torch.optim.AdamW continues differently", hyper=args, step=t, pattern=pattern, way=name)
            ctx.step()
            if t + 1 < steps:
                others, names = [], []
                state = stored(opt.state_dict())
                for name in ("same", "to torch", "to torch and back"):
                    q = [torch.nn.Parameter(p.detach().clone()) for p in ps]
                    if name == "same":
                        o = MultiTensorAdamW(q, lr=9.0)
                    else:
                        o = torch.optim.AdamW(q, lr=9.0, foreach=False)
                    o.load_state_dict(copy.deepcopy(state))
                    if name == "to torch and back":
                        again = MultiTensorAdamW(q, lr=9.0)
                        again.load_state_dict(stored(o.state_dict()))
                        o = again
                    others.append((o, q))
                    names.append(name)
        ctx.state(hyper, pattern)
    ctx.trace()


def registry(ctx, name, steps):
    """The named optimizers as training builds them, for every pattern of missing gradients, restored after every step."""
    import torch

    from utils.training_utils import build_optimizer

    rules = {
        "adamw": (lambda w, kw: Adam(w, lr=0.1, **{"weight_decay": 0.0, **kw}), ({}, {"weight_decay": 0.3}, {"betas": (0.5, 0.5), "eps": 0.01})),
        "adamw-ams": (lambda w, kw: Adam(w, lr=0.1, amsgrad=True, **{"weight_decay": 0.0, **kw}), ({}, {"betas": (0.1, 0.2), "weight_decay": 0.2})),
        "sgd": (lambda w, kw: Sgd(w, lr=0.1, **kw), ({}, {"weight_decay": 0.3}, {"momentum": 0.5})),
        "sgd-momentum": (lambda w, kw: Sgd(w, lr=0.1, **{"momentum": 0.9, "dampening": 0.1, **kw}), ({}, {"weight_decay": 0.3, "momentum": 0.7})),
        "sgd-nesterov": (lambda w, kw: Sgd(w, lr=0.1, **{"momentum": 0.9, "nesterov": True, **kw}), ({}, {"weight_decay": 0.3})),
    }

    class Model(torch.nn.Module):
        def __init__(self, ps, frozen):
            super().__init__()
            self.ps = torch.nn.ParameterList(ps)
            self.ps.append(frozen)

    make, variants = rules[name]
    options = list(itertools.product((0, 1), repeat=len(SHAPES)))
    for kw in variants:
        for pattern in itertools.product(options, repeat=steps):
            def fresh(ps):
                frozen = torch.nn.Parameter(torch.ones(2), requires_grad=False)
                return build_optimizer(name, Model(ps, frozen), lr=0.1, **kw), frozen

            ps = params(SHAPES)
            opt, frozen = fresh(ps)
            refs = [make(p.detach().numpy(), kw) for p in ps]
            for t, present in enumerate(pattern):
                grads = [table(s, 3 * t + i) if present[i] else None for i, s in enumerate(SHAPES)]
                give(ps, grads)
                opt.step()
                for r, g in zip(refs, grads):
                    r.step(g)
                judge(ctx, ps, refs, "an optimizer step differs from its rule", name=name, options=kw, step=t, pattern=pattern)
                ctx.step()
                state = stored(opt.state_dict())
                ps = [torch.nn.Parameter(p.detach().clone()) for p in ps]
                opt, frozen = fresh(ps)
                opt.load_state_dict(state)
            ctx.equal(frozen.tolist(), [1.0, 1.0], "a frozen parameter changed", name=name)
            ctx.state(name, str(kw), pattern)
    ctx.trace()


# ------------------------------------------------------------------ simulated device
class Queue:
    """In-order launch queue of a device; the host decides when it has run."""

    def __init__(self, eager):
        self.eager, self.todo, self.done, self.enqueued = eager, [], 0, 0

    def add(self, fn):
        self.todo.append(fn)
        self.enqueued += 1
        if self.eager:
            self.run()

    def run(self, upto=None):
        while self.todo and (upto is None or self.done < upto):
            self.todo.pop(0)()
            self.done += 1


class Unsupported(Exception):
    """The optimizer uses a device facility the simulation does not have."""


class Table:
    """A device buffer: copies into it happen in queue order."""

    def __init__(self, queue, tensor):
        self.queue, self.tensor = queue, tensor

    def copy_(self, host, non_blocking=False):
        if non_blocking:
            self.queue.add(lambda: self.tensor.copy_(host))
        else:
            self.queue.run()
            self.tensor.copy_(host)
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.queue.run()
        return getattr(self.tensor, name)


@contextlib.contextmanager
def device(queue):
    """While active, utils.fused_adamw believes that all tensors live on a device whose work runs when the queue says so."""
    import torch

    from utils import fused_adamw as module

    class Event:
        def __init__(self, *a, **k):
            self.at = None

        def record(self, *a):
            self.at = queue.enqueued

        def synchronize(self):
            if self.at is not None:
                queue.run(self.at)

        wait = query = synchronize

    class Cuda:
        @staticmethod
        def Event(*a, **k):
            return Event()

        @staticmethod
        def is_available():
            return True

        @staticmethod
        def synchronize(*a):
            queue.run()

        @staticmethod
        def is_current_stream_capturing():
            return False

        def __getattr__(self, name):
            raise Unsupported("torch.cuda." + name)

    class Torch:
        cuda = Cuda()

        @staticmethod
        def empty(*size, device=None, pin_memory=False, **kw):
            t = torch.empty(*size, **kw)
            return t if device is None or pin_memory else Table(queue, t)

        @staticmethod
        def empty_like(t, device=None, pin_memory=False, **kw):
            return Torch.empty(t.shape, dtype=t.dtype, device=device, pin_memory=pin_memory) if device is not None or pin_memory else torch.empty_like(t, **kw)

        @staticmethod
        def zeros(*size, device=None, pin_memory=False, **kw):
            t = torch.zeros(*size, **kw)
            return t if device is None or pin_memory else Table(queue, t)

        def __getattr__(self, name):
            return getattr(torch, name)

    class Launch:
        def __init__(self, kernel):
            self.kernel = kernel

        def __getitem__(self, grid):
            def launch(*args, **kw):
                args = list(args)
                held = [a for a in args]

                def go():
                    real = [a.tensor if isinstance(a, Table) else a for a in held]
                    self.kernel[grid](*real, **{k: v for k, v in kw.items()})

                queue.add(go)

            return launch

    saved = {}
    for name, value in list(vars(module).items()):
        if type(value).__name__ in ("InterpretedFunction", "JITFunction"):
            saved[name] = value
            setattr(module, name, Launch(value))
    if not saved:
        raise Unsupported("no device kernel")
    saved["torch"] = module.torch
    module.torch = Torch()
    before = torch.Tensor.__dict__.get("is_cuda")
    torch.Tensor.is_cuda = property(lambda self: True)
    try:
        yield
    except RuntimeError as exc:
        if "pin" in str(exc).lower() or "cuda" in str(exc).lower():
            raise Unsupported(str(exc)) from exc
        raise
    finally:
        if before is None:
            del torch.Tensor.is_cuda
        else:
            torch.Tensor.is_cuda = before
        for name, value in saved.items():
            setattr(module, name, value)


def usable(ctx):
    """Whether the simulated device is really used for an ordinary float parameter."""
    import torch

    from utils.fused_adamw import MultiTensorAdamW

    queue = Queue(False)
    p = torch.nn.Parameter(torch.ones(4))
    p.grad = torch.ones(4)
    try:
        with device(queue):
            opt = MultiTensorAdamW([p], lr=0.1)
            opt.step()
    except Unsupported as exc:
        ctx.tag("device simulation not usable: " + str(exc)[:60])
        return False
    ctx.tag("device kernel launched" if queue.todo else "device kernel not used")
    return True


def go(queue, opt):
    with device(queue):
        # without torch's profiling wrapper, which cannot unwind while is_cuda is patched
        getattr(type(opt).step, "__wrapped__", type(opt).step)(opt)


def strided(values, kind):
    """The same values in another memory layout; a 2-D square array, or a 4-D one."""
    import torch

    t = torch.tensor(values)
    if kind == "plain":
        return t
    if kind == "transposed":
        return t.transpose(0, 1).contiguous().transpose(0, 1)
    if kind == "slice":  # part of a reduction bucket
        bucket = torch.zeros(t.numel() + 7)
        view = bucket[3:3 + t.numel()].view(t.shape)
        view.copy_(t)
        return view
    if kind == "gaps":
        wide = torch.zeros(*t.shape[:-1], t.shape[-1] * 2)
        wide[..., ::2] = t
        return wide[..., ::2]
    if kind == "double":
        return t.double()
    raise AssertionError(kind)


LAYOUTS = ("plain", "transposed", "slice", "gaps", None)


def layouts(ctx, first, steps):
    """Every sequence of gradient layouts for one square parameter (also stored transposed), gradients sharing one address."""
    import torch

    from utils.fused_adamw import MultiTensorAdamW

    if not usable(ctx):
        return ctx.trace()
    for stored_as, same_place in itertools.product(("plain", "transposed"), (False, True)):
        for rest in itertools.product(LAYOUTS, repeat=steps - 1):
            sequence = (LAYOUTS[first],) + rest
            ps = [torch.nn.Parameter(strided(table((3, 3), 5), stored_as)), torch.nn.Parameter(torch.tensor(table((5,), 6)))]
            refs = [Adam(p.detach().numpy(), lr=0.1, weight_decay=0.1) for p in ps]
            opt = MultiTensorAdamW(ps, lr=0.1, weight_decay=0.1)
            queue = Queue(True)
            place = torch.zeros(64)
            for t, kind in enumerate(sequence):
                values = [None if kind is None else table((3, 3), 2 * t), table((5,), 2 * t + 1)]
                grad = None if kind is None else strided(values[0], kind)
                if grad is not None and same_place:
                    at = torch.as_strided(place, grad.shape, grad.stride(), 0)
                    place.zero_()
                    at.copy_(grad)
                    grad = at
                ps[0].grad = grad
                ps[1].grad = torch.tensor(values[1])
                go(queue, opt)
                for r, g in zip(refs, values):
                    r.step(g)
                judge(ctx, ps, refs, "a device AdamW step differs from its rule", layouts=sequence, step=t, parameter_layout=stored_as, same_address=same_place)
                ctx.step()
            ctx.state(stored_as, same_place, sequence)
    ctx.trace()


def presence(ctx, first, steps):
    """Every pattern of missing gradients of three parameters on the device; saved and restored (also to the CPU rules) after every step."""
    import torch

    from utils.fused_adamw import MultiTensorAdamW

    if not usable(ctx):
        return ctx.trace()
    args = {"lr": 0.1, "betas": (0.8, 0.9), "eps": 1e-3, "weight_decay": 0.2}
    shapes = ((3,), (2, 2), (1, 3, 1, 1))
    for restore in (False, True):
        for rest in itertools.product(range(8), repeat=steps - 1):
            pattern = (first,) + rest
            ps = params(shapes)
            refs = [Adam(p.detach().numpy(), **args) for p in ps]
            opt = MultiTensorAdamW(ps, **args)
            queue = Queue(True)
            held = []
            for t, mask in enumerate(pattern):
                rate = args["lr"] * (1.0, 0.5, 2.0, 0.1)[t % 4]
                opt.param_groups[0]["lr"] = rate
                grads = [table(s, 3 * t + i) if mask >> i & 1 else None for i, s in enumerate(shapes)]
                give(ps, grads)
                if ps[2].grad is not None and t % 2:
                    ps[2].grad = torch.as_strided(ps[2].grad.clone(), (1, 3, 1, 1), (7, 1, 3, 3))
                held += [p.grad for p in ps]
                go(queue, opt)
                for r, g in zip(refs, grads):
                    r.step(g, rate)
                judge(ctx, ps, refs, "a device AdamW step differs from its rule", pattern=pattern, step=t, restored=restore)
                ctx.step()
                if restore:
                    state = stored(opt.state_dict())
                    if t % 2 == 0:
                        ps = [torch.nn.Parameter(p.detach().clone()) for p in ps]
                    opt = MultiTensorAdamW(ps, lr=9.0) if t % 2 == 0 else opt
                    opt.load_state_dict(state)
            ctx.state(restore, pattern)
    ctx.trace()


def queue(ctx, part, parts, steps):
    """Gradient buffers that move every step, with the device lagging behind by every pattern of step boundaries it catches up at."""
    import torch

    from utils.fused_adamw import MultiTensorAdamW

    if not usable(ctx):
        return ctx.trace()
    patterns = list(itertools.product((False, True), repeat=steps))
    for number, catches in enumerate(patterns):
        if number % parts != part:
            continue
        ps = params(((4,), (2, 3)))
        refs = [Adam(p.detach().numpy(), lr=0.1) for p in ps]
        opt = MultiTensorAdamW(ps, lr=0.1)
        q = Queue(False)
        held = []
        for t, catch in enumerate(catches):
            grads = [table((4,), 2 * t), table((2, 3), 2 * t + 1)]
            give(ps, grads)
            held += [p.grad for p in ps]
            go(q, opt)
            for r, g in zip(refs, grads):
                r.step(g)
            if catch:
                q.run()
                judge(ctx, ps, refs, "a delayed device step used other gradients", catches=catches, step=t)
            ctx.step()
        ctx.tag("launches waiting: " + str(len(q.todo)))
        q.run()
        judge(ctx, ps, refs, "a delayed device step used other gradients", catches=catches)
        ctx.state(catches)
    ctx.trace()


def moved(ctx, first, steps):
    """Every sequence of: gradient in a new buffer, in the old one, or missing; parameter in place, in a new buffer, or in a new layout."""
    import torch

    from utils.fused_adamw import MultiTensorAdamW

    if not usable(ctx):
        return ctx.trace()
    moves = list(itertools.product(("new", "old", None), ("stay", "move", "turn")))
    for rest in itertools.product(moves, repeat=steps - 1):
        sequence = (moves[first],) + rest
        ps = params(((3, 3), (5,)))
        refs = [Adam(p.detach().numpy(), lr=0.1, weight_decay=0.1) for p in ps]
        opt = MultiTensorAdamW(ps, lr=0.1, weight_decay=0.1)
        q = Queue(True)
        held = []  # nothing is freed: an update of memory that is no longer in use must not damage the harness
        places = [torch.zeros(3, 3), torch.zeros(5)]
        for t, (where, move) in enumerate(sequence):
            values = [None if where is None else table((3, 3), 2 * t), table((5,), 2 * t + 1)]
            for p, v, place in zip(ps, values, places):
                held += [p.grad, p.data]
                p.grad = None if v is None else place.copy_(torch.tensor(v)) if where == "old" else torch.tensor(v)
            if move != "stay":
                p = ps[0]
                p.data = p.data.clone() if move == "move" else p.data.t().contiguous().t().clone(memory_format=torch.preserve_format)
            go(q, opt)
            for r, g in zip(refs, values):
                r.step(g)
            judge(ctx, ps, refs, "a device AdamW step differs from its rule", moves=sequence, step=t)
            ctx.step()
        ctx.state(sequence)
    ctx.trace()


def sizes(ctx):
    """Tensors of every size around the kernel's block, many tensors, several groups, empty tensors, tensors that are replaced."""
    import torch

    from utils.fused_adamw import MultiTensorAdamW

    if not usable(ctx):
        return ctx.trace()
    for shapes in (((1,),), ((1023,),), ((1024,),), ((1025,),), ((2049,), (3,)), ((3,), (2048,), (1,)), ((0,), (2,)), ((2,), (0, 3), (2, 2)), tuple((k,) for k in range(1, 40)),
                   ((2, 3, 2, 2),), ((1, 5), (5, 1)), ((1, 1, 1),)):
        for last in (False, True):
            ps = params(shapes)
            if last and shapes == ((2, 3, 2, 2),):
                ps = [torch.nn.Parameter(p.detach().to(memory_format=torch.channels_last)) for p in ps]
            refs = [Adam(p.detach().numpy(), lr=0.1, weight_decay=0.1) for p in ps]
            opt = MultiTensorAdamW(ps, lr=0.1, weight_decay=0.1)
            q = Queue(True)
            held = []
            for t in range(3):
                grads = [table(s, t + i) for i, s in enumerate(shapes)]
                give(ps, grads)
                held += [p.grad for p in ps] + [p.data for p in ps]
                if last and shapes == ((2, 3, 2, 2),):
                    ps[0].grad = ps[0].grad.to(memory_format=torch.channels_last)
                go(q, opt)
                for r, g in zip(refs, grads):
                    r.step(g)
                judge(ctx, ps, refs, "a device AdamW step differs from its rule", shapes=shapes[:3], step=t)
                if t == 1 and last:  # parameters moved to other memory
                    for p in ps:
                        p.data = p.data.clone(memory_format=torch.preserve_format)
                ctx.step()
            ctx.state(shapes, last)
    # groups with their own settings, one added later; other dtypes and amsgrad/maximize groups next to fast ones
    for settings in itertools.product(({}, {"lr": 0.3}, {"weight_decay": 0.5}, {"betas": (0.5, 0.5)}, {"amsgrad": True}, {"maximize": True}, {"eps": 0.1}), repeat=2):
        ps = params(((3,), (2, 2), (4,)))
        merged = [dict({"lr": 0.1, "weight_decay": 0.1}, **s) for s in settings] + [{"lr": 0.1, "weight_decay": 0.1}]
        refs = [Adam(p.detach().numpy(), **m) for p, m in zip(ps, merged)]
        opt = MultiTensorAdamW([{"params": [ps[0]], **settings[0]}], lr=0.1, weight_decay=0.1)
        q = Queue(True)
        for t in range(3):
            if t == 1:
                opt.add_param_group({"params": [ps[1]], **settings[1]})
            if t == 2:
                opt.add_param_group({"params": [ps[2]]})
            grads = [table(tuple(p.shape), 3 * t + i) for i, p in enumerate(ps)]
            give(ps, grads)
            go(q, opt)
            for i, (r, g) in enumerate(zip(refs, grads)):
                if i <= t:
                    r.step(g)
            judge(ctx, ps, refs, "a parameter group does not follow its own settings", settings=settings, step=t)
            ctx.step()
        ctx.state(str(settings))
    # a double-precision parameter among others
    ps = params(((3,), (2,)))
    ps[1] = torch.nn.Parameter(ps[1].detach().double())
    refs = [Adam(p.detach().numpy(), lr=0.1) for p in ps]
    opt = MultiTensorAdamW(ps, lr=0.1)
    for t in range(3):
        ps[0].grad = torch.tensor(table((3,), t))
        ps[1].grad = torch.tensor(table((2,), t)).double()
        go(Queue(True), opt)
        refs[0].step(table((3,), t))
        refs[1].step(table((2,), t))
    judge(ctx, ps, refs, "a double-precision parameter is updated wrongly")
    ctx.trace()


def faults(ctx):
    """Steps that fail on one parameter; later steps still use their own gradients. Invalid settings are refused. A closure runs once."""
    import torch

    from utils.fused_adamw import MultiTensorAdamW

    for bad in ({"lr": -1.0}, {"eps": -1.0}, {"betas": (1.0, 0.9)}, {"betas": (-0.1, 0.9)}, {"betas": (0.9, 1.0)}, {"betas": (0.9, -1e-3)}):
        ctx.raises(lambda: MultiTensorAdamW(params(((2,),)), **bad), "an invalid setting is accepted", setting=bad)
        ctx.step()
    opt = MultiTensorAdamW(params(((2,),)), lr=0.1)
    state = opt.state_dict()
    state["param_groups"][0]["decoupled_weight_decay"] = False
    opt.load_state_dict(state)
    opt.param_groups[0]["params"][0].grad = torch.ones(2)
    ctx.raises(opt.step, "coupled weight decay is computed as decoupled")
    calls = []

    def closure():
        calls.append(torch.is_grad_enabled())
        loss = (p * p).sum()
        p.grad = None
        loss.backward()
        return loss

    p = torch.nn.Parameter(torch.tensor([1.0, -2.0]))
    opt = MultiTensorAdamW([p], lr=0.1)
    ctx.equal(float(opt.step(closure)), 5.0, "a closure's loss is not returned")
    ctx.equal(calls, [True], "a closure does not run once with gradients enabled")
    if not usable(ctx):
        return ctx.trace()
    for failing in itertools.product((False, True), repeat=5):
        ps = params(((4,), (3,)))
        refs = [Adam(q.detach().numpy(), lr=0.1) for q in ps]
        opt = MultiTensorAdamW(ps, lr=0.1)
        q = Queue(False)
        held, mixed = [], None
        for t, fails in enumerate(failing):
            grads = [table((4,), 2 * t), table((3,), 2 * t + 1)]
            give(ps, grads)
            held += [g.grad for g in ps]
            if fails:
                ps[1].grad = torch.tensor(grads[1]).to_sparse()
                with contextlib.suppress(RuntimeError):
                    go(q, opt)
                    ctx.check(False, "a sparse gradient is accepted")
                q.run()
                # the failed step may or may not have reached the other parameter
                after = copy.deepcopy(refs[0])
                after.step(grads[0])
                got = ps[0].detach().numpy()
                ctx.check(close(got, after.w) or close(got, refs[0].w), "a failed step leaves a parameter half updated", failing=failing, step=t)
                ctx.check(close(ps[1].detach().numpy(), refs[1].w), "a failed step changes the parameter it failed on", failing=failing, step=t)
                if close(got, after.w):
                    refs[0] = after
                mixed = True
            else:
                go(q, opt)
                for r, g in zip(refs, grads):
                    r.step(g)
            ctx.step()
        q.run()
        judge(ctx, ps[:1], refs[:1], "steps after a failed one use other gradients", failing=failing)
        ctx.state(failing)
    ctx.trace()


# ------------------------------------------------------------------ Muon
MATRICES = ((3, 2), (2, 3), (4, 4), (1, 3), (3, 1), (2, 3, 2, 2), (3, 2, 2), (2, 2, 3), (5, 2), (2, 1, 2, 2))


def muon(ctx, baddbmm, nesterov):
    import torch

    from utils.muon import Muon

    for shape, wd, momentum, ns in itertools.product(MATRICES, (0.0, 0.1), (0.0, 0.5, 0.95), (1, 2, 5)):
        args = {"lr": 0.1, "weight_decay": wd, "momentum": momentum, "ns_steps": ns, "nesterov": nesterov}
        ps = params((shape,))
        refs = [MuonRule(ps[0].detach().numpy(), **args)]
        opt = Muon(ps, use_baddbmm=baddbmm, **args)
        for t in range(4):
            g = None if t == 1 else table(shape, t)
            ps[0].grad = None if g is None else torch.tensor(g)
            if t == 3 and len(shape) == 4:
                ps[0].grad = ps[0].grad.to(memory_format=torch.channels_last)
            opt.step()
            refs[0].step(g)
            judge(ctx, ps, refs, "a Muon step differs from its rule", 2e-3, shape=shape, step=t, options=args)
            ctx.step()
            state = stored(opt.state_dict())
            ps = [torch.nn.Parameter(ps[0].detach().clone())]
            opt = Muon(ps, lr=9.0, use_baddbmm=baddbmm)
            opt.load_state_dict(state)
        ctx.state(shape, wd, momentum, ns)
    # no gradient direction: no update beyond the decay
    p = torch.nn.Parameter(torch.ones(2, 2))
    p.grad = torch.zeros(2, 2)
    Muon([p], lr=0.1, weight_decay=0.5, use_baddbmm=baddbmm, nesterov=nesterov).step()
    ctx.check(close(p.detach().numpy(), np.full((2, 2), 0.95)), "a zero gradient moves a parameter", value=p.tolist())
    ctx.trace()


def muon_presence(ctx, part, parts):
    """Parameters of equal and different shapes with every pattern of missing gradients: each moves as if it were alone."""
    import torch

    from utils.muon import Muon

    shapes = ((2, 3), (2, 3), (3, 2), (2, 3))
    args = {"lr": 0.1, "weight_decay": 0.1, "momentum": 0.5}
    for number, pattern in enumerate(itertools.product(range(16), repeat=2)):
        if number % parts != part:
            continue
        for grouped in (False, True):
            ps = params(shapes)
            spec = [{"params": ps[:2]}, {"params": ps[2:], "lr": 0.02, "momentum": 0.9, "weight_decay": 0.0}] if grouped else ps
            opt = Muon(spec, **args)
            refs = [MuonRule(p.detach().numpy(), **(args if not grouped or i < 2 else {"lr": 0.02, "momentum": 0.9, "weight_decay": 0.0})) for i, p in enumerate(ps)]
            for t, mask in enumerate(pattern + (15,)):
                grads = [table(s, 4 * t + i) if mask >> i & 1 else None for i, s in enumerate(shapes)]
                give(ps, grads)
                opt.step()
                for r, g in zip(refs, grads):
                    r.step(g)
                judge(ctx, ps, refs, "a Muon step differs from its rule", 2e-3, pattern=pattern, step=t, grouped=grouped)
                ctx.step()
                state = stored(opt.state_dict())
                old = ps
                ps = [torch.nn.Parameter(p.detach().clone()) for p in ps]
                opt = Muon([{"params": ps[:2]}, {"params": ps[2:]}] if grouped else ps, lr=7.0)
                opt.load_state_dict(state)
            ctx.state(grouped, pattern)
    ctx.trace()


# ------------------------------------------------------------------ the split
def nets():
    import torch

    class Net(torch.nn.Module):
        def __init__(self, extra=False):
            super().__init__()
            self.lin = torch.nn.Linear(3, 2)
            self.conv = torch.nn.Conv2d(2, 2, 2)
            self.norm = torch.nn.BatchNorm2d(2)
            self.table = torch.nn.Embedding(3, 2)
            self.pos_embed = torch.nn.Parameter(torch.zeros(2, 2))
            self.scale = torch.nn.Parameter(torch.zeros(()))
            self.frozen = torch.nn.Parameter(torch.ones(2, 2), requires_grad=False)
            if extra:
                self.deep = torch.nn.Sequential(torch.nn.Linear(2, 2, bias=False), torch.nn.Linear(2, 4))

    return Net


MUON_NAMES = ("lin.weight", "conv.weight", "deep.0.weight", "deep.1.weight")


def fill(model):
    import torch

    with torch.no_grad():
        for i, (_, p) in enumerate(model.named_parameters()):
            if p.requires_grad:
                p.copy_(torch.tensor(table(tuple(p.shape), 31 + i)))


def chained(ctx, decay, part, parts):
    """The Muon/AdamW split as training builds it; every pattern of missing gradients by kind, changing rates, restored after every step."""
    import torch

    from utils.training_utils import build_optimizer

    Net = nets()
    variants = ({}, {"muon_args": {"momentum": 0.5, "ns_steps": 2}}, {"muon_args": {"weight_decay": 0.3}, "adamw_args": {"betas": (0.5, 0.5), "eps": 0.01}},
                {"adamw_args": {"weight_decay": 0.4, "betas": (0.9, 0.99)}})
    for number, (variant, several) in enumerate(itertools.product(variants, (False, True))):
        if number % parts != part:
            continue

        def build(models):
            return build_optimizer("muon-adamw", models if several else models[0], lr=0.05, weight_decay=decay, **copy.deepcopy(variant))

        def fresh():
            return [Net(), Net(True)] if several else [Net(True)]

        muon_args = {"lr": 0.05, "weight_decay": decay, **variant.get("muon_args", {})}
        adam_args = {"lr": 0.05, "weight_decay": decay, **variant.get("adamw_args", {})}
        for pattern in itertools.product(range(4), repeat=3):
            models = fresh()
            for m in models:
                fill(m)
            opt = build(models)
            named = [(n, p) for m in models for n, p in m.named_parameters() if p.requires_grad]
            refs = [(MuonRule if n in MUON_NAMES else Adam)(p.detach().numpy(), **(muon_args if n in MUON_NAMES else adam_args)) for n, p in named]
            for t, mask in enumerate(pattern):
                rate = (0.05, 0.02, 0.1)[t]
                for g in opt.param_groups:
                    g["lr"] = rate
                for i, ((n, p), r) in enumerate(zip(named, refs)):
                    given = mask >> (i % 2) & 1
                    g = table(tuple(p.shape), 2 * t + i) if given else None
                    p.grad = None if g is None else torch.tensor(g)
                    r.step(g, rate)
                opt.step()
                judge(ctx, [p for _, p in named], refs, "the split optimizer differs from its rules", 2e-3, variant=variant, step=t, pattern=pattern,
                      names=[n for n, _ in named])
                ctx.step()
                state = stored(opt.state_dict())
                again = fresh()
                for a, b in zip(again, models):
                    a.load_state_dict(b.state_dict())
                models = again
                opt = build(models)
                opt.load_state_dict(copy.deepcopy(state))
                ctx.equal(repr(stored(opt.state_dict())), repr(state), "an optimizer state does not round-trip", variant=variant, step=t)
                named = [(n, p) for m in models for n, p in m.named_parameters() if p.requires_grad]
            for m in models:
                ctx.check(bool((m.frozen == 1).all()), "a frozen parameter changed")
            opt.zero_grad()
            ctx.check(all(p.grad is None for m in models for p in m.parameters()), "gradients survive zero_grad")
            ctx.state(number, pattern)
    ctx.trace()


def groups(ctx):
    """Parameter groups of the split optimizer: each parameter keeps the settings of its own group, in every split, also when added later."""
    import torch

    from utils.chained_optimizer import ChainedOptimizer, OptimizerSpec
    from utils.muon import Muon

    settings = ({}, {"lr": 0.3}, {"weight_decay": 0.5}, {"lr": 0.01, "weight_decay": 0.0})
    for first, second, late, third in itertools.product(settings, settings, (False, True), ("both", "matrix", "vector")):
        ps = params(((2, 2), (3,), (2, 2), (3,)))
        specs = [OptimizerSpec(Muon, {"weight_decay": 0.2}, lambda p: p.dim() >= 2), OptimizerSpec(torch.optim.AdamW, {"betas": (0.5, 0.9)}, None)]
        part = {"both": [ps[2], ps[3]], "matrix": [ps[2]], "vector": [ps[3]]}[third]
        one, two = {"params": ps[:2], **first}, {"params": part, **second}
        if late:
            opt = ChainedOptimizer([one], specs, lr=0.1, weight_decay=0.1)
            opt.add_param_group(two)
        else:
            opt = ChainedOptimizer([one, two], specs, lr=0.1, weight_decay=0.1)
        chosen = [ps[0], ps[1]] + part
        refs = []
        for i, p in enumerate(chosen):
            own = first if i < 2 else second
            if p.dim() >= 2:
                refs.append(MuonRule(p.detach().numpy(), **{"lr": 0.1, "weight_decay": 0.2, **own}))
            else:
                refs.append(Adam(p.detach().numpy(), **{"lr": 0.1, "weight_decay": 0.1, "betas": (0.5, 0.9), **own}))
        for t in range(3):
            factor = (1.0, 0.5, 2.0)[t]
            base = [first.get("lr", 0.1), second.get("lr", 0.1)]
            for g, b in zip(opt.param_groups, base):
                g["lr"] = b * factor
            for i, (p, r) in enumerate(zip(chosen, refs)):
                g = table(tuple(p.shape), 2 * t + i)
                p.grad = torch.tensor(g)
                r.step(g, base[0 if i < 2 else 1] * factor)
            opt.step()
            judge(ctx, chosen, refs, "a parameter does not follow the settings of its group", 2e-3, groups=(first, second), late=late, second=third, step=t)
            ctx.step()
        members = [p for o in opt.optimizers for g in o.param_groups for p in g["params"]]
        ctx.equal(sorted(map(id, members)), sorted(map(id, chosen)), "a parameter is not in exactly one sub-optimizer")
        ctx.state(str(first), str(second), late, third)
    ctx.trace()


def routing(ctx):
    """Which parameters Muon takes; a closure of the split runs once; a parameter nobody takes is refused."""
    import torch

    from utils.chained_optimizer import ChainedOptimizer, OptimizerSpec
    from utils.muon import Muon, get_params_for_muon
    from utils.training_utils import build_optimizer

    Net = nets()
    net = Net(True)
    names = {id(p): n for n, p in net.named_parameters()}
    ctx.equal(sorted(names[id(p)] for p in get_params_for_muon(net)), sorted(MUON_NAMES), "Muon takes other parameters")
    opt = build_optimizer("muon-adamw", net, lr=0.1)
    inside = [sorted(names[id(p)] for g in o.param_groups for p in g["params"]) for o in opt.optimizers]
    ctx.equal(inside[0], sorted(MUON_NAMES), "the split gives Muon other parameters")
    ctx.equal(sorted(inside[0] + inside[1]), sorted(n for n, p in net.named_parameters() if p.requires_grad), "a parameter is not in exactly one part of the split")
    ctx.raises(lambda: build_optimizer("nothing", net, lr=0.1), "an unknown optimizer is accepted")
    ctx.raises(lambda: ChainedOptimizer(params(((2,),)), [OptimizerSpec(torch.optim.SGD, {}, lambda p: False)], lr=0.1), "a parameter without an optimizer is accepted")
    a, b = params(((2, 2), (2,)))
    calls = []

    def closure():
        calls.append(torch.is_grad_enabled())
        opt.zero_grad()
        loss = (a * a).sum() + (b * b).sum()
        loss.backward()
        return loss

    for kinds in itertools.product((torch.optim.SGD, torch.optim.AdamW), repeat=2):
        a, b = params(((2, 2), (2,)))
        opt = ChainedOptimizer([a, b], [OptimizerSpec(kinds[0], {}, lambda p: p.dim() == 2), OptimizerSpec(kinds[1], {}, None)], lr=0.1)
        refs = [(Sgd if k is torch.optim.SGD else Adam)(p.detach().numpy(), lr=0.1, weight_decay=0.0) for k, p in zip(kinds, (a, b))]
        for _ in range(3):
            calls.clear()
            wanted = float((a * a).sum() + (b * b).sum())
            grads = [2 * p.detach().numpy().copy() for p in (a, b)]
            ctx.check(abs(float(opt.step(closure)) - wanted) < 1e-4, "a closure's loss is not returned")
            ctx.equal(calls, [True], "a closure does not run once with gradients enabled")
            for r, g in zip(refs, grads):
                r.step(g)
            judge(ctx, (a, b), refs, "a step with a closure differs from its rule")
            ctx.step()
    # a parameter that two specs would take goes to the first only
    a, b = params(((2, 2), (2,)))
    opt = ChainedOptimizer([a, b], [OptimizerSpec(torch.optim.SGD, {}, None), OptimizerSpec(torch.optim.SGD, {}, lambda p: p is b)][:1] + [], lr=0.1)
    ctx.equal(len(opt.optimizers), 1, "the split has other parts")
    ctx.trace()


# ------------------------------------------------------------------ gradient utilities
def clip(ctx, norm):
    """All combinations of gradient shapes and absences x limits: the clipped gradients, the returned norm, and the input forms."""
    import torch

    from utils.training_utils import clip_grad_norm

    shapes = ((3,), (2, 2), (), (0,) if norm != math.inf else (1,), (2, 1, 3))  # torch has no maximum of an empty gradient
    inf, nan = math.inf, math.nan
    for present in itertools.product((0, 1, 2), repeat=len(shapes)):
        # 0 absent, 1 single precision, 2 double precision
        for limit in (0.0, 1e-3, 1.0, 2.5, 100.0, inf):
            for form in ("list", "generator", "tuple"):
                if form != "list" and limit not in (1.0, inf):
                    continue
                ps, stock, values = [], [], []
                for i, (s, kind) in enumerate(zip(shapes, present)):
                    dtype = torch.float64 if kind == 2 else torch.float32
                    p, q = torch.nn.Parameter(torch.zeros(s, dtype=dtype)), torch.nn.Parameter(torch.zeros(s, dtype=dtype))
                    if kind:
                        g = table(s, i + 1)
                        p.grad, q.grad = torch.tensor(g, dtype=dtype), torch.tensor(g, dtype=dtype)
                        values.append(np.asarray(g, np.float64))
                    ps.append(p)
                    stock.append(q)
                grads = [p.grad for p in ps]
                given = ps if form == "list" else tuple(ps) if form == "tuple" else (p for p in ps)
                total = clip_grad_norm(given, limit, norm_type=norm)
                flat = np.concatenate([v.ravel() for v in values]) if values else np.zeros(0)
                want = 0.0 if not flat.size else float(np.abs(flat).max()) if norm == inf else float((np.abs(flat) ** norm).sum() ** (1 / norm))
                factor = min(1.0, limit / (want + 1e-6))
                info = {"present": present, "limit": limit, "norm": norm, "form": form}
                ctx.check(abs(float(total) - want) <= 1e-5 * (1 + want), "a gradient norm is wrong", got=float(total), expected=want, **info)
                k = 0
                for p, g in zip(ps, grads):
                    ctx.check(p.grad is g, "clipping replaces a gradient", **info)
                    if g is None:
                        continue
                    ctx.check(close(g.numpy(), values[k] * factor, 1e-5), "a clipped gradient is wrong", got=g.ravel()[:3].tolist(), expected=(values[k] * factor).ravel()[:3].tolist(), **info)
                    k += 1
                ref = torch.nn.utils.clip_grad_norm_(stock, limit, norm_type=norm)
                ctx.check(close(float(total), float(ref), 1e-6), "the norm differs from the stock implementation", **info)
                ctx.step()
        ctx.state(norm, present)
    # values that are not finite: as the stock implementation
    for bad in itertools.product((1.0, inf, -inf, nan), repeat=2):
        for limit in (1.0, inf):
            ps, stock = params(((2,), (3,))), params(((2,), (3,)))
            for q in (ps, stock):
                give(q, [np.array([bad[0], 2.0], np.float32), np.array([1.0, bad[1], 0.0], np.float32)])
            a = clip_grad_norm(ps, limit, norm_type=norm)
            b = torch.nn.utils.clip_grad_norm_(stock, limit, norm_type=norm)
            ctx.check(np.array_equal(a.numpy(), b.numpy(), equal_nan=True), "the norm of gradients that are not finite differs from the stock implementation", bad=bad)
            for x, y in zip(ps, stock):
                ctx.check(np.array_equal(x.grad.numpy(), y.grad.numpy(), equal_nan=True), "clipping gradients that are not finite differs from the stock implementation", bad=bad, limit=limit)
            ctx.step()
    p = params(((3,),))[0]
    p.grad = torch.tensor([3.0, 0.0, 4.0])
    if norm == 2.0:
        ctx.check(abs(float(clip_grad_norm(p, 1.0)) - 5.0) < 1e-5, "a single parameter is not accepted")
        ctx.check(close(p.grad.numpy(), np.array([0.6, 0.0, 0.8]), 1e-5), "a single parameter is not clipped", grad=p.grad.tolist())
    ctx.trace()


def clipping(ctx):
    """Weight clipping of every small shape, with and without a tiled virtual part."""
    import torch

    from utils.training_utils import apply_weight_clipping, resolve_weight_clipping

    def clamp(w, low, high, virtual):
        return np.minimum(np.maximum(w, low - virtual), high - virtual)

    for shape in ((4,), (2, 2), (4, 2), (4, 6), (2, 2, 3), (4, 2, 1, 1), (1,)):
        divisors = [[d for d in range(1, n + 1) if n % d == 0] for n in shape]
        for small in itertools.product(*divisors):
            for low, high in ((-1.0, 1.0), (-0.5, 0.75), (0.0, 0.0), (-32 / 127, 32 / 127)):
                model = torch.nn.Module()
                model.w = torch.nn.Parameter(torch.tensor(table(shape, 3)))
                model.v = torch.nn.Parameter(torch.tensor(table(small, 4)))
                model.x = torch.nn.Parameter(torch.tensor(table(shape, 5)))
                model.free = torch.nn.Parameter(torch.tensor(table(shape, 6)))
                before = {n: p.detach().numpy().astype(np.float64) for n, p in model.named_parameters()}
                places = {n: p.data_ptr() for n, p in model.named_parameters()}
                resolved = resolve_weight_clipping(model.named_parameters(), [
                    {"params": ["w"], "min_weight": low, "max_weight": high, "virtual_params": ["v"]}, {"params": ["x"], "min_weight": low, "max_weight": high}])
                tiled = np.tile(before["v"], [a // b for a, b in zip(shape, small)])
                want = {"w": clamp(before["w"], low, high, tiled), "x": clamp(before["x"], low, high, 0.0), "v": before["v"], "free": before["free"]}
                for again in range(2):
                    apply_weight_clipping(resolved)
                    for n, p in model.named_parameters():
                        ctx.check(close(p.detach().numpy(), want[n], 1e-6), "weight clipping gives another weight", name=n, shape=shape, virtual=small, limits=(low, high),
                                  got=p.detach().numpy().ravel()[:4].tolist(), expected=want[n].ravel()[:4].tolist())
                        ctx.equal(p.data_ptr(), places[n], "weight clipping replaces a parameter", name=n)
                    ctx.step()
                # what the clipped weights stand for stays within the limits after further changes
                with torch.no_grad():
                    model.w += 0.3
                    model.v -= 0.2
                apply_weight_clipping(resolved)
                total = model.w.detach().numpy().astype(np.float64) + np.tile(model.v.detach().numpy(), [a // b for a, b in zip(shape, small)])
                ctx.check(bool((total >= low - 1e-5).all() and (total <= high + 1e-5).all()), "a clipped weight leaves its limits", shape=shape, virtual=small)
                ctx.state(shape, small, low)
    # several parameters and groups in one call, each with its own virtual part
    model = torch.nn.Module()
    for i, n in enumerate("abcd"):
        setattr(model, n, torch.nn.Parameter(torch.tensor(table((4, 2), i))))
    for i, n in enumerate("pq"):
        setattr(model, n, torch.nn.Parameter(torch.tensor(table((2, 2) if i else (4, 1), 9 + i))))
    before = {n: p.detach().numpy().astype(np.float64) for n, p in model.named_parameters()}
    apply_weight_clipping(resolve_weight_clipping(model.named_parameters(), [
        {"params": ["a", "b"], "min_weight": -0.2, "max_weight": 0.1, "virtual_params": ["p", "q"]}, {"params": ["c", "d"], "min_weight": -0.7, "max_weight": 0.4}]))
    for n, w in (("a", clamp(before["a"], -0.2, 0.1, np.tile(before["p"], (1, 2)))), ("b", clamp(before["b"], -0.2, 0.1, np.tile(before["q"], (2, 1)))),
                 ("c", np.clip(before["c"], -0.7, 0.4)), ("d", np.clip(before["d"], -0.7, 0.4))):
        ctx.check(close(getattr(model, n).detach().numpy(), w, 1e-6), "weight clipping of several parameters is wrong", name=n)
    ctx.raises(lambda: resolve_weight_clipping(model.named_parameters(), [{"params": ["a", "b"], "min_weight": 0, "max_weight": 1, "virtual_params": ["p"]}]), "unequal lists are accepted")
    ctx.raises(lambda: resolve_weight_clipping(model.named_parameters(), [{"params": ["zz"], "min_weight": 0, "max_weight": 1}]), "an unknown parameter is accepted")
    ctx.trace()
