"""Building and running the real trainer on tiny models and datasets, inside one process."""
import contextlib
import hashlib
import io
import os
import random

import numpy as np
import torch

from mcheck import fixtures as F

MODEL = "mcheck_tiny"
_registered = False
BIG = 10**6


def register():
    global _registered
    if _registered:
        return
    _registered = True
    from model import MODELS

    class Tiny(torch.nn.Module):
        """A few parameters, batch statistics, random numbers and (optionally) a code book that is initialised
        from the samples of several steps: one of each kind of state a run carries."""

        def __init__(self, drop=0.0, width=3, vq=False, name="tiny", limit=None):
            super().__init__()
            if limit:
                self.weight_clipping = [{"params": ["conv.weight", "val.weight"], "min_weight": -limit,
                                         "max_weight": limit}]
            self.conv = torch.nn.Conv2d(2, width, 3, padding=1)
            self.norm = torch.nn.BatchNorm2d(width)
            self.pol = torch.nn.Conv2d(width, 1, 1)
            self.val = torch.nn.Linear(width, 3)
            self.drop = torch.nn.Dropout(drop)
            self.vq = None
            self.tag = name
            if vq:
                from model.vq import VectorQuantize

                self.vq = VectorQuantize(6, width, kmeans_sample_multiplier=32)

        @property
        def name(self):
            return self.tag

        def forward(self, data):
            x = data["board_input"].float()
            x = torch.relu(self.norm(self.conv(x)))
            x = self.drop(x)
            out = {}
            if self.vq is not None:
                shape = x.permute(0, 2, 3, 1).shape
                flat, info = self.vq(x.permute(0, 2, 3, 1).reshape(-1, shape[-1]))
                x = flat.reshape(shape).permute(0, 3, 1, 2)
                if info is None:
                    out["aux_losses"] = {"vq": flat.sum() * 0}
                elif self.training:
                    out["aux_losses"] = {"vq": info["loss"]}
                else:
                    slots = [{**stats, "slot_id": f"layer00.codebook{i:02d}", "slot_weight": 1.0}
                             for i, stats in enumerate([info["loss_stats"]]) if stats is not None]
                    out["aux_losses"] = {"vq": ("vq_loss", {"value": info["loss"], "slots": slots})}
            out["value"] = self.val(x.mean((2, 3)))
            out["policy"] = self.pol(x)[:, 0]
            return out

    MODELS.register(MODEL)(Tiny)


def digest(value):
    """Bitwise identity of a nested structure of tensors, arrays and plain values."""
    h = hashlib.blake2b(digest_size=12)

    def walk(v):
        if isinstance(v, np.ndarray):
            v = torch.from_numpy(np.ascontiguousarray(v).view(np.uint8).copy()) if v.dtype.kind != "O" else v.tolist()
        if isinstance(v, torch.Tensor):
            t = v.detach().cpu().contiguous()
            h.update(f"T{t.dtype}{tuple(t.shape)}".encode())
            h.update(t.reshape(-1).view(torch.uint8).numpy().tobytes() if t.numel() else b"")
        elif isinstance(v, dict):
            h.update(b"{")
            for k in sorted(v, key=repr):
                h.update(repr(k).encode() + b":")
                walk(v[k])
            h.update(b"}")
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for item in v:
                walk(item)
            h.update(b"]")
        else:
            h.update(repr(v).encode())
        h.update(b",")

    walk(value)
    return h.hexdigest()


DEFAULTS = dict(
    iterations=6, batch_size=3, use_cpu=True, performance_level=0, num_worker=0, random_seed=7,
    model_type=MODEL, model_args={"drop": 0.25}, optim_type="adamw", learning_rate=0.05,
    lr_scheduler_type="constant", log_interval=BIG, show_interval=BIG, save_interval=BIG,
    temp_save_interval=BIG, val_interval=BIG,
)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def one_compiler():
    """Let one process at a time generate and compile a kernel (its cache is shared by all of them)."""
    import fcntl

    try:
        from pykeops.common.keops_io.LoadKeOps_cpp import LoadKeOps_cpp_class as cls
    except ImportError:
        return
    folder = os.environ.get("KEOPS_CACHE_FOLDER")
    if not folder or getattr(cls, "_mcheck", False):
        return
    real = cls.__init__
    os.makedirs(folder, exist_ok=True)

    def init(self, *args, **kw):
        with open(os.path.join(folder, "mcheck.lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            real(self, *args, **kw)

    cls.__init__ = init
    cls._mcheck = True


def warm(vq=False):
    """Load everything a run imports lazily (and compile the code-book kernels), so that forked workers share it."""
    import shutil
    import tempfile

    from mcheck import env

    one_compiler()
    root = tempfile.mkdtemp(prefix="warm-", dir=env.scratch_root())
    dataset_type, paths, opts = F.make("batched", root, (6,))
    for kw in [{}] + ([{"model_args": {"vq": True}, "iterations": 5}] if vq else []):
        t = make(os.path.join(root, "run" + str(len(kw))), dataset_type=dataset_type, train_datas=paths,
                 dataset_args=opts, **kw)
        run(t)
    shutil.rmtree(root)


def make(rundir, hooks=None, kind="supervised", **options):
    """A constructed trainer. hooks: {"before"|"after"|"step": callable(trainer, data[, result])}."""
    register()
    from trainer import TRAINERS

    base = TRAINERS[kind]
    hooks = hooks or {}

    class Hooked(base):
        def on_before_step(self, data):
            if "before" in hooks:
                hooks["before"](self, data)
            return super().on_before_step(data)

        def train_step(self, data, **kw):
            if "forward" in hooks:
                hooks["forward"](self, data)
            result = super().train_step(data, **kw)
            if "step" in hooks:
                result = hooks["step"](self, data, result) or result
            return result

        def validate_step(self, data, **kw):
            if "validate" in hooks:
                hooks["validate"](self, data)
            return super().validate_step(data, **kw)

        def on_after_step(self, data):
            out = super().on_after_step(data)
            if "after" in hooks:
                hooks["after"](self, data)
            return out

    os.makedirs(rundir, exist_ok=True)
    args = {**DEFAULTS, **options}
    with silent():
        return Hooked(rundir=rundir, **args)


def run(t):
    torch.set_grad_enabled(True)  # an interrupted run may have left it off
    with silent():
        t.run()
    return t


def model_state(t):
    return digest({k: m.state_dict() for k, m in
                   ((k, t.accelerator.unwrap_model(m)) for k, m in t.models.items())})


def optimizer_state(t):
    return digest({k: o.state_dict() for k, o in t.optimizers.items()})


def rng_state():
    return digest([torch.get_rng_state(), repr(random.getstate()), repr(np.random.get_state())])


def rates(t):
    return [[g["lr"] for g in o.param_groups] for o in t.optimizers.values()]


def standing(t):
    """What must be the same after an interruption: counters, weights, optimizer and learning rates."""
    return {
        "iteration": t.state.iteration, "epoch": t.state.epoch, "rows": t.state.rows,
        "model": model_state(t), "optimizer": optimizer_state(t), "rates": rates(t),
        "schedulers": digest({k: {a: b for a, b in s.state_dict().items() if not a.startswith("_")}
                              for k, s in t.schedulers.items()}),
    }


class Trail:
    """Per step: the data, losses and resulting state, keyed by iteration."""

    def __init__(self, extra=None):
        self.steps = {}
        self.extra = extra
        self.current = []
        self.before = {}

    def hooks(self, **more):
        out = {"before": self.on_before, "step": self.on_step, "after": self.on_after}
        for name, fn in more.items():
            mine = out.get(name)
            if mine is None:
                out[name] = fn
            else:
                out[name] = lambda *a, mine=mine, fn=fn: (mine(*a), fn(*a))[1]
        return out

    def on_before(self, t, data):
        it = t.state.iteration
        if it not in self.before:
            self.before[it] = {"epoch": t.state.epoch, "rng": rng_state()}

    def on_step(self, t, data, result):
        loss, losses, aux = result
        self.current.append((digest({k: v for k, v in F_data(data).items()}), float(loss), digest(losses)))

    def on_after(self, t, data):
        self.steps[t.state.iteration] = {
            "micro": self.current, "rates": rates(t), "model": model_state(t), "optimizer": optimizer_state(t),
            "rows": t.state.rows, **self.before.get(t.state.iteration, {}),
        }
        self.current = []


def F_data(data):
    data = getattr(data, "data", data)
    return {k: v for k, v in data.items() if isinstance(v, torch.Tensor)}
