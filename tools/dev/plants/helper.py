"""Small data files, datasets and training runs for the demonstrations. Everything is written below a scratch folder."""
import contextlib
import hashlib
import io
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())
import numpy as np
import torch


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def processed(path, ids, size=(5, 5)):
    ids = list(ids)
    n, (h, w) = len(ids), size
    bf = np.zeros((n, 2, h, w), dtype=np.int8)
    vt = np.zeros((n, 3), dtype=np.float32)
    pt = np.zeros((n, h * w + 1), dtype=np.float32)
    gf = np.ones((n, 1), dtype=np.float32)
    for r, i in enumerate(ids):
        bf[r, 0, i % h, (i // h) % w] = 1
        bf[r, 1, (i + 2) % h, (i * 3 + 1) % w] = 1
        vt[r] = i / 1024.0
        pt[r, i % (h * w)] = 1
        gf[r] = 1 if i % 3 else -1
    np.savez(path, bf=bf, vt=vt, pt=pt, gf=gf)
    return path


def simple(path, count, size=5):
    out = b""
    for i in range(count):
        line = []
        for k in range(i % 4):
            c = ((i + 3 * k) % size, (i // size + k) % size)
            if c not in line:
                line.append(c)
        low = (i % 3) | (len(line) << 2) | (size << 11)
        high = (((i % size) << 5) | ((i // size) % size)) << 3
        out += low.to_bytes(2, "little") + high.to_bytes(2, "little")
        out += b"".join(((x << 5) | y).to_bytes(2, "little") for x, y in line)
    with open(path, "wb") as f:
        f.write(out)
    return path


def dataset(kind, paths, batch=2, mode="train", seed=3, shuffle=True, world=1, rank=0, **opts):
    from dataset import build_dataset
    from dataset.core import DatasetRuntimeContext

    ctx = DatasetRuntimeContext(batch * world, batch, world, rank, seed, mode)
    pipelines = opts.pop("pipeline_args", None)
    return build_dataset(kind, list(paths), runtime_context=ctx, shuffle=shuffle, pipeline_args=pipelines, **opts)


def stream(ds):
    if getattr(ds, "_partitioned_stream", None) is None:
        ds._build_partitioned_stream()
    return ds._partitioned_stream


def commit(ds, *envs):
    s = stream(ds)
    s.commit_prepared(s.prepare_commit([e.token for e in envs]))


def epoch(ds, mode="train", limit=None):
    out = []
    for env in ds:
        out.append(env)
        if mode == "train":
            commit(ds, env)
        if limit is not None and len(out) >= limit:
            break
    return out


def ids(env):
    return [int(round(float(v) * 1024)) for v in np.asarray(env.data["value_target"])[:, 0]]


def digest(tree):
    h = hashlib.sha1()

    def walk(v):
        if isinstance(v, torch.Tensor):
            h.update(str((v.dtype, tuple(v.shape))).encode() + v.detach().cpu().contiguous().numpy().tobytes())
        elif isinstance(v, np.ndarray):
            h.update(str((v.dtype, v.shape)).encode() + np.ascontiguousarray(v).tobytes())
        elif isinstance(v, dict):
            for k in sorted(v, key=repr):
                h.update(repr(k).encode())
                walk(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for x in v:
                walk(x)
        else:
            h.update(repr(v).encode())

    walk(tree)
    return h.hexdigest()


def register():
    from model import MODELS

    if "demo_tiny" in MODELS:
        return

    @MODELS.register("demo_tiny")
    class Tiny(torch.nn.Module):
        name = "tiny"

        def __init__(self, drop=0.0):
            super().__init__()
            self.conv = torch.nn.Conv2d(2, 3, 3, padding=1)
            self.pol = torch.nn.Conv2d(3, 1, 1)
            self.val = torch.nn.Linear(3, 3)
            self.drop = torch.nn.Dropout(drop)

        def forward(self, data):
            x = self.drop(torch.relu(self.conv(data["board_input"].float())))
            return {"value": self.val(x.mean((2, 3))), "policy": self.pol(x)[:, 0]}


def trainer(rundir, hooks=None, **options):
    register()
    from trainer import TRAINERS

    hooks = hooks or {}

    class Hooked(TRAINERS["supervised"]):
        def on_before_step(self, data):
            if "before" in hooks:
                hooks["before"](self, data)
            return super().on_before_step(data)

        def train_step(self, data, **kw):
            result = super().train_step(data, **kw)
            if "step" in hooks:
                result = hooks["step"](self, data, result) or result
            return result

        def on_after_step(self, data):
            super().on_after_step(data)
            if "after" in hooks:
                hooks["after"](self, data)

    os.makedirs(rundir, exist_ok=True)
    big = 10**6
    args = dict(iterations=6, batch_size=3, use_cpu=True, performance_level=0, num_worker=0, random_seed=7,
                model_type="demo_tiny", model_args={}, optim_type="adamw", learning_rate=0.05,
                lr_scheduler_type="constant", log_interval=big, show_interval=big, save_interval=big,
                temp_save_interval=big, val_interval=big)
    args.update(options)
    with quiet():
        return Hooked(rundir=rundir, **args)


def run(t):
    with quiet():
        t.run()
    return t


def weights(t):
    return digest({k: v.clone() for k, v in t.model.state_dict().items()})
