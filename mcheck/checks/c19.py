"""Evaluation metrics: every way of spreading the rows of one global batch (and padding rows of any content) over ranks is
put through the real statistics and compared with a definition worked out per row in double precision; whole evaluation
passes of the real trainer run on one, two and three real ranks are compared with that definition and with each other;
and every failure, disagreement or shortage of one rank at every batch must reach all ranks instead of hanging."""
import itertools
import json
import math
import os

import numpy as np
import torch

from mcheck import fixtures as F, ranks, train as T
from trainer.loss.supervised import compute_supervised_loss_statistics, compute_supervised_losses
from trainer.metric.supervised import compute_supervised_metric_statistics

LEVEL = "model_checking"
SCENARIO_LIMIT = 420
ASSUMPTIONS = [
    "global batches of up to six places on up to three ranks are split in every way in the statistics part (up to nine "
    "places in the thorough tier); boards of 2x3 cells, padded boards given by a board mask",
    "results are compared with a double-precision definition within 2e-4 relative",
    "ranks are processes of one machine joined by gloo; a code book's masked statistics are not part of this check",
    "a loader that gives ranks different numbers of batches is judged with global batches weighing equally or by the "
    "number of ranks that had one",
]
RULE = ("the distributions of rows and padding over ranks are enumerated per loss setting; faults and disagreements are "
        "enumerated over rank, batch and phase")


def prepare(tier):
    T.warm()


# ---------------------------------------------------------------- definition

CELLS = 6


def rows(n, scalar=False, masked=False, teacher=False, seed=0):
    """n rows as double arrays."""
    g = np.random.default_rng(100 + seed)
    out = []
    for i in range(n):
        r = {"value": g.normal(size=1 if scalar else 3) * 2, "policy": g.normal(size=CELLS) * 2,
             "value_target": g.dirichlet(np.ones(3)), "policy_target": g.dirichlet(np.ones(CELLS)),
             "forbidden": (g.random(CELLS) < 0.3).astype(float), "aux_value": g.normal(size=1 if scalar else 3),
             "aux_policy": g.normal(size=CELLS), "uncertainty": g.random() * 3, "relative": g.random(),
             "mask": np.ones(CELLS)}
        if masked:
            r["mask"][CELLS - 1 - i % 3:] = 0
        if teacher:
            r["kd_value"] = g.normal(size=1 if scalar else 3)
            r["kd_policy"] = g.normal(size=CELLS)
        for k in r:
            r[k] = np.asarray(r[k], np.float32).astype(np.float64)
        r["policy_target"] = r["policy_target"] * r["mask"]
        out.append(r)
    return out


def _log_softmax(x):
    x = x - x.max()
    return x - math.log(np.exp(x).sum())


def _softmax(x):
    return np.exp(_log_softmax(x))


def _sigmoid(x):
    return 1 / (1 + math.exp(-x))


def _winrate(v):
    return (v[0] - v[1] + 1) / 2


def _soft_ce(logits, target, focal=0.0, kl=False, weight=None):
    lp = _log_softmax(logits)
    if weight is not None:
        target = target * weight
    out = -(target * lp * ((1 - np.exp(lp)) ** focal if focal else 1)).sum()
    return out + (target * np.log(np.maximum(target, 1e-8))).sum() if kl else out


def _value_loss(kind, v, t, focal):
    if len(v) == 1:
        x, y = v[0], (t[0] if len(t) == 1 else _winrate(t))
        p = _sigmoid(x)
        if kind == "MSE":
            return (p - y) ** 2
        out = -(y * math.log(p) + (1 - y) * math.log(1 - p))
        if kind == "CE" and focal:
            out *= (1 - (y * p + (1 - y) * (1 - p))) ** focal
        if kind == "KL":
            out += y * math.log(max(y, 1e-8)) + (1 - y) * math.log(max(1 - y, 1e-8))
        return out
    if kind == "MSE":
        return (_winrate(_softmax(v)) - _winrate(t)) ** 2
    return _soft_ce(v, t, focal if kind == "CE" else 0, kind == "KL")


def _policy_loss(kind, p, t, mask, weight, focal):
    """Sum over the row and its number of terms."""
    p = np.where(mask == 0, -1e6, p)
    t = np.where(mask == 0, 0, t)
    if kind == "NONE":
        return 0.0, 1
    if kind == "MSE":
        d = (_softmax(p) - t) ** 2
        return (d * (1 if weight is None else weight)).sum(), len(p)
    return _soft_ce(p, t, focal if kind == "CE" else 0, kind == "KL", weight), 1


def _gt(v, t):
    return (_sigmoid(v[0]) - t[0]) ** 2 if len(v) == 1 else (_winrate(_softmax(v)) - _winrate(t)) ** 2


def _huber(a, b):
    d = abs(a - b)
    return d * d / 2 if d < 1 else d - 0.5


def definition(real, cfg):
    """Every loss of the global batch holding exactly the rows `real`."""
    vk, pk = cfg["type"].split("+")
    ratio, reg = cfg.get("ratio", 1), cfg.get("reg", 0)
    vl, pl = 2 * ratio / (ratio + 1), 2 / (ratio + 1)
    lam = cfg.get("lambdas", {})
    temp, alpha = cfg.get("T", 1.0), cfg.get("alpha", 1.0)
    fv, fp = cfg.get("focal", (0, 0))

    def one(kd):
        """[(name, value, weight, depends on the targets)]"""
        mean = {}

        def add(name, total, count, weight, dep):
            old = mean.get(name, (0.0, 0))
            mean[name] = (old[0] + total, old[1] + count, weight, dep)

        def reg_of(name, key, weight):
            total = sum((r[key] * r["mask"]).sum() for r in real)
            cells = sum(r["mask"].sum() for r in real) if cfg.get("mask") else CELLS * len(real)
            mean[name] = ((total / cells) ** 2, 1, weight, False)

        for r in real:
            s = temp if kd else 1.0
            if kd:
                vt = _softmax(r["kd_value"] / temp) if len(r["kd_value"]) > 1 else np.array(
                    [_sigmoid(r["kd_value"][0] / temp)])
                pt = np.where(r["mask"] == 0, 0, _softmax(np.where(r["mask"] == 0, -1e6, r["kd_policy"]) / temp))
            else:
                vt, pt = r["value_target"], r["policy_target"]
            weight = 1 - r["forbidden"] if cfg.get("forbidden") else None

            def masked(p):
                return np.where(r["mask"] == 0, -1e6, p) / s

            add("value_loss", _value_loss(vk, r["value"] / s, vt, fv), 1, vl, True)
            a, n = _policy_loss(pk, masked(r["policy"]), pt, np.ones(CELLS), weight, fp)
            add("policy_loss", a, n, pl, True)
            if cfg.get("aux"):
                add("av_loss", _value_loss(vk, r["aux_value"] / s, vt, fv), 1, lam.get("av", vl), True)
                if pk != "NONE":
                    a, n = _policy_loss(pk, masked(r["aux_policy"]), pt, np.ones(CELLS), weight, fp)
                    add("ap_loss", a, n, lam.get("ap", pl), True)
                own = r["value_target"] if len(r["value"]) > 1 else np.array([_winrate(r["value_target"])])
                add("un_loss", _huber(r["uncertainty"], _gt(r["value"], own)), 1, lam.get("un", 1.0), False)
                small, large = _gt(r["aux_value"], own), _gt(r["value"], own)
                add("ru_loss", (r["relative"] - (large / small if large < small else 1.0)) ** 2, 1,
                    lam.get("ru", 1.0), False)
        if reg > 0:
            reg_of("policy_reg", "policy", reg)
        if cfg.get("aux") and (reg or "ar" in lam):
            reg_of("ar", "aux_policy", lam.get("ar", reg))
        return [(k, v[0] / v[1], v[2], v[3]) for k, v in mean.items()]

    plain = one(False)
    out = {k: v for k, v, _, _ in plain}
    if not cfg.get("kd"):
        out["total_loss"] = sum(v * w for _, v, w, _ in plain)
        return out
    kd = one(True)
    out.update({"kd_" + k: v for k, v, _, _ in kd})
    out["total_loss"] = (alpha * temp ** 2 * sum(v * w for _, v, w, d in kd if d)
                         + (1 - alpha) * sum(v * w for _, v, w, d in plain if d)
                         + sum(v * w for _, v, w, d in plain if not d))
    return out


def metric_definition(real, cross):
    out = {f"lossCE_{k}": v for k, v in definition(real, {"type": "CE+CE", "mask": any((r["mask"] == 0).any()
                                                                                        for r in real)}).items()}
    n = len(real)
    top = {1: 0.0, 2: 0.0, 3: 0.0}
    win = wmse = draw = dmse = 0.0
    errors, relative = [], []
    for r in real:
        p = np.where(r["mask"] == 0, -1e6, r["policy"])
        t = np.where(r["mask"] == 0, 0, r["policy_target"])
        for k in top:
            top[k] += len(set(np.argsort(-p)[:k]) & set(np.argsort(-t)[:k]))
        v, vt = r["value"], r["value_target"]
        if len(v) == 1:
            prob, vt = np.array([_sigmoid(v[0])]), np.array([_winrate(vt)])
            win += (prob[0] - 0.5) * (vt[0] - 0.5) >= 0
            wmse += (prob[0] - vt[0]) ** 2
        else:
            prob = _softmax(v)
            win += (prob[0] >= prob[1]) == (vt[0] >= vt[1])
            wmse += (_winrate(prob) - _winrate(vt)) ** 2
            draw += (prob.argmax() == 2) == (vt.argmax() == 2)
            dmse += (prob[2] - vt[2]) ** 2
        e = np.abs(prob - vt)
        errors += list(e)
        relative += list(e / (np.abs(prob) + 1e-4))
    out.update({"bestmove_acc": top[1] / n, "top2move_acc": top[2] / (2 * n), "top3move_acc": top[3] / (3 * n),
                "winrate_acc": win / n, "winrate_mse": wmse / n})
    if len(real[0]["value"]) > 1:
        out.update({"drawrate_acc": draw / n, "drawrate_mse": dmse / n})
    if cross:
        out.update({"value_abserr_mean": np.mean(errors), "value_abserr_max": max(errors),
                    "value_relerr_mean": np.mean(relative), "value_relerr_max": max(relative)})
    return out


# ---------------------------------------------------------------- one global batch in every split

CONFIGS = {
    "ce": {"type": "CE+CE"},
    "kl": {"type": "KL+KL", "ratio": 3},
    "mse": {"type": "MSE+MSE", "ratio": 0.5, "forbidden": True},
    "none": {"type": "CE+NONE", "reg": 0.3, "aux": True},
    "mixed": {"type": "KL+MSE", "mask": True, "reg": 0.7},
    "focal": {"type": "CE+CE", "focal": (2.0, 1.5), "mask": True, "forbidden": True},
    "aux": {"type": "CE+KL", "aux": True, "mask": True, "reg": 0.2, "lambdas": {"ap": 0.4, "ar": 0.9, "un": 0.1}},
    "aux_plain": {"type": "MSE+CE", "aux": True, "lambdas": {"av": 0.0, "ru": 2.0}},
    "scalar": {"type": "CE+CE", "scalar": True, "focal": (1.0, 0.0), "ratio": 2},
    "scalar_kl": {"type": "KL+CE", "scalar": True, "aux": True},
    "scalar_mse": {"type": "MSE+NONE", "scalar": True},
    "kd": {"type": "KL+KL", "kd": True, "T": 2.0, "alpha": 0.6, "mask": True, "reg": 0.5, "aux": True},
    "kd_only": {"type": "CE+CE", "kd": True, "T": 1.0, "alpha": 1.0, "forbidden": True},
    "kd_mse": {"type": "MSE+MSE", "kd": True, "T": 3.0, "alpha": 0.0, "reg": 0.1},
    "kd_scalar": {"type": "CE+CE", "kd": True, "T": 2.0, "alpha": 0.3, "scalar": True},
}
POISON = {"zero": 0.0, "huge": 3e38, "nan": math.nan, "inf": -math.inf}


def scenarios(tier):
    deep = tier == "thorough"
    for name in CONFIGS:
        shapes = [(1, 4), (2, 2), (3, 2), (2, 3)] + ([(3, 3)] if deep else [])
        for world, places in shapes:
            yield "splits", {"name": name, "world": world, "places": places}
    for kind, rowcounts, mult in WHOLE + (WHOLE_DEEP if deep else []):
        yield "whole", {"kind": kind, "files": rowcounts, "mult": mult}
    for max_batches in (None, 1, 2):
        yield "tested", {"max_batches": max_batches}
    yield "own_batches", {"counts": [(2, 2), (3, 1), (1, 3), (2, 0), (0, 1), (3, 2, 1), (0, 0, 2), (1, 0, 1)]}
    for world in (2, 3) if deep else (2,):
        for rank in range(world):
            yield "failing", {"world": world, "rank": rank}


WHOLE = [("map_processed", (7,), 1), ("map_processed", (5, 8), 2), ("batched", (7,), 1), ("batched", (13,), 1),
         ("map_processed", (1,), 1), ("map_raw", (7, 6), 1)]
WHOLE_DEEP = [("map_processed", (n,), m) for n in (2, 6, 11, 12) for m in (1, 2)]


def local(places, cfg, poison):
    """(data, results, teacher) of one rank; a place is a row or None."""
    b = len(places)
    dummy = rows(1, cfg.get("scalar", False), cfg.get("mask", False), cfg.get("kd", False), seed=9)[0]

    def col(key, shape=None, bad=True):
        out = [p[key] if p is not None else (np.full_like(dummy[key], poison) if bad else dummy[key]) for p in places]
        t = torch.from_numpy(np.array(out, np.float32))
        return t if shape is None else t.reshape(b, *shape)

    data = {"value_target": col("value_target"), "policy_target": col("policy_target", (2, 3)),
            "forbidden_point": col("forbidden", (2, 3), bad=False),
            "is_real": torch.tensor([p is not None for p in places])}
    results = {"value": col("value"), "policy": col("policy", (2, 3))}
    if cfg.get("mask"):
        results["board_mask"] = col("mask", (2, 3), bad=False)
    if cfg.get("aux"):
        own = data["value_target"]
        value, small = results["value"], col("aux_value")
        if cfg.get("scalar"):
            value, small, own = value[:, 0], small[:, 0], (own[:, 0] - own[:, 1] + 1) / 2
        results["aux_losses"] = {
            "av": ("value_loss", col("aux_value")), "ap": ("policy_loss", col("aux_policy", (2, 3))),
            "un": ("value_uncertainty_loss", (col("uncertainty"), value, own)),
            "ru": ("value_relative_uncertainty_loss", (col("relative"), small, value, own)),
            "ar": ("policy_reg", col("aux_policy", (2, 3))),
        }
    teacher = {"value": col("kd_value"), "policy": col("kd_policy", (2, 3))} if cfg.get("kd") else None
    return data, results, teacher


def options(cfg):
    out = {"value_policy_ratio": cfg.get("ratio", 1), "policy_reg_lambda": cfg.get("reg", 0)}
    if cfg.get("kd"):
        out.update(kd_T=cfg["T"], kd_alpha=cfg["alpha"])
    fv, fp = cfg.get("focal", (0, 0))
    if fv or fp:
        out.update(value_focal_gamma=fv, policy_focal_gamma=fp)
    if cfg.get("forbidden"):
        out["ignore_forbidden_point_policy"] = True
    out.update({f"{k}_lambda": v for k, v in cfg.get("lambdas", {}).items()})
    return out


def near(ctx, got, want, message, **info):
    got = {k: float(v) for k, v in got.items()}
    ctx.equal(set(got), set(want), message + ": other names", **info)
    for k, v in want.items():
        ctx.check(math.isfinite(got[k]) and abs(got[k] - v) <= 2e-4 * max(1.0, abs(v)), message,
                  metric=k, got=got[k], want=float(v), **info)


def merged(parts):
    out = dict(parts[0])
    for p in parts[1:]:
        out = {k: out[k].combine(p[k]) for k in out} if set(p) == set(out) else None
        if out is None:
            return None
    return out


def splits(ctx, name, world, places):
    cfg = CONFIGS[name]
    opts = options(cfg)
    total = world * places
    pool = rows(total, cfg.get("scalar", False), cfg.get("mask", False), cfg.get("kd", False))
    poisons = list(POISON) if total <= 4 else ["nan", "huge"]
    cross = name in ("ce", "mixed", "scalar", "aux")
    want_of, metrics_of = {}, {}
    for mask in itertools.product((True, False), repeat=total):
        n = sum(mask)
        if not n:
            continue
        if n not in want_of:
            want_of[n] = definition(pool[:n], cfg)
            metrics_of[n] = metric_definition(pool[:n], cross)
        it = iter(pool)
        spread = [[next(it) if m else None for m in mask[r * places:(r + 1) * places]] for r in range(world)]
        for poison in poisons if not all(mask) else poisons[:1]:
            info = {"mask": str(mask), "world": world, "padding": poison}
            ctx.step()
            ctx.trace()
            batches = [local(s, cfg, POISON[poison]) for s in spread]
            parts, aux = [], []
            for data, results, teacher in batches:
                stats, extra = compute_supervised_loss_statistics(cfg["type"], data, results, teacher, **opts)
                parts.append(stats)
                aux.append(extra)
            whole = merged(parts)
            ctx.check(whole is not None, "ranks report different statistics for shares of one batch", **info)
            near(ctx, {k: v.finalize() for k, v in whole.items()}, want_of[n],
                 "a loss of the global batch depends on its padding or split", **info)
            ctx.check(not any(aux), "auxiliary statistics out of nothing", **info)
            for order in ([parts[::-1]] if world > 1 else []):
                near(ctx, {k: v.finalize() for k, v in merged(order).items()}, want_of[n],
                     "a loss depends on the order of the ranks", **info)
            # the single-process form on each share
            for share, (data, results, teacher) in zip(spread, batches):
                own = [p for p in share if p is not None]
                loss, losses, _ = compute_supervised_losses(cfg["type"], data, results, teacher, **opts)
                if own:
                    near(ctx, losses, definition(own, cfg), "a masked batch's loss depends on its padding", **info)
                    near(ctx, {"loss": loss.detach()}, {"loss": definition(own, cfg)["total_loss"]},
                         "the returned loss depends on padding", **info)
                elif poison == "zero":
                    near(ctx, losses, {k: 0.0 for k in want_of[n]}, "a batch without real rows has a loss", **info)
            if not cfg.get("aux") and not cfg.get("kd"):
                parts = [compute_supervised_metric_statistics(d, r, do_cross_eval=cross) for d, r, _ in batches]
                both = merged(parts)
                ctx.check(both is not None, "ranks report different metrics", **info)
                near(ctx, {k: v.finalize() for k, v in both.items()}, metrics_of[n],
                     "a metric of the global batch depends on its padding or split", **info)
            ctx.state((name, world, mask, poison))
    # without any mask every row counts
    for n in range(1, places + 1):
        data, results, teacher = local(pool[:n], cfg, 0.0)
        del data["is_real"]
        near(ctx, {k: v.finalize() for k, v in compute_supervised_loss_statistics(
            cfg["type"], data, results, teacher, **opts)[0].items()}, definition(pool[:n], cfg),
            "a loss without padding is wrong", rows=n)
        near(ctx, compute_supervised_losses(cfg["type"], data, results, teacher, **opts)[1],
             definition(pool[:n], cfg), "a training loss is wrong", rows=n)


# ---------------------------------------------------------------- whole passes on real ranks

class Seen:
    """Per evaluated batch: the real rows this rank was given with the model's outputs for them."""

    def __init__(self, poison=True):
        self.batches = []
        self.poison = poison

    def __call__(self, t, data):
        mask = data["is_real"].bool() if "is_real" in data else torch.ones(len(data["value_target"]), dtype=torch.bool)
        if self.poison:
            for k, v in data.items():
                if k != "is_real" and isinstance(v, torch.Tensor) and v.is_floating_point() and v.ndim and not mask.all():
                    v = v.clone()
                    v[~mask] = math.nan
                    data[k] = v
        if self.poison:  # no ties between moves, which the best moves would depend on
            ramp = torch.linspace(0.1, 1.0, data["policy_target"][0].numel()).reshape(data["policy_target"].shape[1:])
            data["policy_target"] = data["policy_target"] * 0.5 + ramp / ramp.sum() * 0.5
        with torch.no_grad():
            out = t.accelerator.unwrap_model(t.model)(data)
        self.batches.append([
            {"value": out["value"][i].double().numpy(), "policy": out["policy"][i].double().flatten().numpy(),
             "value_target": data["value_target"][i].double().numpy(),
             "policy_target": data["policy_target"][i].double().flatten().numpy(),
             "mask": np.ones(out["policy"][i].numel()),
             "key": data["board_input"][i].numpy().tobytes() + data["value_target"][i].numpy().tobytes()}
            for i in range(len(mask)) if mask[i]])


def _still(t, data):
    t.model.eval()


def joined(per_rank):
    """Global batches out of what the ranks saw."""
    return [[r for share in step for r in share] for step in itertools.zip_longest(*per_rank, fillvalue=[])]


def averaged(batches, fn):
    each = [fn(b) for b in batches]
    return {k: sum(e[k] for e in each) / len(each) if not k.endswith("err_max") else max(e[k] for e in each)
            for k in each[0]}


def whole(ctx, kind, files, mult):
    root = ctx.mkdir("data")
    dataset_type, paths, opts = F.make(kind, root, files)
    troot = ctx.mkdir("train")
    _, tpaths, _ = F.make(kind, troot, (18,))
    results, sets = {}, {}
    for world in (1, 2, 3):
        base = ctx.mkdir(f"run{world}")

        def job(rank):
            seen = Seen()
            rundir = os.path.join(base, "run")
            t = T.make(rundir, {"validate": seen, "before": _still}, dataset_type=dataset_type, train_datas=tpaths,
                       val_datas=paths, dataset_args=opts, batch_size=6, eval_bs_multipler=mult, iterations=1,
                       val_interval=1, learning_rate=0.0, model_args={"drop": 0.0}, loss_type="CE+CE")
            T.run(t)
            return seen.batches

        if world == 1:
            out = [("ok", job(0))]
        else:
            out = ranks.run(world, job, seconds=100, init=False)
        ctx.check(all(o[0] == "ok" for o in out), "an evaluation pass failed", world=world, outcomes=str(out)[:1500])
        with open(os.path.join(base, "run", "training_log.jsonl")) as f:
            logged = [j for j in map(json.loads, f) if "val_loss" in j]
        ctx.equal(len(logged), 1, "not one validation result was logged", world=world)
        batches = joined([o[1] for o in out])
        ctx.equal({len(o[1]) for o in out}, {len(out[0][1])}, "ranks made different numbers of forward passes",
                  world=world)
        keys = [r["key"] for b in batches for r in b]
        ctx.equal(len(keys), sum(files), "not every record was evaluated", world=world)
        ctx.equal(len(set(keys)), len(keys), "a record was evaluated twice", world=world)
        ctx.equal(logged[0]["num_val_entries"], sum(files), "the wrong number of entries was reported", world=world)
        global CELLS
        CELLS = batches[0][0]["policy"].size
        want = averaged(batches, lambda b: definition(b, {"type": "CE+CE"}))
        near(ctx, logged[0]["val_loss"], want, "a validation loss is not the mean over the real records", world=world)
        results[world], sets[world] = logged[0]["val_loss"], [sorted(r["key"] for r in b) for b in batches]
        ctx.step(len(batches))
        ctx.state((kind, files, mult, world))
        ctx.trace()
        CELLS = 6
    for world in (2, 3):
        ctx.equal(sets[world], sets[1], "ranks evaluate other global batches", world=world)
        near(ctx, results[world], results[1], "the validation loss depends on the number of ranks", world=world)


def _evaluator(seen, checkpoint, dataset_type, paths, opts, **more):
    from trainer import TRAINERS

    T.register()

    class Looking(TRAINERS["supervised"]):
        def test_step(self, data, **kw):
            seen(self, data)
            return super().test_step(data, **kw)

    with T.silent():
        return Looking.init_for_evaluation(
            checkpoint=checkpoint, model_type=T.MODEL, model_args={"drop": 0.0}, test_datas=paths,
            dataset_type=dataset_type, dataset_args=opts, batch_size=6, num_worker=0, use_cpu=True, **more)


def tested(ctx, max_batches):
    root = ctx.mkdir("data")
    dataset_type, paths, opts = F.make("map_processed", root, (7, 6))
    run = ctx.mkdir("made")
    t = T.run(T.make(run, dataset_type=dataset_type, train_datas=paths, dataset_args=opts, iterations=2, save_interval=2,
                     model_args={"drop": 0.0}))
    checkpoint = [os.path.join(d, f) for d, _, fs in os.walk(run) for f in fs if f.startswith("ckpt_")][0]
    del t
    values, keys = {}, {}
    for world in (1, 2, 3):
        result_file = os.path.join(ctx.mkdir(f"res{world}"), "result.json")

        def job(rank):
            seen = Seen()
            t = _evaluator(seen, checkpoint, dataset_type, paths, opts)
            with T.silent():
                out = t.test(max_batches=max_batches, do_cross_eval=True)
            return out, seen.batches

        out = [("ok", job(0))] if world == 1 else ranks.run(world, job, seconds=100, init=False)
        ctx.check(all(o[0] == "ok" for o in out), "an evaluation pass failed", world=world, outcomes=str(out)[:1500])
        batches = joined([o[1][1] for o in out])
        wanted = 3 if max_batches is None else max_batches
        ctx.equal(len(batches), wanted, "the wrong number of batches was evaluated", world=world)
        global CELLS
        CELLS = batches[0][0]["policy"].size
        want = averaged(batches, lambda b: metric_definition(b, True))
        CELLS = 6
        near(ctx, out[0][1][0], want, "a test metric is not the mean over the real records", world=world)
        ctx.equal([o[1][0] for o in out[1:]], [None] * (world - 1), "another rank reports results")
        values[world], keys[world] = out[0][1][0], [sorted(r["key"] for r in b) for b in batches]
        ctx.step(len(batches))
        ctx.state((max_batches, world))
        ctx.trace()
    for world in (2, 3):
        ctx.equal(keys[world], keys[1], "ranks evaluate other global batches", world=world)
        near(ctx, values[world], values[1], "a test metric depends on the number of ranks", world=world)


def _batch(index, n=2):
    g = torch.Generator().manual_seed(50 + index)
    return {"board_input": torch.randint(0, 2, (n, 2, 5, 5), generator=g).float(),
            "value_target": torch.softmax(torch.randn(n, 3, generator=g), 1),
            "policy_target": torch.softmax(torch.randn(n, 25, generator=g), 1).reshape(n, 5, 5)}


def _checkpoint(ctx):
    root = ctx.mkdir("data")
    dataset_type, paths, opts = F.make("map_processed", root, (12,))
    run = ctx.mkdir("made")
    T.run(T.make(run, dataset_type=dataset_type, train_datas=paths, dataset_args=opts, iterations=1, save_interval=1,
                 model_args={"drop": 0.0}))
    checkpoint = [os.path.join(d, f) for d, _, fs in os.walk(run) for f in fs if f.startswith("ckpt_")][0]
    return checkpoint, dataset_type, paths, opts


def own_batches(ctx, counts):
    """A loader of the user's own, giving ranks different numbers of batches."""
    made = _checkpoint(ctx)
    for given in counts:
        for limit in (None, 1):
            world = len(given)

            def job(rank):
                seen = Seen(poison=False)
                t = _evaluator(seen, *made)
                t.test_loader = [_batch(10 * rank + i) for i in range(given[rank])]
                with T.silent():
                    return t.test(max_batches=limit, do_cross_eval=True), seen.batches

            out = ranks.run(world, job, seconds=60, init=False)
            ctx.check(all(o[0] == "ok" for o in out), "ranks with different numbers of batches do not finish",
                      given=str(given), limit=limit, outcomes=str(out)[:1500])
            ctx.equal(len({len(o[1][1]) for o in out}), 1, "ranks made different numbers of forward passes",
                      given=str(given))
            taken = [g if limit is None else min(g, limit) for g in given]
            batches = joined([o[1][1][:n] for o, n in zip(out, taken)])
            weights = [sum(n > i for n in taken) for i in range(max(taken))]
            global CELLS
            CELLS = 25
            each = [metric_definition(b, True) for b in batches]
            CELLS = 6
            got = out[0][1][0]
            ctx.equal(set(got), set(each[0]), "other metrics", given=str(given))
            for k in each[0]:
                column = [e[k] for e in each]
                if k.endswith("_max"):
                    options = [max(column)]
                else:
                    options = [sum(column) / len(column), sum(c * w for c, w in zip(column, weights)) / sum(weights)]
                ctx.check(any(abs(got[k] - o) <= 2e-4 * max(1, abs(o)) for o in options),
                          "batches replayed by a rank that ran out count", given=str(given), limit=limit, metric=k,
                          got=got[k], want=str(options))
            ctx.step(sum(given))
            ctx.state((given, limit))
            ctx.trace()


class Breaking:
    """A loader that fails at one batch."""

    def __init__(self, inner, at, dataset=None):
        self.inner, self.at = inner, at
        if dataset is not None:
            self.dataset = dataset

    def __iter__(self):
        if self.at == "iter":
            raise OSError("mcheck broken loader")
        for i, b in enumerate(self.inner):
            if i == self.at:
                raise OSError("mcheck broken loader")
            yield b
        if self.at == "end":
            raise OSError("mcheck broken loader")


class Short(Breaking):
    def __iter__(self):
        for i, b in enumerate(self.inner):
            if i == self.at:
                return
            yield b


def failing(ctx, world, rank):
    made = _checkpoint(ctx)
    faults = [("own", "fetch", at) for at in ("iter", 0, 1, 2, "end")]
    faults += [("planned", "fetch", at) for at in ("iter", 0, 1, "end")]
    faults += [(loader, phase, at) for loader in ("own", "planned")
               for phase in ("step", "name", "kind", "opaque", "shape", "dtype", "scope") for at in (0, 1)]
    faults += [("planned", "short", 0), ("planned", "short", 1)]
    faults += [("own", "all-change", 1), ("planned", "all-change", 1)]
    victim = rank

    def job(rank, loader, phase, at):
        from dataset.core import Maximum, SumCount

        seen = Seen(poison=False)
        t = _evaluator(seen, *made)
        if loader == "own":
            t.test_loader = [_batch(10 * rank + i) for i in range(3)]
        mine = rank == victim
        if phase in ("fetch", "short") and mine:
            dataset = getattr(t.test_loader, "dataset", None)
            t.test_loader = (Short if phase == "short" else Breaking)(t.test_loader, at, dataset)
        real, count = t.test_step, [0]

        def step(data, **kw):
            i = count[0]
            count[0] += 1
            out = real(data, **kw)
            if i != at or not (mine or phase == "all-change"):
                return out
            s = out["bestmove_acc"]
            if phase == "step":
                raise ValueError("mcheck broken step")
            if phase in ("name", "all-change"):
                out["mcheck_extra"] = s
            if phase == "kind":
                out["bestmove_acc"] = Maximum("evaluation", s.sum, 1)
            if phase == "opaque":
                out["bestmove_acc"] = 0.5
            if phase == "shape":
                out["bestmove_acc"] = SumCount(s.scope, s.sum.reshape(1), s.count)
            if phase == "dtype":
                out["bestmove_acc"] = SumCount(s.scope, s.sum.double(), s.count)
            if phase == "scope":
                out["bestmove_acc"] = SumCount("evaluation", s.sum, s.count)
            return out

        if phase not in ("fetch", "short"):
            t.test_step = step
        with T.silent():
            return t.test()

    for fault in faults:
        out = ranks.run(world, lambda r: job(r, *fault), seconds=40, init=False)
        info = {"world": world, "rank": victim, "fault": str(fault), "outcomes": str(out)[:1200]}
        ctx.check(all(o[0] != "hung" for o in out), "a rank hangs when one rank fails", **info)
        ctx.check(all(o[0] == "error" for o in out), "a rank finishes although evaluation failed", **info)
        if fault[1] in ("fetch", "step"):
            ctx.check(all("mcheck broken" in o[2] for o in out), "a rank does not name the failure", **info)
            ctx.check(all(f"rank {victim}" in o[2] for o in out), "a rank does not name the failing rank", **info)
        elif fault[1] != "short":
            ctx.equal(len({o[2] for o in out}), 1, "ranks report different reasons for differing metrics", **info)
        ctx.step()
        ctx.state(fault)
        ctx.trace()
