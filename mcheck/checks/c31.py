"""Code books: every short history of batches (training, evaluation, saving and restoring) is driven through the real vector
quantizer, each step judged against its update rule in double precision and against a twin restored from the state just
before; initialisation under every split of the first samples; the same histories on two and three real ranks; and every
choice of real entries in evaluation."""
import copy
import itertools
import math

import numpy as np
import torch

from mcheck import ranks, train as T

LEVEL = "model_checking"
SCENARIO_LIMIT = 420
TASKS_PER_CHILD = 20
ASSUMPTIONS = [
    "books of two or three codes in two dimensions, batches of one to four vectors, histories of up to four (thorough: six) "
    "steps; the CPU path (the accelerated searches need a GPU)",
    "each step agrees with its definition in double precision within 2e-5; nearest codes and expiry are not judged on ties",
    "random picks (expired codes, k-means starts) may be any of the vectors that were available",
]
RULE = ("all sequences over an alphabet of batches and operations up to the depth are enumerated; every transition is "
        "compared with the definition and with a restored twin")

TOL = 2e-5

BATCHES = [
    [(1.03, 0.11), (0.91, -0.17), (1.12, 0.02)],
    [(-0.83, 0.79), (-1.07, 0.62)],
    [(0.21, -1.13), (-0.77, 0.91), (0.97, 0.08), (0.13, -0.92)],
    [(2.31, 2.07)],
]

BOOKS = {
    "plain": dict(threshold_ema_dead_code=0.2, ema_decay=0.5),
    "eager": dict(threshold_ema_dead_code=0.5, ema_decay=0.5, reset_cluster_size=3),
    "slow": dict(threshold_ema_dead_code=0.2, ema_decay=0.9, commitment_weight=0.7),
    "never": dict(threshold_ema_dead_code=0, ema_decay=0.6, entropy_reg_weight=0.3, entropy_reg_temp=0.5),
    "cosine": dict(threshold_ema_dead_code=0.2, ema_decay=0.5, use_cosine_sim=True),
    "learned": dict(threshold_ema_dead_code=0.2, ema_decay=0.5, ema_update=False),
    "learned-cosine": dict(threshold_ema_dead_code=0.1, ema_decay=0.6, ema_update=False, use_cosine_sim=True),
    "rotation": dict(threshold_ema_dead_code=0.1, ema_decay=0.6, rotation_trick=True),
    "simvq": dict(use_simvq=True, ema_decay=0.6),
}


def prepare(tier):
    T.warm()
    for x in (torch.tensor(BATCHES[2]), torch.tensor(BATCHES[3])):  # compile the kernels once, also those for a single vector
        for opts in BOOKS.values():
            m = make(opts)
            m.train()
            m(x)
            m.eval()
            for mask in ([True] * len(x), [True] + [False] * (len(x) - 1)):
                m.set_eval_entry_mask(torch.tensor(mask))
                m(x)
    for cosine in (False, True):
        m = make(dict(kmeans_init=True, kmeans_sample_multiplier=2, use_cosine_sim=cosine))
        m(torch.tensor(BATCHES[2] + BATCHES[2]))


def make(opts, codes=3, seed=11):
    from model.vq import VectorQuantize

    torch.manual_seed(seed)
    return VectorQuantize(codes, 2, **{"kmeans_init": False, **opts})


def scenarios(tier):
    deep = tier == "thorough"
    for name in BOOKS:
        for codes in (2, 3):
            yield "histories", {"name": name, "codes": codes, "depth": 6 if deep else 4}
    for cosine in (False, True):
        for mult in (1, 2, 3):
            yield "starting", {"cosine": cosine, "mult": mult, "codes": 2, "depth": 5 if deep else 4}
    for world in (2, 3):
        for name in ("plain", "eager", "never", "cosine", "learned"):
            yield "spread", {"name": name, "world": world, "deep": deep}
        yield "starting_ranks", {"world": world, "deep": deep}
        yield "disagreeing", {"world": world}
    for name in BOOKS:
        yield "evaluation", {"name": name}
    for name in ("plain", "never", "cosine"):
        yield "product", {"name": name, "depth": 4 if deep else 3}


# ---------------------------------------------------------------- definition

def norm(v):
    n = np.sqrt((v * v).sum(-1, keepdims=True))
    return v / np.maximum(n, 1e-7)


def state(m):
    s = {k: v.detach().double().numpy().copy() for k, v in m.state_dict().items()}
    return s


def vectors(x, opts):
    x = np.asarray(x, np.float32).astype(np.float64)
    return norm(x) if opts.get("use_cosine_sim") else x


def options_of(opts):
    return {"ema": opts.get("ema_update", True) and not opts.get("use_simvq"),
            "threshold": 0 if opts.get("use_simvq") else opts["threshold_ema_dead_code"],
            "cosine": opts.get("use_cosine_sim", False), "decay": opts["ema_decay"],
            "reset": opts.get("reset_cluster_size") or 1}


def book_of(s, opts):
    o = options_of(opts)
    code = s["embed"]
    if opts.get("use_simvq"):
        code = code @ s["code_transform.weight"].T
    return norm(code) if o["cosine"] and not o["ema"] else code


def distances(x, code, cosine):
    return 1 - x @ code.T if cosine else ((x[:, None] - code[None]) ** 2).sum(-1)


def expired(s, opts):
    """(which codes expire, how clearly)"""
    o = options_of(opts)
    share = s["cluster_size"] * (len(s["cluster_size"]) / s["cluster_size"].sum())
    return share < o["threshold"], float(np.abs(share - o["threshold"]).min()) if o["threshold"] else 1.0


def after(s, x, opts, dead, picks, given):
    """(state after one training step, the book in use, the indices)"""
    o = options_of(opts)
    s = {k: v.copy() for k, v in s.items()}
    for code, row in zip(np.flatnonzero(dead), picks):
        s["embed"][code] = x[row]
        s["embed_avg"][code] = x[row] * o["reset"]
        s["cluster_size"][code] = o["reset"]
    book = book_of(s, opts)
    d = distances(x, book, o["cosine"])
    best = d.min(1)
    own = d[np.arange(len(x)), given]
    if (own - best > 1e-5).any():
        return None
    counts = np.bincount(given, minlength=len(book)).astype(float)
    s["cluster_size"] = s["cluster_size"] * o["decay"] + (1 - o["decay"]) * counts
    if o["ema"]:
        total = np.zeros_like(s["embed_avg"])
        np.add.at(total, given, x)
        s["embed_avg"] = s["embed_avg"] * o["decay"] + (1 - o["decay"]) * total
        size = s["cluster_size"]
        smooth = size.sum() * (size + 1e-5) / (size.sum() + len(size) * 1e-5)
        s["embed"] = s["embed_avg"] / smooth[:, None]
        if o["cosine"]:
            s["embed"] = norm(s["embed"])
    return s, book


def alike(a, b):
    return set(a) == set(b) and all(np.abs(a[k] - b[k]).max() <= TOL * max(1.0, np.abs(b[k]).max()) for k in b)


def entropy_loss(x, book, opts):
    d = distances(x, book, opts.get("use_cosine_sim", False))
    d = d if opts.get("use_cosine_sim") else np.sqrt(d)
    z = -d / opts["entropy_reg_temp"]
    p = np.exp(z - z.max(1, keepdims=True))
    p = (p / p.sum(1, keepdims=True)).mean(0)
    return float((p * np.log(np.maximum(p, 1e-7))).sum())


def perplexity(counts):
    p = counts / counts.sum()
    return float(np.exp(-(p * np.log(p + 1e-10)).sum()))


def total_loss(x, quantized, book, opts):
    mean = float(((quantized - x) ** 2).mean())
    loss = mean * (1 + opts.get("commitment_weight", 0.25))
    if opts.get("entropy_reg_weight", 0):
        loss += opts["entropy_reg_weight"] * entropy_loss(x, book, opts)
    return mean, loss


def close(ctx, got, want, message, tol=2e-4, **info):
    got = float(got)
    ctx.check(math.isfinite(got) and abs(got - want) <= tol * max(1.0, abs(want)), message, got=got, want=float(want), **info)


def judge(ctx, before, later, x, opts, indices, out, **info):
    """One training step on all of x (the union over the ranks)."""
    dead, margin = expired(before, opts)
    number = int(dead.sum())
    found = None
    choices = itertools.permutations(range(len(x)), number) if number <= len(x) else itertools.product(
        range(len(x)), repeat=number)
    for picks in choices:
        got = after(before, x, opts, dead, picks, indices)
        if got is not None and alike(later, got[0]):
            found = got
            break
    if found is None and margin < 1e-5:
        ctx.tag("a code exactly at the threshold")
        return None
    ctx.check(found is not None, "a step of the code book is not the one its rule gives", expired=str(dead.tolist()),
              before=str(before), after=str(later), indices=str(list(indices)),
              without=str(after(before, x, opts, dead, tuple(range(number)), indices) if number <= len(x) else None), **info)
    if out is not None:
        close(ctx, out["num_expired_codes"], number, "the number of expired codes is wrong", **info)
        counts = np.bincount(indices, minlength=len(found[1])).astype(float)
        close(ctx, out["perplexity"], perplexity(counts), "the perplexity is not the batch's", **info)
        close(ctx, out["normalized_perplexity"], perplexity(counts) / len(counts), "the normalised perplexity is wrong", **info)
    ctx.tag(f"{number} codes expired")
    return found[1]


def judge_output(ctx, x, value, out, book, opts, **info):
    """Delivered vectors, losses."""
    idx = out["embed_indices"].numpy()
    quantized = book[idx]
    ctx.check(np.abs(value.detach().double().numpy() - quantized).max() <= 1e-4, "the delivered vector is not its code",
              got=str(value.tolist()), want=str(quantized.tolist()), **info)
    mean, loss = total_loss(x, quantized, book, opts)
    close(ctx, out["loss_embed"].detach(), mean, "the embedding loss is wrong", **info)
    close(ctx, out["loss_commitment"].detach(), mean, "the commitment loss is wrong", **info)
    close(ctx, out["loss"].detach(), loss, "the loss is wrong", **info)


def image(m, value, out):
    """Everything a step leaves, bit for bit."""
    s = {k: v.clone() for k, v in m.state_dict().items()}
    s["value"] = value.detach().clone()
    if out is not None:
        for k in ("embed_indices", "perplexity", "normalized_perplexity", "num_expired_codes", "loss"):
            s[k] = torch.as_tensor(out[k]).detach().clone()
    return s


def same(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


# ---------------------------------------------------------------- histories

def histories(ctx, name, codes, depth):
    opts = BOOKS[name]
    start = make(opts, codes)
    older = copy.deepcopy(start)
    older.train()
    for _ in range(3):  # the other codes are about to expire
        older(torch.tensor(BATCHES[0]))
    first = copy.deepcopy(older.state_dict())
    ops = ["0", "1", "2", "3", "e", "r"]
    stack = [("", start)]
    while stack:
        history, m = stack.pop()
        ctx.state(name, codes, history)
        if len(history) >= depth:
            ctx.trace()
            continue
        for op in ops:
            if op == "e" and (history[-1:] == "e" or len(history) + 1 == depth):
                continue
            if op == "r" and (history[-1:] in ("r", "e", "") or "r" in history or len(history) + 1 == depth):
                continue
            child = copy.deepcopy(m)
            if op == "r":  # another state is put into the used book
                child.load_state_dict(copy.deepcopy(first))
                ctx.check(same(dict(child.state_dict()), first), "a state put back is not taken over", which=name, history=history)
                stack.append((history + op, child))
                continue
            twin = make(opts, codes, seed=5)
            twin.load_state_dict(copy.deepcopy(m.state_dict()))
            info = {"which": name, "codes": codes, "history": history + op}
            rows = BATCHES[2 if op == "e" else int(op)]
            before = state(m)
            results = []
            for other in (child, twin):
                other.train(op != "e")
                torch.manual_seed(hash(len(history)) * 10 + ord(op))
                x = torch.tensor(rows, requires_grad=True)
                value, out = other(x)
                ctx.check(out is not None, "an initialised book does not quantize", **info)
                results.append((x, value, out))
                other.train()
            (x, value, out), (_, value2, out2) = results
            ctx.check(same(image(child, value, out), image(twin, value2, out2)),
                      "a book restored from its state goes on differently", first=str(image(child, value, out)),
                      second=str(image(twin, value2, out2)), **info)
            v = vectors(rows, opts)
            idx = out["embed_indices"].numpy()
            ctx.step()
            if op == "e":
                ctx.check(same({k: t for k, t in child.state_dict().items()}, m.state_dict()), "evaluation changed the book",
                          **info)
                book = book_of(before, opts)
                d = distances(v, book, opts.get("use_cosine_sim", False))
                ctx.check((d[np.arange(len(v)), idx] - d.min(1) <= 1e-5).all(), "evaluation does not take the nearest code",
                          **info)
            else:
                book = judge(ctx, before, state(child), v, opts, idx, out, **info)
            if book is not None:
                judge_output(ctx, v, value, out, book, opts, **info)
            if not opts.get("rotation_trick") and not opts.get("use_cosine_sim"):
                weight = torch.arange(1.0, 1 + value.numel()).reshape(value.shape)
                (value * weight).sum().backward()
                ctx.check(torch.allclose(x.grad, weight), "the gradient does not pass straight through", **info)
            ctx.check(torch.equal(child.from_indices(out["embed_indices"]),
                                  torch.nn.functional.embedding(out["embed_indices"], child.codebook)),
                      "codes are not looked up from the book", **info)
            child.zero_grad(set_to_none=True)
            stack.append((history + op, child))


# ---------------------------------------------------------------- initialisation

FIRST = [(1.02, 0.13), (-0.91, 0.41), (0.87, -0.22), (-1.11, 0.33), (0.95, 0.31), (-0.78, -0.12), (1.02, 0.13)]


def pending(m):
    get = getattr(m, "_vq_init_continuation_state", None)
    return None if get is None else get()


def judge_start(ctx, s, rows, target, cosine, **info):
    """The book made of the first `target` rows (of all ranks)."""
    codes = len(s["embed"])
    close(ctx, s["cluster_size"].sum(), target, "the first counts are not those of the samples", **info)
    size = s["cluster_size"]
    ctx.check(np.abs(s["embed_avg"] - s["embed"] * size[:, None]).max() <= TOL * target,
              "the first sums do not belong to the first codes", **info)
    if target == codes:
        ctx.check(sorted(map(tuple, np.round(s["embed"], 5))) == sorted(map(tuple, np.round(rows, 5))),
                  "the first codes are not the samples", got=str(s["embed"]), **info)
        return
    d = distances(rows, s["embed"], cosine)
    owner = d.argmin(1)
    for c in range(codes):
        mine = rows[owner == c]
        if not size[c]:
            ctx.tag("empty cluster")
            continue
        close(ctx, size[c], len(mine), "a first count is not its cluster's", code=c, **info)
        mean = mine.mean(0)
        mean = norm(mean) if cosine else mean
        ctx.check(np.abs(mean - s["embed"][c]).max() <= 1e-4, "a first code is not the mean of its samples", code=c,
                  got=str(s["embed"][c]), want=str(mean), **info)


def starting(ctx, cosine, mult, codes, depth):
    opts = dict(kmeans_init=True, kmeans_sample_multiplier=mult, use_cosine_sim=cosine, threshold_ema_dead_code=0.1,
                ema_decay=0.6)
    target = codes * mult
    for sizes in itertools.product("123e", repeat=depth):
        if sizes[-1] == "e":
            continue
        history = "".join(sizes)
        m = make(opts, codes)
        used, ready = [], False
        at = 0
        for i, op in enumerate(history):
            info = {"history": history, "at": i, "unit": cosine, "mult": mult}
            n = 2 if op == "e" else int(op)
            rows = [FIRST[(at + k) % len(FIRST)] for k in range(n)]
            twin = make(opts, codes, seed=5)
            twin.load_state_dict(copy.deepcopy(m.state_dict()))
            held = pending(m)
            if held is not None:
                twin._load_vq_init_continuation_state(copy.deepcopy(held))
            before = state(m)
            pair = []
            for other in (m, twin):
                if other is twin and held is None:
                    continue
                other.train(op != "e")
                torch.manual_seed(100 + i)
                value, out = other(torch.tensor(rows))
                pair.append((other, value, out))
            ctx.step()
            m, value, out = pair[0]
            if len(pair) > 1:
                ctx.check(same(image(m, value, out), image(pair[1][0], pair[1][1], pair[1][2])) and
                          (out is None) == (pair[1][2] is None), "a book restored while it starts goes on differently", **info)
            v = vectors(rows, opts)
            if ready:
                if op != "e":
                    judge(ctx, before, state(m), v, opts, out["embed_indices"].numpy(), out, **info)
                continue
            ctx.check(out is None and np.abs(value.detach().double().numpy() - v).max() < 1e-6,
                      "a book without codes does not pass its input on", **info)
            if op == "e":
                ctx.check(np.array_equal(before["embed"], state(m)["embed"]) and not bool(m.inited),
                          "evaluation took part in starting the book", **info)
                continue
            at += n
            used = (used + [tuple(r) for r in v])[:target]
            ctx.equal(bool(m.inited), len(used) >= target, "the book starts too early or too late", have=len(used),
                      need=target, **info)
            if len(used) >= target:
                ready = True
                judge_start(ctx, state(m), np.array(used), target, cosine, **info)
        ctx.state(cosine, mult, history)
        ctx.trace()


# ---------------------------------------------------------------- ranks

def joined():
    from accelerate import Accelerator

    Accelerator(cpu=True)


def outcome(ctx, out, **info):
    ctx.check(all(o[0] == "ok" for o in out), "a rank fails or hangs", outcomes=str(out)[:1500], **info)
    return [o[1] for o in out]


def _portable(s):
    return {k: np.asarray(v) for k, v in s.items()}


def spread(ctx, name, world, deep):
    opts = BOOKS[name]
    union = BATCHES
    plans = []
    for op in range(len(BATCHES)):
        n = len(union[op])
        for cut in itertools.combinations(range(1, n), world - 1) if n >= world else ():
            edges = (0, *cut, n)
            plans.append((op, edges))
    depth = 3 if deep else 2
    runs = list(itertools.product(plans, repeat=depth))
    if len(runs) > 400:
        runs = runs[:: 1 + len(runs) // 400] if not deep else runs
    last = plans[-1]
    runs = [r + (last,) * 3 for r in runs]

    def job(rank):
        joined()
        out = []
        for run in runs:
            m = make(opts)
            m.train()
            steps = []
            for i, (op, edges) in enumerate(run):
                before = _portable(state(m))
                torch.manual_seed(1000 + 10 * i + rank)
                x = torch.tensor(union[op][edges[rank]:edges[rank + 1]])
                value, info = m(x)
                steps.append((before, _portable(state(m)), info["embed_indices"].numpy(), float(info["perplexity"]),
                              float(info["normalized_perplexity"]), float(info["num_expired_codes"])))
            out.append(steps)
        return out

    per_rank = outcome(ctx, ranks.run(world, job, seconds=240, init=False), name=name, world=world)
    for r, run in enumerate(runs):
        for i, (op, edges) in enumerate(run):
            steps = [per_rank[k][r][i] for k in range(world)]
            info = {"which": name, "world": world, "run": str(run), "at": i}
            for k in range(1, world):
                for key in steps[0][1]:
                    ctx.check(np.array_equal(steps[0][1][key], steps[k][1][key]), "ranks hold different books", key=key, **info)
                ctx.equal(steps[k][3:], steps[0][3:], "ranks report different code usage", **info)
            idx = np.concatenate([s[2] for s in steps])
            out = {"perplexity": steps[0][3], "normalized_perplexity": steps[0][4], "num_expired_codes": steps[0][5]}
            judge(ctx, steps[0][0], steps[0][1], vectors(union[op], opts), opts, idx, out, **info)
            ctx.step()
        ctx.state(name, world, str(run))
        ctx.trace()


def starting_ranks(ctx, world, deep):
    codes = 3
    cases = [(cosine, mult, sizes) for cosine in (False, True) for mult in (1, 2)
             for sizes in itertools.product((1, 2), repeat=world)]

    def job(rank):
        joined()
        out = []
        for cosine, mult, sizes in cases:
            opts = dict(kmeans_init=True, kmeans_sample_multiplier=mult, use_cosine_sim=cosine, threshold_ema_dead_code=0.1,
                        ema_decay=0.6)
            m = make(opts, codes)
            m.train()
            at = rank * 2
            log = []
            for step in range(6):
                rows = [FIRST[(at + k) % len(FIRST)] for k in range(sizes[rank])]
                at += sizes[rank]
                torch.manual_seed(50 + step + rank)
                _, info = m(torch.tensor(rows))
                log.append((rows, bool(m.inited), _portable(state(m)),
                            None if info is None else info["embed_indices"].numpy()))
            out.append(log)
        return out

    per_rank = outcome(ctx, ranks.run(world, job, seconds=240, init=False), world=world)
    for c, (cosine, mult, sizes) in enumerate(cases):
        opts = dict(use_cosine_sim=cosine, threshold_ema_dead_code=0.1, ema_decay=0.6)
        share = (codes * mult + world - 1) // world
        used = [[] for _ in range(world)]
        ready = False
        for step in range(6):
            logs = [per_rank[k][c][step] for k in range(world)]
            info = {"world": world, "unit": cosine, "mult": mult, "sizes": str(sizes), "step": step}
            for k in range(1, world):
                ctx.equal(logs[k][1], logs[0][1], "ranks disagree whether the book has started", **info)
                for key in logs[0][2]:
                    ctx.check(np.array_equal(logs[0][2][key], logs[k][2][key]), "ranks hold different books", key=key, **info)
            if ready:
                rows = vectors(sum((list(log[0]) for log in logs), []), opts)
                judge(ctx, per_rank[0][c][step - 1][2], logs[0][2], rows, opts, np.concatenate([log[3] for log in logs]),
                      None, **info)
            else:
                for k in range(world):
                    used[k] = (used[k] + [tuple(r) for r in vectors(logs[k][0], opts)])[:share]
                enough = all(len(u) >= share for u in used)
                ctx.equal(logs[0][1], enough, "the book starts too early or too late", **info)
                if enough:
                    ready = True
                    if share * world > codes:
                        judge_start(ctx, logs[0][2], np.array(sum(used, [])), share * world, cosine, **info)
                    else:
                        judge_start(ctx, logs[0][2], np.array(sum(used, []))[:codes], codes, cosine, **info)
            ctx.step()
        ctx.check(ready, "the book never started", world=world, sizes=str(sizes))
        ctx.state(world, cosine, mult, sizes)
        ctx.trace()


def disagreeing(ctx, world):
    changes = {"threshold": dict(threshold_ema_dead_code=0.3), "reset": dict(reset_cluster_size=2),
               "rule": dict(ema_update=False), "cosine": dict(use_cosine_sim=True)}

    def job(rank, what, victim):
        joined()
        opts = dict(kmeans_init=what in ("started", "samples"), threshold_ema_dead_code=0.1)
        if rank == victim:
            opts.update(changes.get(what, {}))
            if what == "samples":
                opts["kmeans_sample_multiplier"] = 5
        m = make(opts)
        m.train()
        if what == "started" and rank == victim:
            s = m.state_dict()
            s["inited"].fill_(True)
            s["embed"].copy_(torch.randn(3, 2))
            m.load_state_dict(s)
        if what == "mode" and rank == victim:
            m.eval()
        for _ in range(3):
            m(torch.tensor(BATCHES[2]))
        return True

    for what in (*changes, "started", "samples", "mode"):
        for victim in (0, world - 1):
            out = ranks.run(world, lambda r: job(r, what, victim), seconds=30, init=False)
            info = {"world": world, "what": what, "rank": victim, "outcomes": str(out)[:900]}
            ctx.check(all(o[0] == "error" for o in out), "ranks with different books go on (or hang)", **info)
            ctx.step()
            ctx.state(world, what, victim)
            ctx.trace()


# ---------------------------------------------------------------- evaluation

def evaluation(ctx, name):
    from trainer.loss.supervised import compute_supervised_loss_statistics

    opts = BOOKS[name]
    cosine = opts.get("use_cosine_sim", False)
    for trained in range(3):
        m = make(opts)
        m.train()
        for i in range(trained):
            torch.manual_seed(i)
            m(torch.tensor(BATCHES[i]))
        m.eval()
        before = {k: v.clone() for k, v in m.state_dict().items()}
        book = book_of(state(m), opts)
        for rows in BATCHES:
            v = vectors(rows, opts)
            nearest = distances(v, book, cosine).argmin(1)
            for mask in itertools.product((True, False), repeat=len(rows)):
                info = {"which": name, "mask": str(mask), "rows": str(rows)}
                m.set_eval_entry_mask(torch.tensor(mask))
                with torch.no_grad():
                    x = torch.tensor(rows)
                    value, out = m(x)
                keep = np.array(mask)
                ctx.step()
                ctx.state(name, trained, mask, str(rows))
                ctx.equal(out["embed_indices"].tolist(), nearest.tolist(), "evaluation does not take the nearest code", **info)
                ctx.check(np.abs(value.double().numpy() - book[nearest]).max() < 1e-4, "the delivered vector is not its code",
                          **info)
                if keep.any():
                    counts = np.bincount(nearest[keep], minlength=3).astype(float)
                    mean, loss = total_loss(v[keep], book[nearest[keep]], book, opts)
                    close(ctx, out["loss"], loss, "padding takes part in the loss", **info)
                    close(ctx, out["loss_embed"], mean, "padding takes part in the loss", **info)
                    close(ctx, out["perplexity"], perplexity(counts), "padding takes part in the code usage", **info)
                else:
                    for key in ("loss", "perplexity", "normalized_perplexity", "loss_embed"):
                        close(ctx, out[key], 0.0, "an evaluation batch without real entries has " + key, **info)
            # all splits of the rows into two shares, through the evaluation statistics
            for side in itertools.product((0, 1), repeat=len(rows)):
                for pad in (False, True):
                    shares = [[r for r, s in zip(rows, side) if s == k] for k in (0, 1)]
                    parts = []
                    for share in shares:
                        padded = list(share) + ([(7.0, -9.0)] if pad or not share else [])
                        real = [True] * len(share) + [False] * (len(padded) - len(share))
                        m.set_eval_entry_mask(torch.tensor(real))
                        with torch.no_grad():
                            value, out = m(torch.tensor(padded))
                        n = len(padded)
                        data = {"value_target": torch.full((n, 3), 1 / 3), "policy_target": torch.full((n, 1, 2), 0.5),
                                "is_real": torch.tensor(real)}
                        results = {"value": torch.zeros(n, 3), "policy": torch.zeros(n, 1, 2), "aux_losses": {
                            "vq": ("vq_loss", {"value": out["loss"], "slots": [
                                {**out["loss_stats"], "slot_id": "a", "slot_weight": 1.0}]})}}
                        parts.append(compute_supervised_loss_statistics("CE+CE", data, results)[0]["vq_loss"])
                    got = parts[0].combine(parts[1]).finalize()
                    mean, loss = total_loss(v, book[nearest], book, opts)
                    close(ctx, got, loss, "the code book's loss depends on how the rows are split", side=str(side),
                          padded=pad, which=name)
                    ctx.step()
            m.set_eval_entry_mask(None)
            with torch.no_grad():
                _, out = m(torch.tensor(rows))
            close(ctx, out["loss"], total_loss(v, book[nearest], book, opts)[1], "without a mask every entry counts", which=name)
            wrong = torch.ones(len(rows) + 1, dtype=torch.bool)
            m.set_eval_entry_mask(wrong)
            ctx.raises(lambda: m(torch.tensor(rows)), "a mask of another length is accepted", (ValueError, RuntimeError), which=name)
            m.set_eval_entry_mask(None)
            ctx.trace()
        ctx.check(same(dict(m.state_dict()), before), "evaluation changed the book", which=name)
        counts = torch.tensor([3, 0, 5])
        pair = m.eval_perplexity_from_cluster_size(counts)
        close(ctx, pair[0], perplexity(counts.double().numpy()), "perplexity of given counts", which=name)
        close(ctx, pair[1], perplexity(counts.double().numpy()) / 3, "normalised perplexity of given counts", which=name)


# ---------------------------------------------------------------- product books

def product(ctx, name, depth):
    from model.vq import ProductVectorQuantize

    opts = {"kmeans_init": False, **BOOKS[name]}
    wide = [[a + b for a, b in zip(rows, rows[::-1])] for rows in BATCHES]
    for history in itertools.product(range(len(BATCHES)), repeat=depth):
        torch.manual_seed(3)
        whole = ProductVectorQuantize(3, 4, 2, **opts)
        torch.manual_seed(3)
        single = [make(opts, seed=5), make(opts, seed=5)]
        for m, part in zip(single, whole.vq_modules):
            m.load_state_dict(copy.deepcopy(part.state_dict()))
            m.train()
        whole.train()
        for i, op in enumerate(history):
            info = {"which": name, "history": str(history), "at": i}
            x = torch.tensor(wide[op])
            torch.manual_seed(i)
            value, joint, _ = whole(x)
            torch.manual_seed(i)
            parts = [m(x[:, 2 * k:2 * k + 2].contiguous()) for k, m in enumerate(single)]
            ctx.check(torch.equal(value, torch.cat([p[0] for p in parts], 1)), "a product book is not its parts", **info)
            ctx.check(torch.equal(joint["embed_indices"], torch.stack([p[1]["embed_indices"] for p in parts], 1)),
                      "indices of a product book are not its parts'", **info)
            for key in ("loss", "perplexity", "normalized_perplexity", "loss_embed", "loss_commitment"):
                close(ctx, joint[key].detach(), sum(float(p[1][key].detach()) for p in parts) / 2,
                      "a product book reports not the mean of its parts", key=key, **info)
            close(ctx, joint["num_expired_codes"], sum(float(p[1]["num_expired_codes"]) for p in parts),
                  "expired codes of a product book", **info)
            for m, part in zip(single, whole.vq_modules):
                ctx.check(same(dict(m.state_dict()), dict(part.state_dict())), "a part of a product book goes its own way", **info)
            back = whole.from_indices(joint["embed_indices"])
            want = torch.cat([m.from_indices(p[1]["embed_indices"]) for m, p in zip(single, parts)], 1)
            ctx.check(torch.equal(back, want), "a product book looks other codes up", **info)
            ctx.step()
        ctx.state(name, history)
        ctx.trace()
