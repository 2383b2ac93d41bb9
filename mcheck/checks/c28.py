"""The resumable map-style sampler: every sequence of reading ahead, delivering, committing, failing, saving and
restoring (and of forbidden calls) is driven through the real class behind torch's own batch sampler and loader, and
compared with a model that only knows each epoch's order."""
import copy
import json

import torch
from torch.utils.data import BatchSampler, DataLoader, Dataset

from utils.training_utils import ResumableSampler

LEVEL = "model_checking"
ASSUMPTIONS = [
    "datasets of 1..9 samples (orders and partitions up to 13), batches of 1..4, up to four ranks, read-ahead of up to "
    "two batches",
    "the model learns each epoch's order from one uninterrupted pass and then only moves positions",
]


class Rows(Dataset):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return i


def scenarios(tier):
    deep = tier == "thorough"
    for n in range(1, 14 if deep else 11):
        for world in range(1, 5):
            for shuffle in (True, False):
                yield "partition", {"n": n, "world": world, "shuffle": shuffle}
    cells = [(5, 1, 2), (4, 1, 2), (7, 2, 2), (3, 1, 3), (6, 1, 4), (1, 1, 1), (9, 3, 1)]
    if deep:
        cells += [(9, 2, 3), (8, 1, 3), (8, 4, 1), (7, 1, 2), (5, 2, 2)]
    for n, world, batch in cells:
        for drop in (True, False):
            if drop and n // world < batch:
                continue
            for rank in sorted({0, world - 1}):
                yield "histories", {"n": n, "world": world, "rank": rank, "batch": batch, "drop": drop,
                                    "free": 7 if deep else 6, "depth": 24 if deep else 16}
    for n, world in ((5, 1), (6, 2), (7, 3)):
        yield "refusals", {"n": n, "world": world}


def make(n, seed=3, shuffle=True, rank=0, world=1):
    return ResumableSampler(Rows(n), shuffle=shuffle, seed=seed, rank=rank, world_size=world)


def whole(n, epochs, **kw):
    s = make(n, **kw)
    out = []
    for e in range(epochs):
        out.append(list(s))
        s.advance_yield_epoch()
    return out


def partition(ctx, n, world, shuffle):
    for seed in range(4):
        per_rank = [whole(n, 5, seed=seed, shuffle=shuffle, rank=r, world=world) for r in range(world)]
        ctx.trace(world)
        single = whole(n, 5, seed=seed, shuffle=shuffle)
        for e in range(5):
            ctx.step()
            ctx.state(seed, e, tuple(single[e]))
            ctx.check(sorted(single[e]) == list(range(n)), "an epoch is not a permutation of the dataset", order=single[e])
            if not shuffle:
                ctx.equal(single[e], list(range(n)), "an unshuffled epoch is not in dataset order")
            parts = [p[e] for p in per_rank]
            ctx.check({len(p) for p in parts} == {n // world}, "ranks get different numbers of samples", parts=parts)
            seen = [i for p in parts for i in p]
            ctx.check(len(set(seen)) == len(seen), "two ranks get the same sample", parts=parts)
            ctx.equal(sorted(seen), sorted(single[e][:n // world * world]) if world > 1 else sorted(seen),
                      "ranks do not share out the epoch's order")
        ctx.equal(whole(n, 5, seed=seed, shuffle=shuffle), single, "the same settings give another order")
        if shuffle and n >= 6:
            ctx.check(len({tuple(o) for o in single}) > 1, "every epoch is shuffled alike", orders=single)
            ctx.tag("reshuffled")


class Live:
    """The real sampler behind a batch sampler, as the training loop uses it."""

    def __init__(self, p):
        self.p = p
        self.sampler = self.fresh()
        self.open()
        self.queue = []      # batches read ahead, not delivered
        self.tokens = []     # tokens delivered, not committed
        self.ended = False
        self.log = []
        self.prepared = None

    def fresh(self):
        return make(self.p["n"], rank=self.p["rank"], world=self.p["world"])

    def open(self):
        self.iter = iter(DataLoader(self.sampler.data_source, self.p["batch"], sampler=self.sampler,
                                    drop_last=self.p["drop"], collate_fn=list))


class Model:
    """Positions only: (epoch, offset) committed, delivered and read, over known orders."""

    def __init__(self, p, orders):
        self.p, self.orders = p, orders
        self.n = p["n"] // p["world"]
        self.at = self.done = self.read = (0, 0)
        self.queue, self.tokens = [], []

    def key(self):
        return self.at, self.done, self.read, tuple(map(tuple, self.queue)), tuple(self.tokens), self.ended

    ended = False

    def next_batch(self):
        e, o = self.read
        rows = self.orders[e][o:o + self.p["batch"]]
        if self.p["drop"] and len(rows) < self.p["batch"]:
            rows = []
        return rows


OPS = ["read", "deliver", "commit", "commit2", "fail", "restore", "misuse"]
EPOCHS = 5


def enabled(m, op):
    if op == "read":
        return len(m.queue) < 2 and not (m.ended and m.queue) and m.read[0] < EPOCHS - 1
    if op == "deliver":
        return bool(m.queue)
    if op == "commit":
        return bool(m.tokens)
    if op == "commit2":
        return len(m.tokens) > 1
    return True


def apply(ctx, live, m, op):
    """One operation on both sides."""
    s = live.sampler
    ctx.step()
    if op == "read":
        if m.ended:      # the loop saw the end of the epoch: it advances and reopens the loader
            s.advance_yield_epoch()
            live.open()
            m.read = (m.read[0] + 1, 0)
            m.ended = False
        try:
            got = next(live.iter)
        except StopIteration:
            got = []
        want = m.next_batch()
        ctx.equal(got, want, "the sampler yields other indices than an uninterrupted pass", position=m.read)
        if want:
            m.read = (m.read[0], m.read[1] + len(want))
            m.queue.append(want)
        else:
            m.ended = True
    elif op == "deliver":
        rows = m.queue.pop(0)
        live.tokens.append(s.stage_batch(m.p["batch"]))
        e, o = m.done
        if (e, o) != (m.read[0], o) and not m.covers(e, o, rows):
            e, o = m.read[0], 0
        m.done = (e, o + len(rows))
        m.tokens.append(m.done)
    elif op in ("commit", "commit2"):
        k = 1 if op == "commit" else 2
        s.commit_prepared(s.prepare_commit(live.tokens[:k]))
        del live.tokens[:k]
        m.at = m.tokens[k - 1]
        del m.tokens[:k]
    elif op == "fail":
        s.rollback_uncommitted()
        live.open()
        live.tokens = []
        m.done = m.read = m.at
        m.queue, m.tokens, m.ended = [], [], False
    elif op == "restore":
        state = json.loads(json.dumps(s.state_dict()))
        live.sampler = live.fresh()
        live.sampler.load_state_dict(state)
        live.open()
        live.tokens = []
        m.done = m.read = m.at
        m.queue, m.tokens, m.ended = [], [], False
    elif op == "misuse":
        before = copy.deepcopy(s.state_dict())
        if len(live.tokens) > 1:
            ctx.raises(lambda: s.prepare_commit(live.tokens[1:]), "a commit that skips a delivered batch is accepted")
            ctx.raises(lambda: s.prepare_commit(live.tokens[::-1]), "a commit out of order is accepted")
            stale = s.prepare_commit(live.tokens[:1])
            both = s.prepare_commit(live.tokens[:2])
            ctx.check(s.state_dict() == before, "preparing a commit moves the saved position")
            s.commit_prepared(stale)
            ctx.raises(lambda: s.commit_prepared(both), "a prepared commit is applied to another position")
            ctx.raises(lambda: s.commit_prepared(stale), "a commit is applied twice")
            ctx.raises(lambda: s.prepare_commit(live.tokens[:1]), "a batch is committed twice")
            live.tokens.pop(0)
            m.at = m.tokens.pop(0)
            before = copy.deepcopy(s.state_dict())
            ctx.tag("stale commits refused")
        ctx.raises(lambda: s.prepare_commit([]), "an empty commit is accepted")
        if not m.queue and not m.ended:
            ctx.raises(lambda: s.stage_batch(m.p["batch"]), "a batch that was never read is staged")
        if m.read[1] < m.n and not m.ended:
            ctx.raises(s.advance_yield_epoch, "the epoch is advanced before it is exhausted")
        ctx.equal(s.state_dict(), before, "a refused call moves the saved position")
    state = live.sampler.state_dict()
    ctx.equal((state["epoch"], state["offset"]), m.at, "the saved position is not the last committed batch", op=op)
    if not m.ended:      # at the end the batch sampler has also read a dropped remainder
        ctx.equal(len(live.sampler), m.n - m.read[1], "the sampler's remaining length is wrong")


def covers(self, e, o, rows):
    return rows == self.orders[e][o:o + len(rows)] and o + len(rows) <= self.n and e == self.read[0]


Model.covers = covers


def histories(ctx, n, world, rank, batch, drop, free, depth):
    p = dict(n=n, world=world, rank=rank, batch=batch, drop=drop)
    orders = whole(n, EPOCHS, rank=rank, world=world)

    def play(path):
        live, m = Live(p), Model(p, orders)
        for op in path:
            apply(ctx, live, m, op)
        return live, m

    def tail_run(path, how):
        """From a fresh restore of what is saved (or a failed step), the rest is what was not committed."""
        live, m = play(path)
        apply(ctx, live, m, how)
        at = m.at
        for _ in range(3 * (m.n // batch + 2)):
            if m.read[0] >= min(at[0] + 2, EPOCHS - 1):
                break
            apply(ctx, live, m, "read")
            if m.queue:
                apply(ctx, live, m, "deliver")
                apply(ctx, live, m, "commit")
        ctx.trace()

    seen = set()
    frontier = [[]]
    for level in range(depth):
        after = []
        for path in frontier:
            _, m = play(path)
            for op in OPS:
                if not enabled(m, op):
                    continue
                if path and op == path[-1] and op in ("fail", "restore", "misuse"):
                    continue
                grown = path + [op]
                _, m2 = play(grown)
                key = m2.key()
                new = ctx.state(key) if key not in seen else False
                if key not in seen:
                    seen.add(key)
                    tail_run(grown, "restore")
                    tail_run(grown, "fail")
                elif level >= free:
                    continue
                after.append(grown)
        frontier = after
        if not frontier:
            ctx.tag("complete")
            break
    ctx.sample({"states": len(seen), "last": frontier[0] if frontier else None})


def refusals(ctx, n, world):
    base = make(n, rank=world - 1, world=world)
    it = iter(base)
    for _ in range(n // world - 1):
        next(it)
        base.commit_prepared(base.prepare_commit([base.stage_batch(1)]))
    state = base.state_dict()
    same = make(n, rank=world - 1, world=world)
    same.load_state_dict(state)
    ctx.equal(same.state_dict(), state, "a restored sampler saves another state")
    ctx.trace()
    others = {
        "size": make(n + 1, rank=world - 1, world=world), "seed": make(n, seed=4, rank=world - 1, world=world),
        "order": make(n, shuffle=False, rank=world - 1, world=world), "ranks": make(n, rank=world - 1, world=world + 1),
    }
    if world > 1:
        others["rank"] = make(n, rank=0, world=world)
    for what, s in others.items():
        before = s.state_dict()
        ctx.raises(lambda: s.load_state_dict(state), f"a state of another {what} is accepted")
        ctx.equal(s.state_dict(), before, "a refused state leaves a trace")
        ctx.state(what)
        ctx.step()
    for key in state:
        for value in (None, -1, 10**6, "x"):
            if key in ("epoch",) and value in (10**6,):
                continue
            s = make(n, rank=world - 1, world=world)
            try:
                s.load_state_dict({**state, key: value})
            except Exception:
                ctx.state(key, value)
                ctx.step()
                continue
            ctx.check(key == "epoch" or value == state[key], "a damaged state is accepted", key=key, value=value)
