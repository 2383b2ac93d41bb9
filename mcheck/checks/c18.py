"""Random decisions of the data path: every nested key of a small alphabet, every bound, counter, length and rate of a grid is
drawn on the real code; draws must separate keys, agree between the general and the specialised functions and between
processes, and depend on nothing but their key."""
import hashlib
import itertools
import json
import math
import os
import subprocess
import sys

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "keys of up to three levels over an alphabet of 20 atoms, permutations of up to 64 (thorough: 400) elements, "
    "sampling rates on a grid of 1/16 for 4000 keys; up to three ranks",
    "the formula of the generator is not fixed, only its agreement over all paths, its range and its separation of keys; "
    "frequencies are judged at seven standard deviations on fixed keys",
]
U64 = 1 << 64
SEEDS = (0, 1, -1, 7, 2**63 - 1, -2**63, 2**32, 255, 256)
DOMAINS = ("a", "", "sample", "symmetry", "é", "a\0", "sampl", "e")
ATOMS = (None, True, False, 0, 1, -1, 255, 256, 2**63 - 1, -2**63, "", "0", "a", "\0", b"", b"a", b"0", b"\0", b"\x05", "é")


def core():
    from dataset import core

    return core


def scenarios(tier):
    deep = tier == "thorough"
    yield "separated", {"depth": 3 if deep else 2}
    yield "lengths", {}
    yield "bounds", {"counters": 400 if deep else 60}
    for seed in SEEDS:
        yield "permutations", {"seed": seed, "top": 400 if deep else 64}
    yield "frequencies", {}
    yield "rates", {"keys": 40000 if deep else 4000}
    yield "fast_paths", {"rows": 300 if deep else 60}
    yield "fallback", {}
    for kind in ("processed", "batched", "processed+mixed", "raw", "sparse", "simple", "packed"):
        yield "sampled", {"kind": kind, "grid": 32 if deep else 12}
    for kind in ("processed", "batched", "raw", "sparse", "simple", "packed", "composite", "map_processed", "map_raw"):
        yield "ambient", {"kind": kind}
    yield "processes", {}
    yield "contexts", {}
    yield "workers", {}
    for world in (2, 3, 4):
        yield "divided", {"world": world}


# ------------------------------------------------------------------ keys
def separated(ctx, depth):
    """No two different (seed, purpose, key, counter) give the same draw."""
    C = core()
    seen = {}

    def note(*what):
        ctx.step()
        ctx.state(repr(what))
        value = C.rng_u64(*what)
        ctx.check(isinstance(value, int) and 0 <= value < U64, "a draw out of range", what=what)
        ctx.equal(C.rng_u64(*what), value, "a draw is not repeatable", what=what)
        name = repr(what)
        ctx.check(seen.setdefault(value, name) == name, "two keys share their draw", a=seen[value], b=name)

    keys = [()] + [(a,) for a in ATOMS] + [p for p in itertools.product(ATOMS, repeat=2)]
    keys += [((a,),) for a in ATOMS] + [((a, b),) for a in ATOMS for b in ATOMS] + [((a,), b) for a in ATOMS for b in ATOMS]
    keys += [(a, (b,)) for a in ATOMS for b in ATOMS] + [((),), ((), ()), (((),),)] + [(a, ()) for a in ATOMS] + [((), a) for a in ATOMS]
    small = ATOMS[:5] + ("", "a", b"", b"a")
    keys += [((a,), (b,)) for a in ATOMS for b in ATOMS]
    keys += [p for p in itertools.product(small, repeat=3)] + [(((a,),), b) for a in small for b in small]
    if depth > 2:
        keys += [p for p in itertools.product(small, repeat=4)]
        keys += [((a, b), c) for a, b, c in itertools.product(small, repeat=3)] + [(a, (b, c)) for a, b, c in itertools.product(small, repeat=3)]
        keys += [((a, (b,)), c) for a, b, c in itertools.product(small, repeat=3)] + [((a, b), (c, d)) for a, b, c, d in itertools.product(small, repeat=4)]
    keys = list({repr(k): k for k in keys}.values())
    for key in keys:
        note(7, "a", key, 0)
    for seed, domain, counter in itertools.product(SEEDS, DOMAINS, (0, 1, 2, 255, 256, 2**32, 2**63 - 1)):
        for key in ((), (0,), ("a",), (0, 0)):
            if (seed, domain, counter) == (7, "a", 0):
                continue
            note(seed, domain, key, counter)
    for key in ((0, ("root", b"x" * 32, "npz-row", (3,))),):
        ctx.equal(C.rng_u64(3, "a", key), C.rng_u64(3, "a", [0, ["root", b"x" * 32, "npz-row", [3]]]),
                  "a list and a tuple of the same items differ")
    for bad in ((2**63,), (-2**63 - 1,), (1.5,), ({},), (object(),), ((2**64,),)):
        ctx.raises(lambda: C.rng_u64(0, "a", bad), "a key that cannot be told apart is accepted", key=repr(bad))
    for bad in (2**63, -2**63 - 1):
        ctx.raises(lambda: C.rng_u64(bad, "a", ()), "a seed outside 64 bits is accepted", seed=bad)
    for bad in (-1, 2**63):
        ctx.raises(lambda: C.rng_u64(0, "a", (), bad), "a counter outside its range is accepted", counter=bad)
    ctx.trace()


def lengths(ctx):
    """Long components keep their boundaries."""
    C = core()
    seen = {}
    sizes = (0, 1, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537)
    for make in (lambda n: "a" * n, lambda n: b"a" * n, lambda n: ("a",) * n, lambda n: (0,) * n):
        for n in sizes:
            for key in ((make(n),), (make(n), make(1)), (make(max(n - 1, 0)), make(2)), (make(1), make(n)), (make(n), make(n))):
                name = hashlib.sha1(repr(key).encode()).hexdigest()
                value = C.rng_u64(1, "d", key)
                ctx.step()
                ctx.state(name)
                ctx.check(seen.setdefault(value, name) == name, "two long keys share their draw", kind=type(key[0]).__name__, size=n)
    for n in (1, 2, 255, 256, 257, 512, 65535, 65536, 65537):
        for item in ("a", 0, b"", ()):
            for key in (((item,) * n,), ((),) + (item,) * n, (item,) * n + ((),), (item,) * (n + 1), ((item,) * n, ()), (((item,) * n,),)):
                name = hashlib.sha1(repr(key).encode()).hexdigest()
                value = C.rng_u64(3, "d", key)
                ctx.check(seen.setdefault(value, name) == name, "two long keys share their draw", item=repr(item), size=n)
                ctx.step()
    for n in sizes[:9]:
        for a, b in (("d" * n, ("x",)), ("d" * max(n - 1, 0), ("dx",))):
            name = repr((a, b))
            value = C.rng_u64(2, a, b)
            ctx.check(seen.setdefault(value, name) == name, "purpose and key run into each other", size=n)
    ctx.trace()


# ------------------------------------------------------------------ draws
def bounds(ctx, counters):
    C = core()
    big = [2**32, 2**32 + 1, 2**53 + 1, 2**62, 3 * 2**61, 2**63 - 1, 2**63, 2**63 + 1, 3 * 2**62, 2**64 - 1, 2**64, 2**64 - 2**32]
    rejected = 0
    for n in list(range(1, 65)) + [100, 255, 256, 1000, 65537] + big:
        for counter in range(counters if n in big else counters // 4):
            ctx.step()
            ctx.state(n, counter)
            got, after = C.uniform_below(n, 5, "bounds", (str(n), "k"), counter)
            ctx.check(isinstance(got, int) and 0 <= got < n, "a draw is out of its bound", n=n, got=got)
            limit, at = U64 - U64 % n, counter
            while True:  # the first raw draw below the largest multiple of n
                raw = C.rng_u64(5, "bounds", (str(n), "k"), at)
                at += 1
                if raw < limit:
                    break
                rejected += 1
            ctx.equal((got, after), (raw % n, at), "a bounded draw is not the unbiased one", n=n, counter=counter)
            ctx.equal(C.uniform_below(n, 5, "bounds", (str(n), "k"), counter), (got, after), "a draw is not repeatable")
    ctx.check(rejected > counters // 2, "harness: no draw was rejected", rejected=rejected)
    for n in (0, -1, U64 + 1):
        ctx.raises(lambda: C.uniform_below(n, 0, "a", ()), "an impossible bound is accepted", n=n)
    ctx.raises(lambda: C.uniform_below(3, 0, "a", (), -1), "a negative counter is accepted")
    ctx.trace()


def permutations(ctx, seed, top):
    C = core()
    for domain in ("files", "rows", ""):
        for key in ((), (0,), (1, "x"), (("a", 3), 2)):
            before = C.deterministic_permutation(9, seed, domain, key)
            for n in itertools.chain(range(0, top + 1), (257, 300, 700, 1030)) if (domain, key) == ("files", (0,)) else range(0, 24):
                ctx.step()
                ctx.state(seed, domain, repr(key), n)
                got = list(C.deterministic_permutation(n, seed, domain, key))
                ctx.equal(sorted(got), list(range(n)), "not a permutation", n=n)
                want, counter = list(range(n)), 0
                for i in range(n - 1, 0, -1):
                    j, counter = C.uniform_below(i + 1, seed, domain, key, counter)
                    want[i], want[j] = want[j], want[i]
                ctx.equal(got, want, "a permutation differs from the one of the general draws", n=n, domain=domain, key=repr(key))
            ctx.equal(C.deterministic_permutation(9, seed, domain, key), before, "a permutation depends on the calls before it")
    ctx.trace()


def even(ctx, counts, cells, what):
    total = sum(counts.values())
    p = 1 / cells
    sigma = math.sqrt(total * p * (1 - p))
    ctx.equal(len(counts), cells, f"{what}: some outcome never occurs")
    for k, c in counts.items():
        ctx.check(abs(c - total * p) <= 7 * sigma, f"{what}: an outcome is not evenly likely", outcome=repr(k), count=c, total=total)


def frequencies(ctx):
    """All orders and all residues occur, evenly over keys, purposes, seeds and epochs."""
    C = core()
    for n in (2, 3, 4):
        for vary in ("key", "seed", "domain"):
            counts = {}
            for i in range(4800):
                got = tuple(C.deterministic_permutation(n, i if vary == "seed" else 0, f"d{i}" if vary == "domain" else "d", (i,) if vary == "key" else ()))
                counts[got] = counts.get(got, 0) + 1
                ctx.step()
            even(ctx, counts, math.factorial(n), f"orders of {n} over the {vary}")
    for n in (2, 3, 5, 8):
        counts = {}
        for i in range(8000):
            v = C.uniform_below(n, 0, "r", (i,))[0]
            counts[v] = counts.get(v, 0) + 1
            ctx.step()
        even(ctx, counts, n, f"draws below {n}")
    n = 3 * 2**62  # a biased draw would fall into the lowest third half of the time
    counts = {}
    for i in range(6000):
        v = C.uniform_below(n, 0, "r", (i,))[0] // 2**62
        counts[v] = counts.get(v, 0) + 1
    even(ctx, counts, 3, "thirds of a large bound")
    ctx.state(*sorted(counts.values()))
    ctx.trace()


def rates(ctx, keys):
    C = core()
    grid = [k / 16 for k in range(17)] + [1e-9, 1e-3, 0.499, 0.501, 0.999, 1 - 2**-53, 5e-324]
    grid.sort()
    admitted = dict.fromkeys(grid, 0)
    for i in range(keys):
        key = ("root", b"d" * 32, "npz-row", (i % 50,) if i < 50 else (i // 50, i % 50))
        mine = [bool(C.sample_is_admitted(r, 3, i % 3, key)) for r in grid]
        ctx.step()
        ctx.state(i)
        ctx.equal(mine, sorted(mine), "a higher rate drops a record", key=repr(key))
        ctx.check(not mine[0] and mine[-1], "rates 0 and 1 take nothing and everything", key=repr(key))
        for r, m in zip(grid, mine):
            admitted[r] += m
    for r, c in admitted.items():
        sigma = math.sqrt(keys * r * (1 - r))
        ctx.check(abs(c - keys * r) <= 7 * sigma + 1, "the share of admitted records is not the rate", rate=r, count=c, total=keys)
    half = [tuple(C.sample_is_admitted(0.5, s, e, ("k", i)) for i in range(64)) for s in (0, 1, 2) for e in (0, 1, 2)]
    ctx.equal(len(set(half)), 9, "admission ignores the seed or the epoch")
    for bad in (-0.1, 1.1, float("nan"), float("inf"), -float("inf")):
        ctx.raises(lambda: C.sample_is_admitted(bad, 0, 0, ("k",)), "an impossible rate is accepted", rate=bad)
    ctx.trace()


def fast_paths(ctx, rows):
    """The batch forms of a draw agree with the single ones, in whatever order and grouping they are asked."""
    C = core()
    digests = [bytes([i]) * 32 for i in range(3)]
    rowwise = [("root", digests[i % 3], "npz-row", (i * 7 % rows,)) for i in range(rows)]
    cycles = [("root", digests[i % 3], "npz-row", (i // 9, i % 9)) for i in range(rows)]
    other = [("dir", digests[0], "npz-row", (i,)) for i in range(9)] + [("root", digests[0], "raw", (i,)) for i in range(9)]
    edge = [("root", digests[0], "npz-row", (v,)) for v in (0, 1, 255, 256, 2**31, 2**32, 2**53, 2**63 - 1)]
    every = rowwise + cycles + other + edge
    one = getattr(C, "_uniform_below_for_processed_sample_keys", None)
    two = getattr(C, "_uniform_below_for_processed_sample_keys_v2", None)
    packed = getattr(C, "_uniform_below_for_packed_processed_rows_v2", None)
    for n, seed, epoch in itertools.product((1, 2, 3, 4, 5, 6, 8, 2**64, 2**63 + 1), (0, 3, -5), (0, 1, 300)):
        for f in (one, two):
            if f is None:
                ctx.tag("renamed")
                continue
            whole = list(f(n, seed, "symmetry", epoch, every))
            ctx.step(len(every))
            ctx.state(f.__name__, n, seed, epoch)
            ctx.check(all(0 <= v < n for v in whole), "a draw is out of its bound", n=n)
            ctx.equal([f(n, seed, "symmetry", epoch, [k])[0] for k in every], whole, "a draw depends on its batch", n=n, f=f.__name__)
            ctx.equal(list(f(n, seed, "symmetry", epoch, every[::-1]))[::-1], whole, "a draw depends on the order of its batch", n=n)
            ctx.equal(list(f(n, seed, "symmetry", epoch, iter(every))), whole, "a draw depends on the form of its batch", n=n)
            ctx.equal(list(f(n, seed, "symmetry", epoch, [])), [], "draws for nothing")
            if f is one or n & (n - 1):
                ctx.equal(whole, [C.uniform_below(n, seed, "symmetry", (epoch, k, 0))[0] for k in every], "a batch draw differs from the single one", n=n, f=f.__name__)
            for occurrence in (1, 2):
                again = list(f(n, seed, "symmetry", epoch, every, occurrence))
                ctx.check(n == 1 or again != whole, "occurrences share their draws", n=n)
                if f is one or n & (n - 1):
                    ctx.equal(again, [C.uniform_below(n, seed, "symmetry", (epoch, k, occurrence))[0] for k in every], "a batch draw differs from the single one", n=n)
        if packed is not None and two is not None and not n & (n - 1):
            plain = rowwise + edge
            files = np.array([digests.index(k[1]) for k in plain])
            index = np.array([k[3][0] for k in plain], dtype=np.uint64)
            got = packed(n, seed, "symmetry", epoch, tuple(digests), files, index)
            ctx.equal([int(v) for v in got], list(two(n, seed, "symmetry", epoch, plain)), "packed draws differ from keyed ones", n=n, seed=seed)
            turned = packed(n, seed, "symmetry", epoch, tuple(digests[::-1]), 2 - files, index)
            ctx.equal([int(v) for v in turned], [int(v) for v in got], "packed draws depend on the numbering of the files", n=n)
    if two is not None:
        for n in (2, 4, 8):  # every way of going through the keys is even
            for name, keys in (("rows", lambda i: (i,)), ("cycles", lambda i: (i, 3)), ("both", lambda i: (i // 64, i % 64)), ("strided", lambda i: (i * n,))):
                counts = {}
                for v in two(n, 0, "symmetry", 1, [("root", digests[0], "npz-row", keys(i)) for i in range(8192)]):
                    counts[v] = counts.get(v, 0) + 1
                even(ctx, counts, n, f"symmetries over {name}")
            counts = {}
            for e in range(4096):
                v = two(n, 0, "symmetry", e, [("root", digests[0], "npz-row", (5,))])[0]
                counts[v] = counts.get(v, 0) + 1
            even(ctx, counts, n, "symmetries over epochs")
    ctx.trace()


def fallback(ctx):
    """Transforming a sample outside any dataset picks its symmetry from the sample alone."""
    import random

    import torch
    from utils.data_utils import post_process_data

    picks = {}
    for i in range(64):
        def sample():
            board = np.zeros((2, 4, 4), dtype=np.int8)
            board[0].flat[i % 16] = 1
            board[1].flat[(i * 5 + 3) % 16] = 1
            return {"board_size": np.array([4, 4], dtype=np.int8), "board_input": board, "stm_input": np.array([1.0], dtype=np.float32),
                    "value_target": np.array([i / 64, 0, 0], dtype=np.float32), "policy_target": np.arange(16, dtype=np.float32).reshape(4, 4)}
        seen = set()
        for ambient in range(4):
            random.seed(ambient)
            np.random.seed(ambient)
            torch.manual_seed(ambient)
            out = post_process_data(sample(), False, None, True)
            seen.add(np.asarray(out["policy_target"]).tobytes())
            ctx.step()
        ctx.equal(len(seen), 1, "the symmetry of a sample changes between calls", sample=i)
        picks[i] = seen.pop()
        ctx.state(picks[i])
    ctx.check(len(set(picks.values())) == 8, "some symmetry is never picked", picked=len(set(picks.values())))
    ctx.trace()


# ------------------------------------------------------------------ datasets
def keys_of(envs):
    return [k for e in envs for k, ok in zip(e.sample_keys, F.mask_of(e)) if ok]


def sampled(ctx, kind, grid):
    """Admitted records only grow with the rate, in every order, batch size and window; streaming processed kinds agree."""
    spec = F.make(kind, ctx.mkdir("data"), (9, 8, 7))
    ds = F.build(spec, F.context(1), shuffle=False)
    everyone = frozenset(keys_of(F.epoch(ds)))
    F.close(ds)
    admitted = core().sample_is_admitted
    for seed in (3, 4):
        last = None
        for rate in [k / grid for k in range(1, grid + 1)]:
            chosen = []
            for shuffle, window in ((True, 4), (True, 1000), (False, 16)):
                try:
                    ds = F.build(spec, F.context(1, seed=seed), shuffle=shuffle, sample_rate=rate, shuffle_window_size=window)
                    epochs = [frozenset(keys_of(F.epoch(ds))) for _ in range(2)]
                    F.close(ds)
                except RuntimeError as error:
                    if "produced no" not in str(error):
                        raise
                    ctx.tag("nothing admitted")
                    epochs = None
                chosen.append(epochs)
                ctx.step()
            ctx.check(all(c == chosen[0] for c in chosen), "the records admitted depend on the shuffling", kind=kind, rate=rate, seed=seed)
            ctx.state(kind, seed, rate, repr(chosen[0])[:200])
            if chosen[0] is None:
                continue
            for e, got in enumerate(chosen[0]):
                ctx.equal(got, frozenset(k for k in everyone if admitted(rate, seed, e, k)), "a dataset admits other records than its rule", kind=kind, rate=rate)
            if last is not None:
                for e, (a, b) in enumerate(zip(last, chosen[0])):
                    ctx.check(a <= b, "a higher rate drops a record", kind=kind, rate=rate, seed=seed, epoch=e)
            last = chosen[0]
        ctx.equal([len(x) for x in last], [len(everyone)] * 2, "rate 1 withholds records")
    ctx.trace()


def outline(kind, root, **extra):
    """Everything two epochs of a dataset deliver, as one digest."""
    spec = F.make(kind, root, (5, 4, 3) if kind != "packed" else (3, 2))
    for name in os.listdir(root):  # the age of a sequential file is part of its identity
        if os.path.isfile(os.path.join(root, name)):
            os.utime(os.path.join(root, name), (1_700_000_000, 1_700_000_000))
    h = hashlib.sha1()
    if kind.startswith("map_"):
        from utils.training_utils import ResumableSampler

        ds = F.build(spec, F.context(2), apply_symmetry=True, **extra)
        sampler = ResumableSampler(ds, shuffle=True, seed=5)
        for _ in range(2):
            for i in sampler:
                h.update(repr((i, F.data_repr(ds[i]))).encode())
            sampler.advance_yield_epoch()
        return h.hexdigest()
    opts = dict(apply_symmetry=True, shuffle_window_size=5, **extra)
    if kind != "composite":
        opts["sample_rate"] = 0.8
    F.register_pipelines()
    ds = F.build(spec, F.context(2), pipeline_args={"mcheck_counter": {"salt": 5}, "mcheck_second": {}}, **opts)
    for _ in range(2):
        for env in F.epoch(ds):
            h.update(repr(F.batch_repr(env)).encode())
    F.close(ds)
    return h.hexdigest()


def ambient(ctx, kind):
    """Global generators, earlier datasets and earlier draws do not reach the data."""
    import random

    import torch

    root = ctx.mkdir("data")
    want = outline(kind, root)
    for turn in range(6):
        random.seed(turn)
        np.random.seed(turn)
        torch.manual_seed(turn)
        if turn % 2:
            core().deterministic_permutation(50, turn, "x", ())
            outline("processed", os.path.join(root, f"other{turn}"))
        ctx.equal(outline(kind, root), want, "what a dataset delivers depends on global state", kind=kind, turn=turn)
        ctx.step()
    ctx.state(want)
    ctx.trace()


CHILD = """
import sys, json
sys.path.insert(0, {verif!r})
from mcheck import env
env._scratch = {scratch!r}
env.setup_imports()
from mcheck.checks import c18
print("RESULT " + json.dumps(c18.decisions({root!r})))
"""
KINDS = ("processed", "batched", "raw", "sparse", "composite", "map_processed", "simple", "packed")


def decisions(root):
    C = core()
    out = {"u64": [C.rng_u64(s, d, (s, d, ("x", b"y"))) for s in SEEDS for d in DOMAINS],
           "perm": [C.deterministic_permutation(20, s, "p", (s,)) for s in SEEDS],
           "rate": [C.sample_is_admitted(0.5, 0, 0, ("k", i)) for i in range(64)]}
    for kind in KINDS:
        out[kind] = outline(kind, os.path.join(root, kind))
    return json.loads(json.dumps(out))


def processes(ctx):
    """Other processes, with other hash seeds, decide alike."""
    from mcheck import env

    root = ctx.mkdir("data")
    want = decisions(root)
    for seed in ("0", "1", "2", "31337", "random"):
        code = CHILD.format(verif=env.VERIF, scratch=env.scratch_root(), root=root)
        environment = {**os.environ, "PYTHONHASHSEED": seed}
        done = subprocess.run([sys.executable, "-c", code], env=environment, capture_output=True, text=True, timeout=200)
        lines = [x for x in done.stdout.splitlines() if x.startswith("RESULT ")]
        if not lines:
            raise RuntimeError("harness: the other process failed: " + done.stderr[-2000:])
        got = json.loads(lines[-1][7:])
        for k in want:
            ctx.equal(got[k], want[k], "another process decides otherwise", what=k, hash_seed=seed)
            ctx.step()
            ctx.state(k, seed)
    ctx.trace()


# ------------------------------------------------------------------ distributed settings
def contexts(ctx):
    from dataset.core import DatasetRuntimeContext as Context

    for g, l, w, r in itertools.product(range(-2, 10), range(-2, 7), range(-1, 5), range(-2, 5)):
        legal = w >= 1 and 0 <= r < w and g > 0 and l > 0 and l * w == g
        ctx.step()
        ctx.state(g, l, w, r)
        if legal:
            c = Context(g, l, w, r, 0, "train")
            me = c.rank_local_identity
            ctx.equal((me.rank, me.slice_start, me.slice_stop), (r, r * l, r * l + l), "the share of a rank", case=(g, l, w, r))
        else:
            ctx.raises(lambda: Context(g, l, w, r, 0, "train"), "an uneven setting is accepted", case=(g, l, w, r))
    for seed in (2**63, -2**63 - 1):
        ctx.raises(lambda: Context(1, 1, 1, 0, seed, "train"), "a seed outside 64 bits is accepted")
    for mode in ("", "Train", "valid", "eval"):
        ctx.raises(lambda: Context(1, 1, 1, 0, 0, mode), "an unknown mode is accepted", mode=mode)
    from utils.training_utils import ResumableSampler

    for w, r in itertools.product(range(-1, 5), range(-2, 6)):
        if w >= 1 and 0 <= r < w:
            ResumableSampler(range(10), shuffle=False, seed=0, rank=r, world_size=w)
        else:
            ctx.raises(lambda: ResumableSampler(range(10), shuffle=False, seed=0, rank=r, world_size=w), "an impossible rank is accepted", case=(w, r))
    ctx.trace()


def workers(ctx):
    """Loader workers start from a state that is a function of seed, rank and worker only."""
    import random

    import torch
    from torch.utils.data import Dataset
    from utils.training_utils import build_data_loader

    class Draws(Dataset):
        def __init__(self, context):
            self.runtime_context = context

        def __len__(self):
            return 8

        def __getitem__(self, i):
            from torch.utils.data import get_worker_info

            return np.array([get_worker_info().id, random.getrandbits(40), np.random.randint(1 << 30), int(torch.randint(1 << 30, ()))])

    seen = {}
    for seed, rank in itertools.product((3, 4), (0, 1)):
        runs = []
        for turn in range(2):
            random.seed(turn)
            np.random.seed(turn)
            torch.manual_seed(turn)
            before = torch.get_rng_state().numpy().tobytes()
            loader = build_data_loader(Draws(F.context(2, world=2, rank=rank, seed=seed)), 2, num_workers=2, pin_memory=False, persistent_workers=False)
            rows = sorted(tuple(int(v) for v in row) for batch in loader for row in batch)
            ctx.equal(torch.get_rng_state().numpy().tobytes(), before, "iterating a loader draws from the global generator")
            runs.append(rows)
            ctx.step()
        ctx.equal(runs[0], runs[1], "worker draws depend on the global generators", seed=seed, rank=rank)
        for worker in (0, 1):
            mine = [r[1:] for r in runs[0] if r[0] == worker]
            ctx.check(mine, "harness: a worker had nothing to do")
            ctx.state(seed, rank, worker, repr(mine))
            for kind in range(3):
                draws = tuple(sorted(r[kind] for r in mine))
                ctx.check((kind, draws) not in seen, "two workers share their random state", a=seen.get((kind, draws)), b=(seed, rank, worker))
                seen[kind, draws] = (seed, rank, worker)
    ctx.trace()


def divided(ctx, world):
    """A job whose batch does not divide over its ranks is refused by every rank; otherwise each takes its share."""
    from mcheck import ranks
    from mcheck import train as T

    T.warm()
    root = ctx.mkdir("data")
    for kind in ("processed", "map_processed"):
        dataset_type, paths, opts = F.make(kind, os.path.join(root, kind), (9, 9))

        def go(rank, batch):
            t = T.make(os.path.join(root, f"{kind}-{batch}"), dataset_type=dataset_type, train_datas=paths, dataset_args=opts, batch_size=batch, iterations=1)
            return t.batch_size_per_process

        for batch in range(1, 9):
            ctx.step()
            ctx.state(world, kind, batch)
            for rank, out in enumerate(ranks.run(world, lambda r: go(r, batch), init=False)):
                if batch % world:
                    ctx.check(out[0] == "error" and out[1] == "ValueError", "an uneven batch is accepted", world=world, batch=batch, rank=rank, out=out[:3])
                else:
                    ctx.equal(out[:2], ("ok", batch // world), "the share of a rank", world=world, batch=batch, rank=rank)
    ctx.trace()
