"""Automatic tuning: all reachable states of the real controller under every measurement, every damage of a saved profile, every crash, failure and race of
its files, and every sequence of decisions in the middle of a training stream."""
import builtins
import contextlib
import copy
import itertools
import json
import math
import os
import shutil

from mcheck import fixtures as F
from mcheck import train as T
from mcheck.checks.c20 import Watch, crash_states
from mcheck.sched import First, Pool, Tape, controlled

LEVEL = "model_checking"
PRELOAD = ("torch", "dataset", "dataset.telemetry", "trainer")
ASSUMPTIONS = [
    "a measurement is one of nine combinations of headroom, wait, queue depth and cache reloads; calls come 1, 2 or 5 iterations apart",
    "limits, budgets and starting values from a grid of configurations; the controller's whole reachable state space is explored for each",
    "decode jobs of the tuned stream finish in every order the worker count allows for the first choices, then in submission order",
]
MB = 1024 ** 2
METRICS = {
    "starved": {"producer_headroom": 0.5, "data_wait_fraction": 0.5},
    "waiting": {"producer_headroom": 5.0, "data_wait_fraction": 0.5, "prefetch/queue_depth_mean": 1e9},
    "slow": {"producer_headroom": 0.5, "data_wait_fraction": 0.0},
    "reload": {"producer_headroom": 0.5, "data_wait_fraction": 0.5, "cache/reloads": 3.0},
    "fine": {"producer_headroom": 1.5, "data_wait_fraction": 0.02},
    "rich": {"producer_headroom": 10.0, "data_wait_fraction": 0.0, "prefetch/queue_depth_mean": 1e9},
    "spare": {"producer_headroom": 10.0, "data_wait_fraction": 0.0, "prefetch/queue_depth_mean": 0.0},
    "nan": {"producer_headroom": math.nan, "data_wait_fraction": math.nan, "prefetch/queue_depth_mean": math.nan},
    "none": {},
}
KEY, LIKE, OTHER = "a" * 64, "b" * 64, "c" * 64
NAMES = ("prefetch_threads", "prefetch_batches", "cache_entries", "cache_bytes")
KINDS = ({"prefetch_threads"}, {"prefetch_batches"}, {"cache_entries", "cache_bytes"})
WAYS = {"kept": (True, True), "off": (True, False), "on": (False, True), "changed": (True, {"max_prefetch_threads": 2}), "frozen": ({"freeze_after": 1}, True)}
LOCKS = ((), ("prefetch_threads",), ("prefetch_batches",), ("prefetch_threads", "prefetch_batches"))


def scenarios(tier):
    deep = tier == "thorough"
    for number in range(len(list(configurations(deep)))):
        yield "controller", {"number": number}
    for reuse in ("off", "exact", "compatible"):
        yield "profiles", {"reuse": reuse}
    for part in range(4):
        yield "cut", {"part": part, "parts": 4}
    yield "values", {}
    yield "oddities", {}
    for before in (False, True):
        yield "crash", {"before": before}
        yield "failing", {"before": before}
    for what in ("load", "save"):
        yield "race", {"what": what}
    yield "options", {}
    for threads, top in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 3)):
        for first in range(6):
            yield "stream", {"threads": threads, "top": top, "first": first, "depth": 5 if deep else 4}
    for kind in ("resume", "toggle", "retune"):
        yield "restored", {"kind": kind}
    yield "training", {"world": 1}
    yield "training", {"world": 2}
    for holder in (0, 1, 2):
        yield "hosts", {"holder": holder}
    for way in WAYS:
        yield "resumed", {"way": way}


def prepare(tier):
    T.warm()


def config(root, **more):
    from dataset.telemetry import PipelineAutotuneConfig

    return PipelineAutotuneConfig.parse({"cache_dir": root, **more})


def tuner(cfg, start=(2, 32, 4, 256 * MB), locked=(), exact=KEY, like=LIKE):
    from dataset.telemetry import PipelineAutotuner

    return PipelineAutotuner(cfg, initial_workers=start[0], initial_prefetch_batches=start[1], initial_cache_entries=start[2], initial_cache_bytes=start[3],
                             exact_key=exact, compatible_key=like, locked_options=locked)


def bounded(ctx, cfg, settings, **info):
    """Every setting lies within its limits."""
    ctx.equal(sorted(settings), sorted(NAMES), "other settings than announced", **info)
    ok = all(type(v) is int for v in settings.values()) and 1 <= settings["prefetch_threads"] <= cfg.max_prefetch_threads \
        and 1 <= settings["prefetch_batches"] <= cfg.max_prefetch_batches and 1 <= settings["cache_bytes"] <= cfg.host_cache_budget_bytes and settings["cache_entries"] >= 1
    ctx.check(ok, "a setting is outside its limits", settings=settings, **info)


def clamp(cfg, settings):
    top = {"prefetch_threads": cfg.max_prefetch_threads, "prefetch_batches": cfg.max_prefetch_batches, "cache_bytes": cfg.host_cache_budget_bytes}
    return {k: min(max(1, v), top.get(k, v if v > 1 else 1)) for k, v in settings.items()}


def profile(resolved, exact=KEY, like=LIKE):
    from dataset.telemetry import PIPELINE_TUNING_SCHEMA

    return {"schema": PIPELINE_TUNING_SCHEMA, "exact_key": exact, "compatible_key": like, "resolved": dict(zip(NAMES, resolved)) if isinstance(resolved, tuple) else resolved}


def store(root, record, name=None):
    os.makedirs(root, exist_ok=True)
    path = os.path.join(root, f"{name or record['exact_key']}.json")
    with open(path, "w") as f:
        json.dump(record, f)
    return path


# ------------------------------------------------------------------ the controller as a transition system
def configurations(deep):
    """(config, starting values, locked options, stored profile)"""
    timing = ({"warmup_iterations": 0, "verify_iterations": 0, "decision_interval": 1, "freeze_after": 7},
              {"warmup_iterations": 3, "verify_iterations": 2, "decision_interval": 2, "freeze_after": 14},
              {"warmup_iterations": 2, "verify_iterations": 5, "decision_interval": 3, "freeze_after": 1})
    limits = ({"max_prefetch_threads": 4, "max_prefetch_batches": 64}, {"max_prefetch_threads": 3, "max_prefetch_batches": 5, "host_cache_budget_bytes": 300 * MB},
              {"max_prefetch_threads": 1, "max_prefetch_batches": 1, "host_cache_budget_bytes": 1})
    starts = ((2, 32, 4, 256 * MB), (1, 1, 1, 1), (9, 100, 3, 10 ** 12))
    stored = (None, (3, 7, 5, 299 * MB), (100, 1000, 2, 10 ** 15))
    every = list(itertools.product(timing, limits, starts, LOCKS, stored))
    if deep:
        return every
    return [c for i, c in enumerate(every) if i % 7 == 3 or c[1] is limits[1] and c[2] is starts[0] and c[4] is not stored[2]]


def controller(ctx, number):
    """Every reachable state under every measurement; restoring a saved state changes nothing; the end is always frozen."""
    timing, limits, start, locked, saved = list(configurations(ctx.thorough))[number]
    root = ctx.mkdir()
    if saved:
        store(root, profile(saved))
    cfg = config(root, reuse="exact", **timing, **limits)
    if any(start[i] > limits[n] for i, n in enumerate(("max_prefetch_threads", "max_prefetch_batches")) if NAMES[i] in locked):
        locked = ()  # the dataset refuses a fixed value beyond its limit
    first = tuner(cfg, start, locked)
    given = dict(zip(NAMES, start))
    want = clamp(cfg, {n: v if n in locked or not saved else saved[i] for i, (n, v) in enumerate(given.items())})
    ctx.equal(first.state_dict()["settings"], want, "the starting settings are not the clamped profile or request", saved=saved, start=start, locked=locked)
    seen, todo = set(), [(first, (0, 10 ** 6)[number % 2], ())]
    ends = 0
    while todo:
        live, now, path = todo.pop()
        for gap in (1, 2, 5):
            at = now + gap
            for name, metrics in METRICS.items():
                nxt = copy.deepcopy(live)
                nxt.run_record_path = None
                saved_state, old = json.loads(json.dumps(nxt.state_dict())), snapshot(nxt)
                after = nxt.update(dict(metrics), at)
                new = snapshot(nxt)
                here = path + ((name, at),)
                step(ctx, cfg, given, locked, old, new, after is None or plain(after) == plain(nxt.state_dict()), after is not None, metrics, at, here)
                # a controller restored from the saved state does the same
                other = tuner(cfg, start, locked)
                other.load_state_dict(saved_state)
                ctx.equal(snapshot(other), old, "a restored controller differs from the saved one", path=here)
                ctx.equal(plain(other.update(dict(metrics), at)), plain(after), "a restored controller answers differently", path=here)
                ctx.equal(snapshot(other), new, "a restored controller decides differently", path=here)
                ctx.step()
                key = (tuple(new["settings"].values()), new["reused"], new["frozen"], at - new["started_iteration"],
                       None if new["last_decision_iteration"] is None else at - new["last_decision_iteration"])
                if new["frozen"]:
                    ends += 1
                    if not old["frozen"]:
                        reopened(ctx, cfg, start, locked, new, here)
                    key = key[:3]
                if key in seen:
                    continue
                seen.add(key)
                ctx.state(number, key)
                ctx.check(len(here) < 60, "the controller never comes to an end", path=here)
                todo.append((nxt, at, here))
    ctx.check(ends > 0, "no history freezes")
    ctx.trace()


def plain(value):
    return json.loads(json.dumps(value))


def snapshot(t):
    """Everything a controller stands on."""
    return plain({"settings": t.settings, "reused": t.reused, "frozen": t.frozen, "started_iteration": t.started_iteration,
                  "last_decision_iteration": t.last_decision_iteration, "decisions": t.decisions})


def step(ctx, cfg, given, locked, old, new, honest, announced, metrics, at, path):
    """One transition against what is promised."""
    a, b = old["settings"], new["settings"]
    bounded(ctx, cfg, b, path=path)
    for name in locked:
        ctx.equal(b[name], given[name], "a setting fixed by the user changes", option=name, path=path)
    changed = {n for n in NAMES if a[n] != b[n]}
    ctx.check(any(changed <= k for k in KINDS), "one decision changes several kinds of settings", changed=sorted(changed), path=path)
    started = at if old["started_iteration"] is None else old["started_iteration"]
    ctx.equal(new["started_iteration"], started, "the start moves", path=path)
    elapsed = at - started
    due = elapsed >= (cfg.verify_iterations if old["reused"] else cfg.warmup_iterations) and \
        (old["last_decision_iteration"] is None or at - old["last_decision_iteration"] >= cfg.decision_interval)
    if old["frozen"]:
        ctx.check(new["frozen"] and not changed and len(new["decisions"]) == len(old["decisions"]), "a frozen controller moves", path=path)
        return
    if not due:
        ctx.check(not changed and not new["frozen"] and len(new["decisions"]) == len(old["decisions"]), "a decision before it is due", path=path)
        return
    ctx.equal(new["last_decision_iteration"], at, "a decision is not remembered", path=path)
    ctx.check(announced and honest, "a decision is not announced", path=path)
    headroom, wait = metrics.get("producer_headroom", 0.0), metrics.get("data_wait_fraction", 0.0)
    healthy = headroom >= cfg.target_producer_headroom and wait <= cfg.max_data_wait_fraction
    up, down = {n for n in changed if b[n] > a[n]}, {n for n in changed if b[n] < a[n]}
    ctx.check(not (healthy and up), "a met target raises a setting", path=path, changed=sorted(up))
    ctx.check(healthy or not down, "a missed target lowers a setting", path=path, changed=sorted(down))
    if "prefetch_threads" in down:
        ctx.check(headroom * b["prefetch_threads"] / a["prefetch_threads"] >= cfg.target_producer_headroom, "the margin is given away", path=path)
    if changed & KINDS[2]:
        ctx.check(metrics.get("cache/reloads", 0) > 0, "the cache grows without reloads", path=path)
    if elapsed >= cfg.freeze_after:
        ctx.check(new["frozen"], "the tuning window ends without freezing", path=path)
    if new["frozen"]:
        ctx.check(not changed, "freezing changes settings", path=path)
        ctx.check(healthy or elapsed >= cfg.freeze_after, "the controller gives up before its window ends", path=path)
    elif healthy and not changed:
        ctx.check(False, "nothing is left to adjust but the controller goes on", path=path)
    elif healthy and old["reused"]:
        ctx.check(False, "a confirmed profile is tuned on", path=path)
    ctx.check(healthy or not new["reused"], "an unhealthy profile is still trusted", path=path)
    if not healthy and not new["frozen"] and not changed:
        for i, (n, top) in enumerate((("prefetch_threads", cfg.max_prefetch_threads), ("prefetch_batches", cfg.max_prefetch_batches))):
            ctx.check(n in locked or b[n] == top, "a missed target is not acted upon", option=n, path=path)
        ctx.check(not metrics.get("cache/reloads", 0) > 0 or b["cache_bytes"] == cfg.host_cache_budget_bytes, "reloads are not acted upon", path=path)
    fresh = new["decisions"][len(old["decisions"]):]
    ctx.equal(new["decisions"][:len(old["decisions"])], old["decisions"], "earlier decisions are rewritten", path=path)
    ctx.equal([d["action"] for d in fresh if d["action"] in ("adjust", "freeze")], ["adjust"] * bool(changed) + ["freeze"] * new["frozen"], "the record of decisions is wrong", path=path)
    for d in fresh:
        ctx.equal(d["iteration"], at, "a decision is recorded at another iteration", path=path)
        if d["action"] == "adjust":
            ctx.equal((d["before"], d["after"]), (a, b), "a decision is recorded with other settings", path=path)


def reopened(ctx, cfg, start, locked, state, path):
    """The profile saved on freezing gives the next run the same settings."""
    again = tuner(cfg, start, locked)
    got = snapshot(again)
    if cfg.reuse != "off":
        ctx.equal(got["settings"], state["settings"], "the saved profile restores other settings", path=path)
        ctx.equal(got["reused"], "exact", "the saved profile is not found", path=path)


# ------------------------------------------------------------------ profiles on disk
def profiles(ctx, reuse):
    """Which profile is used: exact, newest compatible, or none; how many are kept."""
    from dataset.telemetry import PipelineProfileStore

    for exact_there, n_like, n_other, damaged in itertools.product((False, True), (0, 1, 2), (0, 2), (False, True)):
        root = ctx.mkdir()
        want = None
        names = iter(f"{i:064x}" for i in range(100))
        if exact_there:
            store(root, profile((3, 11, 4, 5 * MB)))
            want = ((3, 11, 4, 5 * MB), "exact")
        for i in range(n_like):
            p = store(root, profile((2, 20 + i, 4, 5 * MB), exact=next(names)))
            os.utime(p, (1000 + i, 1000 + i))
            if not exact_there and reuse == "compatible":
                want = ((2, 20 + i, 4, 5 * MB), "compatible")
        for i in range(n_other):
            p = store(root, profile((1, 40 + i, 4, 5 * MB), exact=next(names), like=OTHER))
            os.utime(p, (3000 + i, 3000 + i))
        store(root, profile((1, 50, 4, 5 * MB), exact=next(names)), name="notes")
        store(root, {**profile((1, 51, 4, 5 * MB), exact=next(names)), "schema": "pipeline-tuning-v0"})
        if damaged:
            p = os.path.join(root, next(names) + ".json")
            with open(p, "w") as f:
                f.write(json.dumps(profile((1, 60, 4, 5 * MB)))[:-9])
        t = tuner(config(root, reuse=reuse))
        got = t.state_dict()
        if reuse == "off":
            want = None
        ctx.equal((tuple(got["settings"][n] for n in NAMES), got["reused"]), want or ((2, 32, 4, 256 * MB), None), "another profile is used", reuse=reuse,
                  exact_there=exact_there, compatible=n_like, others=n_other)
        ctx.step()
        ctx.state(reuse, exact_there, n_like, n_other, damaged)
    # how many are kept
    for kept, extra in itertools.product((1, 2, 3), (0, 1, 2, 4)):
        root = ctx.mkdir()
        s = PipelineProfileStore(root, max_entries=kept)
        for i in range(kept + extra):
            s.save(profile((1, i + 1, 4, 5 * MB), exact=f"{i:064x}"))
            left = sorted(f for f in os.listdir(root) if f.endswith(".json") and len(f) == 69)
            for f in left:
                number = int(f[:-5], 16)
                os.utime(os.path.join(root, f), (1000 + number, 1000 + number))
            ctx.equal(left, [f"{j:064x}.json" for j in range(max(0, i + 1 - kept), i + 1)], "the store keeps other profiles than the newest", kept=kept)
            ctx.step()
        ctx.equal(sorted(os.listdir(root)), left, "the store leaves other files", kept=kept)
        ctx.state("kept", kept, extra)
    for bad in ({}, {"schema": "x"}, profile([1]), {**profile((1, 1, 1, 1)), "exact_key": 3}, None, []):
        ctx.raises(lambda: PipelineProfileStore(root).save(bad), "an invalid profile is saved", record=str(bad))
    ctx.trace()


def opened(ctx, root, cfg=None, locked=(), allowed=None, **info):
    """A controller over this cache is usable whatever lies there; its settings are the request or a whole profile."""
    cfg = cfg or config(root, reuse="compatible")
    start = (2, 32, 4, 256 * MB)
    t = tuner(cfg, start, locked)
    got = t.state_dict()["settings"]
    bounded(ctx, cfg, got, **info)
    for i, n in enumerate(NAMES):
        if n in locked:
            ctx.equal(got[n], start[i], "a setting fixed by the user comes from a profile", **info)
    if allowed is not None:
        ctx.check(tuple(got[n] for n in NAMES) in allowed, "the settings come from a damaged profile", settings=got, **info)
    return t


START = (2, 32, 4, 256 * MB)


def cut(ctx, part, parts):
    """A profile cut at every byte, and with every byte replaced in several ways."""
    whole = (3, 17, 5, 123 * MB)
    root = ctx.mkdir()
    finished(root, whole)
    path = os.path.join(root, KEY + ".json")
    blob = open(path, "rb").read()
    ctx.equal(tuple(tuner(config(root)).state_dict()["settings"].values()), whole, "the profile is not restored")
    for n in range(len(blob)):
        if n % parts != part:
            continue
        with open(path, "wb") as f:
            f.write(blob[:n])
        opened(ctx, root, allowed=(START,) if n < len(blob.rstrip()) else (whole,), cut=n)
        ctx.step()
        for value in (0, 0x22, 0x39, 0x2D, 0x7B, 0x80, 0xFF, blob[n] ^ 1):
            with open(path, "wb") as f:
                f.write(blob[:n] + bytes([value]) + blob[n + 1:])
            opened(ctx, root, byte=n, value=value)
            ctx.step()
    ctx.state(part, len(blob))
    ctx.trace()


def finished(root, resolved):
    """Freeze a controller with these settings, which saves its profile."""
    from dataset.telemetry import PipelineAutotuner

    cfg = config(root, reuse="off", warmup_iterations=0, verify_iterations=0, decision_interval=1, freeze_after=1)
    t = tuner(cfg, resolved)
    t.update(METRICS["fine"], 1)
    t.update(METRICS["fine"], 5)
    assert isinstance(t, PipelineAutotuner) and t.state_dict()["frozen"]


VALUES = ["3", "x", "", None, True, False, -1, 0, 2.5, 1e308, math.nan, math.inf, -math.inf, 10 ** 30, -10 ** 30, [], [3], {}, {"value": 3}]


def values(ctx):
    """Every setting, and every part of the record, replaced by every kind of value or left out."""
    whole = (3, 17, 5, 123 * MB)
    root = ctx.mkdir()
    for locked in LOCKS:
        for name, value in itertools.product(NAMES, VALUES):
            record = profile(whole)
            record["resolved"][name] = value
            store(root, record)
            t = opened(ctx, root, locked=locked, option=name, value=str(value))
            again = tuner(config(root, reuse="exact"), locked=locked)
            ctx.equal(again.state_dict()["settings"], t.state_dict()["settings"], "the same profile gives different settings")
            for m in ("starved", "rich"):
                t.update(METRICS[m], 10 ** 6)
                bounded(ctx, t.config, t.state_dict()["settings"], option=name, value=str(value))
            ctx.step()
        for name in NAMES:
            record = profile(whole)
            del record["resolved"][name]
            store(root, record)
            opened(ctx, root, locked=locked, left_out=name)
        record = profile(whole)
        record["resolved"]["more"] = 5
        store(root, record)
        opened(ctx, root, locked=locked)
        ctx.state(locked)
    for key, value in itertools.product(("schema", "exact_key", "compatible_key", "resolved"), VALUES + ["left out"]):
        record = profile(whole)
        if value == "left out":
            del record[key]
        else:
            record[key] = value
        store(root, record, name=KEY)
        other_key = key.endswith("_key") and isinstance(value, str) and value != "left out"  # a whole profile, of the other kind
        opened(ctx, root, allowed=(whole,) if other_key else (START,), part=key, value=str(value))
        opened(ctx, root, cfg=config(root, reuse="exact"), allowed=(whole,) if other_key and key == "compatible_key" else (START,), part=key, value=str(value))
        ctx.step()
    for text in ("", "null", "[]", "3", '"x"', "{}", "[" * 100000, '{"a":' * 100000, "\ufeff{}", "NaN"):
        with open(os.path.join(root, KEY + ".json"), "w") as f:
            f.write(text)
        opened(ctx, root, allowed=(START,), text=text[:20])
        ctx.step()
    ctx.trace()


def oddities(ctx):
    """The cache is no folder, is missing, or holds folders, dead links and unreadable files; freezing still works."""
    def missing(root):
        pass

    def is_file(root):
        open(root, "w").close()

    def below_file(root):
        os.rmdir(os.path.dirname(root))
        open(os.path.dirname(root), "w").close()

    def dead_link(root):
        os.symlink(root + "-nowhere", root)

    def link_loop(root):
        os.symlink(root, root)

    def holds_folder(root):
        os.makedirs(os.path.join(root, KEY + ".json"))
        os.makedirs(os.path.join(root, OTHER + ".json"))

    def holds_dead_link(root):
        os.makedirs(root)
        os.symlink("nowhere", os.path.join(root, OTHER + ".json"))

    def holds_dead_exact(root):
        os.makedirs(root)
        os.symlink("nowhere", os.path.join(root, KEY + ".json"))

    def holds_loop(root):
        os.makedirs(root)
        os.symlink(OTHER + ".json", os.path.join(root, OTHER + ".json"))

    def closed_file(root):
        os.chmod(store(root, profile((3, 17, 5, MB))), 0)

    def closed_folder(root):
        store(root, profile((3, 17, 5, MB)))
        os.chmod(root, 0)

    def closed_above(root):
        store(root, profile((3, 17, 5, MB)))
        os.chmod(os.path.dirname(root), 0)

    def read_only(root):
        os.makedirs(root)
        os.chmod(root, 0o555)

    from mcheck.checks.c26 import forked

    for make in (missing, is_file, below_file, dead_link, link_loop, holds_folder, holds_dead_link, holds_dead_exact, holds_loop, closed_file, closed_folder, closed_above, read_only):
        for reuse in ("off", "exact", "compatible"):
            base = ctx.mkdir()
            top = os.path.join(base, "top")
            os.mkdir(top)
            root = os.path.join(top, "cache")
            make(root)
            for p in (base, top, root):
                if os.path.lexists(p) and not os.path.islink(p):
                    os.chown(p, 65534, 65534)
            os.chmod(base, 0o755)

            def child():
                up = os.path.dirname(base)
                while up != "/":
                    os.chmod(up, os.stat(up).st_mode | 0o11) if os.stat(up).st_uid == 0 and up.startswith(("/dev/shm/", "/tmp/")) else None
                    up = os.path.dirname(up)
                os.setgid(65534)
                os.setuid(65534)
                t = opened(ctx, root, cfg=config(root, reuse=reuse, warmup_iterations=0, decision_interval=1, freeze_after=3), allowed=(START,))
                t.update(METRICS["starved"], 1)
                t.update(METRICS["starved"], 9)
                assert t.state_dict()["frozen"], "not frozen"

            outcome = forked(child)
            ctx.equal(outcome, ("ok",), "training stops for its tuning cache", cache=make.__name__, reuse=reuse)
            ctx.step()
            ctx.state(make.__name__, reuse)
            for p in (top, root):
                if os.path.lexists(p) and not os.path.islink(p):
                    os.chmod(p, 0o755)
    ctx.trace()


def crash(ctx, before):
    """Freezing dies at any point: the cache and the run's record hold the old or the new profile, whole."""
    root, run = ctx.mkdir(), ctx.mkdir()
    base = os.path.join(root, "cache")
    os.mkdir(base)
    old, new = (1, 3, 2, 7 * MB), (3, 17, 5, 123 * MB)
    if before:
        finished(base, old)
    with Watch(base) as watch:
        finished(base, new)
    look = os.path.join(root, "look")
    seen = set()
    for files, _, what in crash_states(watch.points):
        if os.path.isdir(look):
            for f in os.listdir(look):
                os.remove(os.path.join(look, f))
        else:
            os.mkdir(look)
        for f, data in files.items():
            with open(os.path.join(look, f), "wb") as h:
                h.write(data)
        t = opened(ctx, look, cfg=config(look, reuse="exact"), allowed=((old if before else START), new), point=what)
        seen.add(tuple(t.state_dict()["settings"].values()))
        # the next freeze repairs everything
        finished(look, new)
        opened(ctx, look, cfg=config(look, reuse="exact"), allowed=(new,), point=what)
        ctx.step()
        ctx.state(before, what)
    ctx.equal(len(seen), 2, "not both profiles are seen")
    # the record beside the run
    cfg = config(base, reuse="off", warmup_iterations=0, decision_interval=1)
    t = tuner(cfg)
    with Watch(run) as watch:
        t.attach_run_dir(run)
        t.update(METRICS["starved"], 1)
        t.update(METRICS["starved"], 2)
        t.update(METRICS["fine"], 3)
    for files, _, what in crash_states(watch.points):
        for f, data in files.items():
            if f == "pipeline_tuning.json":
                record = json.loads(data)
                bounded(ctx, cfg, record["resolved"], point=what)
        ctx.step()
    ctx.equal(record["resolved"], t.state_dict()["settings"], "the run's record is not the final one")
    ctx.trace()


class Ops:
    """Every file operation below a folder, with something done at the number-th."""

    def __init__(self, root, number, action):
        self.root, self.number, self.action = os.path.realpath(root), number, action
        self.count, self.done = 0, False

    def tick(self, path, what):
        if self.done:
            return
        try:
            inside = os.path.abspath(os.fsdecode(path)).startswith(self.root)
        except TypeError:
            return
        if inside:
            self.count += 1
            if self.count - 1 == self.number:
                self.done = True
                self.action(what)

    def __enter__(self):
        import io

        self.saved = []
        for owner, name in ((builtins, "open"), (io, "open"), (os, "open"), (os, "stat"), (os, "lstat"), (os, "scandir"), (os, "listdir"), (os, "replace"), (os, "rename"), (os, "unlink"), (os, "remove"), (os, "mkdir")):
            real = getattr(owner, name)

            def call(path, *a, _real=real, _name=name, **k):
                self.tick(path, _name)
                return _real(path, *a, **k)

            self.saved.append((owner, name, real))
            setattr(owner, name, call)
        return self

    def __exit__(self, *exc):
        for owner, name, real in self.saved:
            setattr(owner, name, real)


def failing(ctx, before):
    """Every file operation of freezing fails: the decision stands, and the cache keeps a whole profile."""
    old, new = (1, 3, 2, 7 * MB), (3, 17, 5, 123 * MB)
    for number in range(100):
        root = os.path.join(ctx.mkdir(), "cache")
        if before:
            finished(root, old)

        def fail(what):
            raise OSError(28, "No space left on device")

        with Ops(root, number, fail) as ops:
            finished(root, new)
        opened(ctx, root, cfg=config(root, reuse="exact"), allowed=((old if before else START), new), operation=number)
        ctx.step()
        ctx.state(before, number)
        if not ops.done:
            break
    ctx.check(number > 2, "no file operation was seen")
    ctx.trace()


def race(ctx, what):
    """Another run changes the shared cache at every file operation of this one: removes a profile, replaces one, adds one."""
    names = [KEY, "0" * 64, "1" * 64]

    def gone(root, i):
        with contextlib.suppress(FileNotFoundError):
            os.remove(os.path.join(root, names[i] + ".json"))

    def replaced(root, i):
        tmp = os.path.join(root, ".tmp")
        with open(tmp, "w") as f:
            json.dump(profile((4, 60 + i, 2, MB), exact=names[i]), f)
        os.replace(tmp, os.path.join(root, names[i] + ".json"))

    def all_gone(root, i):
        for j in range(len(names)):
            gone(root, j)

    for there, reuse, (change, i) in itertools.product((names[:1], names[1:], names), ("exact", "compatible"), [(c, i) for c in (gone, replaced) for i in range(3)] + [(all_gone, 0)]):
        for number in range(100):
            root = ctx.mkdir()
            for j, n in enumerate(names):
                if n in there:
                    p = store(root, profile((3, 10 + j, 5, 5 * MB), exact=n))
                    os.utime(p, (1000 + j, 1000 + j))
            allowed = [START] + [(3, 10 + j, 5, 5 * MB) for j in range(3)] + [(4, 60 + j, 2, MB) for j in range(3)]
            cfg = config(root, reuse=reuse, warmup_iterations=0, verify_iterations=0, decision_interval=1, freeze_after=1)
            t = tuner(cfg) if what == "save" else None
            if t is not None:
                t.store.max_entries = 1
            with Ops(root, number, lambda op: change(root, i)) as ops:
                if what == "load":
                    t = opened(ctx, root, cfg=cfg, allowed=allowed, change=change.__name__, profile=i, operation=number, reuse=reuse)
                else:
                    t.update(METRICS["fine"], 1)
                    t.update(METRICS["fine"], 3)
                    ctx.check(t.state_dict()["frozen"], "freezing is lost", operation=number)
            opened(ctx, root, cfg=cfg, operation=number)
            ctx.step()
            ctx.state(what, len(there), reuse, change.__name__, i, number)
            if not ops.done:
                break
    ctx.trace()


def options(ctx):
    """Options either are refused when the configuration is read, or work in every decision."""
    from dataset.telemetry import PipelineAutotuneConfig

    root = ctx.mkdir()
    fields = [f for f in PipelineAutotuneConfig.__dataclass_fields__ if f not in ("cache_dir",)]
    values_ = ["3", "1e-2", "x", None, True, False, -1, 0, 1, 2, 0.5, 1.0, 2.5, math.nan, math.inf, [], {}, "off", "exact", "compatible", 10 ** 20]
    for name, value in itertools.product(fields, values_):
        try:
            cfg = PipelineAutotuneConfig.parse({"cache_dir": root, "warmup_iterations": 0, "verify_iterations": 0, "decision_interval": 1, "freeze_after": 20, name: value})
        except (ValueError, TypeError):
            ctx.tag("refused")
            continue
        ctx.tag("accepted")
        t = tuner(cfg)
        for at, m in enumerate(("starved", "nan", "reload", "fine", "rich", "spare", "none", "waiting"), 1):
            t.update(METRICS[m], at)
            bounded(ctx, cfg, t.state_dict()["settings"], option=name, value=str(value))
        ctx.step()
        ctx.state(name, str(value))
    for value in ({"unknown": 1}, 3, "on", [], {"enabled": 1}):
        ctx.raises(lambda: PipelineAutotuneConfig.parse(value), "an unknown option is accepted", kinds=(ValueError, TypeError), value=str(value))
    for value in (None, False):
        ctx.check(not PipelineAutotuneConfig.parse(value).enabled, "tuning is on without being asked for")
    ctx.trace()


# ------------------------------------------------------------------ the tuned stream
def spec(root, autotune, threads=2, batches=3, tune=None, rows=(5, 4, 3)):
    dataset_type, paths, opts = F.make("batched", root, rows)
    opts.update(prefetch_threads=threads, prefetch_batches=batches)
    if autotune:
        opts["autotune"] = {"cache_dir": root + "-cache", "reuse": "off", "respect_explicit": False, "warmup_iterations": 0, "verify_iterations": 0, "decision_interval": 1,
                            "freeze_after": 1000, "max_prefetch_threads": 3, "max_prefetch_batches": 5, "host_cache_budget_bytes": 4096, **(tune or {})}
    return dataset_type, paths, opts


def build(made, mode="train", shuffle=True):
    dataset_type, paths, opts = made
    return F.build((dataset_type, paths, opts), F.context(2, mode=mode), shuffle)


CHOICES = ("starved", "reload", "fine", "rich", "spare", "nan")


def stream(ctx, threads, top, first, depth):
    """Every sequence of measurements between batches: the same batches, tokens and saved positions as without tuning, within the limits now in force."""
    root = ctx.mkdir()
    plainly = spec(os.path.join(root, "d"), False, threads, rows=(9, 8, 7))
    with controlled():
        Pool.tape = First
        want = follow(build(plainly), 7)
    for rest in itertools.product(range(len(CHOICES)), repeat=depth - 1):
        plan = [CHOICES[i] for i in (first,) + rest]
        tape = Tape()
        while True:
            with controlled():
                Pool.tape = Limited(tape, 3 if len(set(plan)) < depth - 1 else 0)
                ds = build(spec(os.path.join(root, "d"), True, threads, tune={"max_prefetch_threads": top}, rows=(9, 8, 7)))
                got = follow(ds, 7, plan, lambda state: limits_hold(ctx, ds, state, top))
            for i, (a, b) in enumerate(zip(got, want)):
                ctx.check(a == b, "tuning changes the batches", at=i, plan=plan)
            ctx.equal(len(got), len(want), "tuning changes the number of batches", plan=plan)
            ctx.step()
            ctx.state(threads, top, plan, tuple(tape.prefix))
            if not tape.advance():
                break
    ctx.trace()


class Limited:
    """The first choices are explored, the rest are the first option."""

    def __init__(self, tape, n):
        self.tape, self.left = tape, n

    def choose(self, n):
        if self.left <= 0 or n == 1:
            return 0
        self.left -= 1
        return self.tape.choose(n)


def limits_hold(ctx, ds, state, top):
    """What runs obeys the settings."""
    s = state["settings"]
    ctx.check(1 <= s["prefetch_threads"] <= top and 1 <= s["prefetch_batches"] <= 5 and 1 <= s["cache_bytes"] <= 4096, "a setting is outside its limits", settings=s)
    m = ds.pipeline_metrics_snapshot()
    ctx.equal((m["cache/capacity_entries"], m["cache/capacity_bytes"]), (s["cache_entries"], s["cache_bytes"]), "the cache's limits are not those decided")
    ctx.check(m["prefetch/queue_depth_max"] <= 5, "more batches are prefetched than the limit", depth=m["prefetch/queue_depth_max"])


def follow(ds, n, plan=(), look=None, start=None):
    out = []
    base = F.stream(ds)
    if start is not None:
        base.load_state_dict(start)
    it = iter(ds)
    for i in range(n):
        try:
            env = next(it)
        except StopIteration:
            it = iter(ds)
            env = next(it)
        F.commit(ds, env)
        out.append((F.batch_repr(env), json.dumps(base.state_dict(), sort_keys=True, default=str)))
        if i < len(plan):
            ds.pipeline_tuning_update(dict(METRICS[plan[i]]), i + 1)
            look(ds.pipeline_tuning_state_dict())
    if hasattr(it, "close"):
        it.close()
    F.close(ds)
    return out


def restored(ctx, kind):
    """A stream saved after every batch continues in one with the same tuning, other tuning or none, and the other way round."""
    root = ctx.mkdir()
    with controlled():
        Pool.tape = First
        want = follow(build(spec(os.path.join(root, "d"), False)), 9)
        for at, plan in itertools.product(range(1, 8), itertools.product(CHOICES[:4], repeat=2)):
            tuned = [True, True] if kind != "toggle" else [bool(at % 2), not at % 2]
            a = build(spec(os.path.join(root, "d"), tuned[0]))
            F.stream(a)
            it = iter(a)
            got = []
            for i in range(at):
                env = next(it, None)
                if env is None:
                    it = iter(a)
                    env = next(it)
                F.commit(a, env)
                got.append(F.batch_repr(env))
                if tuned[0]:
                    a.pipeline_tuning_update(dict(METRICS[plan[i % 2]]), i + 1)
            saved = F.stream(a).state_dict()
            knobs = json.loads(json.dumps(a.pipeline_tuning_state_dict())) if tuned[0] else None
            if hasattr(it, "close"):
                it.close()
            F.close(a)
            b = build(spec(os.path.join(root, "d"), tuned[1], tune={"max_prefetch_threads": 2, "max_prefetch_batches": 2} if kind == "retune" else None))
            F.stream(b).load_state_dict(saved)
            took = b.restore_pipeline_tuning_state_dict(knobs) if knobs is not None else None
            if kind == "resume":
                ctx.check(took is True, "a run's own tuning state is not taken up")
                ctx.equal(b.pipeline_tuning_state_dict(), a.pipeline_tuning_state_dict(), "tuning continues differently")
            elif tuned[1]:
                ctx.check(not took, "tuning state of another configuration is taken up")
                s = b.pipeline_tuning_state_dict()["settings"]
                ctx.check(kind != "retune" or s["prefetch_threads"] <= 2 and s["prefetch_batches"] <= 2, "restored tuning exceeds the limits", settings=s)
            it = iter(b)
            while len(got) < 9:
                env = next(it, None)
                if env is None:
                    it = iter(b)
                    env = next(it)
                F.commit(b, env)
                got.append(F.batch_repr(env))
                if tuned[1]:
                    b.pipeline_tuning_update(dict(METRICS[plan[len(got) % 2]]), len(got))
            ctx.check(got == [w[0] for w in want], "the batches after resuming differ", at=at, plan=plan, tuned=tuned)
            if hasattr(it, "close"):
                it.close()
            F.close(b)
            ctx.step()
            ctx.state(kind, at, plan)
    ctx.trace()


# ------------------------------------------------------------------ the trainer
def scripted(trainer, plan):
    """Replace what was measured by a script."""
    real = trainer.train_dataset.pipeline_tuning_update

    def update(metrics, iteration):
        return real(dict(METRICS[plan[iteration % len(plan)]]), iteration)

    trainer.train_dataset.pipeline_tuning_update = update


class Script(dict):
    """Hooks installing scripted measurements on the first step."""

    def __init__(self, plan):
        done = []

        def before(t, data):
            if not done and plan:
                done.append(scripted(t, plan))

        super().__init__({"before": before})


def options_of(made, **more):
    dataset_type, paths, opts = made
    return dict(dataset_type=dataset_type, train_datas=paths, dataset_args=opts, log_interval=1, **{"batch_size": 2, **more})


def knobs(t):
    state = t.train_dataset.pipeline_tuning_state_dict()
    return None if state is None else state["settings"]


def training(ctx, world):
    """Whole training runs with every short script of measurements: the same steps as without tuning; all ranks hold the same settings."""
    from mcheck import ranks

    root = ctx.mkdir()
    data = os.path.join(root, "d")
    spec(data, False)
    plans = list(itertools.product(CHOICES[:5], repeat=2)) if world == 1 else [("starved", "fine"), ("rich", "spare"), ("reload", "starved")]

    def one(tag, made, plan):
        def go(rank):
            trail = T.Trail()
            # every rank is told something else; only the first one's measurements may count
            mine = plan and (plan if rank == 0 else [("starved", "rich")[rank % 2]])
            t = T.make(os.path.join(root, tag), hooks=trail.hooks(**Script(mine)), **options_of(made, iterations=7, **({"batch_size": 4} if world > 1 else {})))
            seen = [knobs(t)]
            T.run(t)
            return trail.steps, seen + [knobs(t)]

        if world == 1:
            return [go(0)]
        out = ranks.run(world, go, init=False)
        for o in out:
            ctx.check(o[0] == "ok", "a run fails", tuned=bool(plan), outcome=str(o)[:3000])
        return [o[1] for o in out]

    want = one("plain", spec(data, False), None)
    for i, plan in enumerate(plans):
        got = one(f"tuned{i}", spec(data, True), plan)
        for r, (steps, seen) in enumerate(got):
            for it in want[r][0]:
                ctx.equal(steps.get(it), want[r][0][it], "tuning changes a training step", rank=r, plan=plan, step=it)
            ctx.equal(seen, got[0][1], "ranks hold different settings", rank=r, plan=plan)
        ctx.check(got[0][1][0] != got[0][1][1] or plan[0] == plan[1] or "fine" in plan or "spare" in plan or "rich" in plan, "the script has no effect", plan=plan)
        ctx.step()
        ctx.state(world, plan)
    ctx.trace()


def hosts(ctx, holder):
    """Ranks on hosts with caches of their own, only one of which holds a profile: all ranks start and go on with the same settings."""
    from mcheck import ranks

    root = ctx.mkdir()
    data = os.path.join(root, "d")
    made = spec(data, True, tune={"cache_dir": None, "reuse": "exact"})

    def go(tag, limit):
        def on_rank(rank):
            os.environ["XDG_CACHE_HOME"] = os.path.join(root, f"host{rank}")
            trail = T.Trail()
            opts = options_of(spec(data, True, tune={"cache_dir": None, "reuse": "exact", **limit}), iterations=7, batch_size=4)
            seen = []
            t = T.make(os.path.join(root, tag), hooks=trail.hooks(**Script(("starved",))), **opts)
            seen.append(knobs(t))
            T.run(t)
            return seen + [knobs(t)], trail.steps

        out = ranks.run(2, on_rank, init=False)
        for o in out:
            ctx.check(o[0] == "ok", "a run fails", outcome=str(o)[:3000])
        return [o[1] for o in out]

    first = go("one", {"freeze_after": 4})
    ctx.check(os.path.isdir(os.path.join(root, "host0")) and not os.path.isdir(os.path.join(root, "host1")), "the profile was not saved once")
    if holder == 1:
        os.rename(os.path.join(root, "host0"), os.path.join(root, "host1"))
    elif holder == 2:
        shutil.copytree(os.path.join(root, "host0"), os.path.join(root, "host1"))
    second = go("two", {"freeze_after": 4})
    if holder != 1:
        ctx.equal(second[0][0][0], first[0][0][1], "the profile is not taken up")
    for run in (first, second):
        for r in range(2):
            ctx.equal(run[r][0], run[0][0], "ranks hold different settings", rank=r)
    for it in first[0][1]:
        ctx.equal(second[0][1].get(it), first[0][1][it], "a profile changes a training step", step=it)
    ctx.step()
    ctx.state(holder)
    ctx.trace()


def resumed(ctx, way):
    """Runs saved at every iteration continue with tuning kept, changed, switched off or switched on: the same steps."""
    from mcheck.checks import c22

    root = ctx.mkdir()
    data = os.path.join(root, "d")
    spec(data, False)
    first, second = WAYS[way]

    def made(which):
        return options_of(spec(data, bool(which), tune=which if isinstance(which, dict) else None), iterations=6)

    def script(which):
        return Script(("reload", "starved", "rich") if which else None)

    saving = dict(save_interval=1, num_keep_states=-1)
    reference, end, _ = c22.go(os.path.join(root, "plain"), made(False), **saving)
    run = os.path.join(root, "run")
    trail, final, _ = c22.go(run, made(first), script(first), **saving)
    c22.compare(ctx, trail, reference, "tuning", way=way)
    for k in range(1, 6):
        again = os.path.join(root, "again")
        shutil.copytree(run, again, ignore=shutil.ignore_patterns("log"))
        for i in range(k + 1, 7):
            os.remove(os.path.join(again, "ckpts", f"state_{i:07d}.pt"))
        trail, final, at = c22.go(again, made(second), script(second), **saving)
        ctx.equal(at, k, "resumed iteration")
        c22.compare(ctx, trail, reference, "resuming with other tuning", way=way, state=k)
        ctx.equal(final, end, "the resumed run ends differently", way=way, state=k)
        ctx.step()
        ctx.state(way, k)
        shutil.rmtree(again)
    ctx.trace()
