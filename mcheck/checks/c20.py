"""Every file operation of a training run is a crash point (plus every file caught half written): the run directory is
put back as it was at that point, the real trainer restarted on it, and the rest of the run compared with the
uninterrupted one. Thorough also crashes the restarted run."""
import os
import re
import shutil
import sys

from mcheck import fixtures as F
from mcheck import train as T

LEVEL = "model_checking"
RULE = __doc__
PRELOAD = ("torch", "dataset", "trainer")
ASSUMPTIONS = [
    "a crash stops the process: completed operations are kept in order, a file being written keeps a prefix of its"
    " bytes (0, 1, half and all but one of them are tried); loss of unsynced renames on power failure is not modelled",
    "runs of up to 7 steps with a tiny model on one process; checkpoint writing on the training thread (C21 covers the"
    " background thread)",
]
SCHEDULES = {
    "each": dict(save_interval=1),
    "two": dict(save_interval=2),
    "temp": dict(save_interval=4, temp_save_interval=1),
    "temp2": dict(save_interval=3, temp_save_interval=2, num_keep_states=2),
    "sparse_state": dict(save_interval=2, temp_save_interval=1, state_save_interval=3),
    "sparse_state2": dict(save_interval=6, temp_save_interval=1, state_save_interval=2, num_keep_states=2),
    "keep_all": dict(save_interval=5, temp_save_interval=2, num_keep_states=-1),
    "keep3": dict(save_interval=10, temp_save_interval=1, num_keep_states=3),
    "final_only": dict(),
}


def scenarios(tier):
    deep = tier == "thorough"
    for schedule in SCHEDULES:
        yield "crash", {"kind": "batched", "schedule": schedule, "iterations": 7 if deep else 5}
        yield "retained", {"kind": "batched", "schedule": schedule, "iterations": 7}
    for schedule in ("two", "temp", "sparse_state"):
        yield "crash", {"kind": "map_processed", "schedule": schedule, "iterations": 5}
        yield "crash", {"kind": "batched", "schedule": schedule, "iterations": 5, "vq": True}
    for schedule in ("temp", "temp2"):
        yield "crash", {"kind": "simple", "schedule": schedule, "iterations": 4}
    for schedule in ("two", "temp") if not deep else SCHEDULES:
        for part in range(4):
            yield "crash", {"kind": "batched", "schedule": schedule, "iterations": 4 if schedule == "two" else 3,
                            "levels": 2, "part": [part, 4]}
    for vq in (False, True):
        for kind in ("batched", "map_processed"):
            for what in ("other", "same"):
                yield "collision", {"kind": kind, "what": what, "vq": vq}


def prepare(tier):
    T.warm(vq=True)


# --- recording -----------------------------------------------------------------------------------------------------
class Watch:
    """Directory contents before every file operation below a directory."""

    active = None
    installed = False

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.points = []  # (files, mark, operation)
        self.mark = 0
        self.busy = False

    def contents(self):
        out = {}
        for base, dirs, files in os.walk(self.root):
            dirs[:] = [d for d in dirs if d != "log"]
            for name in files:
                path = os.path.join(base, name)
                try:
                    with open(path, "rb") as f:
                        out[os.path.relpath(path, self.root)] = f.read()
                except FileNotFoundError:
                    pass
        return out

    def snap(self, operation):
        self.busy = True
        try:
            self.points.append((self.contents(), self.mark, operation))
        finally:
            self.busy = False

    def event(self, name, args):
        if self.busy:
            return
        if name == "open":
            mode = args[1]
            flags = args[2] if len(args) > 2 else 0
            if mode is None and not (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                return
            if mode is not None and not set(mode) & set("wax+"):
                return
            paths = args[:1]
        elif name in ("os.rename", "os.link", "os.symlink"):
            paths = args[:2]
        elif name in ("os.remove", "os.mkdir", "os.rmdir", "os.truncate"):
            paths = args[:1]
        else:
            return
        full = []
        for p in paths:
            try:
                p = os.fsdecode(p)
            except TypeError:
                p = ""
            full.append(p if os.path.isabs(p) else os.path.join(self.root, "ckpts", p))
        inside = [p for p in full if os.path.realpath(p).startswith(self.root + os.sep)]
        if not inside or any(os.sep + "log" + os.sep in p for p in inside):
            return
        rel = [os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p)), self.root)
               for p in full]
        self.snap((name, *rel))

    def __enter__(self):
        Watch.active = self
        if not Watch.installed:
            Watch.installed = True
            sys.addaudithook(lambda n, a: Watch.active.event(n, a) if Watch.active else None)
        return self

    def __exit__(self, *exc):
        Watch.active = None
        if not any(exc):
            self.snap(("end",))
        return False


def apply(files, operation):
    files = dict(files)
    if operation[0] == "os.rename":
        if operation[1] in files:
            files[operation[2]] = files.pop(operation[1])
    elif operation[0] == "os.link":
        if operation[1] in files:
            files[operation[2]] = files[operation[1]]
    elif operation[0] == "os.remove":
        files.pop(operation[1], None)
    return files


def crash_states(points):
    """(files, mark, description) for every operation boundary and every partial write in between."""
    for i, (files, mark, operation) in enumerate(points):
        yield files, mark, f"before {operation}"
        if i + 1 == len(points):
            break
        after = points[i + 1][0]
        base = apply(files, operation)
        for name in sorted(after):
            if name.endswith(".jsonl") or base.get(name) == after[name]:
                continue
            data = after[name]
            for cut in sorted({0, 1, len(data) // 2, max(0, len(data) - 1)}):
                yield {**base, name: data[:cut]}, mark, f"{name} cut to {cut} of {len(data)} bytes"


# --- running -------------------------------------------------------------------------------------------------------
def setup(ctx, kind, schedule, iterations, vq=False, seed=7):
    root = ctx.mkdir("c20")
    layout = (7, 6) if kind != "simple" else (8, 7)
    dataset_type, paths, opts = F.make(kind, os.path.join(root, "data"), layout)
    options = dict(dataset_type=dataset_type, train_datas=paths, dataset_args=opts, iterations=iterations,
                   lr_scheduler_type="cosine", random_seed=seed, model_args={"drop": 0.25, "vq": vq},
                   **(SCHEDULES[schedule] if isinstance(schedule, str) else schedule))
    if kind == "simple":
        options["dataset_args"] = {**opts, "steps_per_epoch": 4}
    return root, options


def due(options):
    """Iterations after which a training state is on disk, by the documented schedule."""
    save = {i for i in range(1, options["iterations"] + 1)
            if i % options.get("save_interval", T.BIG) == 0 or i % options.get("temp_save_interval", T.BIG) == 0}
    every = options.get("state_save_interval")
    return sorted({i for i in save if every is None or i % every == 0} | {options["iterations"]}), sorted(save)


def put(files, root, name):
    path = os.path.join(root, name)
    os.makedirs(os.path.join(path, "ckpts"), exist_ok=True)
    for rel, data in files.items():
        full = os.path.join(path, rel)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(data)
    return path


def drive(ctx, rundir, options, watch=True, start=None):
    """Run to the end; the trail, the crash points and the final standing."""
    trail = T.Trail()
    w = Watch(rundir)

    def mark(t, data):
        w.mark = t.state.iteration

    t = T.make(rundir, hooks=trail.hooks(before=mark), **options)
    if start:
        start(t)
    w.mark = t.state.iteration
    if watch:
        with w:
            T.run(t)
    else:
        T.run(t)
    return trail, w.points, T.standing(t)


def crash(ctx, kind, schedule, iterations, vq=False, levels=1, part=None):
    root, options = setup(ctx, kind, schedule, iterations, vq)
    states, saves = due(options)
    trail, points, final = drive(ctx, os.path.join(root, "run"), options)
    ctx.check(len(points) > 2 * len(states), "no file operations observed during the run")
    starting = {}
    seen = {}
    todo = [(points, 0, 1)]
    index = 0
    while todo:
        points, floor, level = todo.pop(0)
        last = floor
        for files, mark, what in crash_states(points):
            done = max([floor] + [i for i in states if i < mark or (what == "before ('end',)")])
            key = tuple(sorted((n, hash(d)) for n, d in files.items() if not n.endswith(".jsonl")))
            torn = " cut to " in what
            allowed = {done} | ({mark} if mark in states else set())
            ctx.step()
            if key in seen:
                ctx.check(seen[key] is None or seen[key] in allowed, f"after a crash in step {mark} the run resumes at"
                          f" {seen[key]}, not at {sorted(allowed)}", crash=what)
                continue
            seen[key] = None
            index += 1
            if part and level == 1 and index % part[1] != part[0]:
                continue
            ctx.state(key, level)
            path = put(files, root, "again")

            def arrived(t):
                nonlocal last
                it = seen[key] = t.state.iteration
                info = dict(crash=what, during=mark, level=level, files=sorted(files))
                ctx.check(it in allowed, f"after a crash in step {mark} the run resumes at {it}, not at"
                                         f" {sorted(allowed)}", **info)
                if not part:
                    ctx.check(it >= last, "a later crash resumes from an earlier state", before=last, now=it, **info)
                    last = max(last, it)
                if it:
                    want = trail.steps[it]
                    ctx.equal(T.model_state(t), want["model"], "the resumed weights are those of another step",
                              step=it, **info)
                    ctx.equal(T.optimizer_state(t), want["optimizer"], "the resumed optimizer is that of another step",
                              step=it, **info)
                    ctx.equal(t.state.rows, want["rows"], "rows", step=it, **info)
                else:
                    starting.setdefault("model", T.model_state(t))
                    ctx.equal(T.model_state(t), starting["model"], "the restart does not begin with fresh weights",
                              **info)
                ctx.tag(f"resume at {'start' if it == 0 else 'a state'}")

            deeper = level < levels
            again, more, end = drive(ctx, path, options, watch=deeper, start=arrived)
            ctx.trace()
            for it, step in again.steps.items():
                ctx.equal(step, trail.steps[it], "a step after the crash differs from the uninterrupted run",
                          crash=what, step=it)
            ctx.equal(end, final, "the run after the crash ends in another state", crash=what)
            check_files(ctx, path, options, [max(allowed & {0} | set(states)), 0], final_only=True)
            shutil.rmtree(path)
            if deeper and not torn:
                todo.append((more, done, level + 1))
        ctx.sample([p[2] for p in points][:12])


def numbers(path):
    names = os.listdir(os.path.join(path, "ckpts"))
    find = lambda pattern: sorted(int(m.group(1)) for n in names if (m := re.fullmatch(pattern, n)))
    return find(r"state_(\d+)\.pt"), find(r"ckpt_tiny_(\d+)\.pt"), names


def check_files(ctx, path, options, _, final_only=False):
    """The newest states are kept, each with its model, and no temporary file stays behind."""
    states, models, names = numbers(path)
    ctx.check(set(states) <= set(models), "a retained state has no model file", states=states, models=models)
    ctx.check(states and states[-1] == options["iterations"], "the final state is not on disk", states=states)


def retained(ctx, kind, schedule, iterations):
    """After every step of a run: which states and models are there, and every one of the states can be resumed."""
    root, options = setup(ctx, kind, schedule, iterations)
    run = os.path.join(root, "run")
    states, saves = due(options)
    keep = options.get("num_keep_states", 1)
    trail = T.Trail()
    copies = {}

    def before(t, data):
        it = t.state.iteration - 1
        copies.setdefault(it, os.path.join(root, f"copy{it}"))
        if not os.path.isdir(copies[it]):
            shutil.copytree(run, copies[it], ignore=shutil.ignore_patterns("log"))

    t = T.make(run, hooks=trail.hooks(before=before), **options)
    T.run(t)
    final = T.standing(t)
    copies[iterations] = run
    for it, path in sorted(copies.items()):
        ctx.state(it)
        if not os.path.isdir(os.path.join(path, "ckpts")):
            ctx.check(not [s for s in saves if s <= it], "a due checkpoint is missing", step=it)
            continue
        have, models, names = numbers(path)
        done = [s for s in states if s <= it and (s != iterations or it == iterations)]
        expect = done if keep < 0 else done[-keep:] if keep else []
        ctx.equal(have, expect, "retained training states", step=it)
        saved = [s for s in saves if s <= it] + ([iterations] if it == iterations and iterations not in saves else [])
        permanent = [s for s in saved if s % options.get("save_interval", T.BIG) == 0]
        wanted = set(permanent) | set(expect) | set(saved[-1:])
        ctx.equal(set(models), wanted, "model snapshots on disk", step=it)
        ctx.check(not [n for n in names if "tmp" in n], "temporary files stay behind", names=names)
        for s in have:
            # losing the newer states, the run can still go back to this one
            again = os.path.join(root, "again")
            shutil.copytree(path, again, ignore=shutil.ignore_patterns("log"))
            for n in have:
                if n > s:
                    os.remove(os.path.join(again, "ckpts", f"state_{n:07d}.pt"))
            more = T.Trail()
            t = T.make(again, hooks=more.hooks(), **options)
            ctx.equal(t.state.iteration, s, "resumed iteration", at=it)
            ctx.equal(T.model_state(t), trail.steps[s]["model"], "resumed weights", at=it, state=s)
            if s not in [x for x in have if x < s]:
                newer = [n for n in have if n > s]
                if not newer:
                    T.run(t)
                    ctx.equal(T.standing(t), final, "final state", at=it, state=s)
            ctx.trace()
            ctx.step()
            shutil.rmtree(again)


def collision(ctx, kind, what, vq):
    """Another run's checkpoint of the same step appears in the directory: it must survive untouched."""
    root, options = setup(ctx, kind, "two", 4, vq)
    options.pop("save_interval")
    other = {**options, "save_interval": 2}
    if what == "other":
        other["learning_rate"] = 0.05  # same configuration, different weights
        other["random_seed"] = 8
    first, _, _ = drive(ctx, os.path.join(root, "first"), other, watch=False)
    # keep the whole checkpoint of step 4 of that run
    source = os.path.join(root, "first", "ckpts")
    names = [n for n in os.listdir(source) if "0000004" in n]
    run = os.path.join(root, "run")
    before = {n: open(os.path.join(source, n), "rb").read() for n in names}

    def plant(t, data):
        if t.state.iteration == 4:
            os.makedirs(os.path.join(run, "ckpts"), exist_ok=True)
            for n in names:
                shutil.copy(os.path.join(source, n), os.path.join(run, "ckpts", n))

    t = T.make(run, hooks={"after": plant}, **options, save_interval=2)
    failed = None
    try:
        T.run(t)
    except Exception as exc:
        failed = exc
    now = {n: open(os.path.join(run, "ckpts", n), "rb").read() for n in names
           if os.path.exists(os.path.join(run, "ckpts", n))}
    ctx.equal({n: hash(d) for n, d in now.items()}, {n: hash(d) for n, d in before.items()},
              "an existing checkpoint was changed or removed")
    if what == "other":
        ctx.check(failed is not None, "a different checkpoint of the same step was accepted")
    ctx.tag(f"{what} {'refused' if failed else 'kept'}")
    ctx.trace()
    ctx.state(kind, what, vq)
