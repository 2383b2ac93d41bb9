"""Exploration bookkeeping: scenarios, states, violations, replays, evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

from . import env

LIMIT_SAMPLES = 6


class Violation(Exception):
    def __init__(self, message, **info):
        super().__init__(message)
        self.info = info


def _jsonable(value):
    try:
        json.dumps(value)
        return value
    except (TypeError, ValueError):
        return repr(value)


class Ctx:
    """Counters of one scenario; merged by the runner."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.tags = {}
        self.known = []
        self._dirs = []
        self.scenario = None

    # --- counting -------------------------------------------------------
    def state(self, *key):
        digest = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = digest not in self.states
        self.states.add(digest)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """One complete execution of the real code compared against the model."""
        self.traces += n

    def sample(self, value):
        if len(self.samples) < LIMIT_SAMPLES:
            self.samples.append(_jsonable(value))

    def tag(self, name, n=1):
        """Count a distinct kind of outcome (shows that the exploration is not vacuous)."""
        self.tags[name] = self.tags.get(name, 0) + n

    # --- judging --------------------------------------------------------
    def check(self, ok, message, **info):
        if not ok:
            raise Violation(message, **info)

    def equal(self, actual, expected, message, **info):
        if actual != expected:
            raise Violation(message, expected=repr(expected)[:2000], actual=repr(actual)[:2000], **info)

    def raises(self, fn, message, kinds=(Exception,), **info):
        try:
            fn()
        except kinds:
            return
        raise Violation(message, **info)

    # --- scratch --------------------------------------------------------
    def mkdir(self, name="d"):
        """A directory whose path is the same in every run of this scenario (record keys depend on paths)."""
        label = hashlib.blake2b(json.dumps(self.scenario, default=repr).encode(), digest_size=6).hexdigest()
        for n in range(len(self._dirs), 100000):
            path = os.path.join(env.scratch_root(), f"{label}-{name}{n}")
            try:
                os.mkdir(path)
            except FileExistsError:
                continue
            self._dirs.append(path)
            return path
        raise RuntimeError("no scratch directory is free")


def known_findings():
    """Entries of the committed known-findings file: (property, key) -> description."""
    out = {}
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            m = re.match(r"property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


_MODULE = None


def _run_one(args):
    name, params, tier, seed = args
    ctx = Ctx(tier, seed)
    ctx.scenario = [name, params]
    start = time.time()
    violation = None
    try:
        getattr(_MODULE, name)(ctx, **params)
    except Violation as exc:
        violation = {
            "message": str(exc),
            "info": {k: _jsonable(v) for k, v in exc.info.items()},
            "trace": traceback.format_exc()[-3000:],
        }
    except BaseException as exc:  # an exception out of the code under test
        if isinstance(exc, (KeyboardInterrupt, SystemExit)) and "/repo/" not in traceback.format_exc():
            raise
        violation = {
            "message": f"unexpected {type(exc).__name__}: {exc}",
            "info": {},
            "trace": traceback.format_exc()[-6000:],
            "unexpected": True,
        }
    for path in ctx._dirs:
        shutil.rmtree(path, ignore_errors=True)
    return {
        "scenario": [name, params],
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "samples": ctx.samples,
        "tags": ctx.tags,
        "known": ctx.known,
        "violation": violation,
        "wall": time.time() - start,
    }


SCENARIO_LIMIT = 420.0  # seconds; scenarios are sized to take a small fraction of it


def _worker(conn):
    while True:
        try:
            item = conn.recv()
        except EOFError:
            break
        if item is None:
            break
        conn.send(_run_one(item))
    conn.close()
    os._exit(0)


def _lost(work, message):
    return {
        "scenario": [work[0], work[1]], "states": set(), "transitions": 0, "traces": 0, "samples": [],
        "tags": {}, "known": [], "wall": 0.0,
        "violation": {"message": message, "info": {}, "trace": ""},
    }


def _dispatch(work, jobs, tasks_per_child):
    """Run scenarios on forked workers; a crashed or hung worker is a result, not a hang of the check."""
    from multiprocessing.connection import wait

    mp = multiprocessing.get_context("fork")
    limit = getattr(_MODULE, "SCENARIO_LIMIT", SCENARIO_LIMIT)
    pending = list(reversed(work))
    results = []
    live = {}  # connection -> [process, current work, started, served]
    bad = 0

    def start():
        parent, child = mp.Pipe()
        process = mp.Process(target=_child_main, args=(child, parent), daemon=False)
        process.start()
        child.close()
        live[parent] = [process, None, 0.0, 0]
        return parent

    def give(conn):
        if not pending or bad >= 4:
            try:
                conn.send(None)
            except OSError:
                pass
            process = live.pop(conn)[0]
            conn.close()
            process.join(20)
            if process.is_alive():
                process.kill()
                process.join()
            return
        slot = live[conn]
        slot[1], slot[2] = pending.pop(), time.time()
        conn.send(slot[1])

    def retire(conn, kill=False):
        process = live.pop(conn)[0]
        if kill:
            process.kill()
        process.join(20)
        conn.close()
        return process.exitcode

    for _ in range(max(1, jobs)):
        give(start())
    while live:
        for conn in wait(list(live), timeout=1.0):
            slot = live[conn]
            try:
                result = conn.recv()
            except (EOFError, OSError):
                current = slot[1]
                code = retire(conn)
                bad += 1
                results.append(_lost(current, f"the process running the scenario died (exit status {code})"))
                if pending and bad < 4:
                    give(start())
                continue
            results.append(result)
            if result["violation"]:
                bad += 1
            slot[3] += 1
            if tasks_per_child and slot[3] >= tasks_per_child and pending:
                conn.send(None)
                retire(conn)
                give(start())
            else:
                give(conn)
        for conn, slot in list(live.items()):
            if slot[1] is not None and time.time() - slot[2] > limit:
                current = slot[1]
                retire(conn, kill=True)
                bad = 4
                results.append(_lost(current, f"the scenario did not terminate within {limit:.0f} s"))
    return results


def _child_main(child, parent):
    parent.close()
    import faulthandler

    faulthandler.enable()
    _worker(child)


def _harness_error(trace):
    """True if the exception arose in harness code itself rather than below /repo code."""
    frames = re.findall(r'File "([^"]+)", line \d+', trace)
    return not any(f.startswith(env.REPO + "/") for f in frames)


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only scenarios whose JSON contains this text")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--times", action="store_true")
    args = ap.parse_args(argv)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    pid = args.property
    t0 = time.time()
    global _MODULE
    _MODULE = importlib.import_module(f"mcheck.checks.{pid.lower()}")
    scenarios = [(n, p) for n, p in _MODULE.scenarios(args.tier)]
    if args.replay:
        wanted = json.load(open(args.replay))["scenario"]
        scenarios = [(wanted[0], wanted[1])]
    if args.only:
        scenarios = [s for s in scenarios if args.only in json.dumps(s)]
    work = [(n, p, args.tier, seed) for n, p in scenarios]
    prepare = getattr(_MODULE, "prepare", None)
    if prepare:
        prepare(args.tier)
    env.scratch_root()
    for name in getattr(_MODULE, "PRELOAD", ("torch", "dataset")):
        importlib.import_module(name)
    results = []
    jobs = max(1, min(args.jobs, len(work))) if getattr(_MODULE, "PARALLEL", True) else 1
    if jobs > 1 or getattr(_MODULE, "ISOLATE", True):
        results = _dispatch(work, jobs, getattr(_MODULE, "TASKS_PER_CHILD", None))
    else:
        for w in work:
            results.append(_run_one(w))
    order = {json.dumps([n, p]): i for i, (n, p) in enumerate(scenarios)}
    results.sort(key=lambda r: order[json.dumps(r["scenario"])])
    if args.times:
        for r in sorted(results, key=lambda r: -r["wall"])[:25]:
            print(f"  {r['wall']:7.2f}s {json.dumps(r['scenario'])[:150]} tr={r['transitions']}")

    states = set()
    tags = {}
    samples = []
    known = known_findings()
    known_hit = {}
    violations = []
    harness_errors = []
    for r in results:
        states |= r["states"]
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        if len(samples) < LIMIT_SAMPLES and r["samples"]:
            samples.append({"scenario": r["scenario"], "cases": r["samples"][:2]})
        for key, what in r["known"]:
            known_hit.setdefault(key, what)
        if r["violation"]:
            if r["violation"].get("unexpected") and _harness_error(r["violation"]["trace"]):
                harness_errors.append(r)
            else:
                violations.append(r)
    # known findings are recorded by the check with their key; anything not listed is a violation
    for key, what in sorted(known_hit.items()):
        if (pid, key) in known:
            print(f"KNOWN-FINDING: property={pid} {key}: {known[(pid, key)]}")
        else:
            violations.append({"scenario": ["known", {"key": key}],
                               "violation": {"message": f"unlisted finding {key}: {what}", "info": {}, "trace": ""}})
    transitions = sum(r["transitions"] for r in results)
    traces = sum(r["traces"] for r in results)
    level = getattr(_MODULE, "LEVEL", "model_checking")
    coverage = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "samples": samples or [s for s in scenarios[:2]],
        "scenarios": len(scenarios),
        "outcomes": tags,
        "exhaustive": len(results) == len(work) and not args.only and not args.replay,
        "rule": getattr(_MODULE, "RULE", (_MODULE.__doc__ or "").strip()),
    }
    if level in ("exploration", "fault_enumeration"):
        coverage["evaluations"] = traces
        coverage["distinct_nontrivial"] = len(states)
    evidence = {
        "property": pid,
        "tier": args.tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": getattr(_MODULE, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    evdir = os.path.join(env.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not args.only and not args.replay:
        with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
    print(
        f"{pid} tier={args.tier} scenarios={len(scenarios)} states={len(states)} transitions={transitions} "
        f"traces={traces} outcomes={tags} wall={time.time()-t0:.1f}s"
    )
    for r in harness_errors[:3]:
        print(f"HARNESS-ERROR in {json.dumps(r['scenario'])}: {r['violation']['message']}\n{r['violation']['trace']}")
    if violations:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, r in enumerate(violations[:5]):
            path = os.path.join(rdir, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": pid, "scenario": r["scenario"], **r["violation"],
                     "how": f"python3 run.py {pid} --replay {path}"},
                    f, indent=1, default=repr,
                )
            print(f"  {r['violation']['message'][:600]}")
            if r["violation"].get("info"):
                print("   ", json.dumps(r["violation"]["info"], default=repr)[:1200])
            if r["violation"].get("unexpected"):
                print("   ", r["violation"]["trace"][-1200:])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if harness_errors:
        return 2
    return 0
