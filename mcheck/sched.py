"""Deterministic enumeration of scheduling choices, and a thread pool whose jobs run when the scheduler says so."""
import concurrent.futures
import concurrent.futures.thread
import sys

_REAL = concurrent.futures.ThreadPoolExecutor


class Tape:
    """Depth-first enumeration of choice sequences: replay the recorded prefix, then take option 0."""

    def __init__(self, bound=None):
        self.prefix = []
        self.used = []
        self.bound = bound

    def choose(self, n):
        i = len(self.used)
        value = self.prefix[i] if i < len(self.prefix) else 0
        self.used.append((value, n))
        return value

    def advance(self):
        """Move to the next unexplored sequence; False when all were explored."""
        used = self.used
        while used and used[-1][0] + 1 >= used[-1][1]:
            used.pop()
        if not used:
            return False
        self.prefix = [v for v, _ in used[:-1]] + [used[-1][0] + 1]
        self.used = []
        return True


class First:
    """No exploration: always the first option (used after the explored part of a scenario)."""

    @staticmethod
    def choose(n):
        return 0


class Future:
    def __init__(self, pool, fn, args, kwargs):
        self.pool, self.fn, self.args, self.kwargs = pool, fn, args, kwargs
        self.finished = False
        self.was_cancelled = False
        self.value = None
        self.error = None
        self.callbacks = []

    def run(self):
        try:
            self.value = self.fn(*self.args, **self.kwargs)
        except BaseException as exc:
            self.error = exc
        self.finished = True
        for cb in self.callbacks:
            cb(self)

    def done(self):
        return self.finished or self.was_cancelled

    def cancelled(self):
        return self.was_cancelled

    def running(self):
        return False

    def cancel(self):
        # a job that already occupies a worker cannot be cancelled
        if self.finished or self in self.pool.window():
            return False
        self.was_cancelled = True
        return True

    def add_done_callback(self, fn):
        if self.done():
            fn(self)
        else:
            self.callbacks.append(fn)

    def result(self, timeout=None):
        while not self.done():
            self.pool.run_one()
        if self.was_cancelled:
            raise concurrent.futures.CancelledError()
        if self.error is not None:
            raise self.error
        return self.value

    def exception(self, timeout=None):
        while not self.done():
            self.pool.run_one()
        return self.error


class Pool:
    """Stand-in for ThreadPoolExecutor: jobs start in submission order, at most max_workers at a time, and the
    tape decides which started job finishes next and whether one finishes before the submitter goes on."""

    tape = None
    pools = []
    on_submit = None
    eager = True

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.max_workers = max_workers or 4
        self.jobs = []
        self.closed = False
        self.order = []
        if initializer:
            initializer(*initargs)
        Pool.pools.append(self)

    def window(self):
        return [j for j in self.jobs if not j.done()][: self.max_workers]

    def run_one(self):
        window = self.window()
        job = window[Pool.tape.choose(len(window))] if len(window) > 1 else window[0]
        self.order.append(self.jobs.index(job))
        job.run()

    def point(self):
        """Let any number of started jobs finish now."""
        while True:
            window = self.window()
            if not window:
                return
            pick = Pool.tape.choose(len(window) + 1)
            if pick == 0:
                return
            job = window[pick - 1]
            self.order.append(self.jobs.index(job))
            job.run()

    def submit(self, fn, /, *args, **kwargs):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        job = Future(self, fn, args, kwargs)
        self.jobs.append(job)
        if Pool.on_submit:
            Pool.on_submit(self, job)
        if Pool.eager:
            self.point()
        return job

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futures = [self.submit(fn, *args) for args in zip(*iterables)]

        def results():
            for f in futures:
                yield f.result()

        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for job in self.jobs:
                job.cancel()
        if wait:
            while self.window():
                self.run_one()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.shutdown(wait=True)
        return False


class controlled:
    """Replace ThreadPoolExecutor wherever the code under test refers to it."""

    def __enter__(self):
        self.saved = []
        for name, module in list(sys.modules.items()):
            if module is None or not (name.split(".")[0] in ("dataset", "utils", "trainer", "concurrent")):
                continue
            for attr, value in list(vars(module).items()):
                if value is _REAL:
                    self.saved.append((module, attr))
                    setattr(module, attr, Pool)
        Pool.pools = []
        return Pool

    def __exit__(self, *exc):
        for module, attr in self.saved:
            setattr(module, attr, _REAL)
        return False

