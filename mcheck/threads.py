"""Locks, conditions and events for simulated threads (see simcuda.Sim), and the module namespace that hands them out."""
import contextlib
import sys
import threading as real

from .simcuda import Sim


def namespace(sim):
    class Lock:
        def __init__(self):
            self.owner = None
            self.depth = 0

        def acquire(self, blocking=True, timeout=-1):
            me = sim.me()
            if self.owner is me and self.reentrant:
                self.depth += 1
                return True
            if not blocking or timeout == 0:
                sim.point()
                if self.owner is not None:
                    return False
            else:
                sim.point(lambda: self.owner is None)
            self.owner, self.depth = me, 1
            return True

        reentrant = False

        def release(self):
            if self.owner is None:
                raise RuntimeError("release unlocked lock")
            self.depth -= 1
            if self.depth == 0:
                self.owner = None
                sim.point()

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *exc):
            self.release()

    class RLock(Lock):
        reentrant = True

    class Condition:
        def __init__(self, lock=None):
            self.lock = lock or RLock()
            self.waiting = []
            self.acquire, self.release = self.lock.acquire, self.lock.release

        def __enter__(self):
            return self.lock.acquire()

        def __exit__(self, *exc):
            self.lock.release()

        def wait(self, timeout=None):
            me, depth = sim.me(), self.lock.depth
            if self.lock.owner is not me:
                raise RuntimeError("cannot wait on un-acquired lock")
            self.waiting.append(me)
            self.lock.owner, self.lock.depth = None, 0
            sim.point(lambda: (me not in self.waiting or timeout is not None) and self.lock.owner is None)
            woken = me not in self.waiting
            if not woken:
                self.waiting.remove(me)
            self.lock.owner, self.lock.depth = me, depth
            return woken

        def wait_for(self, predicate, timeout=None):
            while not predicate():
                if not self.wait(timeout) and timeout is not None:
                    break
            return predicate()

        def notify(self, n=1):
            if self.lock.owner is not sim.me():
                raise RuntimeError("cannot notify on un-acquired lock")
            del self.waiting[:n]

        def notify_all(self):
            self.notify(len(self.waiting))

    class Event:
        def __init__(self):
            self.flag = False

        def is_set(self):
            return self.flag

        def set(self):
            self.flag = True
            sim.point()

        def clear(self):
            self.flag = False

        def wait(self, timeout=None):
            sim.point(lambda: self.flag or timeout is not None)
            return self.flag

    class Namespace:
        Thread = sim.thread_class()

        def __getattr__(self, name):
            return getattr(real, name)

    ns = Namespace()
    ns.Lock, ns.RLock, ns.Condition, ns.Event = Lock, RLock, Condition, Event
    return ns


@contextlib.contextmanager
def installed(sim, *modules):
    """Simulated threads and locks for these modules."""
    ns = namespace(sim)
    fakes = {id(real): ns}
    for name in ("Thread", "Lock", "RLock", "Condition", "Event"):
        fakes[id(getattr(real, name))] = getattr(ns, name)
    saved = [(m, name, value) for m in modules for name, value in vars(m).items() if id(value) in fakes]
    for m, name, value in saved:
        setattr(m, name, fakes[id(value)])
    try:
        yield ns
    finally:
        for m, name, value in saved:
            setattr(m, name, value)
        sim.kill()


@contextlib.contextmanager
def yielding(sim, *functions):
    """A scheduling point before each call of (owner, name)."""
    saved = []
    for owner, name in functions:
        fn = getattr(owner, name)
        saved.append((owner, name, fn))

        def wrapped(*a, _fn=fn, **k):
            sim.point()
            return _fn(*a, **k)

        setattr(owner, name, wrapped)
    try:
        yield
    finally:
        for owner, name, fn in saved:
            setattr(owner, name, fn)


def line_tracer(sim, filename):
    """A trace function that makes every line of one file a scheduling point."""

    def local(frame, event, arg):
        if event == "line":
            sim.point()
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename == filename else None

    return trace


__all__ = ["Sim", "namespace", "installed", "yielding", "line_tracer"]
