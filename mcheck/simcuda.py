"""A simulated accelerator and host threads under one scheduler: stream operations are executed, and threads run, only
when the tape chooses them, so that every interleaving of host threads and asynchronous device work can be explored."""
import contextlib
import threading

import torch

HANG = 60.0


class Deadlock(Exception):
    pass


class Killed(BaseException):
    pass


class Host:
    """A host thread as the scheduler sees it."""

    def __init__(self, name):
        self.name = name
        self.go = threading.Semaphore(0)
        self.ready = lambda: True
        self.finished = False


class Sim:
    def __init__(self, tape, preemptions=None):
        self.tape = tape
        self.streams = []
        self.hosts = [Host("trainer")]
        self.running = self.hosts[0]
        self.local = threading.local()
        self.lost = []
        self.error = None
        self.allocations = 0
        self.oom_at = None
        self.preemptions = preemptions
        self.backwards = False
        self.compute = Stream(self)
        self.log = []

    # scheduling
    def me(self):
        return getattr(self.local, "host", self.hosts[0])

    def point(self, ready=None):
        """A place where other threads and the device may make progress."""
        me = self.me()
        me.ready = ready or (lambda: True)
        self.pick(me)
        me.ready = lambda: True

    def pick(self, me):
        while True:
            if self.error is not None and me is not self.hosts[0]:
                raise Killed
            mine = [me] if not me.finished and me.ready() else []
            others = [h for h in self.hosts if h is not me and not h.finished and h.ready()]
            devices = [s for s in self.streams if s.executable()]
            if self.backwards:
                devices.reverse()
            options = mine + others + devices
            if not options:
                self.error = self.error or Deadlock("no thread and no device operation can go on")
                if me is self.hosts[0]:
                    raise self.error
                self.hosts[0].go.release()
                return
            if mine and self.preemptions is not None:
                if self.preemptions == 0:
                    return
            n = self.tape.choose(len(options)) if len(options) > 1 else 0
            chosen = options[n]
            if mine and n and self.preemptions is not None:
                self.preemptions -= 1
            if isinstance(chosen, Stream):
                chosen.execute()
                continue
            if chosen is me:
                return
            self.running = chosen
            chosen.go.release()
            if me.finished:
                return
            if not me.go.acquire(timeout=HANG):
                raise RuntimeError("harness: a controlled thread is blocked outside the scheduler")
            if self.error is not None:
                raise self.error if me is self.hosts[0] else Killed()
            if me.ready():
                return

    def stream_of(self):
        stack = getattr(self.local, "stack", None)
        return stack[-1] if stack else self.compute

    def kill(self):
        """Let the threads that are still alive end."""
        self.error = self.error or Killed()
        for h in self.hosts[1:]:
            while not h.finished:
                h.go.release()
                h.thread.join(0.05)

    def thread_class(self):
        sim = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.name, self.daemon = name or "thread", bool(daemon)
                self.host = Host(self.name)

            def run(self):
                self.target(*self.args, **self.kwargs)

            def _main(self):
                sim.local.host = self.host
                self.host.go.acquire()
                try:
                    if sim.error is None:
                        self.run()
                except Killed:
                    pass
                except BaseException as exc:
                    sim.lost.append(exc)
                self.host.finished = True
                if sim.error is None:
                    try:
                        sim.pick(self.host)
                    except BaseException:
                        pass

            def start(self):
                self.host.thread = threading_Thread(target=self._main, daemon=True)
                sim.hosts.append(self.host)
                self.host.thread.start()
                sim.point()

            def join(self, timeout=None):
                sim.point(lambda: self.host.finished)

            def is_alive(self):
                return not self.host.finished

        return Thread

    @contextlib.contextmanager
    def installed(self, module=None):
        """Put the simulated device and threads in place of torch.cuda and threading for one module."""
        sim = self
        real = module.threading if module else None

        class Namespace:
            Thread = sim.thread_class()

            def __getattr__(self, name):
                return getattr(real, name)

        saved = {k: getattr(torch.cuda, k) for k in ("Stream", "Event", "stream", "current_stream", "synchronize",
                                                     "default_stream")}
        torch.cuda.Stream = lambda *a, **k: Stream(sim)
        torch.cuda.Event = lambda *a, **k: Event(sim)
        torch.cuda.stream = sim.use
        torch.cuda.current_stream = lambda *a, **k: sim.stream_of()
        torch.cuda.default_stream = lambda *a, **k: sim.compute
        torch.cuda.synchronize = lambda *a, **k: [s.synchronize() for s in sim.streams]
        if module:
            module.threading = Namespace()
        try:
            yield
        finally:
            if module:
                module.threading = real
            for k, v in saved.items():
                setattr(torch.cuda, k, v)
            sim.kill()

    @contextlib.contextmanager
    def use(self, stream):
        stack = self.local.__dict__.setdefault("stack", [])
        stack.append(stream if stream is not None else self.stream_of())
        try:
            yield
        finally:
            stack.pop()

    def tensor(self, value):
        t = torch.Tensor._make_subclass(DevTensor, torch.zeros(1))
        t.sim, t.cell = self, [value]
        return t

    def allocate(self):
        self.allocations += 1
        if self.oom_at is not None and self.allocations == self.oom_at:
            raise torch.cuda.OutOfMemoryError("CUDA out of memory (simulated)")
        return self.tensor("uninitialised")


threading_Thread = threading.Thread


class Stream:
    """An in-order queue. One step executes the data operations up to the next ordering operation, and then every
    ordering operation that can complete: completing those early only ever allows more interleavings."""

    def __init__(self, sim):
        self.sim = sim
        self.queue = []  # (readiness or None for a data operation, function)
        self.name = len(sim.streams)
        sim.streams.append(self)

    def executable(self):
        self.settle()
        return bool(self.queue) and self.queue[0][0] is None

    def settle(self):
        changed = True
        while changed:
            changed = False
            for s in self.sim.streams:
                while s.queue and s.queue[0][0] is not None and s.queue[0][0]():
                    s.queue.pop(0)[1]()
                    changed = True

    def execute(self):
        while self.queue and self.queue[0][0] is None:
            self.queue.pop(0)[1]()
        self.settle()

    def push(self, fn, ready=None):
        self.queue.append((ready, fn))

    def wait_event(self, event):
        number = event.recorded
        self.push(lambda: None, lambda: event.reached >= number)

    def wait_stream(self, other):
        e = Event(self.sim)
        e.record(other)
        self.wait_event(e)

    def record_event(self, event=None):
        event = event or Event(self.sim)
        event.record(self)
        return event

    def synchronize(self):
        self.record_event().synchronize()

    def query(self):
        self.settle()
        return not self.queue


class Event:
    def __init__(self, sim):
        self.sim = sim
        self.recorded = 0
        self.reached = 0

    def record(self, stream=None):
        self.recorded += 1
        number = self.recorded
        (stream or self.sim.stream_of()).push(lambda: setattr(self, "reached", number), lambda: True)

    def synchronize(self):
        number = self.recorded
        self.sim.compute.settle()
        if self.reached < number:
            self.sim.point(lambda: self.reached >= number)

    def wait(self, stream=None):
        (stream or self.sim.stream_of()).wait_event(self)

    def query(self):
        self.sim.compute.settle()
        return self.reached >= self.recorded

    def elapsed_time(self, other):
        if not (self.query() and other.query()):
            raise RuntimeError("simulated device: elapsed_time of an event that was not reached")
        return 1.0


class DevTensor(torch.Tensor):
    """A tensor whose contents exist only on the simulated device."""

    device = property(lambda self: torch.device("cuda", 0))
    is_cuda = property(lambda self: True)
    uses = None

    def record_stream(self, stream):
        if self.uses is not None:
            self.uses.append(stream)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", str(func))
        t = next(a for a in args if isinstance(a, DevTensor))
        sim = t.sim
        if name in ("empty_like", "zeros_like", "new_empty"):
            return sim.allocate()
        if name in ("detach", "contiguous", "view_as", "requires_grad_"):
            return t
        if name in ("clone", "__deepcopy__"):
            new = sim.allocate()
            sim.stream_of().push(lambda: new.cell.__setitem__(0, t.cell[0]))
            return new
        if name == "copy_":
            src = args[1]
            if isinstance(src, DevTensor):
                sim.stream_of().push(lambda: t.cell.__setitem__(0, src.cell[0]))
            return t
        if name == "record_stream":
            return None
        if name == "add_":
            sim.stream_of().push(lambda: t.cell.__setitem__(0, t.cell[0] + args[1]))
            return t
        if name in ("cpu", "to", "item", "tolist", "numpy"):
            return t.fetch()
        if name in ("__repr__", "__format__", "__str__"):
            return "DevTensor"
        raise NotImplementedError(f"simulated device: {name}")

    def fetch(self):
        """Blocking copy to the host, ordered on the calling thread's current stream."""
        got = []
        stream = self.sim.stream_of()
        stream.push(lambda: got.append(self.cell[0]))
        while not got:
            if stream.executable():
                stream.execute()
            else:
                self.sim.point(lambda: bool(got) or stream.executable())
        return got[0]
