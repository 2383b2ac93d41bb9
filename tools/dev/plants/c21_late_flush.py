edits = [["utils/async_checkpoint.py",
'''        self.flush()
        if (
            self._disabled
            or self._copy_stream is None
            or os.environ.get("NNUE_SYNC_CHECKPOINT")
        ):
            for obj''',
'''        if (
            self._disabled
            or self._copy_stream is None
            or os.environ.get("NNUE_SYNC_CHECKPOINT")
        ):
            self.flush()
            for obj'''],
["utils/async_checkpoint.py",
'''        compute_stream.wait_event(snapshot_done)

        thread =''',
'''        compute_stream.wait_event(snapshot_done)

        # The previous save may keep writing while this snapshot is staged.
        self.flush()
        thread =''']]
needs = "a save whose snapshot runs out of device memory while the previous save is still being written (or has failed)"
breaks = "the fallback writes the newer files and prunes while the older save is still in flight, and an earlier failure is not reported"
demo = '''
import contextlib
import sys
import threading
import types

import helper
import torch
from utils import async_checkpoint as ac


class Stream:
    def __init__(self, *a):
        pass

    def wait_stream(self, s):
        pass

    def wait_event(self, e):
        pass

    def synchronize(self):
        pass


class Event:
    def record(self, s):
        pass

    def synchronize(self):
        pass


class Big(torch.Tensor):
    """A tensor whose snapshot does not fit on the device."""

    def clone(self, *a, **k):
        raise torch.cuda.OutOfMemoryError("no room")


torch.cuda.Stream, torch.cuda.Event = Stream, Event
torch.cuda.stream = lambda s: contextlib.nullcontext()
torch.cuda.current_stream = lambda *a: Stream()

writer = ac.AsyncCheckpointWriter(torch.device("cuda"))
log = []
gate = threading.Event()


def slow(obj):
    gate.wait(3)
    log.append("first")


writer.submit([({"w": torch.zeros(2)}, slow)])
threading.Timer(1, gate.set).start()
writer.submit([({"w": torch.zeros(2).as_subclass(Big)}, lambda obj: log.append("second"))])
writer.flush()
if log != ["first", "second"]:
    print("files were written in the order", log)
    sys.exit(1)
'''
