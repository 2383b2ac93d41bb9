edits = [["dataset/decoder.py",
'''            while canonical in self._array_cache_loading:
                self._array_cache_condition.wait()
''',
'''            if canonical in self._array_cache_loading:
                self._array_cache_condition.wait()
''']]
needs = "three threads asking for one file while the first read of it fails: both waiters wake up and load it at once"
breaks = "the second of the two loaders fails on the bookkeeping of the first (KeyError) although its read succeeded"
demo = '''
import os
import sys
import threading
import time
import types
import zipfile

from helper import processed, scratch

from dataset.core import DatasetRuntimeContext
from dataset.decoder import ProcessedNpzDecoder

bad = []
real = zipfile.ZipFile.__init__
with scratch() as d:
    path = processed(os.path.join(d, "a.npz"), range(6), (5, 5))
    for attempt in range(5):
        decoder = ProcessedNpzDecoder(boardsizes={(5, 5)}, runtime_context=None)
        calls = []

        def opened(self, *a, **k):
            calls.append(1)
            first = len(calls) == 1
            time.sleep(0.4)
            if first:
                raise OSError("first read fails")
            return real(self, *a, **k)

        zipfile.ZipFile.__init__ = opened

        def read():
            ref = types.SimpleNamespace(path=path, address=(0,), board_size=(5, 5), sample_key=())
            try:
                decoder.decode_one(ref)
            except (RuntimeError, OSError):
                pass
            except BaseException as exc:
                bad.append(repr(exc))

        threads = [threading.Thread(target=read) for _ in range(3)]
        for t in threads:
            t.start()
            time.sleep(0.05)
        for t in threads:
            t.join()
if bad:
    print(bad)
    sys.exit(1)
'''
