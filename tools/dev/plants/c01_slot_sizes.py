edits = [["dataset/shuffle.py",
'''        last_item = self._slots.pop()
        last_size = self._slot_sizes.pop()
        if index < len(self._slots):
            self._slots[index] = last_item
            self._slot_sizes[index] = last_size
''',
'''        last_item = self._slots.pop()
        last_size = self._slot_sizes.pop()
        if index < len(self._slots) and self._slots[index] is not last_item:
            self._slots[index] = last_item
            self._slot_sizes[index] = max(last_size, self._slot_sizes[index])
''']]
needs = "records of different sizes in a byte-limited shuffle window, with an eviction that moves a small record into the slot of a large one"
breaks = "the window's byte account drifts from what it really holds, so its bound no longer follows the records in it"
demo = '''
import itertools
import sys

import helper
from dataset.shuffle import StreamingShuffleReservoir

bad = 0
for sizes in itertools.product((1, 5), repeat=6):
    r = StreamingShuffleReservoir(4, seed=3, epoch=0, max_bytes=12)
    held = {}
    for k, size in enumerate(sizes):
        for out in r.offer(k, size_bytes=size):
            held.pop(out)
        held[k] = size
        if r.resident_bytes != sum(held.values()) or sum(r.state().slot_sizes) != sum(held.values()):
            bad += 1
if bad:
    print("wrong byte account in", bad, "steps")
    sys.exit(1)
'''
