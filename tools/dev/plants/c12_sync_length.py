edits = [["dataset/composite_source.py",
'''            "schedule": list(self.schedule),
            "sync_length": self.sync_length,
''',
'''            "schedule": list(self.schedule),
''']]
needs = "a mixture resumed from a state that was saved under the other sync_length setting"
breaks = "the state is accepted, although the stream it continues differs from the one it was saved from"
demo = '''
import os
import sys

from helper import commit, dataset, epoch, ids, processed, scratch, stream

with scratch() as d:
    a = processed(os.path.join(d, "a.npz"), range(0, 9))
    b = processed(os.path.join(d, "b.npz"), range(100, 102))
    kind = "iterative_processed_katago_numpy"

    def make(sync):
        return dataset("iterative_multi", [], batch=2, mode="train", shuffle=True, sync_length=sync, dataset_dict={
            "first": {"dataset_type": kind, "data_paths": [a], "blend_ratio": 1},
            "second": {"dataset_type": kind, "data_paths": [b], "blend_ratio": 1}}, boardsizes=[(5, 5)])

    for saved, other in ((True, False), (False, True)):
        first = make(saved)
        epoch(first, limit=1)
        state = stream(first).state_dict()
        again = make(saved)
        stream(again).load_state_dict(state)
        second = make(other)
        try:
            stream(second).load_state_dict(state)
            list(second)
        except (RuntimeError, ValueError):
            continue
        print("state accepted under another sync_length", saved, other)
        sys.exit(1)
'''
