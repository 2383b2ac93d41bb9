edits = [["dataset/composite_source.py",
'''                cursor.terminal = True
                return False
            completed_cycles = cycle_count

''',
'''                cursor.terminal = True
                return False
            completed_cycles = max(
                1,
                max(
                    len(envelopes) // weight
                    for envelopes, weight in zip(child_envelopes, self.weights)
                ),
            )

''']]
needs = "a mixture without sync_length, read in chunks of several cycles, whose longest child ends inside a cycle"
breaks = "the records of the last incomplete cycle are read from the child and never delivered"
demo = '''
import os
import sys

from helper import dataset, epoch, ids, processed, scratch

bad = []
with scratch() as d:
    for longest in range(4, 10):
        a = processed(os.path.join(d, f"a{longest}.npz"), range(0, longest))
        b = processed(os.path.join(d, f"b{longest}.npz"), range(100, 102))
        kind = "iterative_processed_katago_numpy"
        ds = dataset("iterative_multi", [], batch=1, mode="validate", shuffle=False, sync_length=False, dataset_dict={
            "first": {"dataset_type": kind, "data_paths": [a], "blend_ratio": 2},
            "second": {"dataset_type": kind, "data_paths": [b], "blend_ratio": 1}}, boardsizes=[(5, 5)])
        got = sorted(i for env in epoch(ds, "validate") for i in ids(env))
        want = list(range(longest)) + [100, 101]
        if got != want:
            bad.append((longest, sorted(set(want) - set(got))))
if bad:
    print("lost", bad)
    sys.exit(1)
'''
