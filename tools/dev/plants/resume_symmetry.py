edits = [["utils/training_utils.py",
'''                setattr(target, "_active_epoch", self._yield_epoch)
''',
'''                setattr(target, "_active_epoch", self.epoch)
''']]
needs = "a map-style dataset with apply_symmetry, trained into its second epoch and resumed from a state saved there"
breaks = ("the symmetry of a sample is keyed by the committed instead of the delivered epoch: an uninterrupted run keys the "
          "second epoch with the first, a run resumed inside it does not, so they see different data")
checks = ["C22", "C28", "C13"]
demo = '''
import os
import shutil
import sys

from helper import processed, run, scratch, trainer, weights

with scratch() as d:
    data = processed(os.path.join(d, "a.npz"), range(13), (5, 5))
    opts = dict(dataset_type="processed_katago_numpy", train_datas=[data], dataset_args={"apply_symmetry": True, "boardsizes": [(5, 5)]},
                save_interval=1, num_keep_states=-1, iterations=7)
    whole = trainer(os.path.join(d, "run"), **opts)
    run(whole)
    os.remove(os.path.join(d, "run", "ckpts", "state_0000007.pt"))
    os.remove(os.path.join(d, "run", "ckpts", "state_0000006.pt"))
    again = trainer(os.path.join(d, "run"), **opts)
    assert again.state.iteration == 5, again.state.iteration
    assert again.state.epoch == 1, again.state.epoch
    run(again)
    if weights(whole) != weights(again):
        print("the resumed run ends with other weights")
        sys.exit(1)
'''
