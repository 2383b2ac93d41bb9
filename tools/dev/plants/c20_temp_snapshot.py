edits = [["trainer/base.py",
'''            if iteration == latest_iter:
                continue
            if iteration in kept_state_iters:
                continue
''',
'''            if iteration == latest_iter:
                continue
            if iteration in kept_state_iters and iteration % self.save_interval == 0:
                continue
''']]
needs = "a state saved at an iteration whose model files are temporary snapshots, followed by a model snapshot without a state"
breaks = "the model files of the retained state are pruned, so the run cannot be resumed from it"
demo = '''
import os
import sys

from helper import processed, run, scratch, trainer, weights

with scratch() as d:
    data = processed(os.path.join(d, "a.npz"), range(40), (5, 5))
    opts = dict(dataset_type="processed_katago_numpy", train_datas=[data], dataset_args={"boardsizes": [(5, 5)]},
                save_interval=100, temp_save_interval=2, state_save_interval=4)

    class Stop(BaseException):
        pass

    def after(t, data):
        if t.state.iteration == 7:
            os._exit(0)

    if os.fork() == 0:
        run(trainer(os.path.join(d, "run"), {"after": after}, iterations=20, **opts))
        os._exit(1)
    os.wait()
    try:
        again = trainer(os.path.join(d, "run"), iterations=20, **opts)
        run(again)
    except Exception as exc:
        print("cannot resume:", repr(exc)[:200], sorted(os.listdir(os.path.join(d, "run", "ckpts"))))
        sys.exit(1)
'''
