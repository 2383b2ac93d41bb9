edits = [["utils/training_utils.py",
'''        self._yield_epoch = self.epoch
        self._yielded_offset = self.offset
        self._staged_epoch = self.epoch
        self._staged_offset = self.offset

    def state_dict(self):
''',
'''        self._yield_epoch = self.epoch
        self._yielded_offset = self.offset
        if self._staged_epoch == self.epoch:
            self._staged_offset = self.offset
        else:
            self._staged_epoch, self._staged_offset = self.epoch, 0

    def state_dict(self):
''']]
needs = "batches staged beyond the end of an epoch, then rolled back to a position inside the epoch before"
breaks = "after the rollback the replayed batches are staged from the start of the epoch, so their tokens cannot be committed"
demo = '''
import sys

import helper
from utils.training_utils import ResumableSampler

bad = []
for done in range(1, 6):
    s = ResumableSampler(list(range(6)), shuffle=True, seed=3)

    def read(count):
        out = []
        while len(out) < count:
            for index in s:
                out.append(index)
                if len(out) == count:
                    break
            else:
                s.advance_yield_epoch()
        return out

    for _ in range(done):
        read(1)
        s.commit_prepared(s.prepare_commit([s.stage_batch(1)]))
    read(6 - done)
    s.stage_batch(6 - done)
    s.advance_yield_epoch()
    ahead = read(2)
    s.stage_batch(2)
    s.rollback_uncommitted()
    try:
        for _ in range(6 - done):
            read(1)
            s.commit_prepared(s.prepare_commit([s.stage_batch(1)]))
        s.advance_yield_epoch()
        if read(2) != ahead:
            bad.append((done, "order"))
    except RuntimeError as exc:
        bad.append((done, str(exc)))
if bad:
    print(bad)
    sys.exit(1)
'''
