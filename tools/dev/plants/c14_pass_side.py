edits = [["dataset/packed_binary.py",
'''            if not bestmove.is_pass:
                current_board_input[max(current_stm_input, 0), bestmove.y, bestmove.x] = 1
            current_stm_input = -current_stm_input
''',
'''            if bestmove.is_pass:
                continue
            current_board_input[max(current_stm_input, 0), bestmove.y, bestmove.x] = 1
            current_stm_input = -current_stm_input
''']]
needs = "a packed game in which a pass is followed by further recorded positions"
breaks = "the positions after a pass are delivered for the wrong side: stm_input and the two stone planes are swapped"
demo = '''
import os
import struct
import sys

import numpy as np
from helper import dataset, epoch, scratch

size, moves = 5, [(0, 1), None, (2, 3), (4, 0)]
blob = (size | (1 << 8) | (len(moves) << 12)).to_bytes(4, "little") + (len(moves) << 14).to_bytes(4, "little")
for m in moves:
    bits = 3 | (8 if m is None else ((m[0] << 5) | m[1]) << 6)
    blob += bits.to_bytes(2, "little") + struct.pack("<h", 10)
bad = []
with scratch() as d:
    path = os.path.join(d, "a.binpack")
    with open(path, "wb") as f:
        f.write(blob)
    ds = dataset("packed_binary", [path], batch=1, mode="validate", shuffle=False, boardsizes=[(5, 5)],
                 rules=["freestyle"], has_pass_move=True)
    rows = [env.data for env in epoch(ds, "validate")]
    for k, row in enumerate(rows):
        side = 1 if k % 2 else -1
        board = np.zeros((2, size, size))
        for j, m in enumerate(moves[:k]):
            if m is not None:
                board[0 if j % 2 == k % 2 else 1, m[1], m[0]] = 1
        if float(np.asarray(row["stm_input"]).reshape(-1)[0]) != side:
            bad.append((k, "side to move"))
        if not np.array_equal(np.asarray(row["board_input"])[0], board):
            bad.append((k, "planes"))
if bad or len(rows) != 4:
    print(len(rows), bad)
    sys.exit(1)
'''
