edits = [["trainer/metric/supervised.py",
'''            "global_batch", overlap.float(), int(k * len(policy))
''',
'''            "global_batch", overlap.float(), int(k * batch_size)
''']]
needs = "an evaluation batch that ends in padding rows"
breaks = "top2/top3 move accuracy counts the padding rows in its denominator"
demo = '''
import sys

import torch

import helper
from trainer.metric.supervised import compute_supervised_metric_statistics

g = torch.Generator().manual_seed(3)
data = {"value_target": torch.rand((3, 3), generator=g), "policy_target": torch.rand((3, 4, 4), generator=g)}
results = {"value": torch.randn((3, 3), generator=g), "policy": torch.randn((3, 4, 4), generator=g)}


def ratio(data, results, name):
    stat = compute_supervised_metric_statistics(data, results)[name]
    return float(stat.sum) / float(stat.count)


bad = []
padded = {k: torch.cat([v, v[:2]]) for k, v in data.items()}
padded["is_real"] = torch.tensor([True] * 3 + [False] * 2)
more = {k: torch.cat([v, v[:2]]) for k, v in results.items()}
for name in ("bestmove_acc", "top2move_acc", "top3move_acc"):
    a, b = ratio(data, results, name), ratio(padded, more, name)
    if abs(a - b) > 1e-6:
        bad.append((name, a, b))
if bad:
    print(bad)
    sys.exit(1)
'''
