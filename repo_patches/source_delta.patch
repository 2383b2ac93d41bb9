From 49631c404186f3d99f4c0db2250bee64947d7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 01/37] fix: accept board policies padded to fixed_board_size
 when collating

---
 dataset/core.py   | 6 +++---
 dataset/stream.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dataset/core.py b/dataset/core.py
index 1f1e5c3..ac663f3 100644
--- a/dataset/core.py
+++ b/dataset/core.py
@@ -1654,9 +1654,9 @@ class PipelineStateComposer:
                     raise ValueError(
                         f"{stage} field {spec.name!r} requires board_size"
                     )
-                spatial_policy = (
-                    len(shape) == 3
-                    and np.all(
+                spatial_policy = len(shape) == 3 and (
+                    tuple(shape[-2:]) == tuple(data["board_input"].shape[-2:])
+                    or np.all(
                         board_sizes
                         == np.asarray(shape[-2:], dtype=np.int64)[None, :]
                     )
diff --git a/dataset/stream.py b/dataset/stream.py
index 3910fcf..e8d98b6 100644
--- a/dataset/stream.py
+++ b/dataset/stream.py
@@ -182,10 +182,10 @@ def collate_sample_dicts(
                         int(item)
                         for item in np.asarray(samples[index]["board_size"])
                     )
-                    spatial = (
-                        array.ndim == 2
-                        and tuple(array.shape) == board_size
-                    )
+                    spatial = array.ndim == 2 and tuple(array.shape) in {
+                        board_size,
+                        tuple(np.asarray(samples[index]["board_input"]).shape[-2:]),
+                    }
                     flat = (
                         array.ndim == 1
                         and array.shape[0]
-- 
2.43.0


From 18468bf35c52219c7f7aafaf3ca5c58c55eaab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 02/37] fix: transform only the real board when planes are
 larger than it

---
 utils/data_utils.py | 51 +++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/utils/data_utils.py b/utils/data_utils.py
index fbfa7c3..a493cbe 100644
--- a/utils/data_utils.py
+++ b/utils/data_utils.py
@@ -237,28 +237,44 @@ class SamplePostProcessor:
                     (digest.digest(),),
                 )
             picked_symmetry = symmetries[symmetry_index]
+            real_h, real_w = (int(v) for v in data["board_size"])
+            plane_h, plane_w = data["board_input"].shape[-2:]
+
+            def transform_plane(array):
+                # Planes may be larger than the real board, which occupies
+                # their top-left corner: the padding must stay in place.
+                if array.shape[-2:] == (real_h, real_w):
+                    return picked_symmetry.apply_to_array(array)
+                array = array.copy()
+                array[..., :real_h, :real_w] = picked_symmetry.apply_to_array(
+                    array[..., :real_h, :real_w]
+                )
+                return array
 
             # Apply symmetry to the board_input, policy_target
-            data["board_input"] = picked_symmetry.apply_to_array(data["board_input"])
+            data["board_input"] = transform_plane(data["board_input"])
             if "sparse_feature_input" in data:
-                data["sparse_feature_input"] = picked_symmetry.apply_to_array(
+                data["sparse_feature_input"] = transform_plane(
                     data["sparse_feature_input"]
                 )
             if data["policy_target"].ndim == 1:
-                if (
-                    data["policy_target"].shape[0]
-                    != np.prod(data["board_size"]) + 1
-                ):
+                policy_length = data["policy_target"].shape[0]
+                if policy_length == plane_h * plane_w + 1:
+                    policy_shape = (plane_h, plane_w)
+                elif policy_length == real_h * real_w + 1:
+                    policy_shape = (real_h, real_w)
+                else:
                     raise ValueError(
                         "flattened policy target does not match board_size"
                     )
-                policy_target_sym = data["policy_target"][:-1].reshape(tuple(data["board_size"]))
-                policy_target_sym = picked_symmetry.apply_to_array(policy_target_sym)
+                policy_target_sym = transform_plane(
+                    data["policy_target"][:-1].reshape(policy_shape)
+                )
                 data["policy_target"] = np.concatenate(
                     [policy_target_sym.reshape(-1), data["policy_target"][-1:]]
                 )
             else:
-                data["policy_target"] = picked_symmetry.apply_to_array(data["policy_target"])
+                data["policy_target"] = transform_plane(data["policy_target"])
 
             # Apply symmetry to the optional position
             if "position" in data:
@@ -285,17 +301,19 @@ class SamplePostProcessor:
                 )
 
             if data["policy_target"].ndim == 1:
-                if (
-                    data["policy_target"].shape[0]
-                    != np.prod(data["board_size"]) + 1
-                ):
+                policy_length = data["policy_target"].shape[0]
+                if policy_length == board_h * board_w + 1:
+                    policy_h, policy_w = board_h, board_w
+                elif policy_length == np.prod(data["board_size"], dtype=np.int64) + 1:
+                    policy_h, policy_w = (int(v) for v in data["board_size"])
+                else:
                     raise ValueError(
                         "flattened policy target does not match board_size"
                     )
-                policy_target_board = data["policy_target"][:-1].reshape((board_h, board_w))
+                policy_target_board = data["policy_target"][:-1].reshape((policy_h, policy_w))
                 policy_target_board = np.pad(
                     policy_target_board,
-                    ((0, padded_h - board_h), (0, padded_w - board_w)),
+                    ((0, padded_h - policy_h), (0, padded_w - policy_w)),
                     mode="constant",
                     constant_values=0,
                 )
@@ -303,9 +321,10 @@ class SamplePostProcessor:
                     [policy_target_board.reshape(-1), data["policy_target"][-1:]]
                 )
             else:
+                policy_h, policy_w = data["policy_target"].shape
                 data["policy_target"] = np.pad(
                     data["policy_target"],
-                    ((0, padded_h - board_h), (0, padded_w - board_w)),
+                    ((0, padded_h - policy_h), (0, padded_w - policy_w)),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From 590da7704a922327424236b9520aa95b1f59ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 03/37] fix: let iterative_sparse_numpy drop its extra fields

---
 dataset/sparse_numpy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dataset/sparse_numpy.py b/dataset/sparse_numpy.py
index b63843f..cfd84dc 100644
--- a/dataset/sparse_numpy.py
+++ b/dataset/sparse_numpy.py
@@ -225,9 +225,10 @@ class IterativeSparseNumpyDataset(PlannedBatchDataset):
             drop_extra=self.drop_extra,
         )
         # Convert unsigned feature storage to PyTorch-compatible signed types.
-        if data["sparse_feature_dim"].max() > np.iinfo(np.int32).max:
-            raise ValueError("sparse feature dimension exceeds int32")
-        data["sparse_feature_input"] = data["sparse_feature_input"].astype(np.int32)
-        data["sparse_feature_dim"] = data["sparse_feature_dim"].astype(np.int32)
+        if "sparse_feature_dim" in data:
+            if data["sparse_feature_dim"].max() > np.iinfo(np.int32).max:
+                raise ValueError("sparse feature dimension exceeds int32")
+            data["sparse_feature_input"] = data["sparse_feature_input"].astype(np.int32)
+            data["sparse_feature_dim"] = data["sparse_feature_dim"].astype(np.int32)
 
         return data
-- 
2.43.0


From b71ae29e858d88f1de0a6455893bcd8c81ca5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 04/37] fix: transform position_string and last_move with the
 board symmetry

---
 dataset/packed_binary.py | 35 +++++++++++++++++++++--------------
 dataset/simple_binary.py | 20 ++++++++++----------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index 490dad4..d01ef4c 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from utils.winrate_model import WinrateModel
@@ -272,7 +271,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
             has_pass_move=self.has_pass_move,
-            apply_symmetry=False,
+            apply_symmetry=self.apply_symmetry,
             drop_extra=self.drop_extra,
             shuffle=False,
             sample_rate=1.0,
@@ -308,12 +307,11 @@ class PackedBinaryDataset(PlannedBatchDataset):
             return raw_entry_metadata(raw_entry)[2]
 
         def materialize_entry(entry, record_key, epoch, subrecord):
-            data = reader._process_subrecord(entry, subrecord)
-            if data is None or not self.apply_symmetry:
-                return data
+            if not self.apply_symmetry:
+                return reader._process_subrecord(entry, subrecord)
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
+            board_size = (entry.boardsize, entry.boardsize)
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -322,11 +320,9 @@ class PackedBinaryDataset(PlannedBatchDataset):
                 "symmetry",
                 (epoch, record_key, 0),
             )
-            return post_process_data(
-                copy.deepcopy(data),
-                symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
-            )
+            # The move list is transformed with the planes, so the symmetry has
+            # to be applied before it is turned into its text form.
+            return reader._process_subrecord(entry, subrecord, symmetry_index)
 
         self._record_source = InterleavedSequentialSource(
             self.file_list,
@@ -427,7 +423,12 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return policy if self.has_pass_move else policy.reshape(boardsize)
 
-    def _process_entry(self, entry: EntryData, selected_subrecord: int) -> dict | None:
+    def _process_entry(
+        self,
+        entry: EntryData,
+        selected_subrecord: int,
+        symmetry_index: int | None = None,
+    ) -> dict | None:
         # Skip other rules and board sizes
         boardsize = (entry.boardsize, entry.boardsize)
         if str(entry.rule) not in self.rules:
@@ -484,6 +485,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
                     fixed_side_input=self.fixed_side_input,
                     fixed_board_size=self.fixed_board_size,
                     symmetry_type=self.apply_symmetry,
+                    symmetry_index=symmetry_index,
                     drop_extra=self.drop_extra,
                 )
 
@@ -496,6 +498,11 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return None
 
-    def _process_subrecord(self, entry: EntryData, subrecord: int) -> dict | None:
+    def _process_subrecord(
+        self,
+        entry: EntryData,
+        subrecord: int,
+        symmetry_index: int | None = None,
+    ) -> dict | None:
         """Replay only far enough to materialize the selected move sample."""
-        return self._process_entry(entry, int(subrecord))
+        return self._process_entry(entry, int(subrecord), symmetry_index)
diff --git a/dataset/simple_binary.py b/dataset/simple_binary.py
index 976686f..bcae2ff 100644
--- a/dataset/simple_binary.py
+++ b/dataset/simple_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from . import DATASETS
@@ -143,7 +142,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             boardsizes=self.boardsizes,
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
-            apply_symmetry=False,
+            apply_symmetry=self.apply_symmetry,
             drop_extra=self.drop_extra,
             shuffle=False,
             sample_rate=1.0,
@@ -165,12 +164,11 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             return self.fixed_board_size or boardsize
 
         def materialize_entry(entry, record_key, epoch):
-            data = reader._prepare_data_from_entry(*entry)
-            if data is None or not self.apply_symmetry:
-                return data
+            if not self.apply_symmetry:
+                return reader._prepare_data_from_entry(*entry)
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
+            board_size = (entry[2], entry[2])
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -179,10 +177,10 @@ class SimpleBinaryDataset(PlannedBatchDataset):
                 "symmetry",
                 (epoch, record_key, 0),
             )
-            return post_process_data(
-                copy.deepcopy(data),
-                symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
+            # The move list is transformed with the planes, so the symmetry has
+            # to be applied before it is turned into its text form.
+            return reader._prepare_data_from_entry(
+                *entry, symmetry_index=symmetry_index
             )
 
         self._record_source = InterleavedSequentialSource(
@@ -237,6 +235,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
         rule: Rule,
         move: Move,
         position: list[Move],
+        symmetry_index: int | None = None,
     ):
         # Skip other rules and board sizes
         boardsize = (bsize, bsize)
@@ -277,6 +276,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
             symmetry_type=self.apply_symmetry,
+            symmetry_index=symmetry_index,
             drop_extra=self.drop_extra,
         )
         return data
-- 
2.43.0


From 222057d3d6dd52ea1da4b6a87d7fe18ffbc3f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 05/37] fix: keep the streaming loader's iterator seed off the
 global random generator

Rebuilding the loader iterator after a resume drew from the restored global
generator, so dropout and other random draws of the resumed run differed from
the uninterrupted one.
---
 utils/training_utils.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 145a5bb..405594c 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1105,6 +1105,20 @@ def build_data_loader(
             )
         shuffle = False
 
+    if runtime_context is not None and "generator" not in kwargs:
+        from dataset.core import rng_u64
+
+        # Building a loader iterator draws a base seed; keep it off the global
+        # torch RNG so rebuilding an iterator after resume is transparent.
+        generator_seed = rng_u64(
+            runtime_context.seed,
+            "loader_rng",
+            (runtime_context.rank,),
+        )
+        kwargs["generator"] = torch.Generator().manual_seed(
+            generator_seed & ((1 << 63) - 1)
+        )
+
     if bool(getattr(dataset, "yields_batches", getattr(dataset, "YIELDS_BATCHES", False))):
         # Dataset yields whole collated batches and prefetches with internal
         # threads: run it in-process (worker->main IPC costs more per batch
@@ -1119,17 +1133,6 @@ def build_data_loader(
         )
 
     if runtime_context is not None:
-        from dataset.core import rng_u64
-
-        if "generator" not in kwargs:
-            generator_seed = rng_u64(
-                runtime_context.seed,
-                "loader_rng",
-                (runtime_context.rank,),
-            )
-            kwargs["generator"] = torch.Generator().manual_seed(
-                generator_seed & ((1 << 63) - 1)
-            )
         if num_workers > 0 and "worker_init_fn" not in kwargs:
             kwargs["worker_init_fn"] = partial(
                 _seed_dataset_worker,
-- 
2.43.0


From 117ae634e9e108f377bd48b629cef6d4ee05255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 06/37] fix: let an accumulation window of a streaming dataset
 span an epoch end

---
 trainer/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trainer/base.py b/trainer/base.py
index 0f3e9ff..415f265 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -4227,6 +4227,15 @@ class BaseTrainer:
             if getattr(self, "_resume_sampler", None) is not None:
                 self._resume_sampler.advance_yield_epoch()
             try:
+                pending_tokens = getattr(self, "_pending_stream_tokens", [])
+                if pending_tokens:
+                    # The accumulation window goes on in the next epoch, which
+                    # can only start from a committed cursor. No checkpoint is
+                    # taken before the step of this window has been made.
+                    self._resume_stream.commit_prepared(
+                        self._resume_stream.prepare_commit(pending_tokens)
+                    )
+                    self._pending_stream_tokens = []
                 self._train_data_iter = iter(self.train_loader)
                 data = next(self._train_data_iter)
             except StopIteration:
-- 
2.43.0


From 8814e7a0311e33659187f0e41bef6e4549f88506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 07/37] fix: judge the queued finite check before the final
 save of an interrupted run

---
 trainer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trainer/base.py b/trainer/base.py
index 415f265..7195bf5 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -4105,6 +4105,8 @@ class BaseTrainer:
                 and self._last_state_save_iteration != st.iteration
             ):
                 try:
+                    # The finite check of the last step may still be queued.
+                    self._drain_pending_step_validity(include_current=True)
                     self._save_checkpoint(force_state=True)
                 except BaseException as save_exc:
                     accelerator.print(
-- 
2.43.0


From 489e9b23c21ed46afa54f68acbd787363424345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 08/37] fix: let processed NPZ files with and without a policy
 share a packed batch

---
 dataset/decoder.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dataset/decoder.py b/dataset/decoder.py
index aa33a86..4af5c4d 100644
--- a/dataset/decoder.py
+++ b/dataset/decoder.py
@@ -684,6 +684,17 @@ class ProcessedNpzDecoder:
                     ),
                 ).astype(np.float32, copy=False),
             }
+            if not self.has_pass_move and group["policy_target"].ndim == 2:
+                # Files without a policy have no pass entry to drop, so drop it
+                # per file: both kinds may share a batch.
+                expected = height * width + 1
+                if group["policy_target"].shape[1] != expected:
+                    raise ValueError(
+                        "processed NPZ policy target does not match board_size"
+                    )
+                group["policy_target"] = group["policy_target"][:, :-1].reshape(
+                    len(positions), height, width
+                )
             schema = tuple(
                 (key, value.shape[1:], value.dtype.str)
                 for key, value in group.items()
@@ -702,15 +713,7 @@ class ProcessedNpzDecoder:
                 )
             for key, value in group.items():
                 data[key][positions] = value
-        if not self.has_pass_move and data["policy_target"].ndim == 2:
-            expected = height * width + 1
-            if data["policy_target"].shape[1] != expected:
-                raise ValueError(
-                    "processed NPZ policy target does not match board_size"
-                )
-            data["policy_target"] = data["policy_target"][:, :-1].reshape(
-                len(request), height, width
-            )
+
         return self._post_process_vectorized(data, request)
 
     def decode_batches(self, ref_batches):
-- 
2.43.0


From 8c209a1e41476216bb60f510c4ffa6ece5f9dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 09/37] fix: give packed games with an odd number of opening
 stones the right colours

---
 dataset/packed_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index d01ef4c..90c3d97 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -439,7 +439,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
         current_result = entry.result
         current_position = entry.init_position.copy()
         current_ply = len(current_position)
-        current_stm_input = -1 if current_ply % 2 == 0 else 1  # (Black = -1, White = 1)
+        current_stm_input = -1  # Black (-1) plays the first opening stone, White = 1
 
         # setup inital board input
         current_board_input = np.zeros((2, boardsize[0], boardsize[1]), dtype=np.int8)
-- 
2.43.0


From 8c7fb64c13003409108a7ae9c37f117de86b423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 10/37] fix: let five in a row override a simultaneous overline
 in forbidden points

---
 dataset/pipeline/forbidden_point_cpp/board.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataset/pipeline/forbidden_point_cpp/board.cpp b/dataset/pipeline/forbidden_point_cpp/board.cpp
index 4fe412a..b1bcf4f 100644
--- a/dataset/pipeline/forbidden_point_cpp/board.cpp
+++ b/dataset/pipeline/forbidden_point_cpp/board.cpp
@@ -17,7 +17,10 @@ Board::Board(int width, int height) : boardWidth(width), boardHeight(height)
 
 ForbiddenType Board::isForbidden(Pos pos)
 {
-    if (isDoubleThree(pos, BLACK))
+    // Making five in a row wins even if the move would be forbidden otherwise.
+    if (isFive(pos, BLACK))
+        return FORBIDDEN_NONE;
+    else if (isDoubleThree(pos, BLACK))
         return DOUBLE_THREE;
     else if (isDoubleFour(pos, BLACK))
         return DOUBLE_FOUR;
-- 
2.43.0


From 2badde0f81e15c6a49836b075456ae46744a7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 11/37] fix: take the real board size into account when marking
 forbidden points on padded planes

---
 dataset/pipeline/forbidden_point.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dataset/pipeline/forbidden_point.py b/dataset/pipeline/forbidden_point.py
index 587ddcd..b9aeea9 100644
--- a/dataset/pipeline/forbidden_point.py
+++ b/dataset/pipeline/forbidden_point.py
@@ -26,6 +26,8 @@ class ForbiddenPointPipeline(BasePipeline):
 
         board_input = data["board_input"]  # [2, H, W]
         _, H, W = board_input.shape
+        # planes padded to fixed_board_size are larger than the real board
+        h, w = (int(v) for v in data.get("board_size", (H, W)))
 
         # ensure that black side is at channel 0
         if not self.fixed_side_input:
@@ -35,10 +37,12 @@ class ForbiddenPointPipeline(BasePipeline):
                 board_input = np.flip(board_input, axis=0)
 
         # allocate space for forbidden point results
-        forbidden_point = np.empty((H, W), dtype=np.int8)  # [H, W]
+        board_forbidden_point = np.empty((h, w), dtype=np.int8)  # [h, w]
 
         # do feature transformation
-        transform_board_to_forbidden_point(board_input, forbidden_point)
+        transform_board_to_forbidden_point(board_input[:, :h, :w], board_forbidden_point)
+        forbidden_point = np.zeros((H, W), dtype=np.int8)  # [H, W]
+        forbidden_point[:h, :w] = board_forbidden_point
 
         # add forbidden point flags to data
         data = dict(data)
@@ -46,13 +50,9 @@ class ForbiddenPointPipeline(BasePipeline):
         return data
 
     def process_batch(self, data, *, sample_keys=None, rng_keys=None):
+        names = [k for k in ("board_input", "stm_input", "board_size") if k in data]
         outputs = [
-            self.process(
-                {
-                    "board_input": data["board_input"][index],
-                    "stm_input": data["stm_input"][index],
-                }
-            )["forbidden_point"]
+            self.process({k: data[k][index] for k in names})["forbidden_point"]
             for index in range(len(data["board_input"]))
         ]
         result = dict(data)
-- 
2.43.0


From 38f27bb49c094e3c9c2f33804302e2f620995dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 12/37] fix: keep filter expressions from writing into the
 filtered arrays

---
 dataset/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index cf0dc5c..b706cd4 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -217,6 +217,9 @@ class SafeFilterEvaluator:
                 raise self._error(node, "only whitelisted NumPy functions may be called")
             if node.keywords:
                 raise self._error(node, "keyword arguments are forbidden")
+            if len(node.args) != function.nin:
+                # Further positional arguments of a ufunc are output arrays.
+                raise self._error(node, f"expected {function.nin} arguments, got {len(node.args)}")
             args = [self._eval(arg) for arg in node.args]
             arrays = [arg for arg in args if isinstance(arg, np.ndarray)]
             if arrays:
-- 
2.43.0


From 2df0483d36c2221b5cec2cc0cc22ba71a8210823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 13/37] fix: skip files without a matching row in raw streams

---
 dataset/katago.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataset/katago.py b/dataset/katago.py
index 88ec305..6bc2054 100644
--- a/dataset/katago.py
+++ b/dataset/katago.py
@@ -69,6 +69,7 @@ def _map_symmetry_index(dataset, index, board_size):
 @DATASETS.register("katago_numpy")
 class KatagoNumpyDataset(Dataset):
     FILE_EXTS = [".npz"]
+    allow_empty = False
 
     def __init__(
         self,
@@ -131,7 +132,7 @@ class KatagoNumpyDataset(Dataset):
         # Validate row counts after board-size filtering.
         length_list = [len(array) for array in self.data_dict.values()]
         self.length = length_list[0]
-        if self.length <= 0:
+        if self.length <= 0 and not self.allow_empty:
             raise ValueError(f"no valid data entry in {self.file_list}")
         if length_list.count(self.length) != len(length_list):
             raise ValueError("NPZ fields have unequal row counts")
@@ -258,6 +259,12 @@ class KatagoNumpyDataset(Dataset):
         )
 
 
+class _KatagoNumpyRows(KatagoNumpyDataset):
+    """Rows of one file of a stream; other files may still hold matching rows."""
+
+    allow_empty = True
+
+
 @DATASETS.register("iterative_katago_numpy")
 class IterativeKatagoNumpyDataset(PlannedBatchDataset):
     """
@@ -321,7 +328,7 @@ class IterativeKatagoNumpyDataset(PlannedBatchDataset):
         symmetry = options.pop("apply_symmetry", False)
 
         def load(path):
-            dataset = KatagoNumpyDataset(
+            dataset = _KatagoNumpyRows(
                 file_list=[path],
                 boardsizes=self.boardsizes,
                 fixed_side_input=self.fixed_side_input,
-- 
2.43.0


From 3fb27d1a35aaada6ce5a384e90eee76fef469060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 14/37] fix: bound scalar intermediates of filter expressions

---
 dataset/filter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dataset/filter.py b/dataset/filter.py
index b706cd4..ac5b2ab 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -82,6 +82,11 @@ class SafeFilterEvaluator:
         for child in ast.iter_child_nodes(node):
             self._check_depth(child, depth + 1)
 
+    def _check_scalar(self, value: Any, node: ast.AST) -> Any:
+        if isinstance(value, int) and not -(1 << 63) <= value < (1 << 63):
+            raise self._error(node, "integer intermediate is outside signed 64-bit range")
+        return value
+
     def _check_array(self, value: Any, context: str, *, allocated: bool = True) -> Any:
         if not isinstance(value, np.ndarray):
             return value
@@ -152,7 +157,7 @@ class SafeFilterEvaluator:
                 getattr(getattr(operand, "dtype", None), "itemsize", 8),
                 node,
             )
-            result = _UNARY[type(node.op)](operand)
+            result = self._check_scalar(_UNARY[type(node.op)](operand), node)
             return self._check_array(result, "unary intermediate")
         if isinstance(node, ast.BinOp) and type(node.op) in _BINARY:
             if isinstance(node.op, ast.Pow):
@@ -166,10 +171,15 @@ class SafeFilterEvaluator:
             left = self._eval(node.left)
             right = self._eval(node.right)
             self._check_broadcast(left, right, node)
+            if isinstance(left, tuple) or isinstance(right, tuple):
+                # Python would repeat or join the literal without any bound.
+                if not isinstance(left, np.ndarray) and not isinstance(right, np.ndarray):
+                    raise self._error(node, "literals cannot be combined")
             try:
                 result = _BINARY[type(node.op)](left, right)
             except Exception as exc:
                 raise self._error(node, str(exc)) from exc
+            result = self._check_scalar(result, node)
             return self._check_array(result, "binary intermediate")
         if isinstance(node, ast.Compare):
             if len(node.ops) != len(node.comparators):
-- 
2.43.0


From 994b4275b050ef84f477b4da5c1b890233974ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 15/37] fix: close the opened sequential files when a later one
 cannot be opened

---
 dataset/sequential_source.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataset/sequential_source.py b/dataset/sequential_source.py
index 266f936..539f169 100644
--- a/dataset/sequential_source.py
+++ b/dataset/sequential_source.py
@@ -313,7 +313,14 @@ class InterleavedSequentialSource:
             raise ValueError("sequential source rank differs from its configuration")
         order = self._file_order(epoch, cycle, rank)
         count = min(self.active_streams, len(order))
-        active = [self._open_reader(order[index]) for index in range(count)]
+        active = []
+        try:
+            for index in range(count):
+                active.append(self._open_reader(order[index]))
+        except BaseException:
+            for reader in active:
+                reader.stream.close()
+            raise
         self._active_epoch = epoch
         return SequentialCursor(epoch, cycle, rank, order, count, active, 0, 0)
 
-- 
2.43.0


From 08321c3562e9c8ed43e5537268f2e6a47b5aada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 16/37] fix: name the file of a truncated compressed record
 stream

---
 dataset/sequential_source.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dataset/sequential_source.py b/dataset/sequential_source.py
index 539f169..3940eff 100644
--- a/dataset/sequential_source.py
+++ b/dataset/sequential_source.py
@@ -380,12 +380,11 @@ class InterleavedSequentialSource:
                 if envelope is not None:
                     return envelope, cursor
                 continue
-            if not self._has_data(reader.stream):
-                self._replace_or_remove(cursor)
-                continue
             entry_index = reader.entry_index
             try:
-                if self.read_raw_entry is not None:
+                if not self._has_data(reader.stream):
+                    raw_entry = None  # the file ends between two entries
+                elif self.read_raw_entry is not None:
                     raw_entry = self.read_raw_entry(reader.stream)
                     entry = raw_entry
                 else:
@@ -397,6 +396,9 @@ class InterleavedSequentialSource:
                     f"truncated {self.format_id} entry {entry_index} in "
                     f"{descriptor.path}: {exc}"
                 ) from exc
+            if raw_entry is None:
+                self._replace_or_remove(cursor)
+                continue
             if not raw_entry:
                 raise RuntimeError(
                     f"{self.format_id} reader consumed no bytes for entry "
-- 
2.43.0


From ed18e2abd19f71d66086258140f1c6f7eb642803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 17/37] fix: refuse to continue an abandoned epoch of a stream
 that cannot be rewound

---
 dataset/source_dataset.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dataset/source_dataset.py b/dataset/source_dataset.py
index af31b71..35e2561 100644
--- a/dataset/source_dataset.py
+++ b/dataset/source_dataset.py
@@ -87,6 +87,8 @@ class SourceBatchDataset:
         self._finalize_in_prefetch = bool(
             finalize_in_prefetch and effective_prefetch_workers > 0
         )
+        self._last_delivered = False
+        self._epoch_lost = False
 
     def _decode_batch(self, batch):
         envelopes, mask = self.planner.local_slice(batch)
@@ -189,6 +191,7 @@ class SourceBatchDataset:
         )
         if self.planner.runtime_context.mode != "train":
             self.planner.commit_batch(token)
+        self._last_delivered = batch.is_last
         return BatchEnvelope(
             data=data,
             token=token,
@@ -219,6 +222,7 @@ class SourceBatchDataset:
                     batch, token = self.planner.finalize_terminal_token(token)
             if self.planner.runtime_context.mode != "train":
                 self.planner.commit_batch(token)
+            self._last_delivered = batch.is_last
             yield BatchEnvelope(data, token, mask, sample_keys)
             if batch.is_last:
                 return
@@ -276,6 +280,12 @@ class SourceBatchDataset:
                     submit_chunk(executor)
 
     def __iter__(self):
+        if self._epoch_lost:
+            raise RuntimeError(
+                "an abandoned or failed epoch of a stream without exact resume "
+                "cannot be continued"
+            )
+        self._last_delivered = False
         if self.planner.finished:
             self.planner.begin_next_epoch()
         completed = False
@@ -291,5 +301,7 @@ class SourceBatchDataset:
             if not completed:
                 if self.source.capabilities.resumable:
                     self.planner.rollback_uncommitted()
-                elif hasattr(self.source, "close_cursor"):
-                    self.source.close_cursor(self.planner._source_cursor)
+                else:
+                    self._epoch_lost = not self._last_delivered
+                    if hasattr(self.source, "close_cursor"):
+                        self.source.close_cursor(self.planner._source_cursor)
-- 
2.43.0


From b1b93ff18bba87a10f66f025d527b87e2af12a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 18/37] fix: refuse a sequential reader cursor without its
 pending entry

---
 dataset/sequential_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset/sequential_source.py b/dataset/sequential_source.py
index 3940eff..beb691b 100644
--- a/dataset/sequential_source.py
+++ b/dataset/sequential_source.py
@@ -698,7 +698,7 @@ class InterleavedSequentialSource:
                 descriptor_index = int(item["descriptor_index"])
                 entry_index = int(item["entry_index"])
                 byte_offset = int(item["byte_offset"])
-                pending_state = item.get("pending")
+                pending_state = item["pending"]
                 if not 0 <= descriptor_index < len(self.descriptors):
                     raise ValueError("sequential descriptor index is out of range")
                 if entry_index < 0 or byte_offset < 0:
-- 
2.43.0


From 0291f7f35634eb9050ae2bb81010c682e54903fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 19/37] fix: refuse a negative sampler epoch

---
 utils/training_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 405594c..de3964a 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -967,7 +967,10 @@ class ResumableSampler(Sampler):
                     f"Cannot restore legacy sampler offset {offset} for "
                     f"dataset length {self.local_length}."
                 )
-            self.epoch = int(state["epoch"])
+            epoch = int(state["epoch"])
+            if epoch < 0:
+                raise RuntimeError(f"Cannot restore sampler epoch {epoch}.")
+            self.epoch = epoch
             self.offset = offset
             self._yield_epoch = self.epoch
             self._yielded_offset = offset
@@ -993,7 +996,10 @@ class ResumableSampler(Sampler):
                 f"Cannot restore sampler offset {offset} for"
                 f" local dataset length {self.local_length}."
             )
-        self.epoch = int(state["epoch"])
+        epoch = int(state["epoch"])
+        if epoch < 0:
+            raise RuntimeError(f"Cannot restore sampler epoch {epoch}.")
+        self.epoch = epoch
         self.offset = offset
         self._yield_epoch = self.epoch
         self._yielded_offset = offset
-- 
2.43.0


From 8c3e00fe015046e15dc6954ebc8573555560a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 20/37] fix: clip gradients of a generator of mixed parameters

---
 utils/training_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index de3964a..5a17844 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -9,6 +9,7 @@ import numpy as np
 import torch
 import torch.nn.functional as F
 import torch.optim as optim
+from torch import Tensor
 from torch.utils.data import IterableDataset, Sampler, default_convert
 from torch.utils.data.dataloader import DataLoader
 
@@ -46,6 +47,7 @@ def clip_grad_norm(parameters, max_norm: float, norm_type: float = 2.0):
     microseconds per step on high-latency hosts.  Parameters spanning
     multiple devices or dtypes fall back to the stock implementation.
     """
+    parameters = [parameters] if isinstance(parameters, Tensor) else list(parameters)
     grads = [p.grad for p in parameters if p.grad is not None]
     if not grads:
         # Mirrors torch.nn.utils._get_total_norm on the empty-grads path.
-- 
2.43.0


From ee9dff9fdb3cf1593859923cf3534234d5277a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 21/37] fix: keep the settings of each parameter group in
 ChainedOptimizer

---
 utils/chained_optimizer.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/utils/chained_optimizer.py b/utils/chained_optimizer.py
index 921efff..94a4faa 100644
--- a/utils/chained_optimizer.py
+++ b/utils/chained_optimizer.py
@@ -38,11 +38,14 @@ class ChainedOptimizer(Optimizer):
         self.optimizer_selection_callback = optimizer_selection_callback
         self.optimizers: list[Optimizer] = []
         defaults = dict(lr=lr, weight_decay=weight_decay)
+        # Settings given by each param group itself, recorded by add_param_group
+        self._group_settings: list[dict[str, Any]] = []
         super().__init__(params, defaults)
 
-        # Split the params for each optimzier
-        params_for_optimizers = [[] for _ in optimizer_specs]
-        for param_group in self.param_groups:
+        # Split every param group, with its own settings, for each optimzier
+        groups_for_optimizers = [[] for _ in optimizer_specs]
+        for param_group, settings in zip(self.param_groups, self._group_settings):
+            params_for_optimizers = [[] for _ in optimizer_specs]
             params = param_group["params"]
             indices = param_group["optimizer_and_param_group_indices"] = set()
             for param in params:
@@ -53,18 +56,21 @@ class ChainedOptimizer(Optimizer):
                         if self.optimizer_selection_callback is not None:
                             self.optimizer_selection_callback(param, index)
                         params_for_optimizers[index].append(param)
-                        indices.add((index, 0))
+                        indices.add((index, len(groups_for_optimizers[index])))
                         found_optimizer = True
                         break
                 if not found_optimizer:
                     raise ValueError("No valid optimizer found for the given parameter group")
+            for groups, selected_params in zip(groups_for_optimizers, params_for_optimizers):
+                if selected_params:
+                    groups.append({**settings, "params": selected_params})
 
         # Initialize the optimizers
-        for spec, selected_params in zip(optimizer_specs, params_for_optimizers):
+        for spec, selected_groups in zip(optimizer_specs, groups_for_optimizers):
             optimizer_args = {"lr": lr, "weight_decay": weight_decay}
             optimizer_args.update(common_kwargs)
             optimizer_args.update(spec.init_args)
-            optimizer = spec.class_type(selected_params, **optimizer_args)
+            optimizer = spec.class_type(selected_groups, **optimizer_args)
             self.optimizers.append(optimizer)
 
     def state_dict(self) -> dict[str, Any]:
@@ -104,7 +110,9 @@ class ChainedOptimizer(Optimizer):
         return loss
 
     def add_param_group(self, param_group: dict[str, Any]) -> None:
+        settings = {key: value for key, value in param_group.items() if key != "params"}
         super().add_param_group(param_group)
+        self._group_settings.append(settings)
 
         # If optimizer has not been initialized, skip adding the param groups
         if not self.optimizers:
@@ -131,4 +139,4 @@ class ChainedOptimizer(Optimizer):
         # Add the selected param group to the optimizers
         for optimizer, selected_params in zip(self.optimizers, params_for_optimizers):
             if selected_params:
-                optimizer.add_param_group({"params": selected_params})
+                optimizer.add_param_group({**settings, "params": selected_params})
-- 
2.43.0


From 1c5c62c93a378b5fce818c5dc2f0c6d430135d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:17 +0000
Subject: [PATCH 22/37] fix: rebuild the launch plan of MultiTensorAdamW when a
 parameter moved

---
 utils/fused_adamw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/fused_adamw.py b/utils/fused_adamw.py
index 01a6fbd..e04d2eb 100644
--- a/utils/fused_adamw.py
+++ b/utils/fused_adamw.py
@@ -380,7 +380,7 @@ class MultiTensorAdamW(Optimizer):
     def _launch_plan(self, index: int, group: dict) -> _LaunchPlan:
         """Build, refresh, or reuse the launch plan for one group.
 
-        Steady state costs one ``data_ptr()`` sweep and one tuple comparison.
+        Steady state costs two ``data_ptr()`` sweeps and two tuple comparisons.
         A gradient that lands at a new address -- which
         ``zero_grad(set_to_none=True)`` plus a fresh backward can do at any step
         -- only replaces the gradient pointer table. Everything else (the
@@ -390,9 +390,11 @@ class MultiTensorAdamW(Optimizer):
         """
         params = group["params"]
         grad_addresses = tuple(0 if p.grad is None else p.grad.data_ptr() for p in params)
+        param_addresses = tuple(p.data_ptr() for p in params)
         plan = self._launch_cache.get(index)
         if (
             plan is not None
+            and plan.param_addresses == param_addresses
             and plan.grad_addresses == grad_addresses
             # Equal addresses do not by themselves mean equal layouts: the
             # caching allocator routinely hands a freed block straight back, so
@@ -417,7 +419,6 @@ class MultiTensorAdamW(Optimizer):
         # optimizer budget -- because `untyped_storage()` is expensive. Only the
         # gradient can have changed here, and only its layout matters, so check
         # that alone: 32 us for the same guarantee.
-        param_addresses = tuple(p.data_ptr() for p in params)
         if (
             plan is not None
             and plan.param_addresses == param_addresses
-- 
2.43.0


From 749acb07046047ad019303a9e57c23552a8b85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 23/37] fix: accept checkpoint names with digits that are no
 numbers

---
 utils/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/file_utils.py b/utils/file_utils.py
index c956f0b..7cbb0e2 100644
--- a/utils/file_utils.py
+++ b/utils/file_utils.py
@@ -169,6 +169,6 @@ def get_iteration_from_ckpt_filename(model_name: str) -> int | None:
 
     parts = model_name.split("_")
     for part in reversed(parts):
-        if part.isdigit():
+        if part.isdecimal():
             return int(part)
     return None
-- 
2.43.0


From ac4855bf5de5f53b1947682771b98c234b1244e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:22 +0000
Subject: [PATCH 24/37] fix: split an archive given by its bare name

---
 tools/npzsplit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/npzsplit.py b/tools/npzsplit.py
index 0726126..1dd981a 100644
--- a/tools/npzsplit.py
+++ b/tools/npzsplit.py
@@ -13,7 +13,7 @@ def npz_split():
     parser.add_argument("--exclude_keys", type=str, nargs="+", help="Exclude keys from splitting")
     args = parser.parse_args()
 
-    outdir = args.outdir or os.path.dirname(args.file)
+    outdir = args.outdir or os.path.dirname(args.file) or "."
     os.makedirs(outdir, exist_ok=True)  # make run directory
     filename_noext, file_ext = os.path.splitext(os.path.basename(args.file))
 
-- 
2.43.0


From 1efb0af928fb2756ea76c9187456f8d42b483112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 25/37] fix: refuse a negative number of splits

---
 tools/npzsplit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/npzsplit.py b/tools/npzsplit.py
index 1dd981a..bdecc25 100644
--- a/tools/npzsplit.py
+++ b/tools/npzsplit.py
@@ -23,6 +23,7 @@ def npz_split():
 
     assert os.path.exists(args.file), f"File {args.file} does not exist"
     assert os.path.isfile(args.file), f"Path {args.file} is not a file"
+    assert args.splits >= 1, "splits must be at least 1"
     data = np.load(args.file)
 
     # load data and print data overview
-- 
2.43.0


From 125b707a18905ba99479ad761ae81dc50be5e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 26/37] fix: refuse an export without any board size

---
 model/serialization/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/serialization/__init__.py b/model/serialization/__init__.py
index 14beff3..dc9e63b 100644
--- a/model/serialization/__init__.py
+++ b/model/serialization/__init__.py
@@ -125,6 +125,8 @@ def get_boardsizes_from_args(export_args: dict):
             "will advertise support for all board sizes 1-32."
         )
         boardsizes = list(range(1, 32 + 1))
+    if len(boardsizes) == 0:
+        raise ValueError("No supported board sizes specified")
     for boardsize in boardsizes:
         if not isinstance(boardsize, int):
             raise ValueError(f"Invalid board size {boardsize}, must be int")
-- 
2.43.0


From 5af79227d37259df73998e834c1a55c93a05ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 27/37] fix: refuse an export with only one end of the board
 size range

---
 model/serialization/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/serialization/__init__.py b/model/serialization/__init__.py
index dc9e63b..65f3f4e 100644
--- a/model/serialization/__init__.py
+++ b/model/serialization/__init__.py
@@ -119,6 +119,8 @@ def get_boardsizes_from_args(export_args: dict):
     elif "boardsizes" in export_args:
         boardsizes = export_args.pop("boardsizes")
         assert isinstance(boardsizes, list), f"boardsizes={boardsizes}"
+    elif "min_board_size" in export_args or "max_board_size" in export_args:
+        raise ValueError("min_board_size and max_board_size must be specified together")
     else:
         print(
             "Warning: no board sizes specified for export, the exported weight "
-- 
2.43.0


From f9f36d083582d7b0f455fc839c2a4e53fe377402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 28/37] fix: publish torch-jit and ONNX exports atomically

---
 export.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/export.py b/export.py
index f5d1a30..77ba51f 100644
--- a/export.py
+++ b/export.py
@@ -178,7 +178,10 @@ def export_torch_jit(output, model, export_args, **kwargs):
     scripted_model = torch.jit.trace(model.forward, example_inputs, strict=True)
 
     # Save the traced model
-    torch.jit.save(scripted_model, output)
+    # Atomic write, as in export_serialization.
+    tmp_output = output + ".tmp"
+    torch.jit.save(scripted_model, tmp_output)
+    os.replace(tmp_output, output)
     print(f"Scripted model has been written to {output}")
 
 
@@ -227,10 +230,13 @@ def export_onnx(output, model, export_args, **kwargs):
     model.eval()
     sampled_data = _get_sample_data(**kwargs)
     args = model.get_model_inputs(sampled_data)
+    # Atomic write, as in export_serialization: the model is exported, slimmed
+    # and stamped under a temporary name and published complete.
+    tmp_output = output + ".tmp"
     torch.onnx.export(
         model,
         args,
-        output,
+        tmp_output,
         export_params=True,
         do_constant_folding=True,
         input_names=model.get_input_names(),
@@ -247,17 +253,18 @@ def export_onnx(output, model, export_args, **kwargs):
     else:
         try:
             print("Running onnxslim to optimize the model...")
-            onnxslim.slim(output, output)
+            onnxslim.slim(tmp_output, tmp_output)
         except Exception as e:
             print(f"Warning: onnxslim failed ({e!r}), keeping the unslimmed model.")
 
     # Add metadata to the exported ONNX model
     io_version = model.get_io_version()
-    onnx_model = onnx.load(output)
+    onnx_model = onnx.load(tmp_output)
     onnx_model.model_version = make_onnx_model_version(io_version, supported_rules, supported_boardsizes)
     onnx_model.producer_name = "https://github.com/dhbloo/pytorch-nnue-trainer"
     onnx_model.producer_version = _get_git_revision_short_hash()
-    onnx.save(onnx_model, output)
+    onnx.save(onnx_model, tmp_output)
+    os.replace(tmp_output, output)
     print(
         f"Onnx metadata: "
         f"\nmodel_version={hex(onnx_model.model_version)} "
-- 
2.43.0


From 0ad0de94602292b1e3866f807cf8c13f224527ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:02 +0000
Subject: [PATCH 29/37] fix: trace exports with a sample of a streaming dataset

---
 export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.py b/export.py
index 77ba51f..23dd164 100644
--- a/export.py
+++ b/export.py
@@ -85,7 +85,7 @@ def _get_sample_data(
     data = next(iter(loader))
     from dataset.stream import BatchEnvelope
     if isinstance(data, BatchEnvelope):
-        data = data.data
+        data = torch.utils.data.default_convert(data.data)
     return data
 
 
-- 
2.43.0


From 7d8047dc4797745a1ce2ba96e2ae2cefc11f8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:42 +0000
Subject: [PATCH 30/37] fix: keep the unslimmed ONNX model when slimming fails
 halfway

---
 export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/export.py b/export.py
index 23dd164..7b9c13a 100644
--- a/export.py
+++ b/export.py
@@ -253,7 +253,9 @@ def export_onnx(output, model, export_args, **kwargs):
     else:
         try:
             print("Running onnxslim to optimize the model...")
-            onnxslim.slim(tmp_output, tmp_output)
+            slim_output = output + ".slim.tmp"
+            onnxslim.slim(tmp_output, slim_output)
+            os.replace(slim_output, tmp_output)
         except Exception as e:
             print(f"Warning: onnxslim failed ({e!r}), keeping the unslimmed model.")
 
-- 
2.43.0


From 3958607bf9ee3ea3adc52fa986d0c3f789726c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 31/37] fix: ignore a tuning profile with values that are no
 integers

---
 dataset/telemetry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataset/telemetry.py b/dataset/telemetry.py
index b0b69f1..56af9ef 100644
--- a/dataset/telemetry.py
+++ b/dataset/telemetry.py
@@ -560,6 +560,7 @@ class PipelineProfileStore:
             and isinstance(record.get("exact_key"), str)
             and isinstance(record.get("compatible_key"), str)
             and isinstance(record.get("resolved"), dict)
+            and all(type(value) is int for value in record["resolved"].values())
         )
 
     def _profile_paths(self):
-- 
2.43.0


From fc984c148185aaa801f9d3fcea3ba1edf9cb4bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 32/37] fix: ignore tuning profiles that vanish or cannot be
 read while the cache is listed

---
 dataset/telemetry.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dataset/telemetry.py b/dataset/telemetry.py
index 56af9ef..2b563d8 100644
--- a/dataset/telemetry.py
+++ b/dataset/telemetry.py
@@ -571,6 +571,14 @@ class PipelineProfileStore:
             and all(character in "0123456789abcdef" for character in path.stem)
         ]
 
+    @staticmethod
+    def _modified_ns(path: Path) -> int:
+        # Another run may remove a profile between listing and looking at it.
+        try:
+            return path.stat().st_mtime_ns
+        except OSError:
+            return 0
+
     def load(self, exact_key: str, compatible_key: str, reuse: str):
         if reuse == "off" or not self.cache_dir.is_dir():
             return None, None
@@ -578,16 +586,12 @@ class PipelineProfileStore:
         candidates = [exact_path]
         if reuse == "compatible" and not exact_path.exists():
             candidates.extend(
-                sorted(
-                    self._profile_paths(),
-                    key=lambda path: path.stat().st_mtime_ns,
-                    reverse=True,
-                )
+                sorted(self._profile_paths(), key=self._modified_ns, reverse=True)
             )
         for path in candidates:
             try:
                 record = json.loads(path.read_text(encoding="utf-8"))
-            except (OSError, ValueError):
+            except (OSError, ValueError, RecursionError):
                 continue
             if not self._valid(record):
                 continue
@@ -610,11 +614,7 @@ class PipelineProfileStore:
             encoding="utf-8",
         )
         os.replace(temporary, destination)
-        profiles = sorted(
-            self._profile_paths(),
-            key=lambda path: path.stat().st_mtime_ns,
-            reverse=True,
-        )
+        profiles = sorted(self._profile_paths(), key=self._modified_ns, reverse=True)
         for expired in profiles[self.max_entries :]:
             try:
                 expired.unlink()
-- 
2.43.0


From 0528ac6f723cfb32fa405799794b202e1d4b5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 33/37] fix: read autotune thresholds given as text as numbers

---
 dataset/telemetry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataset/telemetry.py b/dataset/telemetry.py
index 2b563d8..89bee05 100644
--- a/dataset/telemetry.py
+++ b/dataset/telemetry.py
@@ -125,6 +125,10 @@ class PipelineAutotuneConfig:
             )
         options = dict(value)
         options.setdefault("enabled", True)
+        # A number may arrive as text: YAML reads 1e-2 as a string.
+        for name in ("target_producer_headroom", "max_data_wait_fraction"):
+            if name in options:
+                options[name] = float(options[name])
         config = cls(**options)
         if type(config.enabled) is not bool:
             raise TypeError("autotune.enabled must be a boolean")
-- 
2.43.0


From 3e2e839af64df2ddee948bf793cb44d137b3dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 34/37] fix: ignore a tuning cache that may not be read

---
 dataset/telemetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataset/telemetry.py b/dataset/telemetry.py
index 89bee05..0099793 100644
--- a/dataset/telemetry.py
+++ b/dataset/telemetry.py
@@ -584,11 +584,11 @@ class PipelineProfileStore:
             return 0
 
     def load(self, exact_key: str, compatible_key: str, reuse: str):
-        if reuse == "off" or not self.cache_dir.is_dir():
+        if reuse == "off" or not os.path.isdir(self.cache_dir):
             return None, None
         exact_path = self.cache_dir / f"{exact_key}.json"
         candidates = [exact_path]
-        if reuse == "compatible" and not exact_path.exists():
+        if reuse == "compatible" and not os.path.exists(exact_path):
             candidates.extend(
                 sorted(self._profile_paths(), key=self._modified_ns, reverse=True)
             )
-- 
2.43.0


From 36b944e193bf3c43b91c7ee34d2f13be7668e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:40 +0000
Subject: [PATCH 35/37] fix: close the loader behind static input slots when
 the device fails

---
 utils/training_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 5a17844..6cc6666 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -754,10 +754,10 @@ class StaticSlotLoaderWrapper(DeviceLoaderWrapper):
                 read_done = torch.cuda.Event()
                 read_done.record(compute_stream)
         finally:
-            self._copy_stream.synchronize()
-            close = getattr(source, "close", None)
-            if close is not None:
-                close()
+            # Close the source even when an asynchronous CUDA failure surfaces.
+            CudaPrefetchLoaderWrapper._synchronize_and_close(
+                self._copy_stream, source
+            )
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 877447a41bd0777cfd67e4120f5b03f23caa737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:40 +0000
Subject: [PATCH 36/37] fix: accept planned batches of arrays in static input
 slots

---
 utils/training_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 6cc6666..76f06f4 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -715,6 +715,7 @@ class StaticSlotLoaderWrapper(DeviceLoaderWrapper):
                     data, mask = host_batch.data, host_batch.is_real
                 else:
                     data, mask = host_batch, None
+                data = default_convert(data)
                 schema, entries = self._resolve_schema(data, mask)
                 if self._slots is None:
                     self._schema = schema
-- 
2.43.0


From 1200e9de7e0194887936da896862f3f36150c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:54 +0000
Subject: [PATCH 37/37] fix: evaluate shares of a global batch that hold
 padding only

A rank whose share has no real row has zero-row logits after selection, which
view(n, -1) cannot reshape, so the whole evaluation failed.
---
 utils/training_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 76f06f4..056971d 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1233,10 +1233,10 @@ def cross_entropy_with_softlabel(
 
     if input.ndim > 1:
         # Cross-entropy Loss
-        input = input.view(input.shape[0], -1)
-        target = target.view(target.shape[0], -1)
+        input = torch.flatten(input, start_dim=1)
+        target = torch.flatten(target, start_dim=1)
         if weight is not None:
-            target = target * weight.view(weight.shape[0], -1)
+            target = target * torch.flatten(weight, start_dim=1)
 
         logprobs = F.log_softmax(input, dim=1)
         if focal_gamma > 0.0:
-- 
2.43.0

