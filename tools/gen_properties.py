"""Writes /verif/properties.jsonl (kept as a script so that entries stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    entry = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        },
    }
    if observe:
        entry["anchors"]["observe_at"] = observe
    if state:
        entry["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state
        ]
    P.append(entry)


NO_TESTS = ("The 114 stable tests only run model forward/backward passes, numeric-operator "
            "comparisons and the log writer; they never execute this code. ")

prop(
    "C01", "Streaming shuffle is exactly-once, bounded, deterministic and resumable",
    "Whatever sequence of admissions, chunked admissions, snapshots, restores and the final drain is "
    "performed, the streaming shuffle buffer emits every admitted item exactly once, never holds more "
    "items or bytes than configured, and emits only what the bound forces it to emit before the drain. "
    "The emission order is a pure function of seed, epoch, stream identity and the admitted sequence: how "
    "admissions were chunked and whether the buffer was saved and restored in between never changes it. "
    "A saved state that is inconsistent or belongs to another configuration is refused.",
    ["histories", "inputs"],
    "all operation sequences up to a depth, all small capacities, byte limits and item sizes, every snapshot point",
    NO_TESTS + "Exactly-once over every chunking and snapshot point is a statement about all histories.",
    ["dataset/shuffle.py", "dataset/packed.py", "dataset/planner_cpp/packed_shuffle.cpp"],
    [("StreamingShuffleReservoir.offer/offer_many/offer_zero_sized/drain", "dataset/shuffle.py"),
     ("state/restore validation", "dataset/shuffle.py"),
     ("PackedUInt64ShuffleReservoir", "dataset/packed.py")],
    ["emitted items", "stats", "state()"],
)
prop(
    "C02", "Packed (C++) planning is indistinguishable from object planning",
    "Planning batches from packed 64-bit record ids through the compiled shuffle buffer yields the same "
    "records, in the same order, with the same masks, epoch ends and saved-state behaviour as planning the same "
    "files through the generic object path. The compiled buffer itself agrees step for step with the "
    "generic shuffle on every history, including restore from its own snapshots and refusal of malformed ones.",
    ["histories", "inputs", "configurations"],
    "all operation sequences up to a depth over the buffer; all small datasets, batch sizes, shuffle windows and chunkings over the planner",
    NO_TESTS + "Equality of two implementations has to hold for every history, not for sampled ones.",
    ["dataset/packed.py", "dataset/planner_cpp/packed_shuffle.cpp", "dataset/planner.py", "dataset/npz_source.py"],
    [("PackedUInt64ShuffleReservoir / PackedUInt64ReadyBuffer", "dataset/packed.py"),
     ("packed shuffle kernel", "dataset/planner_cpp/packed_shuffle.cpp"),
     ("DatasetPlanner._packed_uniform path", "dataset/planner.py")],
    ["batch record keys", "state_dict()"],
)
prop(
    "C03", "A dataset stream resumed at any committed batch continues identically",
    "For every resumable dataset type and configuration, saving the committed stream state after any batch, "
    "discarding the process, rebuilding the dataset from the same files and restoring that state yields exactly the "
    "remaining batches (records, order, tensors, masks, sample keys, epoch ends and all later epochs) that the "
    "uninterrupted stream would have yielded. The saved state survives serialization, and neither taking it nor "
    "batches that were produced but not committed before the crash have any effect on the continuation.",
    ["crash_points", "histories", "configurations"],
    "every committed batch boundary of a multi-epoch stream, with every number of uncommitted look-ahead batches, for each source kind and configuration",
    NO_TESTS + "A crash can fall after any batch with any look-ahead; examples cover a few points at most.",
    ["dataset/planner.py", "dataset/source_dataset.py", "dataset/npz_source.py", "dataset/sequential_source.py",
     "dataset/composite_source.py", "dataset/shuffle.py", "dataset/packed.py"],
    [("state_dict/load_state_dict", "dataset/planner.py"),
     ("save_cursor/restore_cursor", "dataset/npz_source.py, dataset/sequential_source.py, dataset/composite_source.py")],
    ["iterated batches"],
)
prop(
    "C04", "Batch tokens commit atomically, in order, and roll back without trace",
    "The committed stream position advances only when a contiguous run of batch tokens starting at the committed "
    "position is committed; skipped, repeated, reordered, stale or foreign tokens are refused and change "
    "nothing. Rolling back uncommitted batches makes the stream yield exactly those batches again, and an "
    "epoch cannot be advanced while batches are uncommitted. Batch-pipeline state moves together with the "
    "record position: it is carried by the same token, commits with it and rolls back with it.",
    ["histories", "fault_sequences"],
    "all interleavings of next, prepare, commit, rollback and epoch-advance up to a depth, including failing pipelines",
    NO_TESTS + "Transaction safety quantifies over every order of the operations.",
    ["dataset/planner.py", "dataset/core.py", "dataset/source_dataset.py"],
    [("prepare_commit/commit_prepared/rollback_uncommitted/begin_next_epoch", "dataset/planner.py"),
     ("PipelineStateComposer", "dataset/core.py")],
    ["committed state_dict", "next batches"],
)
prop(
    "C05", "Background prefetch never changes, drops, reorders or over-reads batches",
    "With any number of prefetch workers and any prefetch depth, under every order in which the background decode "
    "jobs start and finish, the consumer sees exactly the batches of the synchronous loader, in the same order, with "
    "the same tokens and masks. The number of planned but undelivered batches never exceeds the configured depth plus the batch being delivered, a failing "
    "decode job surfaces as that job's error after the earlier batches, and abandoning the iterator at any "
    "point leaves the stream at its committed position with no job still running.",
    ["schedules", "fault_sequences", "crash_points"],
    "all completion orders of the outstanding decode jobs, all worker counts and depths up to a bound, a failure injected at each job, abandonment at each batch",
    NO_TESTS + "Which decode job finishes first is decided by the thread scheduler; a test sees one order.",
    ["dataset/source_dataset.py", "dataset/telemetry.py", "dataset/katago.py", "dataset/planner.py"],
    [("SourceBatchDataset._iter_prefetched", "dataset/source_dataset.py"),
     ("ObservedSourceBatchDataset prefetch loop", "dataset/telemetry.py"),
     ("_AdjustableConcurrencyGate", "dataset/telemetry.py")],
    ["BatchEnvelope sequence", "outstanding jobs"],
)
prop(
    "C06", "Ranks partition every global batch without overlap or loss",
    "For any number of ranks, the rank-local batches of one step are equally sized and disjoint and together, in rank "
    "order, are exactly the batch a single process with the same global batch size would plan, with the padding "
    "mask split alongside; all ranks present identical coordination descriptors. When a format cannot be partitioned exactly, each "
    "rank reads its own disjoint set of files, every rank yields the same number of batches per epoch, and "
    "evaluation on several ranks or training without a step budget is refused.",
    ["configurations", "inputs", "histories"],
    "all world sizes up to a bound, all batch sizes divisible by them, each dataset format, shuffled or not, sampled or not",
    NO_TESTS + "Single-process tests can never see rank disagreement.",
    ["dataset/planner.py", "dataset/core.py", "dataset/sequential_source.py", "dataset/npz_source.py", "dataset/composite_source.py"],
    [("DatasetPlanner.local_slice and distributed_policy", "dataset/planner.py"),
     ("DatasetRuntimeContext.rank_local_identity", "dataset/core.py"),
     ("greedy file assignment", "dataset/sequential_source.py")],
    ["per-rank batches", "coordination_descriptor"],
)
prop(
    "C07", "Evaluation covers every record exactly once for any batch size and rank count",
    "An evaluation pass marks every record that passes the dataset's rules, board-size and record filters as real exactly once, "
    "for every batch size, number of ranks and mix of board sizes; the rows added to fill the last batch of a "
    "board size are copies of real rows marked as not real. Every batch has the full configured size and a single board "
    "size, a second pass yields the same records, and a streaming dataset refuses a file given twice, also under different names.",
    ["configurations", "inputs"],
    "all record counts, board-size mixes, batch sizes and world sizes up to a bound, for every dataset format",
    NO_TESTS + "The tail-padding arithmetic has to be right for every count, batch and rank combination.",
    ["dataset/planner.py", "dataset/stream.py", "dataset/npz_source.py", "dataset/katago.py"],
    [("evaluation tail padding", "dataset/planner.py"),
     ("EvaluationBatchPlannerDataset", "dataset/stream.py"),
     ("reject_duplicate_physical_files", "dataset/stream.py")],
    ["is_real masks", "sample keys"],
)
prop(
    "C08", "Training epochs use each record at most once and honour the step budget",
    "Within one training epoch no record is delivered twice, every batch is full and of a single board size, and the only records "
    "withheld are the incomplete final batch of each board size (or those beyond the configured number of steps). "
    "An epoch with a step budget ends after exactly that many batches, or at the end of the data if that comes first; the last batch of "
    "an epoch is marked as last, the next epoch then starts fresh with a different shuffle, and without shuffle records come in file order.",
    ["configurations", "inputs", "histories"],
    "all record counts, shape mixes, batch sizes, shuffle windows, budgets and epochs up to a bound, for every streaming format",
    NO_TESTS + "Off-by-one at the tail or between epochs shows only for particular count/batch combinations.",
    ["dataset/planner.py", "dataset/source_dataset.py", "dataset/shuffle.py"],
    [("next_batch / _make_batch / begin_next_epoch", "dataset/planner.py"),
     ("terminal look-ahead", "dataset/source_dataset.py")],
    ["BatchEnvelope.token", "sample keys per epoch"],
)
prop(
    "C09", "Mixed datasets follow their blend ratios exactly at every prefix",
    "A mixture of streaming datasets draws from its children in a fixed, evenly interleaved cycle whose counts are "
    "exactly the reduced integer blend ratios, keeps each child's own order, and attributes every record to its child. With "
    "synchronized length only whole cycles are delivered and the mixture stops at the first cycle a child cannot complete; "
    "otherwise remaining children continue until all are exhausted. The record sequence does not depend on how many "
    "records are requested at a time or on save and restore at any position.",
    ["inputs", "configurations", "histories"],
    "all small child lengths, ratios, chunk-request sequences and save/restore points",
    NO_TESTS + "Ratio and end-of-child behaviour depend on every combination of lengths, weights and chunk sizes.",
    ["dataset/composite_source.py", "dataset/__init__.py"],
    [("_weighted_cycle, _fill_cycle(s), next_envelope(s)", "dataset/composite_source.py"),
     ("blend ratio reduction", "dataset/__init__.py")],
    ["record sequence"],
)
prop(
    "C10", "Sequential record files are read exactly once, or fail loudly",
    "Interleaved reading of sequential record files delivers every record (and every sub-record of a multi-position game) "
    "of every file exactly once per cycle, in each file's own order, with a global order that is a pure function of "
    "seed, epoch and files. A file truncated at any byte inside a record raises an error naming the file rather than "
    "silently ending, at no time are more files open than configured, and every file handle is closed at the end, on error and on abandonment.",
    ["inputs", "crash_points", "configurations"],
    "all small file sets, stream counts and quanta; truncation at every byte offset; abandonment after every record",
    NO_TESTS + "A torn file can end at any byte and any interleaving position.",
    ["dataset/sequential_source.py", "dataset/simple_binary.py", "dataset/packed_binary.py"],
    [("InterleavedSequentialSource.next_envelope", "dataset/sequential_source.py"),
     ("entry readers", "dataset/simple_binary.py, dataset/packed_binary.py")],
    ["records", "open file handles", "errors"],
)
prop(
    "C11", "Every NPZ decode path returns the same tensors for the same record",
    "For a given NPZ file the sample for a row is the same whether it is read alone, in a batch, in several batches at once or through "
    "packed record ids, whether the arrays are stored compressed or memory-mapped, whatever the cache size and eviction "
    "history, and whatever threads read concurrently; and it equals the value computed directly from the documented "
    "array layout, channel selection, pass-move and side-to-move conventions. The decoder's cache never exceeds its byte limit, except that the file being read is always kept.",
    ["inputs", "configurations", "histories", "schedules"],
    "all rows, row subsets and orders of small files over all option combinations; all cache access histories up to a depth",
    NO_TESTS + "Path-dependent results appear only for particular row sets, options and cache histories.",
    ["dataset/decoder.py", "dataset/katago.py", "dataset/npz_source.py", "dataset/sparse_numpy.py"],
    [("ProcessedNpzDecoder.decode_one/decode_batch/decode_batches/decode_packed_batch", "dataset/decoder.py"),
     ("DenseNpzSource / IndexedNpzSource materialize paths", "dataset/npz_source.py")],
    ["decoded tensors"],
)
prop(
    "C12", "A saved stream state is only accepted by the data and settings it came from",
    "Restoring a stream state succeeds only if dataset files, file order, filters, seed, batch size, world size, shuffle and "
    "pipeline settings that determine the record order are the ones it was saved under; any single change among them is refused before any "
    "batch is produced. Structurally damaged states (missing, re-typed or contradictory cursor fields) are refused too, and "
    "the encoding of state values used for these digests is injective and round-trips.",
    ["configurations", "inputs", "fault_sequences"],
    "every single-setting change over the full list of order-determining settings; every single-field mutation of saved states",
    NO_TESTS + "A silent wrong resume needs one particular change to be overlooked; all must be tried.",
    ["dataset/planner.py", "dataset/core.py", "dataset/npz_source.py", "dataset/sequential_source.py", "dataset/composite_source.py"],
    [("signature_state / manifest_state", "dataset/planner.py and sources"),
     ("canonical_pipeline_state_bytes", "dataset/core.py")],
    ["load_state_dict outcome"],
)
prop(
    "C13", "Symmetry and side normalisation transform every field of a sample together",
    "Applying a board symmetry, side normalisation or board-size padding to a sample transforms board planes, sparse features, policy target, "
    "position string, last move and value target consistently: the result is the sample of the equally transformed position, "
    "with the real board kept in its declared corner. The eight symmetries form the dihedral group (inverses and "
    "compositions included), non-square boards only use size-preserving ones, and which symmetry a sample gets depends only on seed, epoch and sample identity (map-style datasets add the rank and loader worker).",
    ["inputs", "configurations"],
    "all symmetries (and pairs), all cells of small boards, all option combinations of side normalisation, padding and pass move",
    NO_TESTS + "Field disagreement appears only for specific symmetry/option/board-shape combinations.",
    ["utils/data_utils.py", "dataset/decoder.py", "dataset/simple_binary.py", "dataset/packed_binary.py", "dataset/katago.py"],
    [("Symmetry.apply_to_array/apply_to_move", "utils/data_utils.py"),
     ("post_process_data and vectorized variants", "utils/data_utils.py, dataset/decoder.py")],
    ["sample tensors"],
)
prop(
    "C14", "Game-record formats decode to the positions they encode",
    "Decoding a packed or simple binary training file yields, for every game prefix, the position, side to move, last move, "
    "value target and policy target that the documented bit layout encodes, for every rule, result, board size, move list and (for packed files) "
    "candidate-move list, pass move and evaluation-smoothing option. Entries filtered out by rule or board size are skipped without disturbing the entries after them.",
    ["inputs", "configurations"],
    "all short move sequences on small boards x results x rules x options, encoded by an independent writer",
    NO_TESTS + "Bit-field decoding has to be right for every field value, including boundaries no sample file contains.",
    ["dataset/packed_binary.py", "dataset/simple_binary.py", "utils/winrate_model.py"],
    [("Entry/Move ctypes layout and readers", "dataset/packed_binary.py, dataset/simple_binary.py")],
    ["decoded samples"],
)
prop(
    "C15", "Forbidden-point maps follow the Renju rules on every position",
    "For every position the compiled forbidden-point pipeline marks exactly the empty cells where Black may not play under Renju "
    "(overline, double four, double three with recursively valid threes, five overriding), for any supported board size, either colour convention and any board location. "
    "The map is equivariant under board symmetries, independent of batch composition and of previously processed positions, and leaves its inputs unchanged.",
    ["inputs", "histories"],
    "all placements of stones along lines up to a length, all small-board positions up to a stone count, all symmetries, all call orders of a pool",
    NO_TESTS + "The C++ rule engine is never run by the tests; its correctness is a statement over all positions.",
    ["dataset/pipeline/forbidden_point.py", "dataset/pipeline/forbidden_point_cpp/board.cpp",
     "dataset/pipeline/forbidden_point_cpp/forbidden_point.cpp"],
    [("checkForbiddenPoint", "dataset/pipeline/forbidden_point_cpp/board.cpp"),
     ("ForbiddenPointPipeline", "dataset/pipeline/forbidden_point.py")],
    ["forbidden_point arrays"],
)
prop(
    "C16", "Line encoding is a bijection onto the line-pattern space",
    "For each supported pattern length, every board cell and direction is encoded into an index that is in range, equal for equal "
    "neighbourhoods and different for different ones, with out-of-board cells encoded distinctly from empty ones. The raw and compressed encodings describe the same partition, "
    "the batched, single-board and line-list entry points agree, and the reported total equals the number of realizable patterns and lists each exactly once.",
    ["inputs", "configurations"],
    "all line patterns of each length (exhaustive), all boundary distances, all small boards",
    NO_TESTS + "Tests touch two model configurations; collision freedom is a statement over all patterns.",
    ["dataset/pipeline/line_encoding.py", "dataset/pipeline/line_encoding_cpp/line_encoding.cpp"],
    [("transform_board_to_line_encoding / get_encoding_usage_flags", "dataset/pipeline/line_encoding_cpp/line_encoding.cpp")],
    ["encoding arrays"],
)
prop(
    "C17", "Record filters evaluate expressions exactly and cannot run code",
    "A record filter keeps precisely the rows for which the configured expression is true under ordinary Python/NumPy operator "
    "meaning and precedence, independently of how rows are grouped, and gives the same selection in map-style and streaming datasets. Any expression outside the "
    "documented language (names, attributes, calls, oversized or malformed input) is rejected at construction without being executed.",
    ["inputs", "programs"],
    "all expressions of the grammar up to a depth over small columns; all disallowed node kinds",
    NO_TESTS + "Filters are user programs; only enumeration over programs and rows decides their meaning.",
    ["dataset/filter.py", "dataset/katago.py", "dataset/npz_source.py"],
    [("filter parser/evaluator", "dataset/filter.py")],
    ["selected rows"],
)
prop(
    "C18", "Random decisions are pure functions of their keys and agree on every path",
    "Every random decision of the data path (sample admission, permutations, symmetry choice, per-rank order) is a deterministic function of seed, purpose and "
    "key: repeated, reordered, batched and specialised evaluations agree with the general one, distinct purposes and keys are separated, permutations are "
    "permutations, bounded draws are in range, and raising the sampling rate only ever adds records. Distributed settings that do not divide evenly are rejected.",
    ["inputs", "configurations"],
    "all small keys, sizes, purposes and rates; all evaluation paths",
    NO_TESTS + "Agreement of specialised paths must hold for every key.",
    ["dataset/core.py"],
    [("rng_u64, uniform_below, deterministic_permutation, sample_is_admitted and fast variants", "dataset/core.py")],
    ["returned values"],
)
prop(
    "C19", "Evaluation metrics do not depend on batching, padding or ranks",
    "Loss and metric results of an evaluation pass equal those of a reference computed on the real records, however records are split into "
    "batches' local shares over ranks, whatever padding rows contain, and however many batches each rank happens to have; ranks holding fewer batches take part in every collective and contribute nothing extra. "
    "All ranks perform the same sequence of collectives, and differing metric schemas or a failing rank are reported on every rank instead of hanging.",
    ["configurations", "inputs", "schedules", "fault_sequences"],
    "all distributions of rows over ranks and batches up to a bound, all padding masks, failure of any rank at any step",
    NO_TESTS + "Tests run one process; the property is about every split over several.",
    ["dataset/core.py", "trainer/base.py", "trainer/loss/supervised.py", "trainer/metric/supervised.py"],
    [("SumCount/Maximum/SufficientStats", "dataset/core.py"),
     ("_finalize_masked_global_batch / _iter_collective_safe_batches / _gather_averaged_metrics", "trainer/base.py")],
    ["metrics dict", "collective call sequence"],
)
prop(
    "C20", "A crash at any point of checkpointing leaves a resumable run",
    "If the process dies at any file operation while a checkpoint is being written, replaced or pruned, including with a partially written file, "
    "the next start resumes without error from the last completely written training state, with model, optimizer and data position of that same iteration. "
    "Pruning never removes a file that a retained state needs, and a checkpoint that already exists is never overwritten by a different one.",
    ["crash_points", "histories", "configurations"],
    "every file-system operation of every checkpoint in a run (with torn-write variants), across save schedules and retention settings",
    NO_TESTS + "A crash may fall between any two file operations; no test injects one.",
    ["trainer/base.py", "utils/file_utils.py", "utils/async_checkpoint.py"],
    [("_save_checkpoint / _cleanup_checkpoints / _load_checkpoint", "trainer/base.py"),
     ("save_torch_ckpt temp file + rename", "utils/file_utils.py")],
    ["files in the run directory", "resumed state"],
)
prop(
    "C21", "Background checkpoint writing preserves snapshot, order and errors",
    "A checkpoint handed to the background writer contains the values at the time of submission even if the live tensors change "
    "afterwards, under every interleaving of trainer and writer thread; writes complete in submission order, flush returns only when all are on disk, and a failed "
    "write is reported at the next submit or flush exactly once without losing later ones.",
    ["schedules", "fault_sequences", "histories"],
    "all interleavings of submit, in-place mutation, writer progress, failure and flush up to a depth",
    NO_TESTS + "The race between training and the writer thread depends on scheduling.",
    ["utils/async_checkpoint.py", "trainer/base.py"],
    [("AsyncCheckpointWriter.submit/flush", "utils/async_checkpoint.py")],
    ["files written", "raised errors"],
)
prop(
    "C22", "Interrupting and resuming training reproduces the uninterrupted run",
    "A training run stopped after any saved iteration and restarted from its run directory performs the same remaining steps as the uninterrupted run: "
    "same data, same losses, same learning rates and bit-identical final model, optimizer, scheduler, epoch, row and random-generator state, for every single-worker dataset style, gradient accumulation and save schedule. "
    "Starting over an incompatible run directory (changed optimizer, scheduler, length, data, world size or a multi-worker loader) fails loudly instead of continuing.",
    ["crash_points", "configurations", "histories"],
    "every iteration as interruption point, over dataset styles, accumulation, save schedules and optimizers; chains of interruptions",
    NO_TESTS + "The trainer loop is never executed by the tests.",
    ["trainer/base.py", "utils/training_utils.py", "utils/file_utils.py"],
    [("_load_checkpoint/_restore_continuation_state/_capture RNG", "trainer/base.py"),
     ("ResumableSampler", "utils/training_utils.py")],
    ["checkpoint contents", "log lines"],
)
prop(
    "C23", "A failed training step is never committed or checkpointed",
    "If any part of a training step fails (data fetch, hook, forward, non-finite loss or gradient, backward, optimizer, scheduler, post-step hook, logging, validation or saving), "
    "the run stops with that error, counters stay at the last completed step and the data position never passes an update that was not made, and no checkpoint containing "
    "partially updated or non-finite state is written (a non-finite step may be noticed one step late, but always before validation or a checkpoint); a checkpoint of the last good state is written only when that state is still intact. "
    "One successful step is exactly one optimizer and scheduler update over all its micro-batches.",
    ["fault_sequences", "histories"],
    "a failure injected at every call of every phase of every iteration of a short run, over accumulation and save schedules",
    NO_TESTS + "Needs a fault at each point of the step; tests inject none.",
    ["trainer/base.py"],
    [("_run_train_step / run / _synchronize_step_validity", "trainer/base.py")],
    ["raised error", "files in the run directory", "state counters"],
)
prop(
    "C24", "Optimizer fast paths compute the reference update and round-trip their state",
    "The fused and chained optimizers and gradient utilities give the parameter trajectories of the reference algorithms (AdamW, Muon and their per-parameter split, "
    "norm clipping, weight clipping) for every parameter layout, missing gradient pattern and hyper-parameter combination. Saving and loading optimizer state at any step "
    "continues the identical trajectory, and each parameter is updated by exactly one sub-optimizer with its own settings.",
    ["histories", "configurations", "inputs"],
    "all gradient presence/absence histories up to a depth over parameter layouts and hyper-parameters; state save/restore at every step",
    NO_TESTS + "Trajectory equality is over all histories of present and missing gradients.",
    ["utils/fused_adamw.py", "utils/chained_optimizer.py", "utils/muon.py", "utils/training_utils.py"],
    [("FusedAdamW", "utils/fused_adamw.py"), ("ChainedOptimizer", "utils/chained_optimizer.py"),
     ("build_optimizer, clip_grad_norm, weight clipping", "utils/training_utils.py")],
    ["parameters after each step"],
)
prop(
    "C25", "Learning-rate schedules match their definition at every step and resume point",
    "Each configured learning-rate schedule (constant, step, cosine) yields at every iteration the value given by its definition, depends only on the iteration "
    "(not on where the run was interrupted and restored), never goes negative, and is applied to every parameter group in proportion to its base rate.",
    ["histories", "configurations"],
    "all schedule kinds and small parameter settings, every iteration, every resume point",
    NO_TESTS + "Resume-independence is over all interruption points.",
    ["utils/training_utils.py", "trainer/base.py"],
    [("build_lr_scheduler", "utils/training_utils.py")],
    ["param_groups lr"],
)
prop(
    "C26", "Weight export is atomic and its header states exactly the declared limits",
    "An export that fails or is killed at any write leaves a previously exported file untouched and never leaves a partial file under the target name; a successful one contains a header whose magic, "
    "architecture hash, rule mask, board-size mask and description decode to exactly what was requested, followed by the complete payload. Missing or invalid rules or "
    "board sizes are refused before anything is written, and ONNX version metadata round-trips.",
    ["crash_points", "inputs", "configurations"],
    "every write of an export as crash or failure point; all rule and board-size combinations up to a bound",
    NO_TESTS + "Export is not tested at all; atomicity is over every failure point.",
    ["export.py", "model/serialization/__init__.py"],
    [("export_serialization", "export.py"), ("rules_to_mask/boardsizes_to_mask/get_*_from_args", "model/serialization/__init__.py")],
    ["output file bytes"],
)
prop(
    "C27", "Pipeline autotuning stays within bounds and never affects training data",
    "For every sequence of throughput measurements the automatic tuning of loader settings only proposes values within the configured and hardware bounds, respects settings the user fixed, changes one kind of setting "
    "per decision, and freezes after its budget of decisions. Saved tuning state and the on-disk profile restore to the same decisions, damaged profiles are ignored, and tuning decisions "
    "never change which batches are produced.",
    ["histories", "inputs", "fault_sequences"],
    "all measurement histories over a small alphabet up to a depth, with save/restore at every point",
    NO_TESTS + "A controller's safety is over all measurement histories.",
    ["dataset/telemetry.py", "dataset/katago.py", "trainer/base.py"],
    [("PipelineAutotuner", "dataset/telemetry.py"), ("PipelineProfileStore", "dataset/telemetry.py")],
    ["settings over time"],
)
prop(
    "C28", "The map-style training sampler is exactly resumable and transactional",
    "The resumable sampler visits a full permutation of the dataset every epoch, splits it evenly and disjointly over ranks, and its committed position advances only by committed batches in order. "
    "From every saved position, with any number of staged but uncommitted batches at the time, the restored sampler yields exactly the remaining indices of that epoch and the identical later epochs; "
    "a state from another dataset size, seed, order, rank or rank count is refused.",
    ["histories", "crash_points", "configurations"],
    "all interleavings of staging, commit, rollback, epoch advance and save/restore up to a depth, for all small dataset and batch sizes and ranks",
    NO_TESTS + "Position bookkeeping must hold for every interleaving and size.",
    ["utils/training_utils.py", "trainer/base.py"],
    [("ResumableSampler", "utils/training_utils.py")],
    ["index sequence", "state_dict"],
)
prop(
    "C29", "Device input staging delivers each batch unmodified, in order, within bounds",
    "Loader wrappers that stage batches onto an accelerator deliver exactly the host batches in order, never read further ahead than "
    "configured or past the end of an epoch, never overwrite a staging slot the consumer may still use or the copy has not finished, and close the underlying loader on completion, error or abandonment.",
    ["schedules", "fault_sequences", "histories"],
    "all orders of copy-stream and compute-stream progress up to a bound, all look-ahead depths, an error at each batch, abandonment at each batch",
    NO_TESTS + "There is no accelerator in the tests; stream races are schedule dependent.",
    ["utils/training_utils.py", "trainer/base.py"],
    [("CudaPrefetchLoaderWrapper / StaticSlotLoaderWrapper / DeviceLoaderWrapper", "utils/training_utils.py")],
    ["delivered batches", "stream events"],
)
prop(
    "C30", "Dataset and checkpoint discovery is deterministic and complete",
    "Given files and directories, the list of data files contains every matching file exactly once in an order independent of directory listing order, the newest checkpoint is chosen by iteration number for every naming "
    "and set of files, and configuration merging overrides exactly the given leaves without altering its inputs. Splitting an archive partitions its rows: each row lands in exactly one part, aligned across arrays.",
    ["inputs", "configurations"],
    "all small directory trees and listing orders, all checkpoint-name sets, all nested configs up to a depth, all row/part counts",
    NO_TESTS + "Listing order and name sets are environment inputs tests do not vary.",
    ["utils/file_utils.py", "utils/misc_utils.py", "tools/npzsplit.py"],
    [("make_file_list, find_latest_ckpt, get_iteration_from_ckpt_filename", "utils/file_utils.py"),
     ("deep_update_dict", "utils/misc_utils.py"), ("npzsplit", "tools/npzsplit.py")],
    ["returned lists", "output archives"],
)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for e in P:
        f.write(json.dumps(e) + "\n")
print(len(P), "properties")
