"""NPZ decoding: every way of reading rows (alone, in a batch, in several batches, by packed ids, through the dataset,
from the map-style class) is driven over all small row selections, options, file layouts, cache histories and thread
interleavings, and compared with tensors computed directly from the arrays."""
import gc
import hashlib
import io
import itertools
import os
import sys
import types
import zipfile
from collections import Counter

import numpy as np

from mcheck import fixtures as F
from mcheck import threads as TH
from mcheck.sched import Tape
from mcheck.simcuda import Deadlock, Sim

LEVEL = "model_checking"
ASSUMPTIONS = [
    "five rows in two or three files of 5x5 (and 5x6, 6x6) boards; batches of up to three rows, pairs of batches",
    "thread schedules switch at lock operations and file reads (any number of times) and at every line of the decoder "
    "(once)",
]
SIZES = {(5, 5), (5, 6), (6, 6)}


# ------------------------------------------------------------------ scenarios
def scenarios(tier):
    deep = tier == "thorough"
    for store in ("plain", "compressed", "both"):
        for pt in ("flat", "plane", "none", "some"):
            for has_pass in (False, True):
                if has_pass and pt in ("plane",):
                    continue
                for gf in ("yes", "no", "some"):
                    for side in (False, True):
                        yield "processed", {"store": store, "pt": pt, "gf": gf, "opts": {"has_pass_move": has_pass,
                                            "fixed_side_input": side}, "long": deep or store == "both" and gf == "yes"}
    extras = [
        {"fixed_board_size": (7, 6)}, {"filter_stm": 1}, {"filter_stm": -1}, {"filter_condition": "vt[:,0]>1/1024"},
        {"filter_condition": "(vt[:,0]*1024)%2==0", "filter_stm": -1}, {"board_input_channels": [2, 0]},
        {"value_target_channels": [2, 0, 1]}, {"stm_input_channel": 1, "gf": 2},
        {"board_input_channels": [1, 2], "value_target_channels": [1, 2, 0], "fixed_side_input": True},
        {"stm_input_channel": 1, "gf": 2, "fixed_side_input": True, "filter_stm": 1},
        {"apply_symmetry": True}, {"apply_symmetry": "flip"}, {"apply_symmetry": "rotate", "fixed_side_input": True},
        {"apply_symmetry": True, "fixed_board_size": (6, 7)},
    ]
    for extra in extras:
        for store in ("plain", "compressed", "both"):
            for pt in ("flat", "none", "some"):
                for has_pass in (False, True):
                    yield "processed", {"store": store, "pt": pt, "gf": "yes", "opts": {"has_pass_move": has_pass, **extra},
                                        "long": deep}
    for store in ("fortran", "fortran-compressed", "header2", "header2-compressed", "partial", "wide", "wide-compressed",
                  "bigendian", "bigendian-compressed", "extra-field"):
        for pt in ("flat", "plane", "none"):
            for extra in ({}, {"fixed_side_input": True}, {"filter_stm": 1}, {"fixed_board_size": (6, 6)}):
                yield "processed", {"store": store, "pt": pt, "gf": "yes", "opts": {"has_pass_move": False, **extra},
                                    "long": deep}
    for extra in [{}, {"fixed_side_input": True}, {"has_pass_move": True}, {"filter_stm": 1}, {"filter_stm": -1},
                  {"filter_condition": "globalTargetsNC[:,0]>1/1024"}, {"value_td_level": 1},
                  {"fixed_board_size": (7, 7)}, {"fixed_board_size": (7, 7), "has_pass_move": True},
                  {"fixed_side_input": True, "value_td_level": 1, "has_pass_move": True}, {"apply_symmetry": True}]:
        for komi in (False, True):
            for store in ("plain", "compressed"):
                for mixed in (False, True):
                    yield "raw", {"opts": extra, "komi": komi, "store": store, "mixed": mixed, "long": deep}
    for extra in [{}, {"fixed_side_input": True}, {"fixed_board_size": (7, 7)}, {"apply_symmetry": True},
                  {"fixed_side_input": True, "fixed_board_size": (6, 6)}, {"drop_extra": True}]:
        yield "sparse", {"opts": extra, "long": deep}
    for store in ("plain", "compressed", "filtered"):
        for first in range(6):
            yield "cache", {"store": store, "first": first, "depth": 6 if deep else 5}
    for store in ("plain", "compressed"):
        for case in ("same", "cross", "evict", "three", "crowd", "resize") if deep else ("same", "cross", "evict", "resize"):
            for fault in (None, 0, 1):
                yield "concurrent", {"store": store, "case": case, "fault": fault, "lines": False, "bound": 6 if deep else 2}
        if not deep:
            yield "concurrent", {"store": store, "case": "crowd", "fault": 0, "lines": False, "bound": 2}
        for case in ("same", "evict", "resize"):
            if deep or case != "evict":
                yield "concurrent", {"store": store, "case": case, "fault": None, "lines": True, "bound": 1}


# ------------------------------------------------------------------ reference
def pad(planes, size):
    out = np.zeros(planes.shape[:-2] + tuple(size), dtype=planes.dtype)
    out[..., :planes.shape[-2], :planes.shape[-1]] = planes
    return out


def finish(board, size, stm, value, policy, opts, sparse=None):
    """Side normalisation and padding of one logical sample (board (C,H,W); policy (H,W) and optional pass weight)."""
    plane, last = policy
    if opts.get("fixed_side_input") and stm.reshape(-1)[0] > 0:
        board = board[::-1]
        value = value[[1, 0] + list(range(2, len(value)))]
        if sparse is not None:
            sparse = sparse[[4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10]]
    target = opts.get("fixed_board_size")
    if target:
        board, plane = pad(board, target), pad(plane, target)
        sparse = pad(sparse, target) if sparse is not None else None
    flat = plane if last is None else np.concatenate([plane.reshape(-1), [last]])
    out = {"board_size": np.array(size), "board_input": board, "stm_input": stm, "value_target": value,
           "policy_target": flat}
    if sparse is not None:
        out["sparse_feature_input"] = sparse
        out["sparse_feature_dim"] = np.array([251] * 8 + [65535] * 4)
    return out


def processed_ref(arrays, row, opts):
    bf, vt = arrays["bf"][row], arrays["vt"][row]
    gf = arrays["gf"][row] if "gf" in arrays else np.zeros(1)
    if opts.get("filter_stm") is not None and gf[0] != opts["filter_stm"]:
        return None
    rule = opts.get("filter_condition")
    number = round(float(vt[0]) * 1024)
    if rule == "vt[:,0]>1/1024" and not number > 1:
        return None
    if rule == "(vt[:,0]*1024)%2==0" and number % 2:
        return None
    if opts.get("board_input_channels") is not None:
        bf = bf[opts["board_input_channels"]]
    if opts.get("stm_input_channel") is not None:
        gf = gf[[opts["stm_input_channel"]]]
    if opts.get("value_target_channels") is not None:
        vt = vt[opts["value_target_channels"]]
    h, w = bf.shape[-2:]
    has_pass = opts.get("has_pass_move")
    if "pt" not in arrays:
        policy = np.zeros((h, w)), 0.0 if has_pass else None
    elif arrays["pt"].ndim == 3:
        policy = arrays["pt"][row], None
    else:
        flat = arrays["pt"][row]
        policy = flat[:-1].reshape(h, w), flat[-1] if has_pass else None
    return finish(bf, (h, w), gf, vt, policy, opts)


def rewrite(path, store):
    """Another legal on-disk form of the same archive."""
    with np.load(path) as z:
        arrays = {k: z[k] for k in z.files if k != "notes"}
    compress = store.endswith("compressed")
    if store.startswith("fortran"):
        arrays = {k: np.asfortranarray(v) for k, v in arrays.items()}
    elif store.startswith("wide"):
        arrays = {k: v.astype(np.uint8 if k == "bf" else np.float64) for k, v in arrays.items()}
    elif store.startswith("bigendian"):
        arrays = {k: v.astype(">i2" if k == "bf" else ">f4") for k, v in arrays.items()}
    with zipfile.ZipFile(path, "w") as out:
        for n, (key, value) in enumerate(reversed(arrays.items())):
            data = io.BytesIO()
            np.lib.format.write_array(data, value, version=(2, 0) if store.startswith("header2") else (1, 0))
            info = zipfile.ZipInfo(key + ".npy")
            info.extra = b"\x99\x99\x03\x00abc" if store == "extra-field" else b""
            info.compress_type = zipfile.ZIP_DEFLATED if compress or store == "partial" and n % 2 else zipfile.ZIP_STORED
            out.writestr(info, data.getvalue())
        out.writestr("notes.npy", b"unrelated")


def bits(packed, size):
    return np.array([(packed[k >> 3] >> (7 - (k & 7))) & 1 for k in range(size * size)]).reshape(size, size)


def raw_ref(arrays, row, opts, size):
    g, t = arrays["globalInputNC"][row], arrays["globalTargetsNC"][row]
    komi = len(g) > 1
    side = g[5] if komi else g[0]
    stm = (1 if side > 0 else -1) if komi else side
    if opts.get("filter_stm") is not None and stm != opts["filter_stm"]:
        return None
    if opts.get("filter_condition") and not round(float(t[0]) * 1024) > 1:
        return None
    planes = arrays["binaryInputNCHWPacked"][row]
    mask = bits(planes[0], size)
    board = np.stack([bits(planes[1], size), bits(planes[2], size)])
    k = 4 * opts.get("value_td_level", 0)
    weights = arrays["policyTargetsNCMove"][row, 0].astype(np.float64)
    if opts.get("has_pass_move"):
        weights = weights / (weights.sum() + 1e-9)
        policy = weights[:-1].reshape(size, size), weights[-1]
    else:
        weights = weights[:-1] / (weights[:-1].sum() + 1e-9)
        policy = weights.reshape(size, size), None
    real = (int(mask[:, 0].sum()), int(mask[0].sum()))
    return finish(board, real, np.array([stm]), t[k:k + 3], policy, opts)


def sparse_ref(arrays, row, opts, size):
    planes = arrays["binaryInputNCHWPacked"][row]
    board = np.stack([bits(planes[1], size), bits(planes[2], size)])
    p = arrays["policyTargetsNCHW"][row, 0].astype(np.float64)
    policy = (p / (p.sum() + 1e-7)).reshape(size, size), None
    features = np.concatenate([arrays["sparseInputNCHWU8"][row].astype(np.int64),
                               arrays["sparseInputNCHWU16"][row].astype(np.int64)]).reshape(12, size, size)
    if opts.get("drop_extra"):
        features = None
    return finish(board, (size, size), arrays["globalInputNC"][row][:1], arrays["globalTargetsNC"][row][:3], policy, opts,
                  features)


def same(ctx, got, want, where):
    """One row of a decoded batch against the reference sample."""
    for key, value in want.items():
        ctx.check(key in got, "a field is missing", field=key, **where)
        have = np.asarray(got[key]).astype(np.float64)
        ctx.equal(have.shape, np.shape(value), "a field has another shape", field=key, **where)
        ctx.check(np.allclose(have, np.asarray(value, dtype=np.float64), rtol=2e-6, atol=1e-7),
                  "a decoded field differs from the stored arrays", field=key, got=have.tolist(),
                  want=np.asarray(value).tolist(), **where)


def row_of(batch, k):
    return {key: value[k] for key, value in batch.items()}


def fingerprint(sample):
    return tuple(sorted((k, F.tensor_repr(np.asarray(v))) for k, v in sample.items()))


# ------------------------------------------------------------------ reading
def selections(n, longest):
    for k in range(1, longest + 1):
        yield from itertools.permutations(range(n), k)


def packed_batch(source, envelopes):
    from dataset.core import canonical_pipeline_state_bytes
    from dataset.packed import PackedEnvelopeBatch

    ids = np.array([e.payload for e in envelopes], dtype=np.uint64)
    identity = hashlib.sha256(canonical_pipeline_state_bytes(source.manifest_state())).hexdigest()
    return PackedEnvelopeBatch(ids, source.envelopes_from_record_ids, identity)


def compare_paths(ctx, ds, expected, symmetric, longest, info):
    """Drive the record source of a dataset through every selection and path."""
    F.stream(ds)
    source = ds._partitioned_stream.source
    cursor = source.start_epoch(0, 0)
    envelopes, _ = source.next_envelopes(cursor, 1000)
    ctx.equal(len(envelopes), len(expected), "the number of selected rows differs", **info)
    for limit in (1, 2):
        again, position = [], source.start_epoch(0, 0)
        while True:
            part, position = source.next_envelopes(position, limit)
            if not part:
                break
            again += part
        ctx.equal([e.record_key for e in again], [e.record_key for e in envelopes], "reading in chunks changes the rows",
                  **info)
    single = []
    for k, e in enumerate(envelopes):
        batch = source.materialize_batch([e])
        if symmetric:
            single.append(fingerprint(row_of(batch, 0)))
        else:
            same(ctx, row_of(batch, 0), expected[k], {"row": k, "path": "alone", **info})
            single.append(fingerprint(row_of(batch, 0)))
        ref = types.SimpleNamespace(path=path_of(source, e),
                                    address=(e.record_key[3][-1],), board_size=None, sample_key=e.record_key)
        ctx.equal(fingerprint({k2: v for k2, v in source.decoder.decode_one(ref).items() if k2 in batch}), single[k],
                  "decoding one record differs from its batch of one", row=k, **info)
        ctx.trace()

    def judge(batch, rows, path):
        ctx.step()
        ctx.equal({len(v) for v in batch.values()}, {len(rows)}, "a batch has another number of rows",
                  path=path, rows=rows, **info)
        for i, r in enumerate(rows):
            if fingerprint(row_of(batch, i)) != single[r]:
                have, want = row_of(batch, i), row_of(source.materialize_batch([envelopes[r]]), 0)
                bad = [k for k in want if F.tensor_repr(np.asarray(have.get(k))) != F.tensor_repr(np.asarray(want[k]))]
                ctx.check(False, "a record decodes differently with the rows around it", path=path, rows=rows, row=r,
                          fields=bad, **info)

    shapes = [e.shape_code for e in envelopes]
    for rows in selections(len(envelopes), longest):
        if len({shapes[r] for r in rows}) > 1:
            continue
        ctx.state(info["case"], rows)
        chosen = [envelopes[r] for r in rows]
        judge(source.materialize_batch(chosen), rows, "batch")
        if hasattr(source, "materialize_batch_with_keys"):
            data, keys = source.materialize_batch_with_keys(chosen)
            judge(data, rows, "batch with keys")
            ctx.equal(list(keys), [e.record_key for e in chosen], "keys do not name the rows", **info)
        forms = [("", chosen)]
        if hasattr(source, "envelopes_from_record_ids"):
            packed = packed_batch(source, chosen)
            forms.append(("packed ", packed))
            judge(source.materialize_batch(packed), rows, "packed batch")
            if hasattr(source, "materialize_batch_with_keys"):
                data, keys = source.materialize_batch_with_keys(packed)
                judge(data, rows, "packed batch with keys")
                ctx.equal(list(keys), [e.record_key for e in chosen], "packed keys do not name the rows", **info)
            ctx.equal(list(source.sample_keys_for_batch(packed)), [e.record_key for e in chosen], "packed sample keys", **info)
        if len(rows) > 1 and hasattr(source, "materialize_batches"):
            for name, form in forms:
                for cut in range(1, len(rows)):
                    parts = [form[:cut], form[cut:]]
                    for data, want in zip(source.materialize_batches(parts), (rows[:cut], rows[cut:])):
                        judge(data, want, name + "batches")
                    for (data, keys), want in zip(source.materialize_batches_with_keys(parts), (rows[:cut], rows[cut:])):
                        judge(data, want, name + "batches with keys")
                        ctx.equal(list(keys), [envelopes[r].record_key for r in want], "batch keys do not name the rows",
                                  **info)
    return single


def path_of(source, envelope):
    return next(d.path for d in source.descriptors if d.file_ordinal == envelope.source_id)


def through_dataset(ctx, build, expected, single, symmetric, info):
    """The dataset's own batches (in file order), for every batch size and both modes."""
    for batch in (1, 2, 3, 5):
        for mode in ("train", "validate"):
            groups = Counter(tuple(e["board_size"]) for e in expected)
            if not expected or mode == "train" and max(groups.values()) < batch:
                continue
            ds = build(batch, mode)
            got = []
            for env in F.epoch(ds, mode):
                got += [row_of(env.data, i) for i, real in enumerate(F.mask_of(env)) if real]
            F.close(ds)
            ctx.step()
            ctx.trace()
            got = [fingerprint({k: v for k, v in g.items() if k in dict(single[0])}) for g in got]
            ctx.check(set(got) <= set(single), "the dataset delivers a sample no row decodes to", batch=batch, mode=mode, **info)
            if mode == "validate":
                ctx.equal(sorted(got), sorted(single), "the dataset's samples are not the rows'", batch=batch, **info)


# ------------------------------------------------------------------ kinds
def processed(ctx, store, pt, gf, opts, long):
    opts = dict(opts)
    channels = opts.pop("gf", 1)
    root = ctx.mkdir()
    paths, start = [], 0
    for f, n in enumerate((3, 2)):
        paths.append(F.write_processed(
            os.path.join(root, f"f{f}.npz"), range(start, start + n), (5, 5), channels=3 if "board_input_channels" in opts else 2,
            pt=("flat" if f == 0 else None) if pt == "some" else None if pt == "none" else pt,
            gf=gf == "yes" or gf == "some" and f == 0, gf_channels=channels,
            compress=store == "compressed" or store == "both" and f == 1))
        start += n
        if store not in ("plain", "compressed", "both"):
            rewrite(paths[-1], store)
    expected = []
    for p in paths:
        with np.load(p) as z:
            arrays = {k: z[k] for k in z.files if k != "notes"}
        for row in range(len(arrays["bf"])):
            ref = processed_ref(arrays, row, opts)
            if ref is not None:
                expected.append(ref)
    info = {"case": ("processed", store, pt, gf, tuple(sorted((k, repr(v)) for k, v in opts.items())))}
    symmetric = bool(opts.get("apply_symmetry"))
    for kind in ("iterative_processed_katago_numpy", "batched_processed_katago_numpy"):
        more = dict(prefetch_threads=0, pin_memory=False) if kind.startswith("batched") else {}

        def build(batch, mode):
            return F.build((kind, paths, {"boardsizes": [(5, 5)]}), F.context(batch, mode=mode), shuffle=False, **opts, **more)

        ds = build(1, "train")
        single = compare_paths(ctx, ds, expected, symmetric, 4 if long else 3, {**info, "kind": kind})
        F.close(ds)
        through_dataset(ctx, build, expected, single, symmetric, {**info, "kind": kind})
    whole = pt != "some" and gf != "some"
    if whole and not symmetric:
        ds = F.build(("processed_katago_numpy", paths, {"boardsizes": [(5, 5)]}), F.context(1), shuffle=False, **opts)
        ctx.equal(len(ds), len(expected), "the map-style dataset selects other rows", **info)
        for k, want in enumerate(expected):
            same(ctx, ds[k], want, {"row": k, "path": "map-style", **info})
            ctx.trace()
    if symmetric:
        ctx.tag("symmetric")
    ctx.tag("rows", len(expected))


def raw(ctx, opts, komi, store, mixed, long):
    root = ctx.mkdir()
    paths, start = [], 0
    size = 6 if mixed else 5
    board = (lambda i: (6, 6) if i % 2 else (5, 5)) if mixed else None
    for f, n in enumerate((3, 2)):
        paths.append(F.write_raw(os.path.join(root, f"f{f}.npz"), range(start, start + n), size, board=board, komi=komi,
                                 compress=store == "compressed"))
        start += n
    expected = []
    for p in paths:
        with np.load(p) as z:
            arrays = {k: z[k] for k in z.files if k != "notes"}
        for row in range(len(arrays["globalInputNC"])):
            ref = raw_ref(arrays, row, opts, size)
            if ref is not None:
                expected.append(ref)
    info = {"case": ("raw", komi, store, mixed, tuple(sorted((k, repr(v)) for k, v in opts.items())))}
    symmetric = bool(opts.get("apply_symmetry"))

    def build(batch, mode):
        return F.build(("iterative_katago_numpy", paths, {"boardsizes": [(5, 5), (6, 6)]}), F.context(batch, mode=mode),
                       shuffle=False, **opts)

    ds = build(1, "train")
    single = compare_paths(ctx, ds, expected, symmetric, 4 if long else 3, info)
    F.close(ds)
    through_dataset(ctx, build, expected, single, symmetric, info)
    if not symmetric:
        ds = F.build(("katago_numpy", paths, {"boardsizes": [(5, 5), (6, 6)]}), F.context(1), shuffle=False, **opts)
        ctx.equal(len(ds), len(expected), "the map-style dataset selects other rows", **info)
        for k, want in enumerate(expected):
            same(ctx, ds[k], want, {"row": k, "path": "map-style", **info})
            ctx.trace()
    ctx.tag("raw rows", len(expected))


def sparse(ctx, opts, long):
    root = ctx.mkdir()
    paths, start = [], 0
    for f, n in enumerate((3, 2)):
        paths.append(F.write_sparse(os.path.join(root, f"f{f}.npz"), range(start, start + n), 5))
        start += n
    expected = []
    for p in paths:
        with np.load(p) as z:
            arrays = {k: z[k] for k in z.files if k != "notes"}
        expected += [sparse_ref(arrays, r, opts, 5) for r in range(len(arrays["globalInputNC"]))]
    info = {"case": ("sparse", tuple(sorted((k, repr(v)) for k, v in opts.items())))}
    symmetric = bool(opts.get("apply_symmetry"))

    def build(batch, mode):
        return F.build(("iterative_sparse_numpy", paths, {"boardsizes": [(5, 5)]}), F.context(batch, mode=mode),
                       shuffle=False, **opts)

    ds = build(1, "train")
    single = compare_paths(ctx, ds, expected, symmetric, 4 if long else 3, info)
    F.close(ds)
    through_dataset(ctx, build, expected, single, symmetric, info)
    ctx.tag("sparse rows", len(expected))


# ------------------------------------------------------------------ cache
def small_files(root, store):
    paths = []
    for f, n in enumerate((2, 4, 3)):
        paths.append(F.write_processed(os.path.join(root, f"f{f}.npz"), range(10 * f, 10 * f + n), (5, 5),
                                       compress=store == "compressed"))
    return paths


def decoder_of(store):
    from dataset.decoder import ProcessedNpzDecoder

    return ProcessedNpzDecoder(boardsizes={(5, 5)}, runtime_context=F.context(1),
                               filter_condition="vt[:,0]>=0" if store == "filtered" else None)


def held(decoder):
    """Bytes of array data kept alive by the decoder (memory-mapped files are not memory it holds)."""
    seen, total, stack, files = set(), 0, [vars(decoder)], 0
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, (type, types.ModuleType, types.FunctionType)):
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            base = o
            while isinstance(base, np.ndarray) and base.base is not None:
                base = base.base
            if isinstance(base, np.ndarray) and id(base) not in seen | {id(o)} or base is o:
                seen.add(id(base))
                total += base.nbytes
            continue
        stack.extend(gc.get_referents(o))
    return total


def cache(ctx, store, first, depth):
    root = ctx.mkdir()
    paths = small_files(root, store)
    truth, weight = {}, {}
    for p in paths:
        with np.load(p) as z:
            arrays = {k: z[k] for k in z.files if k != "notes"}
        truth[p] = [processed_ref(arrays, r, {}) for r in range(len(arrays["bf"]))]
        weight[p] = sum(a.nbytes for a in arrays.values())
    w = [weight[p] for p in paths]
    limits = [(1, 10**9), (2, w[0] + w[2]), (3, w[1])]
    ops = [("read", i) for i in range(3)] + [("limit", l) for l in limits]
    for rest in itertools.product(ops, repeat=depth - 1):
        decoder = decoder_of(store)
        entries, room = None, None
        for op, value in (ops[first],) + rest:
            ctx.step()
            if op == "limit":
                entries, room = value
                decoder.configure_cache(entries=entries, byte_capacity=room)
                current = None
            else:
                path = paths[value]
                row = (value + ctx.transitions) % len(truth[path])
                ref = types.SimpleNamespace(path=path, address=(row,), board_size=(5, 5), sample_key=())
                same(ctx, decoder.decode_one(ref), truth[path][row], {"path": value, "history": (ops[first],) + rest})
            report = decoder.cache_state()
            real = held(decoder)
            ctx.state(store, first, report["entries"], report["bytes"], entries, value)
            if entries is not None:
                largest = max(w)
                ctx.check(report["entries"] <= max(entries, 1), "the cache holds more files than its limit", report=report)
                ctx.check(report["bytes"] <= room or report["entries"] <= 1, "the cache exceeds its byte limit", report=report)
                ctx.check(real <= room or real <= largest and real in w, "more array data is kept alive than the limit allows",
                          report=report, real=real, limit=room, history=(ops[first],) + rest)
            ctx.check(store == "plain" or real <= report["bytes"], "the cache report misses array data it keeps",
                      report=report, real=real)
        ctx.trace()
    ctx.tag("cache histories", len(ops) ** (depth - 1))


# ------------------------------------------------------------------ threads
def concurrent(ctx, store, case, fault, lines, bound):
    import dataset.decoder as D

    root = ctx.mkdir()
    paths = small_files(root, store)
    truth = {}
    for p in paths:
        with np.load(p) as z:
            arrays = {k: z[k] for k in z.files if k != "notes"}
        truth[p] = [processed_ref(arrays, r, {}) for r in range(len(arrays["bf"]))]
    plans = {"same": [[0], [0]], "crowd": [[0], [0], [0]], "cross": [[0, 1], [1, 0]], "evict": [[0, 1], [0, 1]], "three": [[0], [0], [1]],
             "resize": [[0, 1], ["limit"]]}[case]
    tape = Tape()
    runs = 0
    while True:
        sim = Sim(tape, bound)
        results, loads = [], [0]

        def open_file(real, *a, **k):
            loads[0] += 1
            if fault is not None and loads[0] == fault + 1:
                raise OSError("injected read error")
            return real(*a, **k)

        def worker(number, plan):
            if lines:
                sys.settrace(TH.line_tracer(sim, D.__file__))
            try:
                for item in plan:
                    if item == "limit":
                        decoder.configure_cache(entries=1, byte_capacity=1)
                        continue
                    refs = [types.SimpleNamespace(path=paths[item], address=(r,), board_size=(5, 5), sample_key=())
                            for r in (1, 0)]
                    try:
                        results.append((number, item, decoder.decode_batch(refs), None))
                    except (RuntimeError, OSError) as exc:
                        results.append((number, item, None, exc))
            finally:
                sys.settrace(None)

        saved = D.zipfile.ZipFile
        with TH.installed(sim, D) as ns:
            decoder = decoder_of(store)
            if case == "evict":
                decoder.configure_cache(entries=1, byte_capacity=10**6)

            class Archive(saved):
                def __init__(self, *a, **k):
                    sim.point()
                    open_file(super().__init__, *a, **k)

            D.zipfile.ZipFile = Archive
            try:
                threads = [ns.Thread(target=worker, args=(i, plan)) for i, plan in enumerate(plans)]
                for t in threads:
                    t.start()
                for t in threads:
                    t.join()
            except Deadlock:
                ctx.check(False, "readers wait for each other forever", schedule=[v for v, _ in tape.used])
            finally:
                D.zipfile.ZipFile = saved
            where = {"schedule": [v for v, _ in tape.used], "case": case, "fault": fault}
            ctx.check(not sim.lost, "a reader dies with an unexpected error", error=repr(sim.lost[:1]), **where)
            failures = [r for r in results if r[3] is not None]
            ctx.check(len(failures) <= (0 if fault is None else 1), "one failed read fails other readers",
                      errors=[repr(f[3]) for f in failures], **where)
            for number, item, data, error in results:
                if data is not None:
                    for k, r in enumerate((1, 0)):
                        same(ctx, row_of(data, k), truth[paths[item]][r], where)
            ctx.equal(len(results), sum(i != "limit" for plan in plans for i in plan), "a read never finished", **where)
            for item in range(3):      # afterwards every file still reads correctly
                ref = types.SimpleNamespace(path=paths[item], address=(1,), board_size=(5, 5), sample_key=())
                same(ctx, decoder.decode_one(ref), truth[paths[item]][1], where)
            report = decoder.cache_state()
            if case in ("evict", "resize"):
                ctx.check(report["entries"] <= report["capacity_entries"], "the cache stays above its limit", report=report,
                          **where)
        runs += 1
        ctx.trace()
        ctx.step(len(tape.used))
        ctx.state(store, case, fault, tuple(v for v, _ in tape.used))
        if runs >= 6000:
            ctx.tag("schedule limit")
            break
        if not tape.advance():
            break
    ctx.tag("schedules", runs)
