"""Symmetry, side normalisation and padding: every symmetry of every small board is applied to arrays, moves and whole
samples and compared with a coordinate-wise definition; through the datasets, every record must come out as exactly one
symmetry of the plain record, the same one wherever and whenever its (seed, epoch, record) is read."""
import itertools
import math

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = ["boards up to 6x6 (planes up to 8x7); every cell carries its own value, so one execution fixes the whole map"]
NAMES = ("IDENTITY", "ROTATE_90", "ROTATE_180", "ROTATE_270", "FLIP_X", "FLIP_Y", "FLIP_XY", "FLIP_YX")
SWAP = [4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10]
TYPES = {"default": NAMES, "rotate": NAMES[:4], "flip": ("IDENTITY",) + NAMES[4:],
         "flip_diag_rotate180": ("IDENTITY", "ROTATE_180", "FLIP_XY", "FLIP_YX")}


def image(name, x, y, h, w):
    """Where the cell (column x, row y) of an h x w board goes."""
    return {"IDENTITY": (x, y), "ROTATE_90": (y, w - 1 - x), "ROTATE_180": (w - 1 - x, h - 1 - y),
            "ROTATE_270": (h - 1 - y, x), "FLIP_X": (x, h - 1 - y), "FLIP_Y": (w - 1 - x, y), "FLIP_XY": (y, x),
            "FLIP_YX": (h - 1 - y, w - 1 - x)}[name]


def mapped(name, plane, h, w):
    """plane (..., H, W) with its top-left h x w corner transformed."""
    out = plane.copy()
    if name in NAMES[1:4:2] + NAMES[6:] and h != w:
        assert plane.shape[-2:] == (h, w)
        out = np.zeros(plane.shape[:-2] + (w, h), plane.dtype)
    for y in range(h):
        for x in range(w):
            a, b = image(name, x, y, h, w)
            out[..., b, a] = plane[..., y, x]
    return out


def available(kind, h, w):
    kind = "default" if kind is True else kind
    if h == w:
        return TYPES[kind]
    return ("IDENTITY", "ROTATE_180", "FLIP_X", "FLIP_Y") if kind == "default" else None


def scenarios(tier):
    deep = tier == "thorough"
    top = 7 if deep else 5
    for h in range(1, top + 1):
        for w in range(1, top + 1):
            yield "group", {"h": h, "w": w}
    real = [(h, w) for h in range(1, 6) for w in range(1, 6)] if deep else [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (4, 4)]
    for size in real:
        for grow in ((0, 0), (1, 0), (0, 1), (2, 1)) if deep else ((0, 0), (1, 1), (2, 1)):
            yield "sample", {"real": size, "plane": (size[0] + grow[0], size[1] + grow[1]), "deep": deep}
    kinds = ["processed", "batched", "map_processed", "raw", "map_raw", "sparse", "simple", "simple_lz4", "packed", "composite",
             "processed+mixed", "batched+mixed", "raw+mixed", "simple+mixed", "packed+mixed", "composite+mixed", "sparse+mixed"]
    for kind in kinds:
        for sym in (True, "rotate", "flip", "flip_diag_rotate180") if deep else (True, "flip"):
            for extra in [{}, {"fixed_side_input": True}, {"fixed_board_size": [7, 8]},
                          {"has_pass_move": True}, {"fixed_board_size": [7, 7], "has_pass_move": True, "fixed_side_input": True}]:
                if sym != True and extra and not deep:  # noqa: E712
                    continue
                base = kind.split("+")[0]
                if "has_pass_move" in extra and base in ("sparse", "simple", "simple_lz4", "composite"):
                    continue
                if base == "composite" and "fixed_board_size" in extra:
                    continue
                if "+" in kind and base == "batched" and extra and not deep:
                    continue
                yield "delivered", {"kind": kind, "sym": sym, "extra": extra, "epochs": 6 if deep else 3}
    yield "nonsquare", {}


# ------------------------------------------------------------------ group
def group(ctx, h, w):
    from utils.data_utils import Move, Symmetry

    ctx.equal([s.name for s in Symmetry], list(NAMES), "the list of symmetries")
    for kind in TYPES:
        want = available(kind, h, w)
        if want is None:
            ctx.raises(lambda: Symmetry.available_symmetries((h, w), kind),
                       "a size-changing symmetry type is offered for a non-square board", ValueError, kind=kind, size=(h, w))
        else:
            ctx.equal([s.name for s in Symmetry.available_symmetries((h, w), kind)], list(want), "offered symmetries", kind=kind)
            for s in want:
                ctx.check(mapped(s, np.zeros((h, w)), h, w).shape == (h, w), "a symmetry changes the board size", s=s)
    ctx.raises(lambda: Symmetry.available_symmetries((h, w), "other"), "an unknown symmetry type is accepted",
               ValueError)
    cells = np.arange(h * w, dtype=np.int64).reshape(h, w)
    stack = np.stack([cells, cells + 100])[None]
    keep = stack.copy()
    table = {}
    for s in Symmetry:
        got = s.apply_to_array(stack)
        ctx.equal(got.tolist(), mapped(s.name, stack, h, w).tolist(), "array transformed wrongly", symmetry=s.name, size=(h, w))
        ctx.equal(stack.tolist(), keep.tolist(), "the input array was changed")
        got[...] = -1
        ctx.equal(stack.tolist(), keep.tolist(), "the result shares memory with its input", symmetry=s.name)
        moved = np.moveaxis(stack, (-2, -1), (0, 1))
        ctx.equal(s.apply_to_array(moved, y_dim=0, x_dim=1).tolist(),
                  np.moveaxis(mapped(s.name, stack, h, w), (-2, -1), (0, 1)).tolist(), "array transformed wrongly along other axes",
                  symmetry=s.name)
        table[s.name] = s.apply_to_array(cells)
        legal = s.name in available("default", h, w)
        ctx.check(s.apply_to_move(Move.PASS, (h, w)).is_pass, "pass moved", symmetry=s.name)
        for y in range(-1, h + 1):
            for x in range(-1, w + 1):
                ctx.state("move", s.name, h, w, x, y)
                ctx.step()
                inside = 0 <= x < w and 0 <= y < h
                if x < 0 and y < 0:
                    continue
                if not inside or not legal:
                    ctx.raises(lambda: s.apply_to_move(Move(x, y), (h, w)),
                               "a move is transformed off the board", ValueError, symmetry=s.name, move=(x, y), size=(h, w))
                    continue
                m = s.apply_to_move(Move(x, y), (h, w))
                ctx.equal((m.x, m.y), image(s.name, x, y, h, w), "move transformed wrongly", symmetry=s.name, move=(x, y))
                ctx.equal(int(table[s.name][m.y, m.x]), int(cells[y, x]), "a move and the array disagree", symmetry=s.name)
    if h == w:        # the eight elements form the dihedral group
        every = {tuple(v.reshape(-1)): k for k, v in table.items()}
        for a, b in itertools.product(Symmetry, repeat=2):
            both = tuple(a.apply_to_array(b.apply_to_array(cells)).reshape(-1))
            ctx.check(both in every, "a composition is no symmetry", a=a.name, b=b.name)
        for s in Symmetry:
            ctx.check(any((t.apply_to_array(s.apply_to_array(cells)) == cells).all() for t in Symmetry), "no inverse", s=s.name)
        if h > 1:
            ctx.equal(len(every), 8, "two symmetries coincide")
        for kind, names in TYPES.items():
            if kind == "flip":
                continue            # flips alone are no subgroup
            for a, b in itertools.product(names, repeat=2):
                both = every.get(tuple(mapped(a, mapped(b, cells, h, w), h, w).reshape(-1)))
                ctx.check(h < 2 or both in names, "a symmetry type is not closed", kind=kind, a=a, b=b)
    ctx.trace()


# ------------------------------------------------------------------ whole samples
def reference(data, side, target, name, drop):
    """The transformed sample; board and policy are described by coordinates."""
    out = {k: v for k, v in data.items()}
    h, w = data["board_size"]
    if side and float(np.asarray(data["stm_input"]).reshape(-1)[0]) > 0:
        out["board_input"] = out["board_input"][::-1]
        out["value_target"] = out["value_target"][[1, 0] + list(range(2, len(out["value_target"])))]
        if "sparse_feature_input" in out:
            out["sparse_feature_input"] = out["sparse_feature_input"][SWAP]
    plane = out["board_input"].shape[-2:]
    policy, last = out["policy_target"], None
    if policy.ndim == 1:
        shape = plane if len(policy) == plane[0] * plane[1] + 1 else (h, w)
        policy, last = policy[:-1].reshape(shape), policy[-1:]
    if name:
        out["board_input"] = mapped(name, np.asarray(out["board_input"]), h, w)
        policy = mapped(name, policy, h, w)
        if "sparse_feature_input" in out:
            out["sparse_feature_input"] = mapped(name, out["sparse_feature_input"], h, w)
        if "position" in out:
            out["position"] = [m if m is None else image(name, *m, h, w) for m in out["position"]]
    if target:
        grow = lambda a: np.pad(a, [(0, 0)] * (a.ndim - 2) + [(0, target[0] - a.shape[-2]), (0, target[1] - a.shape[-1])])
        out["board_input"] = grow(np.asarray(out["board_input"]))
        policy = grow(policy)
        if "sparse_feature_input" in out:
            out["sparse_feature_input"] = grow(out["sparse_feature_input"])
    out["policy_target"] = policy if last is None else np.concatenate([policy.reshape(-1), last])
    if drop:
        for k in ("position", "sparse_feature_input", "sparse_feature_dim", "ply", "rule_index"):
            out.pop(k, None)
    if "position" in out:
        moves = out.pop("position")
        out["position_string"] = "".join("pass" if m is None else chr(97 + m[0]) + str(m[1] + 1) for m in moves)
        out["last_move"] = np.array([-1, -1] if not moves or moves[-1] is None else moves[-1])
    return out


def make_sample(size, plane, stm, policy, extra):
    """All cells different; padding cells are different too, so that moving them shows."""
    n = plane[0] * plane[1]
    data = {"board_size": np.array(size, dtype=np.int8),
            "board_input": (np.arange(2 * n, dtype=np.int8) % 120 + 1).reshape(2, *plane),
            "stm_input": np.array([stm], dtype=np.float32), "value_target": np.array([0.5, 0.25, 0.125], dtype=np.float32)}
    if policy == "plane":
        data["policy_target"] = np.arange(n, dtype=np.float32).reshape(plane) + 1
    elif policy == "flat":
        data["policy_target"] = np.arange(n + 1, dtype=np.float32) + 1
    else:
        data["policy_target"] = np.arange(size[0] * size[1] + 1, dtype=np.float32) + 1
    if "sparse" in extra:
        data["sparse_feature_input"] = np.arange(12 * n, dtype=np.int32).reshape(12, *plane)
        data["sparse_feature_dim"] = np.full(12, 1000, dtype=np.int32)
        data["ply"] = np.int64(3)
    return data


def agree(ctx, got, want, message, **where):
    ctx.equal(sorted(got), sorted(want), "fields of the sample differ", **where)
    for k, v in want.items():
        if k == "position_string":
            ctx.equal(got[k], v, message, field=k, **where)
            continue
        g = np.asarray(got[k])
        ctx.check(g.shape == np.shape(v) and (g == np.asarray(v)).all(), message, field=k, got=g.tolist(),
                  want=np.asarray(v).tolist(), **where)


def sample(ctx, real, plane, deep):
    from utils.data_utils import Move, Symmetry, post_process_batch, post_process_data

    h, w = real
    kinds = [None] + [k for k in TYPES if available(k, h, w)]
    targets = [None, tuple(plane), (plane[0] + 2, plane[1] + 1), (max(plane), max(plane))]
    cells = [(x, y) for y in range(h) for x in range(w)]
    positions = [None, [], [None]] + [[c] for c in cells] + [[cells[0], cells[-1]], [cells[-1], None]]
    policies = ["plane", "flat"] + (["own"] if tuple(plane) != tuple(real) else [])
    for stm, policy, kind, side, target, extra, drop in itertools.product(
            (-1, 0, 1), policies, kinds, (False, True), targets, ("", "sparse"), (False, True)):
        if drop and (stm == 0 or target == tuple(plane)):
            continue
        names = available(kind, h, w) if kind else (None,)
        for index, name in enumerate(names):
            ctx.state(real, plane, stm, policy, kind, side, target, extra, drop, name)
            todo = positions if not extra and not drop and stm == 1 and policy == "plane" and not target else positions[:2] + positions[-2:-1]
            for moves in todo:
                data = make_sample(real, plane, stm, policy, extra)
                if moves is not None:
                    data["position"] = [Move.PASS if m is None else Move(*m) for m in moves]
                keep = {k: np.copy(v) for k, v in data.items() if k != "position"}
                plain = dict(data)
                if moves is not None:
                    plain["position"] = moves
                got = post_process_data(data, fixed_side_input=side, fixed_board_size=target, symmetry_type=kind or False,
                                        symmetry_index=index if kind else None, drop_extra=drop)
                where = {"size": real, "plane": plane, "kind": kind, "symmetry": name, "side": side, "stm": stm,
                         "target": target, "policy": policy, "moves": moves}
                agree(ctx, got, reference(plain, side, target, name, drop), "a field was not transformed with the others", **where)
                for k, v in keep.items():
                    ctx.check((np.asarray(data[k]) == v).all(), "the input sample was changed", field=k, **where)
                ctx.step()
                ctx.trace()
    # batches: every row its own symmetry
    for kind in kinds[1:]:
        names = available(kind, h, w)
        for side in (False, True):
            for policy in policies[:2]:
                for indices in (list(range(len(names))), list(range(len(names)))[::-1] + [0]):
                    rows = [make_sample(real, plane, (-1, 1, 0)[i % 3], policy, "sparse") for i in range(len(indices))]
                    for r in rows:
                        r.pop("ply")
                    batch = {k: np.stack([r[k] for r in rows]) for k in rows[0]}
                    got = post_process_batch(batch, fixed_side_input=side, symmetry_type=kind, symmetry_indices=indices)
                    for i, index in enumerate(indices):
                        row = {k: v[i] for k, v in got.items()}
                        agree(ctx, row, reference(rows[i], side, None, names[index], False), "a batch row was transformed wrongly",
                              kind=kind, row=i, side=side)
                    ctx.step()
    ctx.check(len(list(Symmetry)) == 8, "symmetries")


# ------------------------------------------------------------------ datasets
def rows_of(env):
    for i, ok in enumerate(F.mask_of(env)):
        if ok:
            yield tuple(env.sample_keys)[i], {k: v[i] for k, v in env.data.items()}


def fits(plain, got, name, size):
    """Is `got` the plain record under this symmetry, in every field?"""
    h, w = size
    for key, value in plain.items():
        if key not in got:
            return False
        other = got[key]
        if key == "position_string":
            moves, text = [], value
            while text:
                if text.startswith("pass"):
                    moves.append("pass")
                    text = text[4:]
                    continue
                k = 1
                while k < len(text) and text[k].isdigit():
                    k += 1
                x, y = image(name, ord(text[0]) - 97, int(text[1:k]) - 1, h, w)
                moves.append(chr(97 + x) + str(y + 1))
                text = text[k:]
            if "".join(moves) != other:
                return False
            continue
        value, other = np.asarray(value), np.asarray(other)
        if key in ("board_input", "sparse_feature_input"):
            value = mapped(name, value, h, w)
        elif key == "policy_target":
            if value.ndim == 1:
                plane = np.asarray(plain["board_input"]).shape[-2:]
                value = np.concatenate([mapped(name, value[:-1].reshape(plane), h, w).reshape(-1), value[-1:]])
            else:
                value = mapped(name, value, h, w)
        elif key == "last_move" and value[0] >= 0:
            value = np.array(image(name, int(value[0]), int(value[1]), h, w))
        if value.shape != other.shape or not (value == other).all():
            return False
    return set(plain) == set(got)


def options_for(kind, extra, sym):
    opts = {k: tuple(v) if isinstance(v, list) else v for k, v in extra.items()}
    if sym:
        opts["apply_symmetry"] = sym
    return opts


def from_map(ds, seed, shuffle, batch, epochs):
    from utils.training_utils import ResumableSampler

    sampler = ResumableSampler(ds, shuffle=shuffle, seed=seed, rank=0, world_size=1)
    out = []
    for _ in range(epochs):
        rows, count = {}, 0
        for i in sampler:
            rows[ds.map_record_ref(i).sample_key] = ds[i]
            count += 1
            if count == batch:
                sampler.commit_prepared(sampler.prepare_commit([sampler.stage_batch(count)]))
                count = 0
        if count:
            sampler.commit_prepared(sampler.prepare_commit([sampler.stage_batch(count)]))
        out.append(rows)
        sampler.advance_yield_epoch()
    return out


def delivered(ctx, kind, sym, extra, epochs):
    base = kind.partition("+")[0]
    spec = F.make(kind, ctx.mkdir(), layout=(5, 4))
    modes = [("train", 1, 1, False), ("train", 2, 1, True), ("train", 3, 1, True), ("train", 1, 2, True), ("validate", 2, 1, False),
             ("validate", 3, 2, False), ("train", 2, 1, False)]
    pool = {}
    chosen, seen, used = {}, set(), set()
    firm = base not in F.SEQUENTIAL       # records named by content: the draws are the same in every run

    enumerate_modes = [(extra, m) for m in modes]
    if firm and extra and not base.startswith("map"):
        enumerate_modes += [({}, m) for m in modes[1:2]]       # the choice does not depend on the decoding options either

    def build(symmetry, batch, world, rank, seed, mode, shuffle):
        opts = options_for(kind, use, symmetry)
        if base == "composite":
            nested = {k: {**v} for k, v in spec[2]["dataset_dict"].items()}
            for child in nested.values():
                if "fixed_side_input" in opts:
                    child["fixed_side_input"] = opts["fixed_side_input"]
            opts.pop("fixed_side_input", None)
            opts["dataset_dict"] = nested
        if base in F.SEQUENTIAL and mode == "train" and world > 1:
            opts["steps_per_epoch"] = 3
        return F.build(spec, F.context(batch, world, rank, seed, mode), shuffle=shuffle, **opts)

    def observe(symmetry, batch, world, rank, seed, mode, shuffle):
        """epoch -> key -> record"""
        ds = build(symmetry, batch, world, rank, seed, mode, shuffle)
        out = []
        if base.startswith("map") and mode == "train":
            return from_map(ds, seed, shuffle, batch, epochs)
        for number in range(epochs if mode == "train" else 1):
            rows = {}
            for env in F.epoch(ds, mode):
                for key, row in rows_of(env):
                    if base in F.SEQUENTIAL:     # file keys cover the decoding options: name the file by its position
                        files = [d.file_key for d in F.stream(ds).source.descriptors]
                        key = (key[0], files.index(key[1])) + tuple(key[2:])
                    rows[key] = row
                ctx.step()
            out.append(rows)
        F.close(ds)
        return out

    for seed, (use, (mode, batch, world, shuffle)) in itertools.product((3, 4), enumerate_modes):
            if base.startswith("map") and world > 1:
                continue          # map-style datasets key the symmetry by rank as well
            if base in F.SEQUENTIAL and mode != "train" and world > 1:
                continue          # refused
            for rank in range(world):
                for rows in observe(None, batch, world, rank, seed, mode, shuffle):
                    pool.update({(key, repr(use)): row for key, row in rows.items()})
                turned = observe(sym, batch, world, rank, seed, mode, shuffle)
                where = {"kind": kind, "sym": sym, "seed": seed, "mode": mode, "batch": batch, "rank": f"{rank}/{world}"}
                for number, b in enumerate(turned):
                    a = pool
                    for key in b:
                        if (key, repr(use)) not in a:
                            ctx.tag("not in the plain epochs " + kind)
                            continue
                        size = tuple(int(v) for v in a[key, repr(use)]["board_size"])
                        names = available(sym, *size)
                        options = [n for n in names if fits(a[key, repr(use)], b[key], n, size)]
                        ctx.check(options, "a delivered record is no symmetry of the plain record", key=key, epoch=number,
                                  plain={k: np.asarray(v).tolist() for k, v in a[key, repr(use)].items()},
                                  got={k: np.asarray(v).tolist() for k, v in b[key].items()}, **where)
                        ident = (seed, number, key)
                        before = chosen.get(ident, set(names))
                        now = before & set(options)
                        ctx.check(now, "the symmetry of a record depends on how it was read", key=key, epoch=number,
                                  before=sorted(before), now=options, **where)
                        chosen[ident] = now
                        ctx.state(kind, sym, seed, number, key, tuple(options))
                        ctx.trace()
    for (seed, number, key), options in chosen.items():
        if len(options) == 1:
            used |= options
            for other in range(epochs):
                if other != number and not chosen.get((seed, other, key), options) & options:
                    seen.add("epoch")
            if not chosen.get((7 - seed, number, key), options) & options:
                seen.add("seed")
    ctx.check("epoch" in seen, "the symmetry never depends on the epoch")
    ctx.check("seed" in seen, "the symmetry never depends on the seed")
    every, alone = len(available(sym, 5, 5)), sum(len(o) == 1 for o in chosen.values())
    chance = math.comb(every, len(used)) * (len(used) / every) ** alone if len(used) < every else 1
    ctx.check(chance > 1e-9, "some symmetries are never used", used=sorted(used), records=alone)
    ctx.tag("records", len(chosen))


def nonsquare(ctx):
    """Non-square boards only get the symmetries that keep their shape."""
    root = ctx.mkdir()
    path = F.write_processed(f"{root}/a.npz", range(6), (4, 6))

    def passes(ds, batch):
        if hasattr(ds, "map_record_ref"):
            return from_map(ds, 3, False, batch, 6)
        return [dict(r for env in F.epoch(ds) for r in rows_of(env)) for _ in range(6)]

    for kind in ("iterative_processed_katago_numpy", "batched_processed_katago_numpy", "processed_katago_numpy"):
        for extra in ({}, {"fixed_board_size": (7, 7)}, {"has_pass_move": True}):
            more = {"prefetch_threads": 0, "pin_memory": False} if kind.startswith("batched") else {}
            spec = (kind, [path], {"boardsizes": [(4, 6)], **more})
            used = set()
            for batch in (1, 2, 3):
                plain = F.build(spec, F.context(batch), shuffle=False, **extra)
                turned = F.build(spec, F.context(batch), shuffle=False, apply_symmetry=True, **extra)
                for number, (a, b) in enumerate(zip(passes(plain, batch), passes(turned, batch))):
                    for key in a:
                        options = [n for n in available("default", 4, 6) if fits(a[key], b[key], n, (4, 6))]
                        ctx.check(options, "a non-square record was transformed wrongly", key=key, kind=kind)
                        if len(options) == 1:
                            used |= set(options)
                        ctx.state(kind, number, key)
                        ctx.trace()
            ctx.equal(len(used), 4, "some symmetries are never used", kind=kind)
            for bad in ("rotate", "flip", "flip_diag_rotate180"):
                try:
                    ds = F.build(spec, F.context(2), shuffle=False, apply_symmetry=bad, **extra)
                    rows = [r for rows in passes(ds, 2) for r in rows]
                except Exception:
                    continue
                ctx.check(not rows, "a size-changing symmetry type is accepted for a non-square board", kind=kind, bad=bad)
