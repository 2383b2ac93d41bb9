"""Discovery and configuration: every small directory tree under every listing order, every small set of checkpoint names,
every pair of small nested configurations, and every small split of an archive."""
import contextlib
import io
import itertools
import os
import shutil
import sys

import numpy as np

from mcheck import fixtures as F

LEVEL = "model_checking"
ASSUMPTIONS = [
    "directory listings are permuted through os.scandir and os.listdir, which every library way of listing uses; entries per directory are limited to 4",
    "archives of up to 9 rows and 4 arrays; configurations of depth up to 3 over two keys",
    "a path given twice, and links to directories, are outside the property",
]
EXTS = [".npz", ".lz4"]
ENTRIES = ("a.npz", "B.npz", "10.npz", "9.npz", "c.txt", "x.npz.tmp", "y.bin.lz4", "noext", "d/e.npz", "d/c.txt", "d/b.npz", "D/a.npz",
           "f.npz/g.npz", "d/d/a.npz", ".h.npz")
NAMES = ("state_0000002.pt", "state_0000010.pt", "state_9999999.pt", "state_10000000.pt", "state_2.pt", "state_10.pth", "state_0000011.pt.tmp",
         "state_0000012.txt", "state_best.pt", "state_.pt", "other_0000099.pt", "state_00000098", "state_7.dir.pt/", "xstate_0000097.pt",
         "state_\u00b2.pt", "state_5_old.pt")


def scenarios(tier):
    deep = tier == "thorough"
    for first in range(len(ENTRIES)):
        yield "trees", {"first": first, "size": 4 if deep else 3}
    yield "roots", {}
    for first in range(len(NAMES)):
        yield "latest", {"first": first, "size": 4 if deep else 3}
    yield "iteration", {"parts": 4 if deep else 3}
    for which in range(len(TOP)):
        yield "merge", {"which": which}
    for kind in ("processed", "batched", "map_processed", "raw", "simple"):
        yield "stream", {"kind": kind}
    for rows in range(1, 10 if deep else 8):
        yield "split", {"rows": rows}
    yield "refused", {}


# ------------------------------------------------------------------ listings
@contextlib.contextmanager
def listing(order):
    """Directory listings come in the given order: a function from a sorted list of names to a list."""
    real_scan, real_list = os.scandir, os.listdir

    class Scan:
        def __init__(self, path="."):
            with real_scan(path) as it:
                entries = {e.name: e for e in it}
            self.entries = iter([entries[n] for n in order(sorted(entries))])

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.entries)

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            self.close()

        def close(self):
            self.entries = iter(())

    os.scandir = Scan
    os.listdir = lambda path=".": order(sorted(real_list(path)))
    try:
        yield
    finally:
        os.scandir, os.listdir = real_scan, real_list


def orders(width):
    """All orders of up to `width` entries (as rank permutations, which also permute every subset)."""
    for p in itertools.permutations(range(width)):
        yield lambda names, p=p: [n for _, n in sorted(zip((p[i % width] + width * (i // width) for i in range(len(names))), names))]


def plant(root, entries):
    for e in entries:
        path = os.path.join(root, e)
        if e.endswith("/"):
            os.makedirs(path, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(e)


def fitting(entries):
    """No entry is both a file and a directory."""
    return not any(a != b and (b + "/").startswith(a.rstrip("/") + "/") for a in entries for b in entries)


def matching(entries, exts):
    return sorted(e for e in entries if not e.endswith("/") and (exts is None or os.path.splitext(e)[1] in exts))


def trees(ctx, first, size):
    from utils.file_utils import make_file_list

    rest = [i for i in range(first + 1, len(ENTRIES))]
    for n in range(size):
        for more in itertools.combinations(rest, n):
            entries = [ENTRIES[first]] + [ENTRIES[i] for i in more]
            if not fitting(entries):
                continue
            root = ctx.mkdir()
            plant(root, entries)
            os.makedirs(os.path.join(root, "empty"), exist_ok=True)
            for exts in (EXTS, [".npz"], None, []):
                seen = None
                for order in orders(4):
                    with listing(order):
                        found = make_file_list([root], exts)
                    ctx.step()
                    if seen is None:
                        seen = found
                        ctx.equal(sorted(os.path.relpath(p, root) for p in found), matching(entries, exts), "the file list is not every matching file once",
                                  entries=entries, exts=exts)
                    ctx.equal(found, seen, "the file list depends on the listing order", entries=entries, exts=exts)
                ctx.state(entries, exts)
            shutil.rmtree(root)
    ctx.trace()


def roots(ctx):
    """Several files and directories at once, given in every order, and paths that do not exist."""
    from utils.file_utils import make_file_list

    root = ctx.mkdir()
    plant(root, ("p/a.npz", "p/b.npz", "p/q/c.npz", "r/a.npz", "r/n.txt", "s.npz", "t.npz", "e/"))
    wanted = {"p": ["p/a.npz", "p/b.npz", "p/q/c.npz"], "r": ["r/a.npz"], "s.npz": ["s.npz"], "t.npz": ["t.npz"], "e": []}
    for n in range(len(wanted) + 1):
        for given in itertools.permutations(wanted, n):
            seen = None
            for order in orders(3):
                with listing(order):
                    found = make_file_list([os.path.join(root, g) for g in given], [".npz"])
                ctx.step()
                seen = found if seen is None else seen
                ctx.equal(found, seen, "the file list depends on the listing order", given=given)
                ctx.equal(sorted(os.path.relpath(p, root) for p in found), sorted(itertools.chain(*(wanted[g] for g in given))),
                          "the file list is not every matching file once", given=given)
            ctx.state(given)
            for place in range(n + 1):
                paths = [os.path.join(root, g) for g in given]
                paths.insert(place, os.path.join(root, "missing"))
                ctx.raises(lambda: make_file_list(paths, [".npz"]), "a path that does not exist is accepted", given=given, place=place)
    # with relative names, from inside the directory
    here = os.getcwd()
    try:
        os.chdir(root)
        for order in orders(3):
            with listing(order):
                ctx.equal(sorted(map(os.path.normpath, make_file_list(["."], [".npz"]))), ["p/a.npz", "p/b.npz", "p/q/c.npz", "r/a.npz", "s.npz", "t.npz"], "relative names are not found")
    finally:
        os.chdir(here)
    ctx.trace()


# ------------------------------------------------------------------ checkpoints
def number(name):
    """The iteration a name ends with: its last all-digit part."""
    stem = os.path.splitext(os.path.basename(name))[0]
    parts = [p for p in stem.split("_") if p and all(c in "0123456789" for c in p)]
    return int(parts[-1]) if parts else None


def latest(ctx, first, size):
    from utils.file_utils import find_latest_ckpt

    for n in range(size):
        for more in itertools.combinations(range(first + 1, len(NAMES)), n):
            names = [NAMES[first]] + [NAMES[i] for i in more]
            root = ctx.mkdir()
            plant(root, names)
            fit = [x for x in names if x.startswith("state_") and os.path.splitext(x)[1] in (".pt", ".pth") and not x.endswith("/")]
            numbered = [number(x) for x in fit if number(x) is not None]
            answers = set()
            for order in orders(min(len(names), 4)):
                with listing(order):
                    found = find_latest_ckpt(root, "state_")
                answers.add(found)
                ctx.step()
                if not fit:
                    ctx.equal(found, None, "a checkpoint is found where there is none", names=names)
                    continue
                ctx.check(found is not None and os.path.relpath(found, root) in fit, "a file is taken for a checkpoint", names=names, found=found)
                if numbered:
                    ctx.equal(number(found), max(numbered), "the checkpoint found is not the newest", names=names, found=found)
            ctx.equal(len(answers), 1, "the newest checkpoint depends on the listing order", names=names)
            ctx.state(names)
            shutil.rmtree(root)
    ctx.equal(find_latest_ckpt(os.path.join(ctx.mkdir(), "missing"), "state_"), None, "a checkpoint is found in a missing directory")
    ctx.trace()


def iteration(ctx, parts):
    from utils.file_utils import get_iteration_from_ckpt_filename as get

    alphabet = ("ckpt", "net", "64", "0000010", "b0.5", "10000000", "x1", "1x", "", "0")
    for n in range(1, parts + 1):
        for words in itertools.product(alphabet, repeat=n):
            for ext in (".pt", ".safetensors"):
                for where in ("", "run_77/", "/a/b_5.pt/"):
                    name = where + "_".join(words) + ext
                    if "_".join(words):
                        ctx.equal(get(name), number(name), "another iteration is read from a name", filename=name)
                        ctx.step()
        ctx.state(n)
    ctx.trace()


# ------------------------------------------------------------------ configurations
def shapes(depth):
    leaves = [0, None, "s", [1, {"a": 1}], {}]
    if depth == 0:
        return leaves
    inner = [ABSENT] + (leaves if depth == 1 else [0, None, {}, {"a": 1}, {"b": 2}, {"a": 3, "b": [4]}, {"a": {"b": 5}}])
    out = []
    for a, b in itertools.product(inner, repeat=2):
        out.append({k: v for k, v in (("a", a), ("b", b)) if v is not ABSENT})
    return out


ABSENT = object()
TOP = shapes(2)


def merged(base, new):
    """The merge by definition, or None where a plain value would have to be replaced by a configuration."""
    out = dict(base)
    for k, v in new.items():
        if isinstance(v, dict) and k in out:
            if not isinstance(out[k], dict):
                return None
            out[k] = merged(out[k], v)
            if out[k] is None:
                return None
        else:
            out[k] = v
    return out


def fresh(value):
    """A copy in which nothing is shared."""
    if isinstance(value, dict):
        return {k: fresh(v) for k, v in value.items()}
    return [fresh(v) for v in value] if isinstance(value, list) else value


def merge(ctx, which):
    from utils.misc_utils import deep_update_dict

    for base, new in itertools.product([TOP[which]], TOP):
        for wrap in (lambda d: d, lambda d: {"o": d, "k": 1}):
            b, n = fresh(wrap(base)), fresh(wrap(new))
            kept = fresh(n)
            want = merged(wrap(base), wrap(new))
            if want is None:
                ctx.raises(lambda: deep_update_dict(b, n), "a plain value silently becomes a configuration", base=base, new=new)
            else:
                got = deep_update_dict(b, n)
                ctx.equal(got, want, "a merged configuration is wrong", base=base, new=new)
                ctx.check(got is b, "the base configuration is not the one updated", base=base, new=new)
            ctx.equal(n, kept, "a merge alters the overriding configuration", base=base, new=new)
            ctx.step()
        ctx.state(repr((base, new)))
    ctx.trace()


# ------------------------------------------------------------------ through the datasets
def stream(ctx, kind):
    """A dataset given its directory: the same records in the same order whatever order the directory lists its files in."""
    root = ctx.mkdir()
    dataset_type, paths, opts = F.make(kind, root, (4, 3, 2))
    data = os.path.join(root, "tree")
    for i, (p, place) in enumerate(zip(paths, ("z", "a/b", "a"))):
        os.makedirs(os.path.join(data, place), exist_ok=True)
        shutil.copy2(p, os.path.join(data, place, f"{9 - i}" + "".join(os.path.basename(p).partition(".")[1:])))
    plant(data, ("a/readme.txt", "notes"))
    seen = None
    for order in orders(4):
        for mode in ("train", "validate"):
            with listing(order):
                ds = F.build((dataset_type, [data], opts), F.context(2, mode=mode), shuffle=mode == "train")
            if kind.startswith("map_") and mode == "train":
                got = [F.data_repr(ds[i]) for i in range(len(ds))]
            else:
                got = [F.data_repr(e.data) for e in F.epoch(ds, mode, 20)]
            F.close(ds)
            seen = seen or {}
            ctx.equal(got, seen.setdefault(mode, got), "a dataset's records depend on the listing order", mode=mode)
            ctx.step()
    ctx.state(kind)
    ctx.trace()


# ------------------------------------------------------------------ archives
def call(*args):
    from tools import npzsplit

    saved = sys.argv
    sys.argv = ["npzsplit"] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            npzsplit.npz_split()
    finally:
        sys.argv = saved


def arrays(rows, count):
    ids = np.arange(rows)
    return dict(list({
        "bf": (ids[:, None] * 10 + np.arange(3)).astype(np.float32),
        "gf": (100 + ids).astype(np.int16),
        "vt": np.stack([ids, -ids], 1).reshape(rows, 1, 2).astype(np.int8),
        "b": np.packbits((ids[:, None] >> np.arange(8)) & 1, axis=1, bitorder="little"),
    }.items())[:count])


def row(data, i):
    return tuple((k, data[k].dtype.str, data[k][i].tobytes(), data[k].shape[1:]) for k in sorted(data))


def split(ctx, rows):
    here = os.getcwd()
    for parts, count, shuffled, exclude, where in itertools.product(range(1, rows + 1), (1, 2, 4), (False, True), (None, "gf"), ("out", "none", "bare")):
        if exclude and count < 2:
            continue
        root = ctx.mkdir()
        full = arrays(rows, count)
        source = os.path.join(root, "my_data.v2.npz")
        np.savez(source, **full)
        args = [source, "-s", parts]
        out = root
        if where == "out":
            out = os.path.join(root, "new/parts")
            args += ["-o", out]
        if shuffled:
            args.append("--shuffle")
        if exclude:
            args += ["--exclude_keys", exclude, "unknown"]
        np.random.seed(5)
        before = open(source, "rb").read()
        try:
            if where == "bare":
                os.chdir(root)
                args[0] = "my_data.v2.npz"
            call(*args)
        finally:
            os.chdir(here)
        info = dict(rows=rows, parts=parts, arrays=count, shuffled=shuffled, exclude=exclude, where=where)
        ctx.equal(open(source, "rb").read(), before, "splitting alters the archive", **info)
        made = sorted(f for f in os.listdir(out) if os.path.join(out, f) != source and os.path.isfile(os.path.join(out, f)))
        ctx.equal(len(made), parts, "another number of parts is written", files=made, **info)
        wanted = {k: v for k, v in full.items() if k != exclude}
        got = []
        for f in made:
            with np.load(os.path.join(out, f)) as z:
                part = {k: z[k] for k in z}
            ctx.equal(sorted(part), sorted(wanted), "a part has other arrays", **info)
            ctx.equal(len({len(v) for v in part.values()}), 1, "the arrays of a part have different lengths", **info)
            got += [row(part, i) for i in range(len(part[next(iter(part))]))]
        ctx.equal(sorted(got), sorted(row(wanted, i) for i in range(rows)), "the parts do not contain every row exactly once, aligned", **info)
        ctx.step()
        ctx.state(parts, count, shuffled, exclude, where)
        shutil.rmtree(root)
    ctx.trace()


def refused(ctx):
    """Splits that cannot be made are refused and write nothing."""
    for rows in (1, 2, 5):
        for parts in (rows + 1, rows + 3, 0, -1, -rows, "x"):
            root = ctx.mkdir()
            source = os.path.join(root, "d.npz")
            np.savez(source, **arrays(rows, 2))
            ctx.raises(lambda: call(source, "-s", parts), "a split into no or empty parts is accepted", rows=rows, parts=parts, kinds=(Exception, SystemExit))
            ctx.equal(os.listdir(root), ["d.npz"], "a refused split writes files", rows=rows, parts=parts)
            ctx.step()
            ctx.state(rows, parts)
            shutil.rmtree(root)
    for lengths in ((2, 3), (3, 2), (4, 1)):
        root = ctx.mkdir()
        source = os.path.join(root, "d.npz")
        np.savez(source, a=np.arange(lengths[0]), b=np.arange(lengths[1]))
        ctx.raises(lambda: call(source, "-s", 1, "--shuffle"), "arrays of different lengths are shuffled together", lengths=lengths)
        ctx.equal(os.listdir(root), ["d.npz"], "a refused split writes files", lengths=lengths)
        shutil.rmtree(root)
    root = ctx.mkdir()
    ctx.raises(lambda: call(os.path.join(root, "missing.npz"), "-s", 1, "-o", root), "a missing archive is accepted")
    ctx.equal(os.listdir(root), [], "a refused split writes files")
    ctx.trace()
