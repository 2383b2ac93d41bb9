"""Exporting weights: every way of declaring limits, every output type, and every write of an export as the point where it fails or dies."""
import builtins
import contextlib
import io
import itertools
import os
import resource
import shutil
import signal
import struct
import zlib

import lz4.frame
import torch

from mcheck import fixtures as F
from mcheck import train as T
from mcheck.checks.c20 import Watch, crash_states

LEVEL = "model_checking"
PRELOAD = ("torch", "dataset", "trainer", "export", "onnx", "onnxslim", "torch.onnx", "lz4.frame")
ASSUMPTIONS = [
    "the exported model and its serializer are small stand-ins; the real serializers are built and asked for their masks only (their payload takes minutes)",
    "death is process death: bytes written survive, at every byte the output file can end with up to a grid of sizes; power loss is not covered",
    "ONNX through the exporter without dynamo (onnxscript is not installed)",
]
RULES = ("freestyle", "standard", "renju")
HASH = 0x1F3A5B7C9  # wider than the header's field
NOTE = "na\u00efve \u263a note"
TYPES = ("bin", "bin-noheader", "bin-lz4", "bin-lz4-noheader", "txt")
TRACED = ("torch-jit", "onnx")


def scenarios(tier):
    deep = tier == "thorough"
    for kind in TYPES:
        yield "declared", {"kind": kind}
    yield "masks", {}
    for first in range(4):
        yield "version", {"part": first, "parts": 4}
    for kind in TYPES + TRACED:
        yield "refused", {"kind": kind}
    for kind in TYPES + TRACED:
        for before in (False, True):
            yield "boundaries", {"kind": kind, "before": before}
            yield "torn", {"kind": kind, "before": before, "points": 60 if deep else 14}
            yield "failing", {"kind": kind, "before": before}
    for which in ("checkpoint", "rundir", "legacy"):
        yield "source", {"which": which}
    yield "traced", {}


def prepare(tier):
    T.warm()
    register()


# ------------------------------------------------------------------ a small serializer
class Fault:
    at = None  # raise before this chunk
    chunks = 6


def register():
    T.register()
    from model.serialization import SERIALIZERS, BaseSerializer

    if T.MODEL in SERIALIZERS:
        return

    class Tiny(BaseSerializer):
        def __init__(self, text_output=False, note=NOTE, **kw):
            super().__init__(description=note, **kw)
            self.text = text_output

        @property
        def is_binary(self):
            return not self.text

        def arch_hash(self, model):
            return HASH

        def serialize(self, out, model, device):
            data = payload(model)
            n = -(-len(data) // Fault.chunks)
            for i in range(Fault.chunks):
                if Fault.at == i:
                    raise AssertionError("overflow")
                piece = data[i * n:(i + 1) * n]
                out.write(piece.hex() + "\n" if self.text else piece)
            if Fault.at == Fault.chunks:
                raise AssertionError("overflow")

    SERIALIZERS.register(T.MODEL)(Tiny)


def payload(model):
    state = model.state_dict()
    return b"".join(k.encode() + state[k].detach().cpu().reshape(-1).contiguous().view(torch.uint8).numpy().tobytes() for k in sorted(state))


def as_text(data):
    n = -(-len(data) // Fault.chunks)
    return "".join(data[i * n:(i + 1) * n].hex() + "\n" for i in range(Fault.chunks)).encode()


def network(seed):
    from model import build_model

    torch.manual_seed(seed)
    return build_model(T.MODEL)


@contextlib.contextmanager
def quiet():
    """Nothing on the terminal, not even from the programs an export starts."""
    kept, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        os.dup2(kept, 2)
        os.close(kept)
        os.close(null)


class Place:
    """A directory with a checkpoint, a dataset and room for an output."""

    def __init__(self, ctx, seed=1):
        from utils.file_utils import save_torch_ckpt

        register()
        self.root = ctx.mkdir()
        self.model = network(seed)
        self.checkpoint = os.path.join(self.root, "c.pt")
        save_torch_ckpt(self.checkpoint, self.model.state_dict())
        self.dataset_type, self.paths, self.options = F.make("map_processed", os.path.join(self.root, "data"), (4,))
        self.out = os.path.join(self.root, "out")
        os.mkdir(self.out)
        self.target = os.path.join(self.out, "weights.bin")

    def export(self, kind, export_args, **more):
        import export

        args = dict(checkpoint=self.checkpoint, output=self.target, rundir=None, export_type=kind, model_type=T.MODEL, model_args={}, export_model_args={},
                    export_args=dict(export_args), datas=self.paths, train_datas=None, dataset_type=self.dataset_type, dataset_args=self.options,
                    dataloader_args={}, use_cpu=True)
        args.update(more)
        with quiet():
            export.export(**args)

    def files(self):
        out = {}
        for f in sorted(os.listdir(self.out)):
            with open(os.path.join(self.out, f), "rb") as h:
                out[f] = h.read()
        return out


def parse(ctx, blob, kind, **info):
    """(rules mask, sizes mask, description, payload) of an exported file."""
    if "lz4" in kind:
        ctx.check(len(blob) > 4 and blob[:4] == b"\x04\x22\x4d\x18", "a compressed export is not a compressed file", **info)
        blob = lz4.frame.decompress(blob)
    if kind == "txt" or kind.endswith("noheader"):
        return None, None, None, blob
    magic, arch, rules, sizes, length = struct.unpack("<5I", blob[:20])
    ctx.equal(magic, zlib.crc32(b"gomoku network weight version 1"), "the header's magic is wrong", **info)
    ctx.equal(arch, HASH & 0xFFFFFFFF, "the header's architecture hash is wrong", **info)
    text = blob[20:20 + length]
    ctx.equal(len(text), length, "the header's description is cut", **info)
    return rules, sizes, text.decode("utf-8"), blob[20 + length:]


def good(ctx, place, blob, kind, rules, sizes, note=NOTE, model=None, **info):
    got_rules, got_sizes, text, rest = parse(ctx, blob, kind, **info)
    want = payload(model or place.model)
    ctx.check(rest == (as_text(want) if kind == "txt" else want), "the payload is not complete", length=len(rest), expected=len(want), **info)
    if got_rules is not None:
        ctx.equal(got_rules, sum(1 << i for i, r in enumerate(RULES) if r in rules), "the header's rules are not those declared", rules=rules, **info)
        ctx.equal(got_sizes, sum(1 << (s - 1) for s in set(sizes)), "the header's board sizes are not those declared", sizes=sizes, **info)
        ctx.check(f"model={place.model.name}" in text and note in text, "the header's description is not the one declared", text=text, **info)


def rule_specs():
    for n in (1, 2, 3):
        for rules in itertools.permutations(RULES, n):
            yield {"rule_list": list(rules)}, rules
            yield {"rules": list(rules)}, rules
            if n == 1:
                yield {"rule": rules[0]}, rules
                yield {"rule_list": list(rules) * 2}, rules


def size_specs(every):
    for s in range(1, 33):
        yield {"board_size": s}, [s]
    for a, b in ((1, 32), (9, 22), (15, 15), (5, 6), (1, 1), (31, 32), (32, 32), (2, 20)):
        yield {"min_board_size": a, "max_board_size": b}, list(range(a, b + 1))
    for sizes in ([15], [9, 15, 20], [20, 9], [32, 1], [15, 15], [1, 2, 3, 30, 31, 32]):
        yield {"board_size_list": sizes}, sizes
        yield {"boardsizes": sizes}, sizes
    yield {}, list(range(1, 33))
    if every:
        for a, b in itertools.combinations_with_replacement(range(1, 33), 2):
            yield {"min_board_size": a, "max_board_size": b}, list(range(a, b + 1))


def declared(ctx, kind):
    """Every declaration of rules with every kind of declaration of board sizes: the file says exactly that."""
    place = Place(ctx)
    rules = list(rule_specs())
    sizes = list(size_specs(False))
    pairs = list(itertools.product(rules, sizes[::5])) + list(itertools.product(rules[::4], sizes))
    for (ra, r), (sa, s) in pairs if kind in ("bin", "bin-lz4") or ctx.thorough else pairs[::9]:
        place.export(kind, {**ra, **sa})
        found = place.files()
        ctx.equal(list(found), ["weights.bin"], "an export writes other files", kind=kind)
        good(ctx, place, found["weights.bin"], kind, r, s, export=kind, declared=[ra, sa])
        os.remove(place.target)
        ctx.step()
        ctx.state(kind, ra, sa)
    for note in ("", "x" * 5000, "line\nbreak", "\U0001F600" * 7):
        place.export(kind, {"rule": "renju", "board_size": 15, "note": note})
        good(ctx, place, place.files()["weights.bin"], kind, ("renju",), [15], note=note, export=kind)
        ctx.step()
    ctx.trace()


def masks(ctx):
    """Every registered serializer states the declared limits; a serializer asked with nothing declared does not claim everything."""
    from types import SimpleNamespace

    from model.serialization import SERIALIZERS, build_serializer

    register()
    model = SimpleNamespace(name="some_model")
    for name in sorted(SERIALIZERS.keys()):
        for (ra, r), (sa, s) in itertools.product(list(rule_specs()), list(size_specs(False))[::7]):
            with quiet():
                built = build_serializer(name, **ra, **sa) if sa else build_serializer(name, **ra, boardsizes=list(s))
            ctx.equal(built.rule_mask(model), sum(1 << i for i, x in enumerate(RULES) if x in r), "a serializer states other rules", serializer=name, declared=ra)
            ctx.equal(built.boardsize_mask(model), sum(1 << (x - 1) for x in set(s)), "a serializer states other board sizes", serializer=name, declared=sa)
            ctx.check("some_model" in built.description(model), "a serializer's description does not name the model", serializer=name)
            ctx.step()
        ctx.state(name)
    ctx.raises(lambda: build_serializer("mcheck_none", rule="renju"), "a model without a serializer is accepted")
    ctx.trace()


def version(ctx, part, parts):
    """The version number stamped into ONNX files and its inverse."""
    from export import make_onnx_model_version as make
    from export import parse_onnx_model_version as read

    sizes = [s for _, s in size_specs(True)] + [[1 + i, 1 + j] for i, j in itertools.combinations(range(32), 2)]
    rules = [list(c) for n in range(4) for c in itertools.combinations(RULES, n)]
    ios = (1, 2, 255, 256, 0x7FFF)
    for number, (io_version, r, s) in enumerate(itertools.product(ios, rules, sizes)):
        if number % parts != part:
            continue
        v = make(io_version, r, s)
        ctx.check(0 < v < 2 ** 63, "the version number does not fit", version=v)
        got = read(v)
        ctx.equal((got[0], sorted(got[1]), sorted(got[2])), (io_version, sorted(r), sorted(set(s))), "the version number reads back as something else", rules=r, sizes=s)
        ctx.step()
    for bad in (0, -1, 0x8000, 0x10000):
        ctx.raises(lambda: make(bad, ["renju"], [15]), "an io version that does not fit is accepted", io_version=bad)
    for bad in ([0], [33], [15, 64], [-1]):
        ctx.raises(lambda: make(1, ["renju"], bad), "a board size that does not fit is accepted", sizes=bad)
    ctx.state(part)
    ctx.trace()


BAD_RULES = ({}, {"rule": "go"}, {"rule": None}, {"rule": ""}, {"rule_list": []}, {"rules": []}, {"rule_list": "renju"}, {"rules": "freestyle"},
             {"rule_list": ["renju", "go"]}, {"rules": ["Renju"]}, {"rule": ["renju"]}, {"rule_list": [None]}, {"rule_list": None}, {"rule": "freestyle,renju"})
BAD_SIZES = ({"board_size": 0}, {"board_size": 33}, {"board_size": -1}, {"board_size": "15"}, {"board_size": 15.0}, {"board_size": None}, {"board_size": [15]},
             {"board_size_list": []}, {"boardsizes": []}, {"board_size_list": 15}, {"boardsizes": "15"}, {"board_size_list": [15, 33]}, {"board_size_list": [0, 15]},
             {"board_size_list": [15, "16"]}, {"min_board_size": 16, "max_board_size": 15}, {"min_board_size": 0, "max_board_size": 15},
             {"min_board_size": 15, "max_board_size": 33}, {"min_board_size": 9}, {"max_board_size": 15}, {"min_board_size": "9", "max_board_size": 15})


def refused(ctx, kind):
    """Missing and invalid limits, missing checkpoints and unknown types are refused and touch no file."""
    if kind == "torch-jit":
        ctx.tag("a jit export declares no limits")
        return ctx.trace()
    place = Place(ctx)
    fine = {"rule": "renju", "board_size": 15}
    for old in (False, True):
        if old:
            with open(place.target, "wb") as f:
                f.write(b"earlier")
        before = place.files()
        for bad in [{"board_size": 15, **b} for b in BAD_RULES] + [{"rule": "renju", **b} for b in BAD_SIZES]:
            ctx.raises(lambda: place.export(kind, bad), "missing or invalid limits are accepted", export=kind, declared=bad)
            ctx.equal(place.files(), before, "a refused export touches files", declared=bad)
            ctx.step()
            ctx.state(kind, old, bad)
        for more in ({"checkpoint": place.checkpoint + "x"}, {"checkpoint": place.root}, {"checkpoint": None}, {"checkpoint": None, "rundir": place.root + "/data"},
                     {"model_args": {"width": 4}}):
            ctx.raises(lambda: place.export(kind, fine, **more), "an export without its checkpoint is accepted", given=list(more))
            ctx.equal(place.files(), before, "a refused export touches files", given=list(more))
            ctx.step()
        ctx.raises(lambda: place.export("bin-zip", fine), "an unknown export type is accepted")
        ctx.equal(place.files(), before, "a refused export touches files")
    ctx.trace()


# ------------------------------------------------------------------ faults
LIMITS = {"rule_list": ["renju", "freestyle"], "board_size_list": [9, 15, 32]}


def limits(kind):
    return {} if kind == "torch-jit" else LIMITS


def complete(ctx, place, kind, blob, model=None, **info):
    """The blob is a complete export of the place's checkpoint."""
    if kind in TYPES:
        return good(ctx, place, blob, kind, LIMITS["rule_list"], LIMITS["board_size_list"], model=model, **info)
    path = os.path.join(place.root, "look")
    with open(path, "wb") as f:
        f.write(blob)
    model = (model or place.model).eval()
    board, side = torch.zeros(1, 2, 5, 5, dtype=torch.int8), torch.zeros(1, 1)
    board[0, 0, 1, 2] = board[0, 1, 3, 3] = 1
    with torch.no_grad():
        want = model({"board_input": board, "stm_input": side})
    if kind == "torch-jit":
        value, policy = torch.jit.load(path)(board, side)
        ctx.check(torch.allclose(value, want["value"], atol=1e-5) and torch.allclose(policy, want["policy"], atol=1e-5), "the exported model computes something else", **info)
        return
    import onnx
    from onnx.reference import ReferenceEvaluator

    from export import parse_onnx_model_version

    found = onnx.load(path)
    _, rules, sizes = parse_onnx_model_version(found.model_version)
    ctx.equal((sorted(rules), sizes), (sorted(LIMITS["rule_list"]), LIMITS["board_size_list"]), "the ONNX file states other limits", **info)
    try:
        value, policy = ReferenceEvaluator(found).run(["value", "policy"], {"board_input": board.numpy(), "global_input": side.numpy()})
    except Exception as exc:
        if not any("global_input" == i.name for i in found.graph.input):
            value, policy = ReferenceEvaluator(found).run(["value", "policy"], {"board_input": board.numpy()})
        else:
            raise exc
    ctx.check(abs(value - want["value"].numpy()).max() < 1e-4 and abs(policy - want["policy"].numpy()).max() < 1e-4, "the exported model computes something else", **info)


def start(ctx, place, before):
    """The output directory before the export under test: empty or holding an earlier file."""
    old = b"an earlier export" * 50 if before else None
    shutil.rmtree(place.out)
    os.mkdir(place.out)
    if before:
        with open(place.target, "wb") as f:
            f.write(old)
    return old


def judge(ctx, place, kind, files, old, may_be_new, done, **info):
    blob = files.get("weights.bin")
    if blob == old and not done:
        return False
    if blob is None or not may_be_new:
        ctx.check(False, "the previously exported file is not untouched" if old else "a file appears under the target's name", export=kind,
                  size=None if blob is None else len(blob), **info)
    complete(ctx, place, kind, blob, **info)
    return True


def boundaries(ctx, kind, before):
    """The directory at every file operation of an export, and with every write in between cut short: the target is the old file or the complete new one."""
    place = Place(ctx)
    old = start(ctx, place, before)
    with Watch(place.out) as watch:
        place.export(kind, limits(kind))
    seen = 0
    for files, _, what in crash_states(watch.points):
        seen += judge(ctx, place, kind, files, old, True, False, point=what)
        ctx.step()
        ctx.state(kind, before, what)
    ctx.check(seen >= 1, "no state contains the export")
    judge(ctx, place, kind, place.files(), old, True, True)
    ctx.trace()


def forked(fn):
    """Run fn in a child; ("ok",), ("error", type name), or ("killed", signal)."""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                fn()
                result = ("ok",)
            except BaseException as exc:
                result = ("error", type(exc).__name__)
            os.write(w, pickle.dumps(result))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 4096)
        if not part:
            break
        data += part
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("killed", os.WTERMSIG(status) if os.WIFSIGNALED(status) else -1)


def torn(ctx, kind, before, points):
    """No file can grow beyond n bytes: the export fails, or the process dies, at that write; for a grid of n up to the whole file."""
    torch.set_num_threads(1)
    place = Place(ctx)
    old = start(ctx, place, before)
    place.export(kind, limits(kind))
    size = max(os.path.getsize(os.path.join(place.out, f)) for f in os.listdir(place.out)) + 8
    cuts = sorted({0, 1, 3, 20, size - 9, size - 8, size} | {i * size // points for i in range(points)})
    for cut, deadly in itertools.product(cuts, (False, True)):
        old = start(ctx, place, before)

        def child():
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if deadly else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (cut, cut))
            place.export(kind, limits(kind))

        outcome = forked(child)
        ctx.tag(" ".join(map(str, outcome[:2])))
        new = judge(ctx, place, kind, place.files(), old, True, outcome[0] == "ok", limit=cut, of=size, deadly=deadly, outcome=outcome)
        ctx.check(outcome[0] != "error" or not new, "an export fails after publishing its file", limit=cut, outcome=outcome)
        # the next export repairs whatever was left behind
        place.export(kind, limits(kind))
        judge(ctx, place, kind, place.files(), old, True, True, limit=cut)
        ctx.step()
        ctx.state(kind, before, cut, deadly)
    ctx.trace()


class Full(OSError):
    pass


@contextlib.contextmanager
def broken(number, place, seen):
    """The number-th file operation on the output directory fails (opening for writing, writing, closing, renaming)."""
    real_open, real_replace, real_rename = builtins.open, os.replace, os.rename

    def tick(what):
        seen.append(what)
        if len(seen) - 1 == number:
            raise Full(28, "No space left on device")

    class File:
        def __init__(self, inner):
            self.inner = inner

        def write(self, data):
            tick("write")
            return self.inner.write(data)

        def close(self):
            if not self.inner.closed:
                self.inner.close()
                tick("close")

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            self.close()

        def __iter__(self):
            return iter(self.inner)

        def __getattr__(self, name):
            return getattr(self.inner, name)

    def inside(p):
        try:
            return os.path.realpath(os.fsdecode(p)).startswith(os.path.realpath(place.out) + os.sep)
        except TypeError:
            return False

    def opened(file, mode="r", *a, **k):
        if set(mode) & set("wax+") and inside(file):
            tick("open")
            return File(real_open(file, mode, *a, **k))
        return real_open(file, mode, *a, **k)

    def moved(real):
        def move(a, b, **k):
            if inside(b):
                tick("rename")
            return real(a, b, **k)

        return move

    builtins.open, os.replace, os.rename = opened, moved(real_replace), moved(real_rename)
    try:
        yield
    finally:
        builtins.open, os.replace, os.rename = real_open, real_replace, real_rename


def failing(ctx, kind, before):
    """The serializer fails at every chunk; the model fails while traced; every file operation fails in turn; the ONNX tools fail."""
    place = Place(ctx)
    if kind in TYPES:
        for at in range(Fault.chunks + 1):
            old = start(ctx, place, before)
            Fault.at = at
            try:
                ctx.raises(lambda: place.export(kind, limits(kind)), "a failing serializer goes unnoticed", kinds=(AssertionError,))
            finally:
                Fault.at = None
            judge(ctx, place, kind, place.files(), old, False, False, chunk=at)
            ctx.step()
            ctx.state(kind, before, "chunk", at)
    for number in range(200):
        old = start(ctx, place, before)
        seen = []
        failed = None
        with broken(number, place, seen):
            try:
                place.export(kind, limits(kind))
            except Exception as exc:
                failed = exc
        hit = len(seen) > number
        if hit:
            # closing may fail after everything was written; a failure of the optional optimiser is tolerated by the ONNX export
            new = judge(ctx, place, kind, place.files(), old, failed is None, failed is None, operation=number, what=seen[number:number + 1])
            ctx.tag("operation fails the export" if failed else "operation failure is absorbed")
            ctx.check(failed is not None or new, "a failed write goes unnoticed", operation=number)
        elif failed is not None:
            raise failed
        place.export(kind, limits(kind))
        judge(ctx, place, kind, place.files(), old, True, True, operation=number)
        ctx.step()
        ctx.state(kind, before, "operation", number)
        if not hit:
            break
    else:
        ctx.check(False, "an export has no end")
    if kind in TRACED:
        for owner, name in tools(kind):
            for moment in ("before", "after"):
                for error in (RuntimeError, KeyboardInterrupt):
                    old = start(ctx, place, before)
                    real = getattr(owner, name)

                    def fail(*a, **k):
                        if moment == "after":
                            real(*a, **k)
                        raise error("injected")

                    setattr(owner, name, fail)
                    failed = None
                    try:
                        place.export(kind, limits(kind))
                    except BaseException as exc:
                        failed = exc
                    finally:
                        setattr(owner, name, real)
                    judge(ctx, place, kind, place.files(), old, failed is None, failed is None, tool=name, moment=moment)
                    ctx.tag(f"{name} fails: {'refused' if failed else 'absorbed'}")
                    ctx.step()
                    ctx.state(kind, before, name, moment)
    ctx.trace()


def tools(kind):
    if kind == "torch-jit":
        return [(torch.jit, "trace"), (torch.jit, "save")]
    import onnx
    import onnxslim

    return [(torch.onnx, "export"), (onnxslim, "slim"), (onnx, "load"), (onnx, "save")]


# ------------------------------------------------------------------ what is exported
def source(ctx, which):
    """The weights come from the checkpoint named, or from the newest one of the run; without an output name the file lies beside it."""
    from utils.file_utils import save_torch_ckpt

    place = Place(ctx)
    run = os.path.join(place.root, "run")
    folder = os.path.join(run, "ckpts") if which == "rundir" else run
    models = {}
    for seed, it in enumerate((3, 20, 100, 9999999, 10000000)):
        models[it] = network(10 + seed)
        save_torch_ckpt(os.path.join(folder, f"ckpt_{place.model.name}_{it:07d}.pt"), models[it].state_dict())
        if which == "rundir":  # an older layout next to the new one is not preferred
            save_torch_ckpt(os.path.join(run, f"ckpt_{place.model.name}_{it + 10 ** 8}.pt"), place.model.state_dict())
        more = {"checkpoint": os.path.join(folder, f"ckpt_{place.model.name}_{3:07d}.pt")} if which == "checkpoint" else {"checkpoint": None, "rundir": run}
        for kind in TYPES:
            ext = {"txt": ".txt"}.get(kind, ".bin.lz4" if "lz4" in kind else ".bin")
            wanted = 3 if which == "checkpoint" else it
            place.export(kind, LIMITS, **more)
            good(ctx, place, place.files()["weights.bin"], kind, LIMITS["rule_list"], LIMITS["board_size_list"], model=models[wanted], export=kind, newest=it)
            place.export(kind, LIMITS, **more, output=None)
            path = os.path.join(folder, f"ckpt_{place.model.name}_{wanted:07d}_export{ext}")
            ctx.check(os.path.isfile(path), "the default output lies somewhere else", expected=path)
            good(ctx, place, open(path, "rb").read(), kind, LIMITS["rule_list"], LIMITS["board_size_list"], model=models[wanted], export=kind, newest=it)
            os.remove(path)
            ctx.step()
        ctx.state(which, it)
    ctx.trace()


def traced(ctx):
    """Traced exports with samples from every kind of dataset."""
    place = Place(ctx)
    for data in ("map_processed", "batched", "processed", "raw", "simple", "packed"):
        root = os.path.join(place.root, "d-" + data)
        dataset_type, paths, opts = F.make(data, root, (4,))
        for kind in TRACED:
            for given in ({"datas": paths}, {"datas": None, "train_datas": paths}):
                start(ctx, place, False)
                place.export(kind, limits(kind), dataset_type=dataset_type, dataset_args=opts, **given)
                complete(ctx, place, kind, place.files()["weights.bin"], data=data)
                ctx.step()
        ctx.state(data)
    ctx.trace()
