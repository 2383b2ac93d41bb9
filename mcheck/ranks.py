"""Several ranks of one job as forked processes joined by gloo over the loopback network."""
import os
import pickle
import signal
import socket
import sys
import tempfile
import time
import traceback


class Failed(Exception):
    """A rank raised; carries (rank, type name, text)."""

    def __init__(self, rank, kind, text):
        super().__init__(f"rank {rank}: {kind}: {text}")
        self.rank, self.kind, self.text = rank, kind, text


class Hung(Exception):
    """Some rank was still running when the time was up."""


def _port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def run(world, fn, seconds=120, init=True):
    """Outcomes of fn(rank); repeated when another process took the port in between."""
    for _ in range(4):
        out = _run(world, fn, seconds, init)
        if not any(o[0] == "error" and ("EADDRINUSE" in o[2] or "address already in use" in o[2].lower()) for o in out):
            break
    return out


def _run(world, fn, seconds, init):
    """Outcome of fn(rank) on every rank: ("ok", value), ("error", type name, text) or ("hung",)."""
    folder = tempfile.mkdtemp(prefix="ranks-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    port = _port()
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for rank in range(world):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                signal.alarm(int(seconds) + 5)
                os.environ.update(
                    RANK=str(rank), LOCAL_RANK=str(rank), WORLD_SIZE=str(world), LOCAL_WORLD_SIZE=str(world),
                    MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), ACCELERATE_USE_CPU="true", GLOO_SOCKET_IFNAME="lo",
                    OMP_NUM_THREADS="1", TORCH_CPP_LOG_LEVEL="ERROR",
                )
                import torch

                torch.set_num_threads(1)
                if "accelerate" in sys.modules:  # forget the parent's single process
                    from accelerate.state import AcceleratorState, GradientState

                    AcceleratorState._reset_state(reset_partial_state=True)
                    GradientState._reset_state()
                if init:
                    import torch.distributed as dist
                    import datetime

                    dist.init_process_group("gloo", init_method=f"file://{folder}/store", rank=rank, world_size=world,
                                            timeout=datetime.timedelta(seconds=seconds))
                try:
                    out = ("ok", fn(rank))
                except BaseException as exc:  # noqa: BLE001
                    out = ("error", type(exc).__name__, str(exc)[:2000], traceback.format_exc()[-4000:])
                with open(os.path.join(folder, f"out{rank}.tmp"), "wb") as f:
                    pickle.dump(out, f)
                os.rename(os.path.join(folder, f"out{rank}.tmp"), os.path.join(folder, f"out{rank}"))
                limit = time.monotonic() + seconds  # stay until everyone is done: rank 0 serves the others
                while time.monotonic() < limit and not all(os.path.exists(os.path.join(folder, f"out{r}")) for r in range(world)):
                    time.sleep(0.005)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            os._exit(code)
        pids[rank] = pid
    deadline = time.monotonic() + seconds
    left = dict(pids)
    while left and time.monotonic() < deadline:
        for rank, pid in list(left.items()):
            done, _ = os.waitpid(pid, os.WNOHANG)
            if done:
                del left[rank]
        time.sleep(0.01)
    for rank, pid in left.items():
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    out = []
    for rank in range(world):
        path = os.path.join(folder, f"out{rank}")
        if not os.path.exists(path):
            if rank in left:
                out.append(("hung",))
                continue
            out.append(("error", "Died", "the rank ended without a result", ""))
        else:
            with open(path, "rb") as f:
                out.append(pickle.load(f))
    for name in os.listdir(folder):
        os.unlink(os.path.join(folder, name))
    os.rmdir(folder)
    return out
