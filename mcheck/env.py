"""Execution environment: import paths, extension builds from /repo's current sources, scratch space."""
import atexit
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MCHECK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
BUILD = os.path.join(VERIF, ".build")

_scratch = None


def _reserve(base, name):
    """The first of base/name, base/name-1, ... that no running process holds; paths decide record keys, so they repeat."""
    for n in range(1000):
        path = os.path.join(base, name if n == 0 else f"{name}-{n}")
        lock = os.open(path + ".lock", os.O_RDWR | os.O_CREAT, 0o600)
        try:
            fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            os.close(lock)
            continue
        if os.path.lexists(path):
            shutil.rmtree(path, ignore_errors=True)
        try:
            os.mkdir(path, 0o700)
        except FileExistsError:
            os.close(lock)
            continue
        return path
    return tempfile.mkdtemp(prefix=name + "-", dir=base)


def scratch_root():
    """A private directory for this run, removed at exit by the process that made it."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        name = next((a for a in sys.argv[1:] if re.fullmatch(r"C\d\d", a)), "run")
        _scratch = _reserve(base, "mcheck-" + name)
        owner = os.getpid()

        def cleanup(path=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(cleanup)
    return _scratch


def reexec_environment():
    """Environment variables every check process runs under."""
    env = dict(os.environ)
    work = scratch_root()
    env.update(
        PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        CUDA_VISIBLE_DEVICES="",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        ATEN_CPU_CAPABILITY="avx2",
        MKL_CBWR="COMPATIBLE",
        ONEDNN_MAX_CPU_ISA="AVX2",
        HF_HUB_OFFLINE="1",
        MPLBACKEND="Agg",
        KEOPS_CACHE_FOLDER=os.path.join(work, "keops"),
        TORCHINDUCTOR_CACHE_DIR=os.path.join(work, "inductor"),
        MPLCONFIGDIR=os.path.join(work, "mpl"),
    )
    env.pop("PYTHONPATH", None)
    return env


def _native_sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "dataset")):
        dirs[:] = sorted(d for d in dirs if d not in {"__pycache__", "build"})
        for name in sorted(files):
            if name.endswith((".cpp", ".cc", ".c", ".h", ".hpp", ".hh", ".inl", ".inc")):
                out.append(os.path.join(base, name))
    return out


def _native_digest():
    h = hashlib.sha256()
    for path in [os.path.join(REPO, "setup.py")] + _native_sources():
        h.update(os.path.relpath(path, REPO).encode() + b"\0")
        with open(path, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


_DRIVER = r"""
import sys, os, setuptools
names = set(sys.argv[1].split(","))
out, tmp = sys.argv[2], sys.argv[3]
real = setuptools.setup
def setup(**kw):
    kw["ext_modules"] = [e for e in kw.get("ext_modules", []) if e.name in names]
    kw["script_args"] = ["-q", "build_ext", "--build-lib", out, "--build-temp", tmp]
    return real(**kw)
setuptools.setup = setup
sys.argv = ["setup.py"]
exec(compile(open("setup.py").read(), "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
"""


def build_extensions(names):
    """Compile the named pybind11 modules from /repo's current sources; return their directory."""
    digest = _native_digest()
    target = os.path.join(BUILD, "ext-" + digest)
    os.makedirs(BUILD, exist_ok=True)
    missing = []
    for name in names:
        if not (os.path.isdir(target) and any(f.startswith(name + ".") for f in os.listdir(target))):
            missing.append(name)
    if not missing:
        return target
    procs = []
    for name in missing:
        tmp = tempfile.mkdtemp(prefix="mcheck-ext-")
        tree = os.path.join(tmp, "src")
        for path in [os.path.join(REPO, "setup.py")] + _native_sources():
            dst = os.path.join(tree, os.path.relpath(path, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy2(path, dst)
        for extra in ("pyproject.toml", "README.md"):
            if os.path.exists(os.path.join(REPO, extra)):
                shutil.copy2(os.path.join(REPO, extra), os.path.join(tree, extra))
        out = os.path.join(tmp, "out")
        p = subprocess.Popen(
            [PYTHON, "-c", _DRIVER, name, out, os.path.join(tmp, "obj")],
            cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            env=reexec_environment(),
        )
        procs.append((name, p, tmp, out))
    failure = None
    for name, p, tmp, out in procs:
        log = p.communicate()[0]
        if p.returncode == 0:
            os.makedirs(target, exist_ok=True)
            for f in os.listdir(out):
                if f.startswith(name + "."):
                    part = os.path.join(target, f".{f}.{os.getpid()}")
                    shutil.copy2(os.path.join(out, f), part)
                    os.replace(part, os.path.join(target, f))
        else:
            failure = f"building {name} failed:\n{log[-4000:]}"
        shutil.rmtree(tmp, ignore_errors=True)
    if failure:
        raise RuntimeError(failure)
    for other in os.listdir(BUILD):
        if other.startswith("ext-") and other != "ext-" + digest:
            shutil.rmtree(os.path.join(BUILD, other), ignore_errors=True)
    return target


ALL_EXTENSIONS = ("dataset_planner_cpp", "forbidden_point_cpp", "line_encoding_cpp")


class _ExtensionFinder:
    """Import the native modules from our build only, compiling them on first import."""

    def __init__(self):
        self.active = False

    def find_spec(self, name, path=None, target=None):
        if name not in ALL_EXTENSIONS or self.active:
            return None
        import importlib.machinery
        import importlib.util

        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            directory = build_extensions([name])
        for f in sorted(os.listdir(directory)):
            if f.startswith(name + "."):
                full = os.path.join(directory, f)
                loader = importlib.machinery.ExtensionFileLoader(name, full)
                return importlib.util.spec_from_file_location(name, full, loader=loader)
        raise ImportError(name)


def setup_imports():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _ExtensionFinder())
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.append(VERIF)
