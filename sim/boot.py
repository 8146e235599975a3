"""Process bootstrap of the simulator.

Everything nondeterministic that dorado (or numpy/matplotlib underneath it) may touch is put
behind a seam before dorado is imported:

* environment: fixed hash seed, one BLAS thread, Agg, no bytecode read or written for /repo
* numpy's legacy global generator (all draws dorado makes)      -> rng.py
* fresh OS entropy (default_rng(), os.urandom, randbits)        -> rng.py (derived from the run's seed)
* number of processors (os.cpu_count, affinity)               -> this file: simulated machine
* clocks (time.*)                                               -> this file: simulated clock
* file access below the scratch directory                       -> fs.py
* multiprocessing.Pool                                          -> pool.py
* thread scheduling, locks of the package                       -> threads.py
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "TQDM_DISABLE": "1", "LC_ALL": "C.UTF-8",
    "TZ": "UTC", "PYTHONWARNINGS": "default",
}


def reexec():
    """Re-execute once with a controlled environment and the interpreter dorado is installed in."""
    if os.environ.get("VERIF_BOOTED") == "1":
        return
    env = {k: v for k, v in os.environ.items()
           if k.startswith("VERIF_") or k in ("PATH", "HOME", "TMPDIR", "LANG")}
    env.update(ENV)
    env["PYTHONHASHSEED"] = os.environ.get("VERIF_HASHSEED", "0")
    if os.path.isdir("/opt/venv/mplconfig"):
        env["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
    env["VERIF_BOOTED"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B"] + sys.argv, env)


class Clock:
    """Simulated clock: never the machine's. Advances by a fixed tick per reading; runs may offset or
    step it (jumps)."""

    def __init__(self):
        self.reset()

    def reset(self, base=1.6e9, tick=1e-4):
        self.now, self.tick, self.reads = base, tick, 0

    def read(self):
        self.reads += 1
        self.now += self.tick
        return self.now


CLOCK = Clock()
CPUS = [8]          # processors of the simulated machine
real_affinity = os.sched_getaffinity
_loaded = None


def load():
    """Install the seams and import dorado from the repository's working tree."""
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    # never trust cached bytecode: it could belong to an older state of the tree
    sys.pycache_prefix = "/nonexistent/verif-no-pycache"
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(VERIF, "sim")]
    sys.path.insert(0, os.path.join(VERIF, "sim"))
    sys.path.insert(0, REPO)
    import fs
    fs.install()
    import numpy  # noqa: F401
    sys.pycache_prefix = None
    import scipy, scipy.stats, scipy.ndimage, scipy.interpolate  # noqa: F401,E401
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import mpl_toolkits.axes_grid1  # noqa: F401
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import rng
    rng.install()
    import pool
    pool.install()
    import time
    time.time = CLOCK.read
    time.perf_counter = CLOCK.read
    time.monotonic = CLOCK.read
    time.time_ns = lambda: int(CLOCK.read() * 1e9)
    time.sleep = lambda s: setattr(CLOCK, "now", CLOCK.now + float(s))
    os.cpu_count = lambda: CPUS[0]
    os.sched_getaffinity = lambda pid: set(range(CPUS[0]))
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count
    import threads
    threads.install()
    sys.pycache_prefix = "/nonexistent/verif-no-pycache"
    import dorado
    import dorado.particle_track
    import dorado.routines
    import dorado.spatial
    import dorado.parallel_routing
    import dorado.lagrangian_walker
    import dorado.logging_config
    sys.pycache_prefix = None
    where = os.path.dirname(os.path.abspath(dorado.__file__))
    if where != os.path.join(os.path.abspath(REPO), "dorado"):
        raise SystemExit("dorado was imported from %s, not from %s" % (where, REPO))
    _loaded = dorado
    return dorado
