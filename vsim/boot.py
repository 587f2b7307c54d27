"""Seams: everything the library could draw nondeterminism from is replaced before it is imported.

`ensure_env()` re-executes the interpreter with a fixed PYTHONHASHSEED, single-threaded BLAS and no
bytecode written; `load()` installs the seams and imports opt_einsum from /repo's working tree.
"""

import _thread
import importlib
import os
import pkgutil
import random as _random
import sys
import tempfile
import threading
import time

from . import core
from .core import CUR, REPO

_ORIG = {}


def env(hashseed):
    return {
        "PYTHONHASHSEED": str(hashseed),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "PYTHONDONTWRITEBYTECODE": "1",
        "JAX_PLATFORMS": "cpu",
        "CUDA_VISIBLE_DEVICES": "",
        "TF_CPP_MIN_LOG_LEVEL": "3",
    }


def ensure_env(hashseed):
    want = env(hashseed)
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    e = dict(os.environ)
    e.update(want)
    os.execve(sys.executable, [sys.executable] + sys.argv, e)


# ---- numpy -----------------------------------------------------------------
def _wrap_np(name, orig):
    def wrapped(*args, **kwargs):
        sim = CUR.sim
        if sim is None:
            return orig(*args, **kwargs)
        return sim.backend_call("numpy", name, orig, args, kwargs)

    wrapped.__name__ = name
    wrapped.__qualname__ = name
    wrapped.__module__ = "numpy"
    wrapped.__wrapped__ = orig
    return wrapped


# ---- clocks ----------------------------------------------------------------
def _clock(name):
    orig = getattr(time, name)
    _ORIG["time." + name] = orig
    ns = name.endswith("_ns")

    def f(*a):
        sim = CUR.sim
        if sim is not None and sim.clock is not None:
            v = sim.clock.read(name[:-3] if ns else name)
            return int(v * 1e9) if ns else v
        return orig(*a)

    f.__name__ = name
    return f


def _sleep(s):
    sim = CUR.sim
    if sim is not None and sim.clock is not None:
        sim.clock.advance(s)
        return
    _ORIG["time.sleep"](s)


def sim_id(obj):
    sim = CUR.sim
    if sim is None:
        return id(obj)
    return sim.ids(obj)


def _ident(real):
    def f():
        sim = CUR.sim
        if sim is not None and sim.cur is not None and sim.cur.ident is not None and sys._getframe(1).f_code.co_filename.startswith(core.PKG):
            return sim.cur.ident
        return real()

    return f


def _thread_ident(real):
    def f(self):
        sim = CUR.sim
        if sim is not None and sim.cur is not None and sim.cur.ident is not None and sys._getframe(1).f_code.co_filename.startswith(core.PKG):
            for th in [sim.main] + list(sim.threads):
                if th.os is self:
                    return th.ident
        return real.fget(self)

    return property(f)


_loaded = None


def orig(name):
    return _ORIG[name]


def load():
    """Install the seams, import opt_einsum from REPO and return the package."""
    global _loaded
    if _loaded is not None:
        return _loaded
    # never read stale bytecode of the code under test
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vsim-nopyc-%d" % os.getpid())
    sys.dont_write_bytecode = True
    import hashlib  # noqa: F401  (loaded before the forks)
    import numpy as np
    import numpy.random  # noqa: F401

    for n in ("einsum", "tensordot", "transpose"):
        _ORIG["np." + n] = getattr(np, n)
        setattr(np, n, _wrap_np(n, getattr(np, n)))

    # concurrency and time
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread

    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time", "time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns", "thread_time_ns"):
        setattr(time, n, _clock(n))
    _ORIG["time.sleep"] = time.sleep
    time.sleep = _sleep
    _ORIG["Lock"] = threading.Lock
    _ORIG["RLock"] = threading.RLock
    _ORIG["PPE"] = concurrent.futures.ProcessPoolExecutor
    _ORIG["TPE"] = concurrent.futures.ThreadPoolExecutor

    threading.get_ident = _ident(threading.get_ident)
    threading.get_native_id = _ident(threading.get_native_id)
    _thread.get_ident = _ident(_thread.get_ident)
    threading.Thread.ident = _thread_ident(threading.Thread.ident)
    threading.Thread.native_id = _thread_ident(threading.Thread.native_id)

    from . import pool

    concurrent.futures.ProcessPoolExecutor = pool.SimProcessPool
    concurrent.futures.process.ProcessPoolExecutor = pool.SimProcessPool

    sys.path.insert(0, REPO)
    threading.Lock = core.SimLock
    threading.RLock = core.SimRLock
    try:
        oe = importlib.import_module("opt_einsum")
        _import_all(oe)
        if not os.path.realpath(oe.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("opt_einsum was imported from %s, not from %s" % (oe.__file__, REPO))
    finally:
        # locks made by opt_einsum later on (inside functions) also have to be simulated ones
        threading.Lock = _lock_factory
        threading.RLock = _rlock_factory
    for name, mod in list(sys.modules.items()):
        if (name == "opt_einsum" or name.startswith("opt_einsum.")) and mod is not None:
            mod.id = sim_id
    core.Tracer.collect()
    _loaded = oe
    return oe


def _import_all(pkg):
    """Every submodule except tests, so that all code objects exist before the first run."""
    for m in pkgutil.iter_modules(pkg.__path__, pkg.__name__ + "."):
        if m.name in ("opt_einsum.tests", "opt_einsum.testing"):
            continue
        try:
            sub = importlib.import_module(m.name)
        except ImportError:
            continue
        if m.ispkg:
            _import_all(sub)


def _caller_is_repo():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back  # Condition(), Semaphore() ...
    return f is not None and f.f_code.co_filename.startswith(core.PKG)


def _lock_factory():
    return core.SimLock() if _caller_is_repo() else _ORIG["Lock"]()


def _rlock_factory():
    return core.SimRLock() if _caller_is_repo() else _ORIG["RLock"]()


def seed_globals(n):
    """The global random generators, as a run of the user's program would have left them."""
    import numpy as np

    _random.seed(n)
    np.random.seed(n % (1 << 32))
