"""Discrete-event executors: simulated process and thread pools on a simulated clock.

A pool has W workers.  A submitted job waits for a free worker, runs for a drawn duration and then
completes; nothing happens until somebody waits (`Future.result`, `shutdown`), which advances the
clock to the next event.  Trial functions run for real (un-pickled, with the worker's own global
random state for process pools)."""

import heapq
import pickle
import random
from concurrent.futures import CancelledError
from concurrent.futures import TimeoutError as FutTimeout
from concurrent.futures.process import BrokenProcessPool

from .core import CUR, SimAbort


class Clock:
    """True time plus what each clock of the operating system shows."""

    def __init__(self, spec):
        self.now = 0.0
        self.wall0 = spec.get("wall0", 1.6e9)
        self.mono0 = spec.get("mono0", 5000.0)
        self.tick = spec.get("tick", 1e-5)
        self.jump = 0.0
        self.cpu = 0.0  # processor time used by this process
        self.reads = 0

    def read(self, name):
        self.reads += 1
        self.now += self.tick
        if self.reads > 300_000:
            w = CUR.sim.world
            w.fatal("no-progress", "the clock was read %d times" % self.reads)
        if name in ("process_time", "thread_time"):
            self.cpu += self.tick
            return self.cpu
        if name == "time":
            return self.wall0 + self.now + self.jump
        return self.mono0 + self.now

    def advance(self, dt, cpu=0.0):
        self.now += max(0.0, dt)
        self.cpu += min(max(0.0, cpu), max(0.0, dt))

    # what the oracles look at (reading does not advance time)
    def wall(self):
        return self.now + self.jump

    def mono(self):
        return self.now


class Future:
    def __init__(self, pool, n, r, job):
        self.pool, self.n, self.r, self.job = pool, n, r, job
        self.state = "pending"
        self.exc = None
        self.val = None
        self.cancel_asked = False
        self.consumed = False
        self.call = None
        self.callbacks = []

    # what the library documents: result and cancel
    def result(self, timeout=None):
        w = CUR.sim.world
        w.on_wait(self)
        end = None if timeout is None else w.clock.now + timeout
        while self.state in ("pending", "running"):
            if not w.events_step(end):
                if end is not None:
                    raise FutTimeout()
                w.fatal("no-progress", "result() of trial %s can never arrive" % (self.r,))
        if self.state == "cancelled":
            raise CancelledError()
        self.consumed = True
        w.on_result(self)
        if self.exc is not None:
            raise self.exc
        return self.val

    def cancel(self):
        w = CUR.sim.world
        self.cancel_asked = True
        ok = self.state == "pending"
        if ok:
            self.state = "cancelled"
            if self in self.pool.queue:
                self.pool.queue.remove(self)
            self._settle()
        w.sim.ev("cancel", self.n, ok)
        return ok or self.state == "cancelled"

    # the rest of the concurrent.futures interface
    def done(self):
        return self.state in ("done", "cancelled")

    def running(self):
        return self.state == "running"

    def cancelled(self):
        return self.state == "cancelled"

    def exception(self, timeout=None):
        try:
            self.result(timeout)
        except (CancelledError, FutTimeout):
            raise
        except BaseException as e:
            return e
        return None

    def add_done_callback(self, fn):
        if self.done():
            fn(self)
        else:
            self.callbacks.append(fn)

    def _settle(self):
        todo, self.callbacks = self.callbacks, []
        for fn in todo:
            fn(self)


class Pool:
    """Common part; subclasses decide what a user of the pool sees."""

    kind = "process"
    managed = False
    future = Future

    def _setup(self, world, workers):
        self.world = world
        self.workers = workers
        self.free = list(range(workers))
        self.queue = []
        self.broken = False
        self.closed = False
        self.shutdowns = 0
        self.futures = []
        self.pid = world.new_pool(self)
        self.rstate = {}

    def _submit(self, fn, args, kwargs):
        w = self.world
        if CUR.sim is None or CUR.sim.world is not w:
            raise RuntimeError("pool used outside its simulation")
        r = args[0] if args and isinstance(args[0], int) else None
        w.on_submit(self, r)  # may raise an injected failure
        if self.broken:
            raise BrokenProcessPool("the pool is broken")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = self.future(self, len(w.futures), r, None)
        f.call = w.call_uid
        w.futures.append(f)
        self.futures.append(f)
        try:
            f.job = pickle.dumps((fn, args, kwargs)) if self.kind == "process" else (fn, args, kwargs)
        except Exception as e:
            f.state, f.exc = "done", e
            return f
        self.queue.append(f)
        w.sim.ev("submit", f.n, r, self.pid)
        self._start()
        return f

    def _start(self):
        while self.free and self.queue and not self.broken:
            f = self.queue.pop(0)
            worker = self.free.pop(0)
            f.state = "running"
            dt = self.world.duration(f)
            self.world.schedule(dt, ("done", self, f, worker))

    def _run(self, f, worker):
        """The job's effect, at its completion time."""
        w = self.world
        if w.trial_fault(f):
            return  # the pool broke
        mine = None
        if self.kind == "process":
            mine = random.getstate()
            st = self.rstate.get(worker)
            if st is None:
                random.seed(w.wseed * 1000 + self.pid * 50 + worker)
            else:
                random.setstate(st)
        w.in_worker += 1
        try:
            fn, args, kwargs = pickle.loads(f.job) if self.kind == "process" else f.job
            val = fn(*args, **kwargs)
            if self.kind == "process":
                val = pickle.loads(pickle.dumps(val))
            f.val = val
        except SimAbort:
            raise
        except Exception as e:
            e.__traceback__ = None
            f.exc = e
        finally:
            w.in_worker -= 1
            if mine is not None:
                self.rstate[worker] = random.getstate()
                random.setstate(mine)
        f.state = "done"
        self.free.append(worker)
        f._settle()
        w.sim.ev("done", f.n, f.r, repr(f.exc)[:60] if f.exc else "ok", round(w.clock.now, 6))
        self._start()

    def _break(self):
        self.broken = True
        for f in self.futures:
            if f.state in ("pending", "running"):
                f.state = "done"
                f.exc = BrokenProcessPool("a worker process was terminated abruptly")
                f._settle()
        self.queue = []
        self.world.sim.ev("broken", self.pid)

    def _shutdown(self, wait, cancel_futures):
        w = self.world
        self.shutdowns += 1
        self.closed = True
        w.sim.ev("shutdown", self.pid)
        if cancel_futures:
            for f in self.queue:
                f.state = "cancelled"
                f._settle()
            self.queue = []
        if wait and CUR.sim is not None:
            while any(f.state in ("pending", "running") for f in self.futures):
                if not w.events_step(None):
                    w.fatal("no-progress", "shutdown can never finish")


class SimProcessPool(Pool):
    """What opt_einsum gets when it creates a ProcessPoolExecutor."""

    managed = True

    def __init__(self, max_workers=None, *a, **kw):
        sim = CUR.sim
        if sim is None or getattr(sim, "world", None) is None:
            raise RuntimeError("a process pool may only be created inside the search simulation")
        sim.world.on_newpool()
        self._setup(sim.world, int(max_workers) if max_workers else sim.world.ncpu)
        self._max_workers = self.workers

    def submit(self, fn, /, *args, **kwargs):
        return self._submit(fn, args, kwargs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown(wait, cancel_futures)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class UserPool(Pool):
    """A pool supplied by the user: only `submit` is promised; shutdown is there to be seen."""

    def __init__(self, world, workers, kind):
        self.kind = kind
        self._setup(world, workers)

    def submit(self, fn, /, *args, **kwargs):
        return self._submit(fn, args, kwargs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown(wait, cancel_futures)

    close = terminate = stop = shutdown

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._shutdown(True, False)


class EventQueue:
    """Mixin: the event loop of a world with a clock."""

    def init_events(self, spec):
        self.clock = Clock(spec)
        self.heap = []
        self.hseq = 0

    def schedule(self, dt, ev):
        self.hseq += 1
        heapq.heappush(self.heap, (self.clock.now + dt, self.hseq, ev))

    def events_step(self, end):
        """Process the next event; False if there is none (or none before `end`)."""
        if not self.heap:
            if end is not None:
                self.clock.now = max(self.clock.now, end)
            return False
        t, _, ev = self.heap[0]
        if end is not None and t > end:
            self.clock.now = max(self.clock.now, end)
            return False
        heapq.heappop(self.heap)
        self.clock.now = max(self.clock.now, t)
        kind, pool, f, worker = ev
        if f.state == "running":
            pool._run(f, worker)
        return True
