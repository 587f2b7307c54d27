"""Deterministic scheduler, fault points and run isolation.

One run = one forked process.  Inside it real threads run the real library code of /repo, but only
one at a time: at every traced line (or opcode) of /repo/opt_einsum the scheduler may park the
running thread and release another one.  Every decision comes from one PRNG (or from a recorded
schedule), so a run is a pure function of (code, plan, schedule, faults, PYTHONHASHSEED).

Positions are op-relative: (thread, op uid, k-th event inside that op).  That keeps schedules and
fault positions meaningful while the shrinker removes other operations.
"""

import _thread
import ast
import collections
import dis
import gc
import json
import os
import random
import select
import signal
import sys
import threading
import time as _real_time_mod
import traceback
import types
import weakref

REAL_TIME = _real_time_mod.time
REAL_MONO = _real_time_mod.monotonic
REPO = os.environ.get("VSIM_REPO", "/repo")
PKG = os.path.join(REPO, "opt_einsum") + os.sep
PKG_TESTS = PKG + "tests" + os.sep


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is given up (never seen by oracles)."""


class _Cur:
    sim = None


CUR = _Cur()


# --------------------------------------------------------------------------- injected exceptions
class InjRuntime(RuntimeError):
    pass


class InjMemory(MemoryError):
    pass


class InjValue(ValueError):
    pass


class InjOS(OSError):
    pass


class InjKey(KeyError):
    pass


class InjType(TypeError):
    pass


class InjAttr(AttributeError):
    pass


class InjInterrupt(KeyboardInterrupt):
    pass


def _inj(base):
    return type("Inj" + base.__name__, (base,), {})


EXC = {
    "RuntimeError": InjRuntime,
    "MemoryError": InjMemory,
    "ValueError": InjValue,
    "OSError": InjOS,
    "KeyError": InjKey,
    "TypeError": InjType,
    "AttributeError": InjAttr,
    "KeyboardInterrupt": InjInterrupt,
}
for _e in (IndexError, ZeroDivisionError, OverflowError, NotImplementedError, AssertionError, ImportError, TimeoutError, FloatingPointError, RecursionError, NameError, BufferError, SystemError, PermissionError, UnicodeError):
    EXC[_e.__name__] = _inj(_e)
INJECTED = tuple(EXC.values())


# --------------------------------------------------------------------------- object serials
class Serials:
    """Unique, never recycled number per live object (weak, so lifetimes are not changed)."""

    def __init__(self):
        self.m = {}
        self.n = 0
        self.refs = {}  # serial -> weakref

    def __call__(self, obj):
        r = id(obj)
        e = self.m.get(r)
        if e is not None and e[1]() is obj:
            return e[0]
        try:
            self.n += 1
            s = self.n
            m, refs = self.m, self.refs

            def dead(_ref, r=r, s=s):
                if m.get(r, (None,))[0] == s:
                    del m[r]

            ref = weakref.ref(obj, dead)
        except TypeError:
            return None
        self.m[r] = (s, ref)
        refs[s] = ref
        return s

    def alive(self, s):
        ref = self.refs.get(s)
        return ref is not None and ref() is not None


class SimIds:
    """Simulated memory addresses: what `id` returns inside opt_einsum.

    Addresses of dead objects are handed out again with probability `recycle`, most recently freed
    first with probability 1/2 - the adversarial version of what a real allocator does."""

    def __init__(self, seed, recycle):
        self.rng = random.Random(seed)
        self.recycle = recycle
        self.m = {}
        self.free = []
        self.used = set()
        self.recycled = 0

    def __call__(self, obj):
        r = id(obj)
        e = self.m.get(r)
        if e is not None and e[1]() is obj:
            return e[0]
        m, free = self.m, self.free
        cell = []

        def dead(_ref, r=r):
            if r in m and m[r][1] is cell[1]:
                del m[r]
            free.append(cell[0])

        try:
            ref = weakref.ref(obj, dead)
        except TypeError:
            ref = _Strong(obj)
        if free and self.rng.random() < self.recycle:
            tok = free.pop() if self.rng.random() < 0.5 else free.pop(self.rng.randrange(len(free)))
            self.recycled += 1
        else:
            while True:
                tok = self.rng.randrange(1 << 20, 1 << 44) * 16
                if tok not in self.used:
                    break
            self.used.add(tok)
        cell.append(tok)
        cell.append(ref)
        m[r] = (tok, ref)
        return tok


class _Strong:
    def __init__(self, o):
        self.o = o

    def __call__(self):
        return self.o


# --------------------------------------------------------------------------- threads
class SimThread:
    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.waiting = None  # SimLock
        self.uid = None  # current op
        self.k = 0  # event index in op
        self.nback = 0  # backend calls in op
        self.quiet = True  # no preemption / interrupts
        self.interrupt = None  # (k, exc)
        self.fired = []  # injected exception instances of the current op
        self.hadexc = False
        self.dropcheck = None
        self.prio = 0
        self.ops_done = 0
        self.stack = []  # model: open sharing caches (world specific)
        self.cms = []
        self.constser = ()
        self.recs = []  # backend calls of the current op
        self.imp = False
        self.inflight = False
        self.t_start = 0
        self.error = None
        self.os = None  # threading.Thread
        self.ident = 0x7F0000000000 if tid < 0 else None  # what threading.get_ident() tells the library


class Sim:
    PROFILE_CAP = 150_000  # a plan whose serial run is longer is discarded

    def __init__(self, plan, schedule=None, faults=(), profile=False, serial_steps=None):
        # liveness bound: what the same calls need one after another, times 6 (searches whose
        # pruning depends on timing), plus slack
        self.strip = True  # drop the frames of exceptions (they keep arrays alive)
        self.serial_steps = serial_steps
        self.capped = False
        self.plan = plan
        self.cfg = plan.get("cfg", {})
        self.schedule = schedule or {"kind": "serial"}
        self.faults = list(faults)
        self.threads = []
        self.main = SimThread(-1, "main")
        self.main.os = threading.current_thread()
        self.opcode = bool(self.schedule.get("opcode"))
        self.steps = 0
        self.now = 0  # global event counter
        self.sched_log = []
        self.switches = 0
        self.viol = []
        self.stats = {}
        self.log = []
        self.abort = False
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.profile = {} if profile else None
        self.serial = Serials()
        self.ids = SimIds(self.schedule.get("ids", self.cfg.get("idseed", 0)), self.schedule.get("recycle", self.cfg.get("recycle", 0.8)))
        self.idents_given = []
        self.ident_rng = random.Random("ident%s" % self.cfg.get("idseed", 0))
        self.fault_idx = {}
        for f in self.faults:
            self.fault_idx.setdefault(f["u"], []).append(f)
        self.step_cap = self.PROFILE_CAP if serial_steps is None else (6 * serial_steps + 20_000) * (12 if self.opcode else 1)
        self.policy = make_policy(self, self.schedule)
        self.on_backend = None  # world callback
        self.on_import = None  # world callback
        self.cur = self.main
        self.clock = None
        self.deadlock = False
        self.sites = set()  # lines where a thread was preempted
        self.fsites = set()  # lines where an interrupt was injected
        self.preempt = 0

    # ---- bookkeeping
    def stat(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def violation(self, cls, msg, th=None, **kw):
        self.viol.append(dict(cls=cls, msg=str(msg)[:600], uid=(th.uid if th else None), tid=(th.tid if th else None), **kw))

    def ev(self, *a):
        self.log.append(a)

    # ---- preemption points
    def event(self, th, code, where):
        th.k += 1
        self.steps += 1
        self.now += 1
        if self.abort:
            raise SimAbort()
        if self.steps > self.step_cap:
            if not self.abort:
                self.abort = True
                self.capped = True
                self.violation("no-progress", "no end after %d events; run alone, one after another, the same calls need %s" % (self.step_cap, self.serial_steps), th)
            raise SimAbort()
        if self.profile is not None:
            p = self.profile.setdefault((th.tid, th.uid), {}).setdefault((code.co_filename[len(PKG):], where), [])
            if len(p) < 4:
                p.append(th.k)
            else:
                p[3] = th.k
        it = th.interrupt
        if it is not None and it[0] == th.k:
            th.interrupt = None
            if (code.co_filename[len(PKG):], where) in Tracer.withs:
                # entering or leaving a `with` block: CPython handles no signal between the end of
                # the block and the call of __exit__, so wait for the next line
                th.interrupt = (th.k + 1, it[1])
            elif code.co_name != "__del__":
                e = EXC[it[1]]("injected at event %d" % th.k)
                th.fired.append(e)
                self.stat("fault.interrupt")
                self.fsites.add("%s:%d" % (code.co_filename[len(PKG):], where))
                self.ev("interrupt", th.tid, th.uid, th.k)
                raise e
        to = self.policy.at(th)
        if to is not None:
            self.sites.add("%s:%d" % (code.co_filename[len(PKG):], where))
            self.preempt += 1
            self._switch(th, to)

    def yield_point(self, th):
        """Explicit scheduling point in harness code (operation boundaries, backend latency)."""
        th.k += 1
        self.now += 1
        if self.abort:
            raise SimAbort()
        to = self.policy.at(th)
        if to is not None:
            self._switch(th, to)

    def runnable(self, but=None):
        return [t for t in self.threads if not t.done and t.waiting is None and t is not but]

    def _switch(self, th, to):
        self.sched_log.append([th.tid, th.uid, th.k, to.tid])
        self.switches += 1
        self.cur = to
        to.sem.release()
        th.sem.acquire()
        if self.abort:
            raise SimAbort()

    def block(self, th, lock):
        """The running thread waits for a lock held by a parked one."""
        th.waiting = lock
        self.stat("lock.block")
        r = self.runnable()
        if not r:
            self.deadlock = True
            self.abort = True
            th.waiting = None
            self.violation("deadlock", "all threads wait for locks", th)
            raise SimAbort()
        to = self.policy.pick(r)
        self.sched_log.append([th.tid, th.uid, -1, to.tid])
        self.cur = to
        to.sem.release()
        th.sem.acquire()
        if self.abort:
            raise SimAbort()

    def _finish(self, th):
        th.done = True
        r = self.runnable()
        if self.abort:
            r = [t for t in self.threads if not t.done]
            if r:
                self.cur = r[0]
                r[0].sem.release()
            else:
                self.main_sem.release()
            return
        if r:
            to = self.policy.pick(r)
            self.sched_log.append([th.tid, None, -2, to.tid])
            self.cur = to
            to.sem.release()
        elif any(not t.done for t in self.threads):
            self.deadlock = True
            self.abort = True
            self.violation("deadlock", "remaining threads wait for locks forever", th)
            t = [t for t in self.threads if not t.done][0]
            self.cur = t
            t.sem.release()
        else:
            self.cur = self.main
            self.main_sem.release()

    def run_threads(self, bodies, names=None):
        self.threads = [SimThread(i, (names or {}).get(i, "worker")) for i in range(len(bodies))]
        if not self.threads:
            return
        self.policy.start()
        os_threads = []
        for th, body in zip(self.threads, bodies):
            t = th.os = threading.Thread(target=self._boot, args=(th, body), name=th.name, daemon=True)
            t.start()
            os_threads.append(t)
        first = self.policy.pick(self.threads)
        self.sched_log.append([-1, None, -2, first.tid])
        self.cur = first
        first.sem.release()
        if not self.main_sem.acquire(timeout=100):
            raise RuntimeError("stalled")
        for t in os_threads:
            t.join(20)
        self.cur = self.main

    def _identify(self, th):
        """A thread identifier, as likely as not the one of a thread that has ended."""
        live = {t.ident for t in self.threads if not t.done}
        free = [i for i in self.idents_given if i not in live]
        if free and self.ident_rng.random() < 0.75:
            th.ident = self.ident_rng.choice(free)
            self.stat("ident.recycled")
        else:
            th.ident = 0x7F0000001000 + 0x1000 * len(self.idents_given)
            self.idents_given.append(th.ident)

    def _boot(self, th, body):
        th.sem.acquire()
        self._identify(th)
        try:
            if not self.abort:
                body(th)
        except SimAbort:
            pass
        except BaseException as e:  # harness error
            th.error = "".join(traceback.format_exception(e))
            self.abort = True
        finally:
            th.quiet = True
            self._finish(th)

    # ---- operations of the system under test
    def call(self, th, uid, fn, *args, **kwargs):
        """Run one API call under tracing; returns ('ok', value) or ('exc', exception)."""
        th.uid = uid
        th.k = 0
        th.nback = 0
        th.fired = []
        th.interrupt = None
        for f in self.fault_idx.get(uid, ()):
            if f["kind"] == "interrupt":
                th.interrupt = (f["k"], f["exc"])
        # operation boundary
        if th.tid >= 0:
            th.quiet = True
            self.yield_point(th)
        th.quiet = False
        try:
            try:
                return ("ok", fn(*args, **kwargs))
            finally:
                th.quiet = True
                th.interrupt = None
        except SimAbort:
            raise
        except BaseException as e:
            # drop frames: they would keep arrays alive
            tb = e.__traceback__
            site = None
            while tb is not None:
                fn_ = tb.tb_frame.f_code.co_filename
                if fn_.startswith(PKG):
                    site = "%s:%s" % (fn_[len(PKG):], tb.tb_frame.f_code.co_name)
                tb = tb.tb_next
            if self.strip or isinstance(e, InjInterrupt):
                # (CPython 3.12 leaks a frame when a monitoring callback raises in an except clause)
                _strip(e)
            else:
                del tb
                th.hadexc = True
            return ("exc", e, site)

    def backend_call(self, bname, func, orig, args, kwargs):
        """Every call of the library into an array backend goes through here."""
        th = self.cur
        if th is None or th.quiet:
            return orig(*args, **kwargs)
        n = th.nback
        th.nback = n + 1
        self.now += 1
        if self.profile is not None:
            self.profile.setdefault(("b", th.uid), []).append((bname, func))
        watch = self.on_backend if bname != "user" else None
        rec = watch("begin", th, bname, func, args, kwargs, None) if watch else None
        for f in self.fault_idx.get(th.uid, ()):
            if f["kind"] == "op" and f["n"] == n and f.get("when", "before") == "before":
                self._fire(th, f)
        if th.tid >= 0:
            self.yield_point(th)
        th.quiet = True
        try:
            res = orig(*args, **kwargs)
        finally:
            th.quiet = False
        for f in self.fault_idx.get(th.uid, ()):
            if f["kind"] == "op" and f["n"] == n and f.get("when") == "after":
                self._fire(th, f)
        self.now += 1
        if watch:
            watch("end", th, bname, func, args, kwargs, (rec, res))
        return res

    def _fire(self, th, f):
        e = EXC[f["exc"]]("injected into backend operation %d" % f["n"])
        th.fired.append(e)
        self.stat("fault.op." + f["exc"])
        self.ev("fault", th.tid, th.uid, f["n"], f["exc"])
        raise e


def _strip(e, seen=None):
    seen = seen or set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        if e.__cause__ is not None:
            _strip(e.__cause__, seen)
        e = e.__context__


# pure search/parsing code: long, and only traced in a part of the runs (cfg scope "full")
SEARCH_FILES = ("paths.py", "path_random.py", "parser.py", "blas.py", "helpers.py")


_MUT = (dict, list, set, bytearray, collections.deque)


class Tracer:
    """Preemption points: line (or instruction) events of /repo/opt_einsum's code objects only.

    sys.monitoring with local events, set once per run: unlike sys.settrace it costs nothing in
    numpy or harness code and is not switched on and off while threads are parked."""

    TOOL = 3
    codes = None

    @classmethod
    def collect(cls):
        """All code objects of the package (call after the package has been imported)."""
        seen = set()
        todo = [o.__code__ for o in gc.get_objects() if isinstance(o, types.FunctionType)]
        while todo:
            c = todo.pop()
            if c in seen or not c.co_filename.startswith(PKG) or c.co_filename.startswith(PKG_TESTS):
                continue
            seen.add(c)
            todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
        cls.codes = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
        sys.monitoring.use_tool_id(cls.TOOL, "vsim")
        # lines that write shared state or import something: interesting places to stop at
        cls.hot = set()
        cls.withs = set()
        for c in cls.codes:
            line = None
            for ins in dis.get_instructions(c):
                line = ins.positions.lineno or line
                if ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "IMPORT_NAME", "STORE_DEREF", "BEFORE_WITH", "RERAISE"):
                    cls.hot.add((c.co_filename[len(PKG):], line))
                    if ins.opname == "BEFORE_WITH":
                        cls.withs.add((c.co_filename[len(PKG):], line))
        # likewise an explicit acquire() followed by try/finally: release()
        for f in {c.co_filename for c in cls.codes}:
            cls.withs |= {(f[len(PKG):], n) for n in _lock_lines(f)}
        # functions that use mutable state of a module, of a class or of their defaults: all lines
        # are interesting, also in search code that is otherwise not traced
        mods = {}
        shared = set()
        dflt = set()
        for m in [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "opt_einsum" and m is not None]:
            names = set()
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                if isinstance(v, _MUT):
                    names.add(k)
                elif isinstance(v, type) and v.__module__ == m.__name__:
                    shared.update(a for a, b in list(vars(v).items()) if isinstance(b, _MUT) and not a.startswith("__"))
                    for f in vars(v).values():
                        if isinstance(f, types.FunctionType) and any(isinstance(d, _MUT) for d in f.__defaults__ or ()):
                            dflt.add(f.__code__)
                elif isinstance(v, types.FunctionType) and any(isinstance(d, _MUT) for d in v.__defaults__ or ()):
                    dflt.add(v.__code__)
            mods[getattr(m, "__file__", None)] = names
        cls.shared = set()
        for c in cls.codes:
            names = mods.get(c.co_filename, set())
            if "<locals>" in c.co_qualname and c.co_filename[len(PKG):] in SEARCH_FILES:
                continue  # (inner loops of searches)
            if c in dflt or any(n in names or n in shared for n in c.co_names) or any(i.opname == "STORE_GLOBAL" for i in dis.get_instructions(c)):
                cls.shared.add(c)
                cls.hot.update((c.co_filename[len(PKG):], ln) for _, _, ln in c.co_lines() if ln is not None)

    @classmethod
    def install(cls, sim):
        cls.prepare(sim.cfg.get("scope") == "core", sim.opcode)
        mon = sys.monitoring
        ev = sim.event

        def cb(code, where):
            th = sim.cur
            if not th.quiet:
                ev(th, code, where)

        mon.register_callback(cls.TOOL, mon.events.INSTRUCTION if sim.opcode else mon.events.LINE, cb)

    mode = None

    @classmethod
    def prepare(cls, core_only, opcode):
        """Select the events (slow; done in the parent, inherited by the forked runs)."""
        if cls.mode == (core_only, opcode):
            return
        cls.mode = (core_only, opcode)
        mon = sys.monitoring
        kind = mon.events.INSTRUCTION if opcode else mon.events.LINE
        for c in cls.codes:
            on = not (core_only and c.co_filename[len(PKG):] in SEARCH_FILES) or c in cls.shared
            if mon.get_local_events(cls.TOOL, c) != (kind if on else 0):
                mon.set_local_events(cls.TOOL, c, kind if on else 0)


# --------------------------------------------------------------------------- locks
_real_Lock = threading.Lock
_real_RLock = threading.RLock


def _calls(node, names):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names for n in ast.walk(node))


def _lock_lines(path):
    """Lines of an explicit acquire() up to its `try:`, and of the release() in `finally:`."""
    try:
        tree = ast.parse(open(path).read())
    except (OSError, SyntaxError):
        return set()
    out = set()
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            block = getattr(node, field, None)
            if not isinstance(block, list):
                continue
            for a, b in zip(block, block[1:]):
                if isinstance(b, ast.Try) and b.finalbody and _calls(a, ("acquire", "__enter__")):
                    out.update(range(a.lineno, b.lineno + 1))
        if isinstance(node, ast.Try):
            for st in node.finalbody:
                if _calls(st, ("release", "__exit__")):
                    out.update(range(st.lineno, st.end_lineno + 1))
    return out


class SimLock:
    """Drop-in for threading.Lock that parks simulated threads in the scheduler."""

    _reentrant = False

    def __init__(self):
        self._l = _thread.allocate_lock()
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        sim = CUR.sim
        if sim is not None and sim.cur is not None and sim.cur.tid >= 0 and sim.threads:
            th = sim.cur
            while True:
                if self._l.acquire(False):
                    break
                if not blocking or timeout == 0:
                    return False
                sim.block(th, self)
        else:
            if not self._l.acquire(blocking, timeout):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._reentrant:
            if self._owner != self._me():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        sim = CUR.sim
        if sim is not None:
            for t in sim.threads:
                if t.waiting is self:
                    t.waiting = None

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()
        self._owner = None
        self._count = 0

    # used by threading.Condition
    def _is_owned(self):
        if self._reentrant:
            return self._owner == self._me()
        if self._l.acquire(False):
            self._l.release()
            return False
        return True


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        self._l.release()
        return (c, self._me())

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state[0]


# --------------------------------------------------------------------------- scheduling policies
def make_policy(sim, spec):
    return {"serial": Serial, "random": RandomWalk, "pct": Pct, "pause": Pause, "replay": Replay}[spec["kind"]](sim, spec)


class Serial:
    """No preemption; threads run to completion in order."""

    def __init__(self, sim, spec):
        self.sim, self.spec = sim, spec

    def start(self):
        pass

    def at(self, th):
        return None

    def pick(self, r):
        return r[0]


class RandomWalk(Serial):
    def __init__(self, sim, spec):
        super().__init__(sim, spec)
        self.rng = random.Random(spec["seed"])
        self.gap = spec["gap"]
        self.left = self._draw()

    def _draw(self):
        return 1 + int(self.rng.expovariate(1.0 / self.gap))

    def at(self, th):
        if th.tid < 0:
            return None
        self.left -= 1
        if self.left > 0:
            return None
        self.left = self._draw()
        r = self.sim.runnable(th)
        return self.rng.choice(r) if r else None

    def pick(self, r):
        return self.rng.choice(r)


class Pct(Serial):
    """Probabilistic concurrency testing: random priorities, d priority-change points."""

    def __init__(self, sim, spec):
        super().__init__(sim, spec)
        self.rng = random.Random(spec["seed"])
        self.change = sorted(self.rng.randrange(1, max(2, spec["len"])) for _ in range(spec["d"]))
        self.n = 0
        self.low = -1

    def start(self):
        ps = list(range(1, len(self.sim.threads) + 1))
        self.rng.shuffle(ps)
        for t, p in zip(self.sim.threads, ps):
            t.prio = p

    def at(self, th):
        if th.tid < 0:
            return None
        self.n += 1
        if self.change and self.n >= self.change[0]:
            self.change.pop(0)
            th.prio = self.low
            self.low -= 1
            r = self.sim.runnable(th)
            if r:
                b = max(r, key=lambda t: t.prio)
                if b.prio > th.prio:
                    return b
        return None

    def pick(self, r):
        return max(r, key=lambda t: t.prio)


class Pause(Serial):
    """Park chosen threads at chosen positions until the others have finished (or `ops` ops)."""

    def __init__(self, sim, spec):
        super().__init__(sim, spec)
        self.rng = random.Random(spec["seed"])
        self.points = {tuple(p[:3]): p[3] for p in spec["points"]}  # (tid, uid, k) -> ops to wait
        self.order = spec.get("order")
        self.resume = None  # (thread, tid of other, ops_done target)

    def at(self, th):
        if self.resume is not None:
            t, other, target = self.resume
            if th is not t and th.tid == other and th.ops_done >= target and not t.done and t.waiting is None:
                self.resume = None
                return t
        key = (th.tid, th.uid, th.k)
        if key in self.points:
            w = self.points.pop(key)
            r = self.sim.runnable(th)
            if r:
                to = self.rng.choice(r)
                if w:
                    self.resume = (th, to.tid, to.ops_done + w)
                return to
        return None

    def pick(self, r):
        if self.order:
            for tid in self.order:
                for t in r:
                    if t.tid == tid:
                        return t
        return self.rng.choice(r)


class Replay(Serial):
    """Follows a recorded schedule; positions missing from it do not switch."""

    def __init__(self, sim, spec):
        super().__init__(sim, spec)
        self.at_ = {}
        self.picks = {}
        for tid, uid, k, to in spec["log"]:
            if k < 0:
                self.picks.setdefault((tid, uid, k), []).append(to)
            else:
                self.at_.setdefault((tid, uid, k), []).append(to)

    def at(self, th):
        q = self.at_.get((th.tid, th.uid, th.k))
        if q:
            to = q.pop(0)
            for t in self.sim.threads:
                if t.tid == to and not t.done and t.waiting is None and t is not th:
                    return t
        return None

    def pick(self, r):
        sim = self.sim
        c = sim.cur
        for key in ((c.tid, c.uid, -1), (c.tid, None, -2)) if c else ((-1, None, -2),):
            q = self.picks.get(key)
            if q:
                to = q.pop(0)
                for t in r:
                    if t.tid == to:
                        return t
        return r[0]


# --------------------------------------------------------------------------- run isolation
class ChildFailed(Exception):
    pass


def fork_run(fn, timeout=60):
    """Run fn() in a forked child, return its JSON-able result."""
    gc.collect()
    gc.freeze()  # what exists now is not looked at by collections in the child
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            try:
                res = fn()
            except BaseException as e:
                res = {"harness_error": "".join(traceback.format_exception(e))[-4000:]}
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(wfd, data[off : off + 65536])
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    end = REAL_MONO() + timeout
    killed = False
    while True:
        left = end - REAL_MONO()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            continue
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    os.waitpid(pid, 0)
    if killed:
        return {"harness_error": "run exceeded %ds of wall time" % timeout, "timeout": True}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"harness_error": "run ended without a result"}
