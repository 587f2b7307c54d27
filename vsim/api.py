"""The API world: threads of a user program calling contract / expressions / sharing / paths.

A plan is JSON: {"cfg": {...}, "slots": {...}, "pre": [ops], "threads": [[ops], ...]}.
Operations on slots that are empty are skipped, so any subset of operations is a valid plan.
"""

import gc
import random
import sys

import numpy as np

from . import boot, stubs
from .core import CUR, EXC, INJECTED, PKG, REAL_MONO, Sim, SimAbort, Tracer

SENT = -77
LEAVE = {"exc": RuntimeError, "kbi": KeyboardInterrupt, "sysexit": SystemExit, "genexit": GeneratorExit, "stop": StopIteration}


class Slot:
    __slots__ = ("obj", "exp", "ser")

    def __init__(self, obj, exp):
        self.obj = obj
        self.exp = exp
        self.ser = None


class Cache:
    """Model of one sharing cache."""

    n = 0

    def __init__(self, d, cid):
        self.d = d
        self.cid = cid
        self.active = 0  # threads whose innermost block uses it
        self.open = 0  # blocks using it
        self.named = 0  # slots holding it
        self.snap = snap(d)
        self.legit = set()
        self.recs = []
        self.uncounted = False  # also used by operations that are not recorded

    @property
    def alive(self):
        return self.open > 0 or self.named > 0


def snap(d):
    return (len(d), tuple(id(v) for v in d.values()))


def mk_values(seed, sh, dt):
    r = random.Random(seed)
    n = 1
    for s in sh:
        n *= s
    vals = [r.choice((-3, -2, -1, 1, 2, 3)) for _ in range(n)]
    if dt == "O":
        a = np.empty(n, dtype=object)
        a[:] = vals
        return a.reshape(sh)
    if dt == "c16":
        im = [r.choice((-2, -1, 0, 1, 2)) for _ in range(n)]
        return (np.array(vals) + 1j * np.array(im)).astype("c16").reshape(sh)
    return np.array(vals, dtype=dt).reshape(sh)


def mk_obj(lib, exp):
    if lib in ("numpy", "object"):
        return exp.copy()
    if lib == "torch-real":
        import torch

        return torch.from_numpy(exp.copy())
    if lib in stubs.PLAIN:
        return stubs.make_plain(lib, exp)
    return stubs.make_device(lib, exp)


def base_chain(o):
    out = []
    while o is not None and len(out) < 20:
        out.append(o)
        o = getattr(o, "base", None)
    return out


def ref_einsum(sigs, arrs, out):
    letters = "abcdefghijklmnopqrstuvwxyz"
    m = {}
    for s in sigs:
        for i in s:
            if i not in m:
                m[i] = letters[len(m)]
    eq = ",".join("".join(m[i] for i in s) for s in sigs) + "->" + "".join(m[i] for i in out)
    return np.asarray(boot.orig("np.einsum")(eq, *arrs))


class ApiWorld:
    def __init__(self, plan, schedule=None, faults=(), profile=False, prop=None, expect=None):
        expect = expect or {}
        self.oe = boot.load()
        import opt_einsum.backends as be
        import opt_einsum.sharing as sharing

        self.be, self.sharing = be, sharing
        self.sim = Sim(plan, schedule, faults, profile, expect.get("steps"))
        # for C04 exceptions keep their frames until the operation is over (a user drops them then)
        self.sim.strip = prop not in (None, "C04")
        self.plan = plan
        self.cfg = plan["cfg"]
        self.prop = prop
        self.expect = expect
        self.slots = {}
        self.caches = {}  # slot -> Cache
        self.allc = []  # live Cache models
        self.exprs = {}
        self.ncid = 0
        self.faulted = False
        self.import_faulted = False
        self.failed_ops = []
        self.made = {}  # serial -> description of arrays made by backend calls
        self.user = {}  # serial -> description of arrays made by the user
        self.completed = {}  # (expr uid, backend) -> list of completion times
        self.lead = {}
        self.import_count = {}
        self.import_forced = {}
        self.sim.on_backend = self.on_backend
        self.sim.on_import = self.on_import
        self.sim.old_torch = bool(plan["cfg"].get("old_torch"))
        self.states = set()
        self.objs = {}
        self.vbuf = {}
        self.recovery = False
        self.nvals = 0
        self.served = {}
        self.bases = {}  # serial of a view -> serials of the arrays it keeps alive

    # ------------------------------------------------------------------ running
    def run(self):
        sim = self.sim
        boot.seed_globals(self.cfg.get("rseed", 1))
        gc.disable()
        Tracer.install(sim)
        CUR.sim = sim
        try:
            for op in self.plan.get("pre", ()):
                self.step(sim.main, op)
            names = {i: n for i, n in enumerate(self.cfg.get("names", ()))}
            single = len(self.plan["threads"]) == 1

            def body(ops):
                def f(th):
                    for op in ops:
                        self.step(th, op)
                        th.ops_done += 1
                    self.close_all(th)
                    if single:
                        self.recover(th)
                        self.teardown(th)

                return f

            sim.run_threads([body(t) for t in self.plan["threads"]], names)
            if not sim.abort and not single:
                # recovery and release are judged from a thread started afterwards (it may well get
                # the identity of one that has ended)
                t2 = len(sim.threads)
                done = sim.threads

                def rec(th):
                    th.tid = t2
                    self.recover(th)
                    self.teardown(th)

                sim.run_threads([rec], {0: "late"})
                sim.threads = done + sim.threads
        except SimAbort:
            if not sim.capped:
                raise
        finally:
            CUR.sim = None
        for th in sim.threads:
            if th.error:
                return {"harness_error": th.error[-3000:]}
        res = {
            "viol": sim.viol,
            "stats": sim.stats,
            "switches": sim.switches,
            "steps": sim.steps,
            "sched": sim.sched_log,
            "values": self.nvals,
            "recycled": sim.ids.recycled,
            "preempt": sim.preempt,
            "sites": sorted(sim.sites),
            "fsites": sorted(sim.fsites),
            "fired": sum(n for k, n in sim.stats.items() if k.startswith("fault.")),
            "hash": self.digest(),
        }
        if sim.profile is not None:
            if sim.capped:
                return {"discard": "serial run too long"}
            res["served"] = self.served
            res["profile"] = [[list(k), v if k[0] == "b" else [[f, ln, ks] for (f, ln), ks in v.items()]] for k, v in sim.profile.items()]
        return res

    def digest(self):
        import hashlib

        h = hashlib.sha256()
        for e in self.sim.log:
            h.update(repr(e).encode())
        h.update(repr(self.sim.sched_log).encode())
        return h.hexdigest()[:24]

    def step(self, th, op):
        sim = self.sim
        th.uid = op["u"]
        th.k = 0
        th.fired = []
        fn = getattr(self, "op_" + op["o"])
        try:
            r = fn(th, op)
        except SimAbort:
            raise
        sim.ev("op", th.tid, op["u"], r)
        if th.hadexc:
            th.fired = []
            th.hadexc = False
            gc.collect()
        if th.dropcheck:
            self.check_dropped(th)
        self.boundary(th)

    # ------------------------------------------------------------------ recording of backend calls
    def on_backend(self, when, th, bname, func, args, kwargs, done):
        sim = self.sim
        if when == "begin":
            ops = [a for a in args if hasattr(a, "shape") and not isinstance(a, str)]
            if bname == "torch" and func == "einsum":
                ops = list(args[1])
            sers = [self.ser(o) for o in ops]
            c = th.stack[-1] if th.stack else None
            rec = {
                "b": bname,
                "f": func,
                "ops": sers,
                "key": self.opkey(bname, func, ops, sers, args, kwargs),
                "t0": sim.now,
                "t1": None,
                "uid": th.uid,
                "tid": th.tid,
                "cid": c.cid if c else None,
                "res": None,
            }
            sim.ev("b", th.tid, th.uid, bname, func, tuple(sers), c.cid if c else None)
            if c is not None:
                c.legit.update(sers)
                self.check_dup(th, c, rec)
            if c is None and func in ("einsum", "tensordot") and self.prop in (None, "C16"):
                self.check_kept(th, sers)
            th.recs.append(rec)
            return rec
        rec, res = done
        rec["t1"] = sim.now
        s = self.ser(res)
        rec["res"] = s
        if res is kwargs.get("out"):
            rec["isout"] = True
        else:
            self.made.setdefault(s, "result of %s.%s" % (bname, func))
        if rec["cid"] is not None:
            for c in self.allc:
                if c.cid == rec["cid"]:
                    c.legit.add(s)
                    if func in ("einsum", "tensordot", "transpose", "transfer"):
                        c.recs.append(rec)
        sim.ev("e", th.tid, th.uid, s)

    def check_kept(self, th, sers):
        """C16: a step starts; intermediates that earlier steps of this call consumed are gone."""
        need = set(sers)
        gone = set()
        const = set(th.constser)
        for r in th.recs:
            if r["t1"] is None:
                continue
            if const and all(x in const for x in r["ops"]):
                const.add(r["res"])
            gone.update(r["ops"])
            gone.discard(r["res"])
        made = {r["res"] for r in th.recs if r["t1"] is not None and r["f"] in ("einsum", "tensordot", "transpose") and not r.get("isout")}
        gone = (gone & made) - need - const - set(self.user)
        if len(made) > 1:
            self.sim.stat("probe.intermediates")
        if not gone:
            return
        # the memory of an array is kept by views of it
        for x in made - gone:
            gone.difference_update(self.bases.get(x, ()))
        for x in need:
            gone.difference_update(self.bases.get(x, ()))
        strong = {e[0] for e in self.__dict__.get("_held", {}).values()}
        self.sim.stat("probe.consumed", len(gone))
        left = [x for x in gone if x not in strong and self.sim.serial.alive(x)]
        if left:
            gc.collect()
            left = [x for x in left if self.sim.serial.alive(x)]
        if left:
            self.viol("kept", "%s is still referenced when step %d of the call starts, although an earlier step consumed it" % (self.made.get(left[0]), len(th.recs)), th)

    def ser(self, o):
        s = self.sim.serial(o)
        if s is not None and s not in self.bases:
            self.bases[s] = ()
            b = getattr(o, "base", None)
            if b is not None:
                self.bases[s] = tuple(self.sim.serial(x) for x in base_chain(b))
            del b
        if s is None:  # scalars cannot be weakly referenced: number them by identity and hold them
            k = id(o)
            e = self.__dict__.setdefault("_held", {}).get(k)
            if e is None:
                self.sim.serial.n += 1
                e = self._held[k] = (self.sim.serial.n, o)
            s = e[0]
        return s

    def opkey(self, bname, func, ops, sers, args, kwargs):
        if func == "transpose":
            ax = args[1] if len(args) > 1 else kwargs.get("axes")
            return ("transpose", bname, tuple(sers), tuple(int(x) for x in ax))
        if func == "tensordot":
            ax = args[2] if len(args) > 2 else kwargs.get("axes", kwargs.get("dims", 2))
            if isinstance(ax, int):
                nd = len(ops[0].shape)
                ax = (tuple(range(nd - ax, nd)), tuple(range(ax)))
            ax = tuple(sorted((int(i), int(j)) for i, j in zip(ax[0], ax[1])))
            return ("tensordot", bname, tuple(sers), ax)
        if func == "einsum":
            eq = args[0]
            if not isinstance(eq, str) or "." in eq:
                return None
            eq = eq.replace(" ", "")
            if "->" in eq:
                lhs, out = eq.split("->")
            else:
                lhs = eq
                a = lhs.replace(",", "")
                out = "".join(sorted(c for c in set(a) if a.count(c) == 1))
            terms = lhs.split(",")
            if len(terms) != len(sers):
                return None
            order = sorted(range(len(terms)), key=lambda i: sers[i])
            m = {}
            for i in order:
                for ch in terms[i]:
                    m.setdefault(ch, len(m))
            if any(ch not in m for ch in out):
                return None
            kw = tuple(sorted((k, str(v)) for k, v in kwargs.items() if k != "out" and v is not None))
            return (
                "einsum",
                bname,
                tuple(sers[i] for i in order),
                tuple(tuple(m[ch] for ch in terms[i]) for i in order),
                tuple(m[ch] for ch in out),
                kw,
            )
        if func == "transfer":
            return ("transfer", bname, tuple(sers))
        return None

    def check_dup(self, th, c, rec):
        """C03: the same work must not run again once it completed and its call had a chance to store it."""
        if rec["key"] is None:
            return
        prev_end = max([r["t1"] or 0 for r in th.recs] + [th.t_start])
        for r in c.recs:
            if r["key"] != rec["key"] or r["t1"] is None or r.get("exempt"):
                continue
            if r["tid"] == th.tid:
                again = True
            else:
                again = r.get("opend") is not None and r["opend"] <= prev_end
            if again:
                self.viol("dup", "%s.%s on arrays %s runs again under the same cache (first by op %s)" % (rec["b"], rec["f"], rec["ops"], r["uid"]), th)
                return

    # ------------------------------------------------------------------ imports
    def on_import(self, lib):
        sim = self.sim
        th = sim.cur
        i = self.import_count.get(lib, 0)
        self.import_count[lib] = i + 1
        forced = self.import_forced.get(lib)
        plan = self.cfg.get("imports", {}).get(lib, [])
        kind = forced if forced is not None else (plan[i] if i < len(plan) else None)
        sim.ev("import", th.tid, th.uid, lib, kind or "ok")
        if kind and kind != "ok" and not self.recovery:
            sim.stat("fault.import." + kind)
            e = stubs.IMPORT_EXC[kind]("injected: import of %s failed" % lib)
            th.fired.append(e)
            th.imp = True
            self.import_faulted = True
            raise e

    # ------------------------------------------------------------------ verdict helpers
    def viol(self, cls, msg, th, **kw):
        self.sim.violation(
            cls,
            msg,
            th,
            sharing=bool(th.stack),
            faulted=self.faulted,
            imports=bool(self.cfg.get("imports")) or self.import_faulted,
            multi=len(self.plan["threads"]) > 1,
            recovery=self.recovery,
            **kw,
        )

    def api(self, th, op, fn, *args, **kwargs):
        """One traced API call; returns the outcome and does the bookkeeping common to all calls."""
        sim = self.sim
        th.recs = []
        th.imp = False
        th.t_start = sim.now
        for a in list(args) + list(kwargs.values()):
            if th.stack and hasattr(a, "shape"):
                th.stack[-1].legit.add(self.ser(a))
        th.inflight = True
        r = sim.call(th, op["u"], fn, *args, **kwargs)
        th.inflight = False
        if r[0] == "exc" and th.stack:
            # a call that failed may have stored operands before handing them to the backend
            th.stack[-1].legit.update(self.ser(v) for v in list(th.stack[-1].d.values()) if hasattr(v, "shape"))
        t = sim.now
        for rec in th.recs:
            rec["opend"] = t
        if r[0] == "exc" and th.recs:
            th.recs[-1]["exempt"] = True
        if th.fired and not th.imp:
            self.faulted = True
        return r

    def judge(self, th, op, r, kind, exp, lib, out=None, check_dtype=True, out_last=True):
        """Compare one call's outcome with the reference result."""
        sim = self.sim
        self.nvals += 1
        if th.fired:
            e = th.fired[-1]
            if r[0] == "exc" and r[1] is e:
                sim.stat("fired.reported")
                self.failed_ops.append(op)
                if out is not None and not out_last and not self.pristine(out):
                    self.viol("out-touched", "%s failed before its last step but wrote to out" % kind, th, kind=kind)
                return "failed"
            if th.imp:
                # a failed import may be handled, but then the result has to be right
                if r[0] == "exc":
                    self.viol("import-error", "import failed with %r but the caller got %r" % (e, r[1]), th, kind=kind)
                    return "viol"
            else:
                self.failed_ops.append(op)
                if r[0] == "exc":
                    self.viol("replaced", "%r was raised in the call but the caller got %r" % (e, r[1]), th, kind=kind)
                else:
                    self.viol("swallowed", "%r was raised in the call but it returned normally" % (e,), th, kind=kind)
                return "viol"
        if r[0] == "exc":
            self.viol("exception", "%s raised %s: %s (in %s)" % (kind, type(r[1]).__name__, str(r[1])[:300], r[2]), th, kind=kind)
            return "viol"
        res = r[1]
        if out is not None:
            if res is not out:
                self.viol("out", "%s did not return the out array" % kind, th, kind=kind)
                return "viol"
        got = stubs.to_np(res)
        libs = (lib,) if isinstance(lib, str) else lib
        glib = "numpy" if "torch-real" not in libs and isinstance(res, (np.generic, int, float, complex)) else stubs.lib_of(res)
        if "torch-real" in libs and type(res).__module__.split(".")[0] == "torch":
            glib = "torch-real"
        if glib not in libs:
            self.viol("type", "%s returned an array of %s instead of %s" % (kind, glib, "/".join(libs)), th, kind=kind)
            return "viol"
        if got.shape != exp.shape:
            self.viol("value", "%s returned shape %s instead of %s" % (kind, got.shape, exp.shape), th, kind=kind)
            return "viol"
        if check_dtype and got.dtype != exp.dtype:
            self.viol("dtype", "%s returned dtype %s instead of %s" % (kind, got.dtype, exp.dtype), th, kind=kind)
            return "viol"
        if not (got == exp).all():
            self.viol("value", "%s returned wrong values: %s instead of %s" % (kind, got.ravel()[:4].tolist(), exp.ravel()[:4].tolist()), th, kind=kind)
            return "viol"
        return "ok"

    def pristine(self, out):
        return bool((stubs.to_np(out) == SENT).all())

    def get(self, names):
        r = []
        for n in names:
            s = self.slots.get(n)
            if s is None:
                return None
            r.append(s)
        return r

    def operands(self, op):
        sl = self.get(op["ops"])
        if sl is not None and "own" in op:
            # arrays of the same kind that only this call knows
            new = []
            for i, s in enumerate(sl):
                lib = stubs.lib_of(s.obj)
                a = stubs.to_np(s.obj)
                if a.dtype == object:
                    lib = "object"
                exp = mk_values("%s/%d" % (op["own"], i), list(a.shape), "O" if lib == "object" else a.dtype.str[1:])
                n = Slot(mk_obj(lib, exp), exp)
                n.ser = self.ser(n.obj)
                self.user[n.ser] = "argument %d of op %s" % (i, op["u"])
                new.append(n)
            return new
        return sl

    def check_operands(self, th, slots):
        for s in slots:
            if not _same(stubs.to_np(s.obj), s.exp):
                self.viol("operand-modified", "an operand array was modified", th)
                return

    # ------------------------------------------------------------------ invariants at every op boundary
    def boundary(self, th):
        for c in self.allc:
            if c.active == 0:
                if snap(c.d) != c.snap:
                    self.viol("cache.idle", "cache %d changed while no thread had it active (%d -> %d entries)" % (c.cid, c.snap[0], len(c.d)), th)
                    c.snap = snap(c.d)
            # (a call in flight may have stored operands it has not handed to the backend yet)
            if self.prop in (None, "C02") and not any(not t.done and t.inflight and t.stack and t.stack[-1] is c for t in self.sim.threads):
                for v in list(c.d.values()):
                    if hasattr(v, "shape"):
                        s = self.ser(v)
                        if s not in c.legit:
                            self.viol("cache.foreign", "cache %d holds an array that no contraction under it used" % c.cid, th)
                            c.legit.add(s)
            if self.prop in (None, "C04"):
                self.check_retained(th, c)
        if self.prop in (None, "C04"):
            self.check_garbage(th)
        if self.prop in (None, "C02"):
            self.states.add(tuple((t.tid, len(t.stack)) for t in self.sim.threads))

    def check_garbage(self, th):
        """C04: between operations only user references, live caches and the constants of live
        expressions keep arrays alive."""
        if any(not t.done and t is not th and t.inflight for t in self.sim.threads):
            return
        ok = {e[0] for e in self.__dict__.get("_held", {}).values()}
        for c in self.allc:
            ok |= c.legit
        for s in self.slots.values():
            for o in base_chain(s.obj):
                ok.add(self.ser(o))
        for ex in self.exprs.values():
            ok |= ex["held"]
            for s in ex["consts"].values():
                ok.add(s.ser)
        ok.update([b for s in ok for b in self.bases.get(s, ())])
        alive = self.sim.serial.alive
        left = [s for d in (self.made, self.user) for s in d if s not in ok and alive(s)]
        if left:
            gc.collect()
            left = [s for s in left if alive(s)]
            if left:
                what = sorted({self.made.get(s) or self.user.get(s) for s in left})
                self.viol("leak", "kept alive although no user reference, live cache or expression constant needs it: %s" % "; ".join(what[:4]), th)
                for s in left:
                    self.made.pop(s, None)
                    self.user.pop(s, None)

    def check_retained(self, th, c):
        alive = self.sim.serial.alive
        held = self.__dict__.get("_held", {})
        strong = {e[0] for e in held.values()}
        by = {}
        for r in c.recs:
            if r.get("exempt") or r["t1"] is None:
                continue
            if r.get("opend") is None:
                # a call in flight may have replaced an equal entry by its own result
                by.setdefault(r["key"], []).append(r)
                continue
            for s in r["ops"]:
                if s not in strong and not alive(s):
                    self.viol("freed", "an operand of a cached %s was released while cache %d is alive" % (r["f"], c.cid), th)
                    r["exempt"] = True
                    return
            if r["key"] is not None:
                by.setdefault(r["key"], []).append(r)
        for k, rs in by.items():
            if k is not None and any(r.get("opend") is not None for r in rs) and not any(r["res"] in strong or alive(r["res"]) for r in rs):
                self.viol("freed", "the result of a cached %s was released while cache %d is alive" % (rs[0]["f"], c.cid), th)
                for r in rs:
                    r["exempt"] = True
                return

    # ------------------------------------------------------------------ operations
    def op_arr(self, th, op):
        self.tick(th)
        d = self.plan["slots"][op["s"]]
        lib = op.get("lib", "numpy")
        dt = "O" if lib == "object" else d["dt"]
        sh = d["sh2"] if op.get("alt") else d["sh"]
        if "vw" in op and lib == "numpy":
            obj = self.view(op["vw"], sh, dt)
            exp = obj.copy()
        else:
            exp = mk_values(op["seed"], sh, dt)
            obj = mk_obj(lib, exp)
        s = Slot(obj, exp)
        s.ser = self.ser(obj)
        self.user[s.ser] = "array %s (op %s)" % (op["s"], op["u"])
        self.slots[op["s"]] = s
        return s.ser

    def view(self, kind, sh, dt):
        """An operand that is a view of memory other operands look at too."""
        n = 1
        for x in sh:
            n *= x
        m = n if kind in ("whole", "wholeT") else 4096
        if (dt, m) not in self.vbuf:
            self.vbuf[dt, m] = mk_values("buffer", [m], dt)
        b = self.vbuf[dt, m]
        if kind in ("first", "whole"):
            return b[:n].reshape(sh)
        if kind in ("T", "wholeT"):
            return b[:n].reshape(sh[::-1]).T
        if kind == "next":
            return b[1 : n + 1].reshape(sh)
        if kind == "step":
            return b[: 2 * n : 2].reshape(sh) if len(sh) == 1 else b[: n * 2].reshape(sh[:-1] + [2 * sh[-1]])[..., ::2] if sh else b[:1].reshape(())
        if kind == "back":
            return b[n - 1 :: -1].reshape(sh) if n else b[:0].reshape(sh)
        return np.broadcast_to(b[:1].reshape((1,) * len(sh)), sh)

    def tick(self, th, holding=False):
        if th.tid >= 0:
            th.inflight = holding  # (the caller's local variables hold arrays)
            self.sim.yield_point(th)
            th.inflight = False

    def op_del(self, th, op):
        self.tick(th)
        self.slots.pop(op["s"], None)

    def op_mod(self, th, op):
        """The caller overwrites the values of one of its arrays (between calls; nothing may remember them)."""
        self.tick(th)
        s = self.slots.get(op["s"])
        # (a sharing cache, a constant or a view of it may legitimately look at the old values)
        if s is None or any(c.alive for c in self.allc) or any(not t.done and t is not th and t.inflight for t in self.sim.threads):
            return "skip"
        a = stubs.to_np(s.obj)
        if stubs.lib_of(s.obj) in ("jax", "tensorflow") or not a.flags.writeable or a.dtype == object:
            return "skip"
        others = [x for x in self.slots.values() if x is not s] + [x for ex in self.exprs.values() for x in ex["consts"].values()]
        if any(x is s or np.may_share_memory(a, stubs.to_np(x.obj)) for x in others):
            return "skip"
        s.exp = mk_values(op["seed"], list(a.shape), a.dtype.str[1:])
        a[...] = s.exp
        self.sim.stat("modified")
        return "ok"

    def op_burst(self, th, op):
        """Much other work in between (not traced): limits of caches that should have none."""
        self.tick(th)
        r = random.Random(op["seed"])
        oe = self.oe
        einsum = boot.orig("np.einsum")
        self.sim.stat("burst", op["n"])
        for i in range(op["n"]):
            eq = r.choice(["ab,bc->ca", "ab,ac,b->c", "abc,b->ac", "ab,ab->a"])
            arrs = [np.array([r.randint(-3, 3) for _ in range(2 ** len(t))], dtype="f8").reshape((2,) * len(t)) for t in eq.split("->")[0].split(",")]
            if op["kind"] == "expr":
                x = oe.contract_expression(eq, arrs[0], *[a.shape for a in arrs[1:]], constants=[0])
                got = x(*arrs[1:])
            else:
                got = oe.contract(eq, *arrs)
            if not np.array_equal(got, einsum(eq, *arrs)):
                self.viol("value", "%s in a series of %d gave a wrong result" % (eq, op["n"]), th, kind="call" if op["kind"] == "expr" else "contract")
                break
        if th.stack:
            c = th.stack[-1]
            c.uncounted = True
            c.legit.update(self.ser(v) for v in list(c.d.values()) if hasattr(v, "shape"))

    def op_gc(self, th, op):
        self.tick(th)
        gc.collect()

    def op_enter(self, th, op):
        sh = self.oe.shared_intermediates
        name = op.get("c")
        mc = self.caches.get(name) if name else None
        d = None
        if name and mc is None and op.get("new"):
            d = {}
        elif name and mc is None:
            return "skip"
        elif mc is not None:
            d = mc.d
            mc.open += 1  # (held from here on, also if others drop it meanwhile)

        def enter():
            cm = sh() if d is None else sh(d)
            return cm, cm.__enter__()

        r = self.api(th, op, enter)
        if r[0] == "exc":
            if mc is not None:
                mc.open -= 1
            self.viol("exception", "entering a sharing block raised %r" % (r[1],), th, kind="enter")
            return "viol"
        cm, got = r[1]
        if d is not None and got is not d:
            self.viol("stack", "shared_intermediates(cache) yielded another cache", th)
        if mc is None:
            self.ncid += 1
            mc = Cache(got, self.ncid)
            mc.open += 1
            self.allc.append(mc)
            store = name or op.get("store")
            if store:
                old = self.caches.get(store)
                if old is not None:
                    old.named -= 1
                self.caches[store] = mc
                mc.named += 1
                self.sweep()
        if th.stack:
            self.deactivate(th.stack[-1])
        th.stack.append(mc)
        th.cms.append(cm)
        mc.active += 1
        del got, r
        return mc.cid

    def deactivate(self, c):
        c.active -= 1
        if c.active == 0:
            c.snap = snap(c.d)

    def sweep(self):
        self.allc = [c for c in self.allc if c.alive]

    def op_exit(self, th, op):
        if not th.stack:
            self.tick(th, True)
            return "skip"
        cm = th.cms[-1]
        how = op.get("how", "normal")

        E = LEAVE.get(how)

        def leave():
            if E is not None:
                e = E("leaving the block")
                return cm.__exit__(E, e, None)
            return cm.__exit__(None, None, None)

        r = self.api(th, op, leave)
        c = th.stack.pop()
        th.cms.pop()
        c.open -= 1
        self.deactivate(c)
        if th.stack:
            top = th.stack[-1]
            if top.active == 0 and snap(top.d) != top.snap:
                self.viol("cache.idle", "cache %d changed while it was not the innermost one" % top.cid, th)
            top.active += 1
        if r[0] == "exc" and not (E is not None and isinstance(r[1], E)):
            self.viol("exception", "leaving a sharing block raised %r" % (r[1],), th, kind="exit")
        elif r[0] == "ok" and r[1] and E is not None:
            self.viol("stack", "a sharing block swallowed an exception", th)
        del cm
        self.sweep()

    def op_dropcache(self, th, op):
        self.tick(th)
        c = self.caches.pop(op["c"], None)
        if c is not None:
            c.named -= 1
            self.sweep()

    def op_query(self, th, op):
        sh = self.sharing

        def q():
            on = sh.currently_sharing()
            if not on:
                return False, None
            return True, sh.get_sharing_cache()

        r = self.api(th, op, q)
        if r[0] == "exc":
            self.viol("stack", "asking for the active cache raised %r" % (r[1],), th)
            return
        on, c = r[1]
        want = th.stack[-1].d if th.stack else None
        if on != bool(th.stack):
            self.viol("stack", "currently_sharing() is %s with %d open blocks" % (on, len(th.stack)), th)
        elif c is not want:
            self.viol("stack", "the active cache is not the one of the innermost block", th)

    def op_badquery(self, th, op):
        if th.stack:
            return self.op_query(th, op)
        r = self.api(th, op, self.sharing.get_sharing_cache)
        if r[0] == "ok":
            self.viol("stack", "get_sharing_cache() returned a cache outside any block", th)
        on = self.sharing.currently_sharing()
        if on:
            self.viol("stack", "currently_sharing() became true by asking for the cache outside a block", th)

    def op_count(self, th, op):
        c = self.caches.get(op.get("c")) if op.get("c") else (th.stack[-1] if th.stack else None)
        if c is None:
            self.tick(th, True)
            return "skip"
        r = self.api(th, op, self.sharing.count_cached_ops, c.d)
        if r[0] == "exc":
            self.viol("count", "count_cached_ops raised %r" % (r[1],), th)
            return
        if op.get("exact") or self.recovery:
            self.check_counts(th, c, r[1])

    def check_counts(self, th, c, got):
        """Exact counts, when nothing was interrupted and no call is in flight on this cache."""
        if any(r.get("exempt") or r["key"] is None or r.get("opend") is None for r in c.recs) or self.faulted or c.uncounted:
            return
        want = {}
        for f in ("einsum", "tensordot", "transpose"):
            want[f] = len({r["key"] for r in c.recs if r["f"] == f})
        have = {f: got.get(f, 0) for f in want}
        if have != want:
            self.viol("count", "count_cached_ops says %s but %s operations were executed under the cache" % (have, want), th)

    # -- contraction
    def kw(self, op):
        kw = {}
        if "opt" in op:
            o = op["opt"]
            kw["optimize"] = [tuple(p) for p in o] if isinstance(o, list) else o
        if "blas" in op:
            kw["use_blas"] = op["blas"]
        if op.get("mem") is not None:
            kw["memory_limit"] = op["mem"]
        for k, v in op.get("kw", {}).items():
            kw[k] = v
        return kw

    def op_contract(self, th, op):
        sl = self.operands(op)
        if sl is None:
            self.tick(th, True)
            return "skip"
        sigs = op.get("sigs") or [self.plan["slots"][n]["sig"] for n in op["ops"]]
        exp = ref_einsum(sigs, [s.exp for s in sl], op["out"])
        kw = self.kw(op)
        if "dtype" in kw:
            exp = exp.astype(kw["dtype"])
        lib = op.get("lib", "numpy")
        if op.get("be"):
            kw["backend"] = op["be"]
        out = None
        if op.get("wout"):
            oe_ = np.full(exp.shape, SENT, dtype=exp.dtype)
            out = mk_obj(lib, oe_)
            kw["out"] = out
        args = self.args(op, [s.obj for s in sl])
        rlib = {"vs_notd": ("numpy", "vs_notd"), "object": "numpy"}.get(lib, lib)
        if lib == "numpy" and op.get("be", "numpy") != "numpy":
            rlib = op["be"]  # numpy arrays handed to another library's functions
        r = self.api(th, op, self.oe.contract, *args, **kw)
        if lib != "object":
            self.check_backend(th, op.get("be") or lib, "contract")
        v = self.judge(th, op, r, "contract", exp, rlib, out, check_dtype=lib != "object", out_last=self.maybe_last(th, op))
        if v == "ok" and not th.stack:
            self.check_served(th, op)
        self.after(th, op, r, v, sl, exp, out)
        return v

    def check_backend(self, th, be, kind):
        """All the work is done by functions of the backend asked for (or inferred)."""
        be = {"vs_notd": "numpy", "torch-real": "torch", "jaxlib": "jax"}.get(be, be)
        other = sorted({"%s.%s" % (rec["b"], rec["f"]) for rec in th.recs if rec["b"] != be})
        if other:
            self.viol("served", "%s on %s was served by %s" % (kind, be, ", ".join(other)), th, kind=kind)

    def check_served(self, th, op):
        """C15: which functions of which module do the work does not depend on timing or history."""
        got = [[rec["b"], rec["f"]] for rec in th.recs]
        want = (self.expect.get("served") or {}).get(str(op["u"]))
        if want is None:
            self.served[str(op["u"])] = got
        elif got != want:
            self.viol("served", "the contraction was served by %s, in a serial run by %s" % (got[:6], want[:6]), th, kind="contract")

    def args(self, op, objs):
        if op.get("fmt") == "inter":
            lhs, rhs = op["eq"].split("->")
            m = {}
            a = []
            for t, o in zip(lhs.split(","), objs):
                a.append(o)
                a.append([m.setdefault(ch, len(m)) for ch in t])
            a.append([m[ch] for ch in rhs])
            return a
        return [op["eq"]] + objs

    def maybe_last(self, th, op):
        """Could the injected failure have hit the last step (so that out may be written)?"""
        if th.stack or op["o"] != "contract":
            return True
        n = (self.expect.get("ncalls") or {}).get(str(op["u"]))
        if n is None:
            return True
        hit = [f for f in self.sim.fault_idx.get(op["u"], ()) if f["kind"] == "op"]
        if not hit or any(f["kind"] != "op" for f in self.sim.fault_idx.get(op["u"], ())):
            return True
        return max(f["n"] for f in hit) >= n - 2

    def after(self, th, op, r, v, sl, exp, out):
        if v != "ok":
            self.check_operands(th, sl)
        if self.prop in (None, "C04") and not th.stack and op.get("e") is None:
            self.note_dropped(th, op, r)
        if v == "ok" and op.get("r"):
            s = Slot(r[1], exp)
            s.ser = self.ser(r[1])
            self.slots[op["r"]] = s
        elif v == "ok" and out is not None:
            stubs.to_np(out)[...] = -SENT  # the buffer is the caller's: used for something else now

    def note_dropped(self, th, op, r):
        """What may stay alive after this call (judged when the operation is over)."""
        keep = set()
        if r[0] == "ok":
            for o in base_chain(r[1]):
                keep.add(self.ser(o))
        mine = [rec["res"] for rec in th.recs if rec["res"] is not None and not rec.get("isout")]
        th.dropcheck = (op["o"], keep, mine)

    def check_dropped(self, th):
        """C04: outside any block nothing of a call stays alive except what it returned."""
        kind, keep, mine = th.dropcheck
        th.dropcheck = None
        strong = {e[0] for e in self.__dict__.get("_held", {}).values()}
        inslots = set()
        for s in self.slots.values():
            for o in base_chain(s.obj):
                inslots.add(self.ser(o))
        left = [s for s in mine if s not in keep and s not in strong and s not in inslots and self.sim.serial.alive(s)]
        if left:
            gc.collect()
            left = [s for s in left if self.sim.serial.alive(s)]
            if left:
                self.viol("leak", "%s outside any sharing block left %d intermediate arrays alive" % (kind, len(left)), th)

    # -- expressions
    def op_mkexpr(self, th, op):
        names = op["ops"]
        consts = {int(k): v for k, v in (op.get("consts") or {}).items()}
        cs = self.get(list(consts.values()))
        if cs is None:
            self.tick(th, True)
            return "skip"
        cmap = dict(zip(consts, cs))
        shapes = []
        for i, n in enumerate(names):
            shapes.append(cmap[i].obj if i in cmap else tuple(self.plan["slots"][n]["sh"]))
        kw = self.kw(op)
        if cmap:
            kw["constants"] = list(cmap)
        r = self.api(th, op, self.oe.contract_expression, *self.args(op, shapes), **kw)
        if r[0] == "exc":
            if th.fired and r[1] is th.fired[-1]:
                self.failed_ops.append(op)
                return "failed"
            self.viol("exception", "contract_expression raised %r" % (r[1],), th, kind="mkexpr")
            return "viol"
        self.exprs[op["e"]] = {
            "x": r[1],
            "sigs": op.get("sigs") or [self.plan["slots"][n]["sig"] for n in names],
            "out": op["out"],
            "consts": {i: s for i, s in cmap.items()},
            "held": set(),
            "uid": op["u"],
            "name": op["e"],
        }
        return "ok"

    def op_delexpr(self, th, op):
        self.tick(th)
        self.exprs.pop(op["e"], None)

    def op_call(self, th, op):
        ex = self.exprs.get(op["e"])
        sl = self.operands(op)
        if ex is None or sl is None or len(sl) + len(ex["consts"]) != len(ex["sigs"]):
            self.tick(th, True)
            return "skip"
        it = iter(sl)
        full = [ex["consts"][i].exp if i in ex["consts"] else next(it).exp for i in range(len(ex["sigs"]))]
        for sig, a in zip(ex["sigs"], full):
            if len(sig) != a.ndim:
                self.tick(th)
                return "skip"
        exp = ref_einsum(ex["sigs"], full, ex["out"])
        kw = {}
        if op.get("be"):
            kw["backend"] = op["be"]
        lib = op.get("lib", "numpy")
        out = None
        if op.get("wout"):
            out = mk_obj(lib, np.full(exp.shape, SENT, dtype=exp.dtype))
            kw["out"] = out
        # which library the result has to come from
        be = op.get("be") or lib
        if lib == "numpy" and be in ("cupy", "torch", "tensorflow", "jax", "torch-real"):
            rlib = "numpy"
        elif lib == "numpy" and be in stubs.PLAIN:
            rlib = be
        else:
            rlib = lib
        if rlib == "vs_notd":
            rlib = ("numpy", "vs_notd")
        if be == "torch-real":
            kw["backend"] = "torch"
        t0 = self.sim.now
        th.constser = {s.ser for s in ex["consts"].values()}
        r = self.api(th, op, ex["x"], *[s.obj for s in sl], **kw)
        th.constser = ()
        self.check_backend(th, be, "call")
        self.hold(th, ex)
        v = self.judge(th, op, r, "call", exp, rlib, out, out_last=not out_untouchable(be, lib) or any(f["kind"] != "op" for f in self.sim.fault_idx.get(op["u"], ())))
        # (arrays of jax name their backend "jaxlib", which the library treats as another backend)
        self.const_check(th, op, ex, "jaxlib" if be == "jax" and not op.get("be") else be, sl, t0, v == "ok")
        op2 = dict(op)
        if not ex["consts"]:
            op2["e"] = None
        self.after(th, op2, r, v, sl, exp, out)
        return v

    def hold(self, th, ex):
        """Arrays an expression with constants may keep (computed, or found in the active cache)."""
        if ex["consts"]:
            ex["held"].update(rec["res"] for rec in th.recs if rec["res"] is not None)
            if th.stack:
                ex["held"] |= th.stack[-1].legit

    def op_evalc(self, th, op):
        ex = self.exprs.get(op["e"])
        if ex is None or not ex["consts"]:
            self.tick(th, True)
            return "skip"
        t0 = self.sim.now
        be = op["be"]
        th.constser = {s.ser for s in ex["consts"].values()}
        r = self.api(th, op, ex["x"].evaluate_constants, "torch" if be == "torch-real" else be)
        th.constser = ()
        self.check_backend(th, be, "evalc")
        self.hold(th, ex)
        if r[0] == "exc":
            if th.fired and r[1] is th.fired[-1]:
                self.failed_ops.append(op)
                self.check_operands(th, ex["consts"].values())
                return "failed"
            self.viol("exception", "evaluate_constants raised %s: %s (in %s)" % (type(r[1]).__name__, str(r[1])[:300], r[2]), th, kind="evalc")
            return "viol"
        if th.fired and not th.imp:
            self.failed_ops.append(op)
            self.viol("swallowed", "%r was raised in evaluate_constants but it returned normally" % (th.fired[-1],), th, kind="evalc")
            return "viol"
        self.const_check(th, op, ex, be, [], t0, True, explicit=True)
        return "ok"

    def const_check(self, th, op, ex, be, sl, t0, ok, explicit=False):
        """C06: leading constant-only work is not repeated after a completed call on that backend."""
        if not ex["consts"]:
            return
        key = (ex["name"], ex["uid"], be)
        cser = {s.ser for s in ex["consts"].values()}
        aser = {s.ser for s in sl}
        cset = set(cser)
        prefix = True
        leads = set()
        done_before = [t for t in self.completed.get(key, ()) if t <= t0]
        for rec in th.recs:
            if rec["f"] == "fetch":
                continue
            const_only = all(s in cset for s in rec["ops"]) and not any(s in aser for s in rec["ops"])
            if const_only:
                if rec["res"] is not None:
                    cset.add(rec["res"])
                if done_before and not explicit and rec["f"] == "transfer" and rec["ops"][0] in cser:
                    self.viol("const-repeat", "a constant was transferred to %s again" % be, th)
                if done_before and not explicit and rec["key"] in self.lead.get(key, ()):
                    self.viol("const-repeat", "constant-only %s.%s was executed again on %s" % (rec["b"], rec["f"], be), th)
                if prefix and rec["key"] is not None and rec["res"] is not None:
                    leads.add(rec["key"])
            elif rec["f"] != "transfer":
                prefix = False
        if ok:
            if explicit or not th.stack:
                self.lead.setdefault(key, set()).update(leads)
            self.completed.setdefault(key, []).append(self.sim.now)

    # -- paths
    def op_path(self, th, op):
        opt = None
        if "sh" in op.get("obj", {}):
            # one dynamic-programming object for all threads (it holds settings only)
            opt = self.objs.setdefault(op["obj"]["sh"], None) or self.objs.update({op["obj"]["sh"]: mk_optimizer(self.oe, op["obj"])}) or self.objs[op["obj"]["sh"]]
        r = self.api(th, op, run_path, self.oe, op, opt)
        if r[0] == "exc":
            if th.fired and r[1] is th.fired[-1]:
                self.failed_ops.append(op)
                return "failed"
            got = {"exc": type(r[1]).__name__, "msg": str(r[1])[:200]}
        elif th.fired:
            self.viol("swallowed", "%r was raised in the path search but it returned normally" % (th.fired[-1],), th, kind="path")
            return "viol"
        else:
            got = r[1]
        want = self.expect.get("alone", {}).get(str(op["u"]))
        if is_random(op):
            if "exc" in got:
                self.viol("path", "path search raised %s" % got, th, kind="path")
                return "viol"
            bad = check_random_path(self.oe, op, got)
            if bad:
                self.viol("path", bad, th, kind="path")
                return "viol"
        elif want is not None and got != want:
            self.viol("path", "concurrent path search returned %s, alone it returns %s" % (str(got)[:250], str(want)[:250]), th, kind="path")
            return "viol"
        self.nvals += 1
        return "ok"

    # -- imports
    def op_imp(self, th, op):
        self.tick(th)
        self.import_forced[op["lib"]] = op["state"]

    def op_hasq(self, th, op):
        lib = op["lib"]
        fn = self.be.has_einsum if op["q"] == "einsum" else self.be.has_tensordot
        r = self.api(th, op, fn, lib)
        if r[0] == "exc":
            if th.fired and r[1] is th.fired[-1]:
                return "failed"
            self.viol("exception", "has_%s(%r) raised %r" % (op["q"], lib, r[1]), th, kind="hasq")
            return "viol"
        if th.imp:
            self.viol("import-error", "has_%s(%r) returned %s although importing %s failed" % (op["q"], lib, r[1], lib), th, kind="hasq")
            return "viol"
        want = True if lib not in stubs.PLAIN else op["q"] in stubs.PLAIN[lib]
        if bool(r[1]) != want:
            self.viol("capability", "has_%s(%r) is %s" % (op["q"], lib, r[1]), th, kind="hasq")
        return "ok"

    # ------------------------------------------------------------------ end of a run
    def close_all(self, th):
        while th.stack:
            self.step(th, {"o": "exit", "u": "end%d.%d" % (th.tid, len(th.stack))})

    def recover(self, th):
        """Faults have stopped: everything that failed is repeated and has to succeed."""
        self.recovery = True
        self.sim.fault_idx = {}
        n = 0
        seen = set()
        for op in list(self.failed_ops):
            if op["u"] in seen:
                continue
            seen.add(op["u"])
            if n >= 6:
                break
            n += 1
            op2 = dict(op)
            op2["u"] = "rec-%s" % op["u"]
            op2.pop("r", None)
            self.sim.stat("recovery.calls")
            self.step(th, op2)
            if n == 1 and self.cfg.get("share_recovery"):
                self.step(th, {"o": "enter", "u": "rec-enter"})
                op3 = dict(op2)
                op3["u"] = "rec-sh-%s" % op["u"]
                self.step(th, op3)
                self.close_all(th)
        self.step(th, {"o": "query", "u": "rec-query"})
        if self.prop in (None, "C03"):
            for name in sorted(self.caches):
                self.step(th, {"o": "count", "u": "rec-count-" + name, "c": name})
        for n_, s in sorted(self.slots.items()):
            self.check_operands(th, [s])

    def drop_all(self, th):
        self.slots.clear()
        self.exprs.clear()
        for c in self.caches.values():
            c.named -= 1
        self.caches.clear()
        self.sweep()
        th.recs = []

    def teardown(self, th):
        self.drop_all(th)
        if self.prop in (None, "C04"):
            CUR_sim = self.sim
            gc.collect()
            strong = {e[0] for e in self.__dict__.get("_held", {}).values()}
            left = []
            for s, what in list(self.made.items()) + list(self.user.items()):
                if s not in strong and CUR_sim.serial.alive(s):
                    left.append(what)
            if left:
                self.viol("leak", "%d arrays stay alive after all caches, expressions and user references are gone: %s" % (len(left), "; ".join(sorted(set(left))[:4])), th)


def out_untouchable(be, lib):
    """Converted calls write `out` only after everything else succeeded."""
    return lib == "numpy" and be in ("cupy", "torch", "tensorflow", "jax")


def _same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())


# ---------------------------------------------------------------------------- path searches
def is_random(op):
    return str(op.get("opt", "")).startswith("random") or op.get("obj", {}).get("k") == "rg" or (op.get("opt") == "auto-hq" and op["n"] > 16)


def user_cost(size12, size1, size2, k12, k1, k2):
    return size12 - (size1 + size2)


def sim_cost(*a):
    """A cost function supplied by the user: the simulator decides whether a call of it fails."""
    sim = CUR.sim
    if sim is None:
        return user_cost(*a)
    return sim.backend_call("user", "cost_fn", user_cost, a, {})


def mk_optimizer(oe, d):
    if d["k"] == "greedy":
        import functools

        return functools.partial(oe.paths.greedy, cost_fn=sim_cost)
    if d.get("cf"):
        d = dict(d, kw=dict(d.get("kw", {}), cost_fn=sim_cost))
    if d["k"] == "bb":
        kw = dict(d.get("kw", {}))
        return oe.BranchBound(**kw)
    if d["k"] == "dp":
        return oe.DynamicProgramming(**d.get("kw", {}))
    if d["k"] == "rg":
        return oe.RandomGreedy(**d.get("kw", {}))
    raise ValueError(d)


def run_path(oe, op, opt=None):
    opt = opt or op.get("opt")
    if op.get("obj") and opt is None:
        opt = mk_optimizer(oe, op["obj"])
    kw = {}
    if op.get("mem") is not None:
        kw["memory_limit"] = op["mem"]
    if "blas" in op:
        kw["use_blas"] = op["blas"]
    path, info = oe.contract_path(op["eq"], *[tuple(s) for s in op["shapes"]], shapes=True, optimize=opt, **kw)
    r = {
        "path": [list(map(int, p)) for p in path],
        "cost": str(info.opt_cost),
        "naive": str(info.naive_cost),
        "size": str(info.largest_intermediate),
        "blas": [str(c[-1]) for c in info.contraction_list],
        "eqs": [c[2] for c in info.contraction_list],
    }
    if op.get("str"):
        r["str"] = str(info)
    if op.get("obj", {}).get("k") in ("rg", "bb"):
        r["best"] = [str(opt.best["flops"]), str(opt.best["size"])]
        r["opath"] = [list(map(int, p)) for p in opt.path]
    if isinstance(path, list):
        path.clear()  # it is the caller's
    return r


def check_random_path(oe, op, got):
    n = op["n"]
    left = n
    for p in got["path"]:
        if len(set(p)) != len(p) or not p or min(p) < 0 or max(p) >= left:
            return "invalid path %s" % got["path"]
        left -= len(p) - 1
    if left != 1:
        return "incomplete path %s" % got["path"]
    path, info = oe.contract_path(op["eq"], *[tuple(s) for s in op["shapes"]], shapes=True, optimize=[tuple(p) for p in got["path"]])
    if str(info.opt_cost) != got["cost"]:
        return "reported cost %s is not the true cost %s of the returned path" % (got["cost"], info.opt_cost)
    if "best" in got and got["best"][0] != str(info.opt_cost):
        return "optimizer reports best flops %s, its path costs %s" % (got["best"][0], info.opt_cost)
    return None


def alone(op):
    """What a deterministic path search returns when nothing else runs (own process, no simulator)."""
    oe = boot.load()
    boot.seed_globals(7)
    try:
        return {"r": run_path(oe, op)}
    except Exception as e:
        return {"r": {"exc": type(e).__name__, "msg": str(e)[:200]}}
