"""The search world: one random-search optimizer, its executors and clocks (C09 - C12)."""

import gc
import hashlib
import json
import random
from collections import Counter

from . import boot, core, plans, pool
from .core import CUR, EXC, Sim, SimAbort
from .pool import BrokenProcessPool, EventQueue, UserPool

EPS = 0.02


# --------------------------------------------------------------------------- trials
def rand_ssa(rng, n):
    left = list(range(n))
    nxt = n
    path = []
    while len(left) > 1:
        i, j = rng.sample(left, 2)
        left.remove(i)
        left.remove(j)
        path.append((min(i, j), max(i, j)))
        left.append(nxt)
        nxt += 1
    return path


def outcome(seed, r, n, style):
    """Trial r: (ssa_path, cost, size, duration) - a pure function of its arguments."""
    rng = random.Random("trial/%s/%s" % (seed, r))
    path = rand_ssa(rng, n)
    if style == "ties":
        cost, size = rng.choice([100, 100, 200]), rng.choice([10, 20, 20])
    elif style == "huge":
        cost, size = 10 ** rng.randint(20, 40) + rng.randint(0, 5), 10 ** rng.randint(15, 30)
    elif style == "anti":
        cost = rng.randint(1, 40)
        size = 100 - cost
    elif style == "falling":
        cost, size = max(1, 1000 - r), 500 + r
    elif style == "rising":
        cost, size = 10 + r, max(1, 500 - r)
    else:
        cost, size = rng.randint(1, 1000), rng.randint(1, 1000)
    return path, cost, size


def linear(ssa, n):
    """My own conversion of an ssa path to the usual form."""
    ids = list(range(n))
    out = []
    nxt = n
    for step in ssa:
        pos = sorted(ids.index(s) for s in step)
        out.append(tuple(pos))
        for p in reversed(pos):
            ids.pop(p)
        ids.append(nxt)
        nxt += 1
    return out


def table_trial(r, seed, n, style):
    w = CUR.sim.world
    if not w.in_worker:
        w.serial_begin(r)
    path, cost, size = outcome(seed, r, n, style)
    if not w.in_worker:
        w.serial_end(r, cost, size)
    return path, cost, size


def greedy_cost(size12, size1, size2, k12, k1, k2):
    sim = CUR.sim
    if sim is not None and not sim.world.in_worker:
        sim.world.cost_called()
    return size12 - (size1 + size2)


def norm(path):
    return [tuple(sorted(int(x) for x in p)) for p in path]


class SearchWorld(EventQueue):
    ncpu = 4

    def __init__(self, plan, schedule, faults, prop, expect):
        self.oe = boot.load()
        import opt_einsum.path_random as pr

        self.pr = pr
        self.plan = plan
        self.cfg = plan["cfg"]
        self.prop = prop
        self.expect = expect or {}
        self.sim = Sim(plan, {"kind": "serial"}, faults)
        self.sim.world = self
        sched = schedule or {}
        self.tseed = sched.get("tseed", self.cfg.get("tseed", 1))
        self.wseed = self.tseed % 9973
        self.init_events(self.cfg.get("clock", {}))
        self.sim.clock = self.clock
        self.pools = []
        self.user_pools = {}
        self.futures = []
        self.in_worker = 0
        self.call_uid = None
        self.c = None
        self.opt = None
        self.recorded = []  # (cost, size) of all recorded trials of the current optimizer
        self.rs = []  # run numbers they belong to (None if unknown)
        self.nvals = 0
        self.ntrials = 0
        self.usedpool = False
        self.timed = False
        self.fired = 0
        self.states = set()

    # ------------------------------------------------------------------ verdicts
    def viol(self, cls, msg):
        self.sim.violation(cls, msg, self.sim.main)

    def fatal(self, cls, msg):
        self.viol(cls, msg)
        self.sim.abort = True
        raise SimAbort()

    # ------------------------------------------------------------------ run
    def run(self):
        sim = self.sim
        boot.seed_globals(self.cfg.get("rseed", 1) + self.tseed)
        gc.disable()
        CUR.sim = sim
        sim.cur = sim.main
        try:
            for op in self.plan["threads"][0]:
                sim.main.uid = op["u"]
                sim.ev("op", op["u"], op["o"])
                getattr(self, "op_" + op["o"])(sim.main, op)
                self.invariants()
            self.drop(sim.main)
        except SimAbort:
            pass
        finally:
            self.opt = None
            CUR.sim = None
        h = hashlib.sha256()
        for e in sim.log:
            h.update(repr(e).encode())
        return {
            "viol": sim.viol,
            "stats": sim.stats,
            "steps": len(sim.log),
            "switches": 0,
            "preempt": 0,
            "values": self.nvals,
            "hash": h.hexdigest()[:24],
            "fired": self.fired,
            "simtime": self.clock.now,
            "pool": self.usedpool,
            "timed": self.timed,
            "states": sorted(self.states),
            "sched": [],
        }

    # ------------------------------------------------------------------ callbacks of trials and pools
    def faults_of(self, kind):
        return [f for f in self.sim.fault_idx.get(self.call_uid, ()) if f["kind"] == kind]

    def count_trial(self):
        self.ntrials += 1
        if self.ntrials > 4000:
            self.fatal("no-progress", "%d trials were executed" % self.ntrials)

    def clock_faults(self, n):
        for f in self.faults_of("jump"):
            if f["n"] == n:
                self.clock.jump += f["dt"]
                self.sim.stat("fault.clock_jump")
                self.sim.ev("jump", f["dt"])
                self.fired += 1

    def serial_begin(self, r):
        self.count_trial()
        c = self.c
        n = c["nexec"]
        c["nexec"] += 1
        c["seq"] += 1
        c["begun"].append((c["seq"], r))
        # a stalled trial (swapped out, waiting for a device) uses no processor time
        d = self.trial_time(r, n)
        self.clock.advance(d, cpu=d * 0.9 if d < 1.5 else 0.2)
        self.clock_faults(n)
        for f in self.faults_of("trial"):
            if f["n"] == n:
                self.fire(f, "trial")

    def serial_end(self, r, cost, size):
        self.c["got"].append((cost, size, r))
        self.consumed(r)

    def cost_called(self):
        c = self.c
        self.clock.advance(0.01)
        n = c["ncost"]
        c["ncost"] += 1
        for f in self.faults_of("cost"):
            if f["n"] == n:
                self.fire(f, "cost")

    def fire(self, f, what):
        e = EXC[f["exc"]]("injected (%s %d)" % (what, f["n"]))
        self.c["fired"].append(e)
        self.fired += 1
        self.sim.stat("fault.%s.%s" % (what, f["exc"]))
        self.sim.ev("fault", what, f["n"], f["exc"])
        raise e

    def trial_time(self, r, n):
        rng = random.Random("dur/%s/%s/%s" % (self.tseed, self.call_uid, r))
        st = self.cfg.get("dur", "uniform")
        d = {"const": 0.2, "uniform": rng.uniform(0.05, 1.0), "tail": 0.05 * (1 + rng.paretovariate(0.8)), "bimodal": rng.choice([0.05, 3.0])}[st]
        for f in self.faults_of("stall"):
            if f["n"] == n:
                d += f["dt"]
                self.sim.stat("fault.stall")
                self.fired += 1
        return min(d, 500.0)

    def duration(self, f):
        n = self.c["nstart"] if self.c else 0
        if self.c:
            self.c["nstart"] += 1
        return self.trial_time(f.r, n)

    def trial_fault(self, f):
        """Called when a pool job is about to run; True if the pool broke."""
        self.count_trial()
        c = self.calls.get(f.call)
        if c is None:
            return False
        n = c["nexec"]
        c["nexec"] += 1
        if self.call_uid != f.call:
            return False
        self.clock_faults(n)
        for x in self.faults_of("crash"):
            if x["n"] == n and f.pool.kind == "process":
                self.sim.stat("fault.worker_crash")
                self.fired += 1
                c["broken"] = True
                f.pool._break()
                return True
        for x in self.faults_of("trial"):
            if x["n"] == n:
                e = EXC[x["exc"]]("injected (trial %d)" % n)
                self.fired += 1
                self.sim.stat("fault.trial." + x["exc"])
                f.job = (_raiser, (e,), {}) if f.pool.kind != "process" else pool.pickle.dumps((_raiser, (e,), {}))
                c["planned"].append(str(e))
        return False

    def new_pool(self, p):
        self.pools.append(p)
        self.sim.ev("pool", len(self.pools), p.workers)
        return len(self.pools)

    def on_newpool(self):
        for f in self.sim.fault_idx.get(self.sim.main.uid, ()):
            if f["kind"] == "poolnew" and not f.get("_done"):
                f["_done"] = True
                e = EXC[f["exc"]]("injected (cannot start processes)")
                self.newpool_fired = e
                self.fired += 1
                self.sim.stat("fault.poolnew")
                raise e

    def on_submit(self, p, r):
        c = self.c
        if c is None:
            return
        n = c["nsub"]
        c["nsub"] += 1
        c["seq"] += 1
        for f in self.faults_of("submit"):
            if f["n"] == n:
                c["subfail"] = True
                self.fire(f, "submit")
        if p.broken or p.closed:
            c["subfail"] = True
            return
        c["subs"].append((c["seq"], r))
        out = [x for x in self.futures if x.call == self.call_uid and not x.consumed and not x.cancel_asked]
        if len(out) + 1 > c["pre"]:
            self.viol("window", "%d trials are outstanding with pre_dispatch=%d" % (len(out) + 1, c["pre"]))
        self.states.add("out%d" % min(9, len(out) + 1))

    def on_wait(self, f):
        c = self.c
        if c is None:
            return
        c["seq"] += 1
        c["waits"].append(c["seq"])
        if len(c["waits"]) == 1:
            want = min(c["pre"], c["reps"])
            if len(c["subs"]) < want and not c["subfail"] and not c["broken"]:
                self.viol("window", "a result is awaited after only %d of %d trials were submitted" % (len(c["subs"]), want))
        n = len(c["waits"]) - 1
        for x in self.faults_of("intr"):
            if x["n"] == n:
                self.fire(x, "intr")

    def on_result(self, f):
        c = self.c
        if c is None:
            return
        self.sim.ev("result", f.n, f.r)
        if f.exc is None and isinstance(f.val, tuple) and len(f.val) == 3:
            c["got"].append((f.val[1], f.val[2], f.r))
            self.consumed(f.r)
        elif f.exc is not None:
            c["fired"].append(f.exc)

    def consumed(self, r):
        c = self.c
        c["cons"].append((c["seq"], self.clock.wall() - c["w0"], self.clock.mono() - c["m0"]))

    # ------------------------------------------------------------------ operations
    def mk_parallel(self, spec):
        if isinstance(spec, dict):
            name = spec["user"]
            if name not in self.user_pools:
                self.user_pools[name] = UserPool(self, spec["w"], spec["kind"])
            p = self.user_pools[name]
            if p.broken or p.closed:
                p = self.user_pools[name] = UserPool(self, spec["w"], spec["kind"])
            return p
        return spec

    def op_new(self, th, op):
        if self.opt is not None:
            self.drop(th)
        kw = dict(max_repeats=op["max_repeats"], max_time=op.get("max_time"), minimize=op["minimize"], pre_dispatch=op["pre_dispatch"])
        par = self.mk_parallel(op["parallel"])
        W = self

        def make():
            if W.plan["mode"] == "table":

                class TableOptimizer(W.pr.RandomOptimizer):
                    def setup(self, inputs, output, size_dict):
                        return table_trial, (W.cfg["tab"], len(inputs), W.cfg["style"])

                return TableOptimizer(parallel=par, **kw)
            g = dict(W.cfg.get("greedy", {}))
            if g.pop("callable", None):
                g["cost_fn"] = greedy_cost
            return W.oe.RandomGreedy(parallel=par, **g, **kw)

        self.newpool_fired = None
        r = self.sim.call(th, op["u"], make)
        if r[0] == "exc":
            if self.newpool_fired is not None and r[1] is self.newpool_fired:
                self.opt = None
                return
            self.viol("search-exception", "creating an optimizer raised %r" % (r[1],))
            return
        self.opt = r[1]
        self.recorded, self.rs = [], []
        self.cur = dict(kw, parallel=par, g=dict(self.cfg.get("greedy") or {}))
        self.calls = {}
        self.unusable = False
        self.note_executor(par)

    def note_executor(self, par):
        """Which pool the optimizer works with now."""
        if par is False:
            self.active = None
        elif isinstance(par, UserPool):
            self.active = par
        else:
            mine = [p for p in self.pools if p.managed]
            self.active = mine[-1] if mine else None

    def op_set(self, th, op):
        if self.opt is None:
            return
        attr, v = op["attr"], op["v"]
        if attr == "parallel":
            v = self.mk_parallel(v)
        old = self.active
        self.newpool_fired = None

        def assign():
            if attr == "greedy":
                for k, x in sorted(v.items()):
                    setattr(self.opt, k, x)
            else:
                setattr(self.opt, attr, v)

        r = self.sim.call(th, op["u"], assign)
        if attr == "parallel":
            # (setting the same value again may keep the pool)
            kept = type(v) is type(self.cur["parallel"]) and v == self.cur["parallel"] and old in [p for p in self.pools if p.managed][-1:]
            if old is not None and old.managed and not old.closed and not kept:
                self.viol("release", "a managed pool is still running after the parallel setting changed")
            if r[0] == "exc":
                if self.newpool_fired is not None and r[1] is self.newpool_fired:
                    self.unusable = True  # until the setting is changed again
                    self.active = None
                    return
            else:
                self.unusable = False
                self.note_executor(v)
        if r[0] == "exc":
            self.viol("search-exception", "setting %s raised %r" % (attr, r[1]))
            return
        if attr == "greedy":
            self.cur["g"] = dict(self.cur["g"], **v)
        else:
            self.cur[attr] = v

    def op_rand(self, th, op):
        random.seed(op["v"])

    def op_jump(self, th, op):
        self.clock.jump += op["dt"]
        self.sim.stat("fault.clock_jump")

    def op_sleep(self, th, op):
        """The user does something else; pool jobs of an aborted call may end meanwhile."""
        end = self.clock.now + op["dt"]
        while self.events_step(end):
            pass

    def op_drop(self, th, op):
        self.drop(th)

    def drop(self, th):
        if self.opt is None:
            return
        self.opt = None
        gc.collect()
        for p in self.pools:
            if p.managed and not p.closed:
                self.viol("release", "a managed pool is still running after its optimizer was discarded")
                p.closed = True
        self.active = None

    def invariants(self):
        for p in self.user_pools.values():
            if p.shutdowns:
                self.viol("release", "a pool supplied by the user was shut down")
                p.shutdowns = 0

    def op_call(self, th, op):
        if self.opt is None or self.unusable:
            return
        opt, cur = self.opt, self.cur
        if self.active is not None and (self.active.broken or (self.active.closed and not self.active.managed)):
            # a user would replace a broken pool first
            self.op_set(th, {"attr": "parallel", "v": op.get("fallback", False), "u": op["u"]})
            if self.opt is None or self.unusable:
                return
        start = len(self.recorded)
        c = self.c = dict(nexec=0, nstart=0, ncost=0, nsub=0, seq=0, subs=[], waits=[], begun=[], got=[], cons=[], fired=[], planned=[], subfail=False, broken=False, pre=cur["pre_dispatch"], reps=cur["max_repeats"], w0=self.clock.wall(), m0=self.clock.mono())
        self.call_uid = op["u"]
        self.calls[op["u"]] = c
        net = self.plan["net"]
        terms, out = net["eq"].split("->")
        terms = terms.split(",")
        sizes = {}
        for t, sh in zip(terms, net["shapes"]):
            for ch, d in zip(t, sh):
                sizes[ch] = d
        usepool = self.active is not None
        self.usedpool |= usepool
        if cur["max_time"] is not None:
            self.timed = True
        if op.get("via") == "contract_path":
            r = self.sim.call(th, op["u"], lambda: self.oe.contract_path(net["eq"], *[tuple(s) for s in net["shapes"]], shapes=True, optimize=opt)[0])
        else:
            r = self.sim.call(th, op["u"], lambda: opt([frozenset(t) for t in terms], frozenset(out), sizes))
        self.c = None
        self.call_uid = None
        self.nvals += 1
        self.judge(op, r, c, start, usepool, len(terms))

    # ------------------------------------------------------------------ oracles
    def judge(self, op, r, c, start, usepool, n):
        opt, cur = self.opt, self.cur
        sim = self.sim
        ok = r[0] == "ok"
        table = self.plan["mode"] == "table"
        sim.ev("ret", op["u"], ok, len(opt.costs))
        if not ok:
            e = r[1]
            legit = any(e is x or str(e) == str(x) and type(e) is type(x) for x in c["fired"])
            if not legit and isinstance(e, BrokenProcessPool) and c["broken"]:
                legit = True
            if not legit:
                self.viol("search-exception", "the search raised %s: %s (in %s)" % (type(e).__name__, str(e)[:200], r[2]))
                return
            sim.stat("aborted_calls")
        elif c["fired"]:
            self.viol("search-swallowed", "%r was raised by a trial, a wait or a submission but the search returned" % (c["fired"][0],))
            return
        # -- C09: lists and best
        costs, sizes = list(opt.costs), list(opt.sizes)
        if len(costs) != len(sizes):
            self.viol("lists", "%d costs but %d sizes are recorded" % (len(costs), len(sizes)))
            return
        pairs = list(zip(costs, sizes))
        if pairs[:start] != self.recorded:
            self.viol("lists", "earlier recorded trials changed")
            return
        new = pairs[start:]
        if usepool and len(c["subs"]) < len(new):
            self.viol("window", "%d trials were recorded but only %d were handed to the pool" % (len(new), len(c["subs"])))
            return
        observed = usepool or table
        if observed:
            got = Counter((a, b) for a, b, _ in c["got"])
            if Counter(new) != got:
                self.viol("lists", "recorded results %s are not the received ones %s" % (new[:6], sorted(got.elements())[:6]))
                if cur["max_time"] is not None:
                    self.check_time(c, ok, len(new), cur)
                return
        self.recorded = pairs
        self.rs += [x[2] for x in c["got"]] if observed else [None] * len(new)
        if pairs:
            self.check_best(op, r, pairs, n, ok, table)
        # -- C10: which trials
        self.check_trials(op, r, c, start, new, usepool, ok, table)
        # -- C11: time limit
        if cur["max_time"] is not None and observed:
            self.check_time(c, ok, len(new), cur)
        if len(new) > cur["max_repeats"]:
            self.viol("trials", "%d trials were recorded with max_repeats=%d" % (len(new), cur["max_repeats"]))
        if ok and not new:
            self.viol("time", "the search returned without recording a trial")
        # -- C12: nothing left behind
        left = [f.r for f in self.futures if f.call == op["u"] and not f.consumed and not f.cancel_asked]
        if left:
            self.viol("cancel", "the call ended (%s) with %d trials neither consumed nor asked to cancel: runs %s" % ("ok" if ok else type(r[1]).__name__, len(left), left[:8]))

    def check_best(self, op, r, pairs, n, ok, table):
        opt = self.opt
        key = (lambda p: (p[0], p[1])) if self.cur["minimize"] == "flops" else (lambda p: (p[1], p[0]))
        best = min(pairs, key=key)
        have = (opt.best.get("flops"), opt.best.get("size"))
        if have != best:
            self.viol("best", "best is %s but the best recorded trial is %s (minimize=%s)" % (have, best, self.cur["minimize"]))
            return
        try:
            p = norm(opt.path)
        except Exception as e:
            self.viol("best", "the path property raised %r" % (e,))
            return
        if ok and norm(r[1]) != p:
            self.viol("best", "the returned path %s is not the best path %s" % (norm(r[1]), p))
            return
        if table:
            cand = [norm(linear(outcome(self.cfg["tab"], rr, n, self.cfg["style"])[0], n)) for rr, pr in zip(self.rs, pairs) if pr == best and rr is not None]
            if cand and p not in cand:
                self.viol("best", "the path is not the one of a best trial")
        else:
            bad = self.greedy_path(p, best)
            if bad:
                self.viol("best", bad)

    def greedy_path(self, p, best):
        net = self.plan["net"]
        left = net["eq"].split("->")[0].count(",") + 1
        for st in p:
            if len(set(st)) != len(st) or min(st) < 0 or max(st) >= left:
                return "invalid path %s" % (p,)
            left -= len(st) - 1
        if left != 1:
            return "incomplete path %s" % (p,)
        _, info = self.oe.contract_path(net["eq"], *[tuple(s) for s in net["shapes"]], shapes=True, optimize=p)
        if int(info.opt_cost) != int(best[0]):
            return "best claims %s flops, its path needs %s" % (best[0], info.opt_cost)
        return None

    def check_trials(self, op, r, c, start, new, usepool, ok, table):
        cur = self.cur
        if usepool:
            rs = [x for _, x in c["subs"]]
        elif table:
            rs = [x for _, x in c["begun"]]
        else:
            rs = None
        if rs is not None and sorted(rs) != list(range(start, start + len(rs))):
            self.viol("trials", "run numbers %s do not continue at %d" % (rs[:12], start))
            return
        if rs is not None and len(set(rs)) != len(rs):
            self.viol("trials", "a run number was used twice: %s" % rs)
            return
        if ok and cur["max_time"] is None and len(new) != cur["max_repeats"]:
            self.viol("trials", "%d trials were recorded instead of max_repeats=%d" % (len(new), cur["max_repeats"]))
            return
        known = [x for x in self.rs if x is not None]
        if len(known) == len(self.rs) and sorted(known) != list(range(len(known))):
            dup = sorted({x for x in known if known.count(x) > 1})
            self.viol("trials", "the recorded trials are not the first %d: run numbers %s" % (len(known), ("%s recorded twice" % dup) if dup else sorted(known)))
            return
        # outcomes
        ref = (self.expect.get("ref") or {}).get(gkey(cur["g"]))
        got = c["got"] if (usepool or table) else [(a, b, start + i) for i, (a, b) in enumerate(new)]
        if table:
            n = self.plan["net"]["eq"].split("->")[0].count(",") + 1
            for a, b, rr in got:
                if rr is not None and (a, b) != outcome(self.cfg["tab"], rr, n, self.cfg["style"])[1:]:
                    self.viol("trials", "trial %s has the outcome of another one" % rr)
                    return
        elif ref and op.get("via") is None:
            # index sets may iterate in another order once they went through pickle
            if usepool and self.active.kind == "process":
                ref = self.expect["refp"][gkey(cur["g"])]
            for a, b, rr in got:
                if rr is not None and rr < len(ref) and [int(a), int(b)] != ref[rr]:
                    self.viol("trials", "trial %d gave %s here and %s in a serial search" % (rr, (int(a), int(b)), tuple(ref[rr])))
                    return

    def check_time(self, c, ok, nnew, cur):
        mt = cur["max_time"]
        if ok and cur["max_repeats"] > 0 and (nnew == 0 or nnew < len(c["cons"])):
            self.viol("time", "a search limited to %.2fs recorded %d of the %d trials it received" % (mt, nnew, len(c["cons"])))
            return
        for i, (seq, we, me) in enumerate(c["cons"]):
            if we > mt + EPS and me > mt + EPS:
                self.sim.stat("probe.limit_reached")
                late = [s for s, _ in c["subs"] if s > seq] + [s for s, _ in c["begun"] if s > seq] + [s for s in c["waits"] if s > seq]
                if i + 1 < len(c["cons"]) or late:
                    self.viol("time", "%.2fs after the start of a search limited to %.2fs it went on (%d more results, %d more requests)" % (me, mt, len(c["cons"]) - i - 1, len(late)))
                return
        if ok and nnew < cur["max_repeats"] and c["cons"]:
            _, we, me = c["cons"][-1]
            if we < mt - EPS and me < mt - EPS:
                self.viol("time", "the search stopped after %.2fs and %d of %d trials although it may take %.2fs" % (me, nnew, cur["max_repeats"], mt))


def _raiser(e):
    raise e


# --------------------------------------------------------------------------- generation
RELEVANT = {
    "C09": ("lists", "best"),
    "C10": ("trials", "search-swallowed"),
    "C11": ("time",),
    "C12": ("window", "cancel", "release"),
}


class Search:
    def gen_plan(self, prop, seed):
        rng = random.Random("splan/%s/%s" % (prop, seed))
        table = rng.random() < {"C09": 0.75, "C10": 0.5, "C11": 0.85, "C12": 0.8}[prop]
        n = rng.randint(5, 9) if table else rng.randint(3, 6)
        cfg = {
            "rseed": rng.randrange(1 << 30),
            "tseed": rng.randrange(1 << 30),
            "tab": rng.randrange(1 << 30),
            "style": rng.choice(["ties", "ties", "huge", "anti", "falling", "rising", "plain"]),
            "dur": rng.choice(["const", "uniform", "uniform", "tail", "bimodal"]),
            "clock": {"wall0": rng.choice([0.0, 1.6e9]), "mono0": rng.choice([0.0, 1e6])},
        }
        many = table and rng.random() < 0.08
        timed = rng.random() < {"C09": 0.3, "C10": 0.3, "C11": 0.9, "C12": 0.3}[prop]

        def mt():
            return rng.choice([0, 0.5, 1.0, 2.0, 5.0] + ([20.0, 60.0] if many else [])) if timed and rng.random() < 0.8 else None

        def par():
            z = rng.random()
            if z < 0.3:
                return False
            if z < 0.4:
                return True
            if z < 0.6:
                return rng.choice([1, 2, 3, 5])
            return {"user": rng.choice(["p", "q"]), "w": rng.choice([1, 2, 3, 7]), "kind": rng.choice(["process", "process", "thread"])}

        def reps():
            if many and rng.random() < 0.5:
                return rng.choice([40, 70, 140, 300])
            return rng.choice([1, 2, 3, 4, 6, 9, 13])

        def pre():
            return rng.choice([1, 2, 3, 4, 8, 128])

        if not table:
            g = {}
            if rng.random() < 0.5:
                g["callable"] = 1
            elif rng.random() < 0.3:
                g["cost_fn"] = rng.choice(["memory-removed", "memory-removed-jitter"])
            if rng.random() < 0.5:
                g["nbranch"] = rng.choice([1, 2, 8])
            if rng.random() < 0.4:
                g["temperature"] = rng.choice([0.0, 0.3, 5.0])
            if rng.random() < 0.3:
                g["rel_temperature"] = False
            cfg["greedy"] = g
        u = [0]

        def uid():
            u[0] += 1
            return u[0]

        mini = rng.choice(["flops", "size"])

        def new():
            return {"o": "new", "u": uid(), "max_repeats": reps(), "max_time": mt(), "minimize": mini, "pre_dispatch": pre(), "parallel": par()}

        ops = [new()]
        total = 0
        for _ in range(rng.randint(2, 7)):
            z = rng.random()
            if z < 0.5:
                ops.append({"o": "call", "u": uid()})
                if rng.random() < 0.15:
                    ops[-1]["via"] = "contract_path"
                if rng.random() < 0.5:
                    ops[-1]["fallback"] = rng.choice([False, 2, {"user": "s", "w": 2, "kind": "process"}])
            elif z < 0.8:
                a = rng.choice(["max_repeats", "pre_dispatch", "parallel", "parallel", "max_time"])
                if not table and rng.random() < 0.35:
                    # heuristics may be changed between calls
                    gs = [("nbranch", [1, 2, 8]), ("temperature", [0.0, 0.3, 1.0, 5.0]), ("rel_temperature", [True, False]), ("cost_fn", ["memory-removed", "memory-removed-jitter"])]
                    v = {k: rng.choice(x) for k, x in rng.sample(gs, rng.randint(1, 2)) if not (k == "cost_fn" and "callable" in cfg["greedy"])}
                    if v:
                        ops.append({"o": "set", "u": uid(), "attr": "greedy", "v": v})
                        ops.append({"o": "call", "u": uid()})
                    continue
                v = {"max_repeats": reps, "pre_dispatch": pre, "parallel": par, "max_time": mt}[a]()
                ops.append({"o": "set", "u": uid(), "attr": a, "v": v})
                if rng.random() < 0.6:
                    ops.append({"o": "call", "u": uid()})
            elif z < 0.86:
                ops.append({"o": "rand", "u": uid(), "v": rng.randrange(1000)})
            elif z < 0.92:
                ops.append({"o": "jump", "u": uid(), "dt": rng.choice([-3600.0, -5.0, -1.0, 2.0, 60.0])})
            elif z < 0.97:
                ops.append({"o": "sleep", "u": uid(), "dt": rng.choice([0.1, 1.0, 10.0])})
            elif prop in ("C12", "C10"):
                ops.append({"o": "drop", "u": uid()})
                ops.append(new())
        ops.append({"o": "call", "u": uid()})
        if not table and cfg["greedy"].get("callable") is None:
            pass
        net = plans.rand_network(rng, n)
        return {"world": "search", "prop": prop, "mode": "table" if table else "greedy", "cfg": cfg, "net": net, "pre": [], "threads": [ops]}

    def prepare(self, prop, plan, fork):
        expect = {}
        if plan["mode"] == "greedy":
            r = fork(lambda: greedy_ref(plan))
            if "harness_error" in r:
                return r, None, None
            expect["ref"] = r["ref"]
            expect["refp"] = r["refp"]
        r = fork(lambda: self.run(prop, plan, None, [], expect))
        return r, expect, None

    def run(self, prop, plan, sched, faults, expect, profile=False):
        return SearchWorld(plan, sched, [dict(f) for f in faults], prop, expect).run()

    def variants(self, prop, plan, prof, count, seed):
        rng = random.Random("svar/%s/%s" % (prop, seed))
        calls = [o["u"] for o in plan["threads"][0] if o["o"] == "call"]
        pars = [o["u"] for o in plan["threads"][0] if o["o"] == "new" or (o["o"] == "set" and o["attr"] == "parallel")]
        out = []
        for _ in range(count):
            sched = {"kind": "serial", "tseed": rng.randrange(1 << 30)}
            faults = []
            if rng.random() < 0.75:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    k = rng.choice(["trial", "trial", "submit", "crash", "intr", "intr", "jump", "jump", "stall", "cost", "poolnew"])
                    if prop == "C11" and rng.random() < 0.6:
                        k = rng.choice(["jump", "stall"])
                    n = rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 8]) if rng.random() < 0.9 else rng.randrange(120)
                    f = {"kind": k, "u": rng.choice(calls), "n": n}
                    if k in ("trial", "submit", "cost"):
                        f["exc"] = rng.choice(["RuntimeError", "MemoryError", "ValueError", "OSError", "KeyError"])
                        if k == "cost":
                            f["n"] = rng.randrange(60)
                    elif k == "intr":
                        f["exc"] = "KeyboardInterrupt"
                    elif k == "jump":
                        f["dt"] = rng.choice([-3600.0, -2.0, -0.5, 0.7, 3.0, 3600.0])
                    elif k == "stall":
                        f["dt"] = rng.choice([1.0, 10.0, 100.0])
                    elif k == "poolnew":
                        f["u"] = rng.choice(pars)
                        f["exc"] = "OSError"
                    faults.append(f)
            out.append((sched, faults))
        return out

    def nontrivial(self, prop, r):
        return bool(r["values"]) and bool(r["pool"] or r["fired"] or r["timed"])

    @staticmethod
    def relevant(prop, v):
        return v["cls"] in RELEVANT[prop] or v["cls"] in ("search-exception", "no-progress", "deadlock")


def gkey(g):
    return json.dumps(g, sort_keys=True)


def greedy_ref(plan):
    """Outcomes of the first trials by a plain serial search in a process of its own (per settings)."""
    oe = boot.load()
    boot.seed_globals(12345)
    need = 1
    g0 = dict(plan["cfg"]["greedy"])
    combos = {gkey(g0): g0}
    cur = dict(g0)
    for op in plan["threads"][0]:
        if op["o"] == "new":
            m = op["max_repeats"]
            cur = dict(g0)
        elif op["o"] == "set" and op["attr"] == "max_repeats":
            m = op["v"]
        elif op["o"] == "set" and op["attr"] == "greedy":
            cur = dict(cur, **op["v"])
            combos[gkey(cur)] = cur
        elif op["o"] == "call":
            need += m
    net = plan["net"]
    terms, out = net["eq"].split("->")
    sizes = {}
    for t, sh in zip(terms.split(","), net["shapes"]):
        for ch, d in zip(t, sh):
            sizes[ch] = d
    args = ([frozenset(t) for t in terms.split(",")], frozenset(out), sizes)
    ref, refp = {}, {}
    for key, g in sorted(combos.items()):
        g = dict(g)
        if g.pop("callable", None):
            g["cost_fn"] = greedy_cost
        opt = oe.RandomGreedy(max_repeats=need, minimize="flops", parallel=False, **g)
        opt(*args)
        fn, targs = opt.setup(*args)
        refp[key] = []
        for r in range(need):
            f, a = pool.pickle.loads(pool.pickle.dumps((fn, (r,) + tuple(targs))))
            _, c, z = f(*a)
            refp[key].append([int(c), int(z)])
        ref[key] = [[int(a), int(b)] for a, b in zip(opt.costs, opt.sizes)]
    return {"ref": ref, "refp": refp}
