"""The registry world: threads registering and looking up path functions by name (C14)."""

import gc
import hashlib
import random

from . import boot, core, plans
from .core import CUR, Sim

BUILTIN = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp", "dynamic-programming", "random-greedy", "random-greedy-128"]
NET = ("ab,bc,cd->ad", (2, 3), (3, 4), (4, 2))


class RegWorld:
    def __init__(self, plan, sched, faults, profile, expect):
        self.oe = boot.load()
        self.plan = plan
        self.sim = Sim(plan, sched, faults, profile, (expect or {}).get("steps"))
        self.hist = []
        self.hits = {}
        self.values = 0

    def viol(self, cls, msg, th=None):
        self.sim.violation(cls, msg, th)

    def make(self, tag):
        W = self

        def fn(inputs, output, size_dict, memory_limit=None):
            W.hits.setdefault(W.sim.cur.tid, []).append(tag)
            return [(0, 1), (0, 1)]

        if tag % 3 == 2:

            class Opt(self.oe.paths.PathOptimizer):
                def __call__(self, inputs, output, size_dict, memory_limit=None):
                    return fn(inputs, output, size_dict, memory_limit)

            o = Opt()
            o.vs_tag = tag
            return o
        fn.vs_tag = tag
        return fn

    def step(self, th, op):
        sim = self.sim
        P = self.oe.paths
        name = op["name"]
        t0 = sim.now
        self.hits[th.tid] = []
        if op["o"] == "gc":
            gc.collect()
            return
        tag = op["u"]
        if op["o"] == "reg" and "src" in op:
            # a function that is registered already, under this or another name
            try:
                fn = P.get_path_fn(op["src"])
            except KeyError:
                return
            tag = getattr(fn, "vs_tag", "builtin")
            r = sim.call(th, op["u"], P.register_path_fn, name, fn)
            del fn
        elif op["o"] == "reg":
            # (the registry is the only one to hold the function)
            r = sim.call(th, op["u"], lambda: P.register_path_fn(name, self.make(op["u"])))
            if r[0] == "exc":
                r[1].__traceback__ = None
        elif op["o"] == "many":
            # many registrations of other names in between
            r = sim.call(th, op["u"], lambda: [P.register_path_fn("%s %d %d" % (name, op["u"], i), lambda *a, **k: []) for i in range(op["n"])])
            if r[0] == "exc":
                self.viol("reg-exception", "registering the new name number %s raised %r" % (name, r[1]), th)
            return
        elif op["o"] == "get":
            r = sim.call(th, op["u"], P.get_path_fn, name)
        else:
            r = sim.call(th, op["u"], lambda: self.oe.contract_path(NET[0], *NET[1:], shapes=True, optimize=name)[0])
        sim.now += 1
        t1 = sim.now
        self.values += 1
        hits = self.hits[th.tid]
        sim.ev(th.tid, op["u"], op["o"], name, r[0], type(r[1]).__name__ if r[0] == "exc" else "")
        if r[0] == "exc":
            e = r[1]
            if any(e is x for x in th.fired):
                out = "unknown"
            elif isinstance(e, KeyError):
                out = "keyerror"
            else:
                self.viol("reg-exception", "%s(%r) raised %s: %s" % (op["o"], name, type(e).__name__, e), th)
                return
        elif th.fired:
            self.viol("reg-exception", "%r was swallowed by %s(%r)" % (th.fired[0], op["o"], name), th)
            return
        else:
            out = "ok"
        got = None
        if out == "ok" and op["o"] == "get":
            got = getattr(r[1], "vs_tag", None)
            got = got if got is not None else ("builtin" if any(r[1] is b for b in self.builtin.values()) else "other")
            if got == "builtin" and name.lower() in self.builtin and r[1] is not self.builtin[name.lower()]:
                got = "other"
        elif out == "ok" and op["o"] == "use":
            got = hits[0] if hits else "builtin"
        self.hist.append(dict(o=op["o"], u=op["u"], key=name.lower(), out=out, got=got, t0=t0, t1=t1, tid=th.tid, tag=tag))

    def judge(self):
        INF = float("inf")
        keys = sorted({h["key"] for h in self.hist})
        for k in keys:
            H = [h for h in self.hist if h["key"] == k]
            regs = [h for h in H if h["o"] == "reg"]
            looks = [h for h in H if h["o"] != "reg"]
            wins = [h for h in regs if h["out"] == "ok"]
            if k in self.builtin:
                if wins:
                    self.viol("reg-twice", "the built-in name %r was registered again (op %d)" % (k, wins[0]["u"]))
                for h in looks:
                    if h["out"] == "keyerror" or (h["out"] == "ok" and h["got"] != "builtin"):
                        self.viol("reg-lookup", "the built-in name %r resolved to %s in op %d" % (k, h["got"] or "nothing", h["u"]))
                continue
            if len(wins) > 1:
                self.viol("reg-twice", "%r was registered %d times (ops %s)" % (k, len(wins), [h["u"] for h in wins]))
                continue
            seen = sorted({str(h["got"]) for h in looks if h["out"] == "ok"})
            if len(seen) > 1:
                self.viol("reg-lookup", "%r resolved to different functions: %s" % (k, seen))
                continue
            pos = [h for h in H if (h["o"] == "reg" and h["out"] == "keyerror") or (h["o"] != "reg" and h["out"] == "ok")]
            neg = [h for h in looks if h["out"] == "keyerror"]
            cand = wins
            if not cand:
                cand = [h for h in regs if h["out"] == "unknown"]  # interrupted: may have registered
                if not pos:
                    continue
            if seen:
                cand = [h for h in cand if str(h["tag"]) == seen[0]]
            ok = False
            for w in cand:
                lo = max([w["t0"]] + [h["t0"] for h in neg])
                hi = min([w["t1"]] + [h["t1"] for h in pos if h is not w])
                if lo < hi:
                    ok = True
            if not ok:
                self.viol("reg-order", "no single moment of registration of %r explains the history: %s" % (k, [(h["u"], h["o"], h["out"], h["got"], h["t0"], h["t1"]) for h in H]))

    def run(self):
        sim = self.sim
        boot.seed_globals(1)
        gc.disable()
        core.Tracer.install(sim)
        CUR.sim = sim
        try:
            P = self.oe.paths
            self.builtin = {}
            for b in BUILTIN:
                try:
                    self.builtin[b] = P.get_path_fn(b)
                except KeyError:
                    self.viol("reg-lookup", "the built-in name %r does not resolve" % b)

            def body(ops):
                def f(th):
                    for op in ops:
                        self.step(th, op)
                        th.ops_done += 1

                return f

            sim.run_threads([body(t) for t in self.plan["threads"]])
            if not sim.abort:
                done = sim.threads
                t2 = len(done)

                def late(th):
                    th.tid = t2
                    for op in self.plan["final"]:
                        self.step(th, op)

                sim.run_threads([late])
                sim.threads = done + sim.threads
        finally:
            CUR.sim = None
        for th in sim.threads:
            if th.error:
                return {"harness_error": th.error[-3000:]}
        if sim.capped and sim.profile is not None:
            return {"discard": "serial run too long"}
        if not sim.abort:
            self.judge()
        h = hashlib.sha256()
        for e in sim.log:
            h.update(repr(e).encode())
        h.update(repr(sim.sched_log).encode())
        r = {
            "viol": sim.viol, "stats": sim.stats, "steps": sim.steps, "switches": sim.switches, "preempt": sim.preempt, "values": self.values,
            "hash": h.hexdigest()[:24], "fired": sum(n for k, n in sim.stats.items() if k.startswith("fault.")), "sched": sim.sched_log,
            "sites": sorted(sim.sites), "fsites": sorted(sim.fsites), "states": sorted({"%s/%s" % (x["o"], x["out"]) for x in self.hist}),
        }
        if sim.profile is not None:
            r["profile"] = [[list(k), v if k[0] == "b" else [[f, ln, ks] for (f, ln), ks in v.items()]] for k, v in sim.profile.items()]
        return r


def recase(rng, s):
    z = rng.random()
    if z < 0.4:
        return s
    if z < 0.6:
        return s.upper()
    if z < 0.7:
        return s.title()
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


class Registry:
    def gen_plan(self, prop, seed):
        rng = random.Random("gplan/%s" % seed)
        pool = rng.sample(["my-opt", "x", "Custom_1", "AUTO2", "dp-x", "best path", "Greedy+", "optimal-", "", "randoM", "my_opt", " x", "x ", "auto_hq", "dp ", "branch_2", "branch-3", "random-greedy-64", "stra\u00dfe", "best  path"], rng.choice([1, 1, 2, 3]))
        names = pool + ([rng.choice(BUILTIN)] if rng.random() < 0.5 else [])
        nth = rng.choice([1, 2, 2, 2, 3, 4])
        use = rng.random() < 0.3  # contract_path calls are long: only in a part of the plans
        u = [0]
        again = rng.choice([0, 0, 0.25])

        def op(o=None):
            u[0] += 1
            p = {"o": o or rng.choices(["reg", "get", "use"], [5, 4, 1.5 if use else 0])[0], "u": u[0], "name": recase(rng, rng.choice(names))}
            if p["o"] == "reg" and rng.random() < again:
                # (not the random searches: whether such a call runs at all would decide over the length of the run)
                p["src"] = recase(rng, rng.choice([n for n in names + names + [rng.choice(BUILTIN)] if n not in BUILTIN[-2:]] or ["dp"]))
                if rng.random() < 0.4 and p["name"].lower() not in BUILTIN[-2:]:
                    p["src"] = p["name"]
            return p

        threads = [[op() for _ in range(rng.randint(1, 5))] for _ in range(nth)]
        if nth > 1 and rng.random() < 0.5:
            nm = rng.choice(pool)
            for t in threads:
                t.insert(rng.randint(0, 1), dict(op("reg"), name=recase(rng, nm)))
        if rng.random() < 0.05:
            t = rng.choice(threads)
            t.insert(rng.randint(0, len(t)), dict(op("many"), name="bulk", n=rng.choice([20, 60, 150])))
        if rng.random() < 0.3:
            for t in threads:
                if rng.random() < 0.5:
                    u[0] += 1
                    t.insert(rng.randint(0, len(t)), {"o": "gc", "u": u[0], "name": ""})
        final = []
        for n in names:
            for o in ("get", "use", "reg", "get") if use else ("get", "reg", "get"):
                final.append(dict(op(o), name=recase(rng, n)))
        return {"world": "registry", "prop": prop, "cfg": {"scope": "full"}, "pre": [], "threads": threads, "final": final}

    def prepare(self, prop, plan, fork):
        core.Tracer.prepare(False, False)
        r = fork(lambda: self.run(prop, plan, None, [], {}, True))
        if "harness_error" in r or "discard" in r:
            return r, None, None
        return r, {"steps": r["steps"]}, r.pop("profile")

    def run(self, prop, plan, sched, faults, expect, profile=False):
        return RegWorld(plan, sched, [dict(f) for f in faults], profile, expect).run()

    def variants(self, prop, plan, prof, count, seed):
        return plans.gen_variants(prop, plan, prof, count, seed)

    def nontrivial(self, prop, r):
        return bool(r["preempt"] or r["fired"])

    @staticmethod
    def relevant(prop, v):
        return v["cls"].startswith("reg-") or v["cls"] in ("no-progress", "deadlock")
