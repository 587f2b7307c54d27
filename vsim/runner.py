"""Runs batches of simulations (shards), shrinks failures, writes replay files and evidence."""

import json
import os
import subprocess
import sys
import time

from . import boot, core, worlds

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSHARD = 8
PY = sys.executable

# plans per run of the check, variants per plan, wall budget in seconds
TIERS = {
    "quick": dict(plans=100_000, variants=12, budget=60.0),
    "thorough": dict(plans=1_000_000, variants=24, budget=600.0),
}
BUDGET = {}


def fork(fn):
    return core.fork_run(fn, timeout=90)


# --------------------------------------------------------------------------- one shard
def run_shard(prop, seed, tier, shard, budget, path, corpus=()):
    """Called in a process of its own with PYTHONHASHSEED = shard; writes its tally to `path`."""
    boot.load()
    w = worlds.get(prop)
    T = TIERS[tier]
    t0 = core.REAL_MONO()
    tally = {"runs": 0, "plans": 0, "steps": 0, "switches": 0, "preempt": 0, "values": 0, "stats": {}, "discard": 0, "nontrivial": 0, "recycled": 0, "simtime": 0.0, "unrepeated": 0}
    digests = set()
    plans_seen = set()
    sites = set()
    fsites = set()
    states = set()
    samples = []
    found = None
    errors = []

    def note(r, what, seedno):
        tally["runs"] += 1
        for k in ("steps", "switches", "preempt", "values", "recycled", "simtime"):
            tally[k] += r.get(k, 0)
        for k, n in r["stats"].items():
            tally["stats"][k] = tally["stats"].get(k, 0) + n
        sites.update(r.get("sites", ()))
        fsites.update(r.get("fsites", ()))
        states.update(r.get("states", ()))
        if w.nontrivial(prop, r):
            tally["nontrivial"] += 1
            digests.add(r["hash"])
            if len(samples) < 2:
                samples.append(what(r))

    def judge(r, plan, sched, faults, expect, seedno, variant):
        nonlocal found
        bad = [v for v in r["viol"] if w.relevant(prop, v)]
        if bad and found is None:
            # one seed is one execution: what does not come out the same way twice is not reported
            again = fork(lambda: w.run(prop, plan, sched, faults, expect))
            if not any(v["cls"] == bad[0]["cls"] and w.relevant(prop, v) for v in again.get("viol", ())):
                tally["unrepeated"] += 1
                return
            found = {
                "property": prop,
                "hashseed": shard,
                "seed": seedno,
                "variant": variant,
                "plan": plan,
                "schedule": sched,
                "faults": faults,
                "expect": expect,
                "sched_log": r.get("sched"),
                "violation": bad[0],
                "others": len(bad) - 1,
            }

    i = shard
    stop_file = os.path.join(os.path.dirname(path), "stop")
    for rep in corpus:
        if found:
            break
        # (what is expected of the plan is worked out anew from the tree under test)
        r, expect, _ = w.prepare(prop, rep["plan"], fork)
        if "harness_error" in r or "discard" in r:
            continue
        judge(r, rep["plan"], None, [], expect, rep.get("seed"), "serial")
        r = fork(lambda: w.run(prop, rep["plan"], rep["schedule"], rep["faults"], expect))
        if "harness_error" in r:
            continue
        note(r, lambda r: {"corpus": rep.get("name")}, None)
        judge(r, rep["plan"], rep["schedule"], rep["faults"], expect, rep.get("seed"), "corpus")
    while found is None and core.REAL_MONO() - t0 < budget and i < T["plans"]:
        s = seed * 1_000_000 + i
        i += NSHARD
        if os.path.exists(stop_file) or len(errors) > 5:
            break
        plan = w.gen_plan(prop, s)
        r, expect, prof = w.prepare(prop, plan, fork)
        if "harness_error" in r:
            errors.append("seed %d: %s" % (s, r["harness_error"]))
            continue
        if "discard" in r:
            tally["discard"] += 1
            continue
        tally["plans"] += 1

        def desc(sched, faults):
            return lambda r: {"seed": s, "threads": [[o["o"] for o in t] for t in plan.get("threads", [])] or plan.get("desc"), "schedule": {k: v for k, v in (sched or {"kind": "serial"}).items() if k != "log"}, "faults": faults, "switches": r.get("switches"), "fired": r.get("fired")}

        note(r, desc(None, []), s)
        judge(r, plan, None, [], expect, s, "serial")
        for vi, (sched, faults) in enumerate(w.variants(prop, plan, prof, T["variants"], s)):
            if found or core.REAL_MONO() - t0 > budget + 20:
                break
            r = fork(lambda: w.run(prop, plan, sched, faults, expect))
            if "harness_error" in r:
                errors.append("seed %d variant %d: %s" % (s, vi, r["harness_error"]))
                continue
            note(r, desc(sched, faults), s)
            judge(r, plan, sched, faults, expect, s, vi)
    if found:
        open(stop_file, "w").close()
    with open(path + ".tmp", "w") as f:
        json.dump(dict(tally=tally, digests=sorted(digests), sites=sorted(sites), fsites=sorted(fsites), states=sorted(states), samples=samples, found=found, errors=errors, wall=core.REAL_MONO() - t0), f)
    os.rename(path + ".tmp", path)


# --------------------------------------------------------------------------- shrinking
class Shrinker:
    def __init__(self, w, prop, rep, budget):
        self.w, self.prop = w, prop
        self.rep = rep
        self.cls = rep["violation"]["cls"]
        self.end = core.REAL_MONO() + budget
        self.tries = 0

    def fails(self, plan, sched, faults):
        if core.REAL_MONO() > self.end:
            return None
        self.tries += 1
        r = fork(lambda: self.w.run(self.prop, plan, sched, faults, self.rep["expect"]))
        if "harness_error" in r or "discard" in r:
            return None
        for v in r["viol"]:
            if v["cls"] == self.cls and self.w.relevant(self.prop, v):
                return v, r
        return None

    def ddmin(self, items, test):
        """Smallest sub-list (greedy) for which test(sub-list) is true."""
        items = list(items)
        n = 2
        if items and test([]):
            return []
        while len(items) > 1:
            size = max(1, len(items) // n)
            i = 0
            done = False
            while i < len(items):
                cand = items[:i] + items[i + size :]
                if core.REAL_MONO() > self.end:
                    return items
                if test(cand):
                    items = cand
                    n = max(2, n - 1)
                    done = True
                else:
                    i += size
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def run(self):
        rep = self.rep
        plan, sched, faults = rep["plan"], rep["schedule"], rep["faults"]
        first = self.fails(plan, sched, faults)
        if first is None:
            return None
        if sched and sched["kind"] not in ("serial", "replay"):
            log = {"kind": "replay", "log": first[1]["sched"]}
            for k in ("opcode", "ids", "recycle"):
                if k in sched:
                    log[k] = sched[k]
            if self.fails(plan, log, faults):
                sched = log
        if sched and self.fails(plan, {"kind": "serial"}, faults):
            sched = {"kind": "serial"}
        faults = self.ddmin(faults, lambda f: self.fails(plan, sched, f))
        for _ in range(2):
            if "threads" in plan:
                # operations
                for key in ["pre"] + list(range(len(plan["threads"]))):
                    ops = plan["pre"] if key == "pre" else plan["threads"][key]

                    def put(sub):
                        p = dict(plan)
                        if key == "pre":
                            p["pre"] = sub
                        else:
                            p["threads"] = list(p["threads"])
                            p["threads"][key] = sub
                        return p

                    sub = self.ddmin(ops, lambda s_: self.fails(put(s_), sched, faults))
                    plan = put(sub)
            else:
                plan = self.w.shrink_plan(plan, lambda p: self.fails(p, sched, faults), self)
            if sched and sched["kind"] == "replay":
                log = self.ddmin(sched["log"], lambda lg: self.fails(plan, dict(sched, log=lg), faults))
                sched = dict(sched, log=log)
            faults = self.ddmin(faults, lambda f: self.fails(plan, sched, f))
        last = self.fails(plan, sched, faults) if core.REAL_MONO() < self.end else None
        if last is None:
            self.end = core.REAL_MONO() + 60
            last = self.fails(plan, sched, faults)
        if last is None:
            return None
        out = dict(rep, plan=plan, schedule=sched, faults=faults, violation=last[0], shrink_tries=self.tries, digest=last[1].get("hash"))
        out.pop("sched_log", None)
        return out


def spawn(args, hashseed, **kw):
    env = dict(os.environ)
    env.update(boot.env(hashseed))
    env["PYTHONPATH"] = HERE
    return subprocess.Popen([PY, "-m", "vsim.child"] + [str(a) for a in args], cwd=HERE, env=env, **kw)


def replay_file(path):
    """Run one replay file in this process; returns (violations that count, result)."""
    rep = json.load(open(path))
    boot.load()
    prop = rep["property"]
    w = worlds.get(prop)
    r = fork(lambda: w.run(prop, rep["plan"], rep["schedule"], rep["faults"], rep["expect"]))
    if "harness_error" in r:
        raise RuntimeError(r["harness_error"])
    return [v for v in r["viol"] if w.relevant(prop, v)], r, rep


def digests(prop, first, count, variants):
    """Event digests of some runs, for the determinism self-test."""
    boot.load()
    w = worlds.get(prop)
    out = []
    for s in range(first, first + count):
        plan = w.gen_plan(prop, s)
        r, expect, prof = w.prepare(prop, plan, fork)
        if "harness_error" in r or "discard" in r:
            out.append([s, -1, sorted(r)[0]])
            continue
        out.append([s, -1, r["hash"], r["steps"] if "steps" in r else None])
        for vi, (sched, faults) in enumerate(w.variants(prop, plan, prof, variants, s)):
            r = fork(lambda: w.run(prop, plan, sched, faults, expect))
            out.append([s, vi, r.get("hash", r.get("harness_error")), r.get("steps")])
    return out
