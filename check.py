#!/usr/bin/env python3
"""check.py PROPERTY            run the simulations of one property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE        run one replay file; exit 1 if it still violates its property
"""

import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vsim import boot, runner, meta  # noqa: E402


def replay(path):
    rep = json.load(open(path))
    p = runner.spawn(["replay", os.path.abspath(path)], rep["hashseed"], stdout=subprocess.PIPE, text=True)
    out = p.communicate(timeout=300)[0]
    if p.returncode != 0:
        return None
    return json.loads(out.strip().splitlines()[-1])


def main():
    t0 = time.monotonic()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = replay(sys.argv[2])
        if r is None:
            return 2
        rep = json.load(open(sys.argv[2]))
        if r["bad"]:
            print(json.dumps(r["bad"][0]))
            print("VIOLATION property=%s replay=%s" % (rep["property"], os.path.abspath(sys.argv[2])))
            return 1
        print("no violation (event digest %s)" % r["digest"])
        return 0
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in runner.TIERS:
        tier = "quick"
    budget = float(os.environ.get("VSIM_BUDGET") or runner.BUDGET.get((prop, tier)) or runner.TIERS[tier]["budget"])
    work = tempfile.mkdtemp(prefix="vsim-%s-" % prop)
    try:
        return run(prop, seed, tier, budget, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, seed, tier, budget, work, t0):
    # recorded schedules of earlier findings run first, each under its own hash seed
    corpus = {}
    for f in sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.json"))):
        rep = json.load(open(f))
        rep["name"] = os.path.basename(f)
        corpus.setdefault(rep["hashseed"] % runner.NSHARD, []).append(rep)
    procs = []
    for s in range(runner.NSHARD):
        cf = "-"
        if s in corpus:
            cf = os.path.join(work, "corpus%d.json" % s)
            json.dump(corpus[s], open(cf, "w"))
        out = os.path.join(work, "shard%d.json" % s)
        err = open(os.path.join(work, "shard%d.err" % s), "w+")
        procs.append((s, out, err, runner.spawn(["shard", prop, seed, tier, s, budget, out, cf], s, stdout=err, stderr=err)))
    shards, errors = [], []
    for s, out, err, p in procs:
        try:
            p.wait(timeout=budget + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("shard %d did not end" % s)
        if os.path.exists(out):
            d = json.load(open(out))
            d["shard"] = s
            shards.append(d)
            errors += d["errors"]
        else:
            err.seek(0)
            errors.append("shard %d: %s" % (s, err.read()[-1500:]))
    found = sorted((d["found"] for d in shards if d["found"]), key=lambda f: (f["seed"] or 0, str(f["variant"])))
    evidence = meta.evidence(prop, seed, tier, shards, time.monotonic() - t0, len(found))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    line = None
    for f in found:
        line = report(prop, f, work, tier)
        if line:
            break
    evidence["wall_s"] = round(time.monotonic() - t0, 2)
    evidence["violations"] = 1 if line else 0
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    c = evidence["coverage"]
    print("%s: %d runs, %d distinct non-trivial, %d plans, %.1fs" % (prop, c["evaluations"], c["distinct_nontrivial"], c["plans"], evidence["wall_s"]))
    for e in errors[:5]:
        print("HARNESS: " + e, file=sys.stderr)
    if line:
        print(line)
        return 1
    if found:
        if os.environ.get("VSIM_KEEP"):
            json.dump(found, open(os.environ["VSIM_KEEP"], "w"), indent=1)
        print("a violation was seen but did not replay", file=sys.stderr)
        return 2
    if len(errors) > max(1, c["evaluations"] // 500) or c["evaluations"] == 0:
        return 2
    return 0


def report(prop, f, work, tier):
    src = os.path.join(work, "found.json")
    dst = os.path.join(work, "shrunk.json")
    json.dump(f, open(src, "w"))
    p = runner.spawn(["shrink", src, dst, 60 if tier == "quick" else 180], f["hashseed"])
    try:
        p.wait(timeout=400)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    name = os.path.join(rdir, "%s-%s.json" % (prop, f["seed"]))
    cands = []
    try:
        out = json.load(open(dst))
        if out:
            cands.append(out)
    except (OSError, ValueError):
        pass
    f = dict(f)
    f.pop("sched_log", None)
    cands.append(f)
    for c in cands:
        json.dump(c, open(name, "w"), indent=1)
        for _ in range(2):
            r = replay(name)
            if r and r["bad"]:
                v = r["bad"][0]
                print("%s: %s [seed %s, %s ops, %s faults]" % (v["cls"], v["msg"], c["seed"], sum(len(t) for t in c["plan"].get("threads", [])), len(c["faults"])))
                return "VIOLATION property=%s replay=%s" % (prop, name)
    return None


if __name__ == "__main__":
    sys.exit(main())
