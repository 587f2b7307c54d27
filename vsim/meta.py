"""Evidence files."""

from . import worlds_info as info


def evidence(prop, seed, tier, shards, wall, nviol):
    tot = {}
    stats = {}
    dig, sites, fsites, states = set(), set(), set(), set()
    samples = []
    for d in shards:
        for k, v in d["tally"].items():
            if k != "stats":
                tot[k] = tot.get(k, 0) + v
        for k, v in d["tally"]["stats"].items():
            stats[k] = stats.get(k, 0) + v
        dig.update(d["digests"])
        sites.update(d["sites"])
        fsites.update(d["fsites"])
        states.update(d["states"])
        samples += d["samples"][:1]
    w = max([d["wall"] for d in shards] or [1.0])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")}
    runs = tot.get("runs", 0)
    I = info.INFO[prop]
    return {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(dig),
            "rule": I["rule"],
            "samples": samples[:3],
            "plans": tot.get("plans", 0),
            "discarded_plans": tot.get("discard", 0),
            "runs_per_hour": int(runs / w * 3600),
            "seeds_per_hour": int(tot.get("plans", 0) / w * 3600),
            "simulated_events": tot.get("steps", 0),
            "simulated_seconds": round(tot.get("simtime", 0.0), 1),
            "context_switches": tot.get("switches", 0),
            "preemptions_inside_library_code": tot.get("preempt", 0),
            "results_judged": tot.get("values", 0),
            "violations_not_repeated": tot.get("unrepeated", 0),
            "addresses_reused": tot.get("recycled", 0),
            "faults_injected": faults,
            "probes": probes,
            "distinct_preemption_lines": len(sites),
            "distinct_interrupt_lines": len(fsites),
            "distinct_states": len(states),
            "distinct_measure": "event log + schedule digest of a run; lines of /repo at which a thread was preempted or interrupted" + ("; " + I["states"] if I.get("states") else ""),
            "hash_seeds": 8,
            "real_code": I["real"],
            "stubs": I["stub"],
        },
        "assumptions": I["assumptions"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
