"""Entry point of the processes the runner starts (each with its own PYTHONHASHSEED)."""

import json
import sys

from . import boot


def main(a):
    if a[0] == "shard":
        from . import runner

        prop, seed, tier, shard, budget, path, corpus = a[1], int(a[2]), a[3], int(a[4]), float(a[5]), a[6], a[7]
        runner.run_shard(prop, seed, tier, shard, budget, path, json.load(open(corpus)) if corpus != "-" else ())
    elif a[0] == "shrink":
        from . import runner, worlds

        src, dst, budget = a[1], a[2], float(a[3])
        rep = json.load(open(src))
        boot.load()
        out = runner.Shrinker(worlds.get(rep["property"]), rep["property"], rep, budget).run()
        json.dump(out, open(dst, "w"))
    elif a[0] == "replay":
        from . import runner

        bad, r, rep = runner.replay_file(a[1])
        print(json.dumps({"bad": bad[:3], "digest": r.get("hash"), "harness": r.get("harness_error")}))
    elif a[0] == "digest":
        from . import runner

        print(json.dumps(runner.digests(a[1], int(a[2]), int(a[3]), int(a[4]))))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
