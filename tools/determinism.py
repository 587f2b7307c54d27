#!/usr/bin/env python3
"""Run the same seeds twice (processes of their own, loaded and unloaded machine) and compare the event digests.

determinism.py [FIRST_SEED [PLANS [VARIANTS [PROPERTY...]]]]"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from vsim import runner, worlds_info  # noqa: E402

first, plans, variants = (list(map(int, sys.argv[1:4])) + [77_000_000, 12, 8][len(sys.argv) - 1 :])[:3]
bad = 0
for prop in sys.argv[4:] or sorted(worlds_info.INFO):
    pairs = []
    for h in range(4):
        pairs.append([runner.spawn(["digest", prop, first + 1000 * h, plans, variants], h, stdout=subprocess.PIPE, text=True, stderr=subprocess.DEVNULL) for _ in range(2)])
    n = diff = 0
    for a, b in pairs:
        x = json.loads(a.communicate()[0].strip().splitlines()[-1])
        y = json.loads(b.communicate()[0].strip().splitlines()[-1])
        for p, q in zip(x, y):
            n += 1
            if p != q:
                diff += 1
                if diff < 4:
                    print("  differs:", p, q)
        diff += abs(len(x) - len(y))
    print("%s: %d runs executed twice, %d differ" % (prop, n, diff), flush=True)
    bad += diff
sys.exit(1 if bad else 0)
