"""Writes MANIFEST.json from the properties file and the texts below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
A = "Seeded exploration, not exhaustive: it shows the property on the simulated runs only. "
CHECKS = {
    "C01": (T + "seeded threads/histories/address reuse on one cache; oracle: the same call evaluated without sharing",
            A + "Trusts numpy.einsum as the value oracle and numpy-backed stand-ins for device libraries; preemption at line or bytecode granularity of opt_einsum."),
    "C02": (T + "seeded block histories per thread with failures; oracle: reference model of per-thread block stacks and cache contents",
            A + "Blocks are left in the order they were entered, in the thread that entered them."),
    "C03": (T + "seeded histories; oracle: a log of completed backend operations per cache (none is executed twice)",
            A + "Operation identity is judged modulo index renaming/operand order, as documented."),
    "C04": (T + "seeded histories with simulated addresses; oracle: weak references to every array (alive while cached, dead after teardown)",
            A + "Relies on CPython reference counting plus a collection at teardown."),
    "C05": (T + "seeded concurrent expression calls with failures/interrupts; oracle: full contraction by numpy.einsum",
            A + "Small integer-valued operands so that results are exact in any order."),
    "C06": (T + "seeded expression-call histories with faults; oracle: backend-call log per expression and backend",
            A + "The inferred backend 'jaxlib' and the named backend 'jax' count as two backends."),
    "C07": (T + "an exception in the n-th backend operation/cost function or an interrupt at a line, then recovery calls; oracle: same exception out, nothing changed, right results afterwards",
            A + "Faults are exceptions; device-side corruption is out of scope."),
    "C08": (T + "seeded interleavings of contractions, path searches and expression builds; oracle: the same call run alone in its own process",
            A + "Preemption at line or bytecode granularity of opt_einsum code."),
    "C09": (T + "discrete-event executor with seeded completion orders, failures and clocks; oracle: re-computed minimum over the received results",
            A + "Executors and clocks are simulated; pickling is real. Asynchronous interrupts are injected only while waiting for results."),
    "C10": (T + "discrete-event executor; oracle: run-number accounting and outcomes of a serial search in another process",
            A + "As C09."),
    "C11": (T + "simulated wall/monotonic clock with jumps and stalls; oracle: event log of results, submissions and waits against the limit",
            A + "Either the wall or the monotonic clock may be used by the code."),
    "C12": (T + "discrete-event executor with crashes, failing submissions and interrupts; oracle: future/pool lifecycle log",
            A + "As C09."),
    "C13": (T + "seeded call histories on optimizer objects with failing cost functions and interrupts at lines; oracle: path validity and cost recomputed independently, fresh object for dp",
            A + "One memory_limit per object; arguments are not modified in place between calls."),
    "C14": (T + "seeded interleavings of register/lookup; oracle: linearizability against a register-once map",
            A + "Preemption at line or bytecode granularity; not interrupted between leaving a with-block and releasing its lock (CPython does not do that)."),
    "C15": (T + "seeded import failures, capability-limited modules and races on first use; oracle: which module served each call, per declared capabilities",
            A + "Backend modules are stand-ins with declared capabilities; graph-mode TensorFlow 1 and theano are not simulated."),
    "C16": (T + "seeded histories, schedules and failures; oracle: weak references to every backend result, looked at whenever a step starts",
            A + "Relies on CPython reference counting; judged at the start of einsum/tensordot calls outside sharing blocks."),
    "C17": (T + "a seeded import finder makes array libraries (numpy included) absent, failing or available later; oracle: plain-Python contraction, log of import attempts",
            A + "Array libraries are plain-Python stand-ins; a library once imported stays imported."),
}
NA = "A pure function of its arguments: no thread, clock, I/O, randomness, failure point or history enters it, so a simulator has nothing to schedule or inject. "
NAX = {
    "C20": NA + "(Values of contractions are checked inside C01, C05, C07, C08 as by-products of simulated histories, but not claimed for every equation.)",
    "C21": NA + "(Concurrent and repeated searches are claimed in C08 and C13.)",
    "C22": NA, "C23": NA + "(Equality of concurrent and solitary reports is claimed in C08.)", "C24": NA, "C25": NA, "C26": NA, "C27": NA, "C28": NA, "C29": NA,
}
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
PY = "/opt/venv/bin/python check.py "
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m compileall -q vsim check.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": PY + p["id"],
            "thorough_cmd": PY + p["id"] + " --tier thorough",
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": CHECKS[p["id"]][0],
            "level": "exploration",
            "level_note": CHECKS[p["id"]][1],
        }
        for p in props
        if p["id"] in CHECKS
    ],
    "not_applicable": [{"property": p["id"], "reason": NAX[p["id"]]} for p in props if p["id"] not in CHECKS],
    "notes": "No hooks in /repo: every seam (threads, locks, id, imports, array libraries, executors, clocks, random) is put in place by the harness before opt_einsum is imported. Repairs are listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
