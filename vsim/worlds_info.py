"""Texts of the evidence files: how cases are made, what ran for real, what is assumed."""

API_REAL = ["opt_einsum (all modules, from /repo's working tree)", "numpy arithmetic", "CPython threads, released one at a time"]
API_STUB = [
    "thread scheduler (seeded; preempts at every line, in part of the runs at every bytecode)",
    "array libraries cupy, torch, tensorflow, jax, mars and capability-limited modules: numpy-backed stand-ins",
    "import outcomes of those libraries",
    "object addresses (id) seen by opt_einsum, reused adversarially",
    "locks of opt_einsum (none on the base tree; park in the scheduler)",
]
API_RULE = (
    "A seeded plan (threads of user operations: create/delete arrays, open/close sharing blocks, contract, build and call expressions, evaluate constants, path searches, imports) is run "
    "serially once and then under variants: a schedule (serial, random walk, PCT, targeted pauses, replayed) plus faults (an exception in the n-th backend operation, an interrupt at a line). "
    "Non-trivial: at least one result was judged and a thread was preempted inside library code, a fault fired, or an array address was reused. Distinct: different event log and schedule."
)
API_ASM = [
    "operands, results and caches are not modified in place by the user while in use",
    "preemption happens between lines (a part of the runs: between bytecodes) of opt_einsum; one array-library call is atomic for other threads except at its start",
    "small integer-valued operands, so that results are exact in every evaluation order",
]
SR_REAL = ["opt_einsum.path_random / paths (RandomOptimizer, RandomGreedy, their trials)", "pickling of trial functions and arguments"]
SR_STUB = [
    "executors: a discrete-event process/thread pool (workers, delays, out-of-order completion, crashes, failing submissions)",
    "wall and monotonic clocks (jumps, drift)",
    "in part of the runs the trials themselves (tables of costs, sizes and failures)",
]
SR_RULE = (
    "A seeded history of search calls on one optimizer (settings changes, several executors, failing/slow trials, crashing pools, interrupts, clock jumps) on a simulated pool; variants draw new timings and faults. "
    "Non-trivial: at least one trial was recorded and there was a pool, a fault or a time limit. Distinct: different event log."
)
SR_ASM = ["one optimizer object is used by one thread at a time", "trials are pure functions of their arguments and the global random generator"]

INFO = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C15", "C16"):
    INFO[_p] = dict(rule=API_RULE, real=API_REAL, stub=API_STUB, assumptions=API_ASM)
for _p in ("C09", "C10", "C11", "C12"):
    INFO[_p] = dict(rule=SR_RULE, real=SR_REAL, stub=SR_STUB, assumptions=SR_ASM)
INFO["C13"] = dict(
    rule="A seeded history of calls on optimizer objects (BranchBound, RandomGreedy, DynamicProgramming) over several contractions with failing cost functions and interrupts at any line; Non-trivial: at least two calls judged and a fault fired or another contraction was offered. Distinct: different event log.",
    real=["opt_einsum.paths, opt_einsum.path_random"],
    stub=["asynchronous interrupts and user cost functions"],
    assumptions=["arguments are not modified in place between calls", "one memory_limit per object"],
)
INFO["C14"] = dict(
    rule="Threads register and look up colliding names (any case, built-ins, unknown) under seeded schedules; the recorded history is checked for linearizability against a register-once map. Non-trivial: at least one preemption inside library code. Distinct: different event log and schedule.",
    real=["opt_einsum.paths.register_path_fn/get_path_fn, contract_path", "CPython threads, released one at a time"],
    stub=["thread scheduler", "locks of opt_einsum"],
    assumptions=["preemption between lines or bytecodes"],
)
INFO["C17"] = dict(
    rule="A seeded history (import opt_einsum, find paths from shapes, contract arrays of libraries written in plain Python, build and call expressions, share intermediates, contract numpy arrays where numpy is there) in a process that has not imported opt_einsum yet, while a finder lets imports of array libraries - numpy included - succeed, fail, or succeed later; variants add failures of single import attempts. Non-trivial: a result was judged and an import failed or numpy was absent. Distinct: different event log.",
    real=["opt_einsum (all modules, imported afresh in every run from /repo's working tree)", "the import machinery of CPython"],
    stub=["array libraries (plain Python, no numpy), their import outcomes; absence of numpy"],
    assumptions=["a library that has been imported stays imported", "numpy is either absent (ModuleNotFoundError) or works"],
)
