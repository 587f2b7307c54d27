"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


SH = "opt_einsum/sharing.py"
CO = "opt_einsum/contract.py"
PR = "opt_einsum/path_random.py"
PA = "opt_einsum/paths.py"
DI = "opt_einsum/backends/dispatch.py"

prop("C01", "Sharing intermediates never changes a result",
     "A contraction (direct call or expression call) made inside a sharing block returns the same values and array type, and fills a given `out` array identically, as the same call made outside any block. "
     "This holds for every history of earlier calls on the same cache: operands freed and their memory reused, caches resumed later or used by several threads at once, several backends in one cache, nested blocks, and earlier calls that failed midway. "
     "(Operands and returned arrays are assumed not to be modified in place while a cache that saw them is in use; an array passed as `out` belongs to the caller and may be reused freely.)",
     ["histories", "schedules", "fault_sequences"],
     "All sequences of contractions, array creations/deletions and block entries/exits, on any number of threads, all interleavings, and any backend failure or asynchronous interrupt inside a contraction.",
     "test_sharing.py evaluates each equation once or twice on live arrays in one thread; nothing frees operands between calls, uses out=/dtype=, races two threads on one cache or fails an operation midway.",
     [SH, CO, "opt_einsum/backends"],
     [("memoization keyed by operation, backend, operand identity and parameters", SH), ("operands are kept alive by the cache", SH)],
     ["return value of contract()/ContractExpression.__call__", "out array"],
     [("sharing cache", "maps operation keys to results", SH)])

prop("C02", "A sharing block is scoped to its thread and its extent",
     "In each thread sharing is active exactly from entering a sharing block until leaving it, however it is left (normally, by an exception, or because a contraction inside failed or was interrupted), and the active cache is the one of the innermost open block (a dict passed in is used itself, even if empty). "
     "Contractions add entries only to the active cache of their own thread and to no cache at all when that thread is not sharing; blocks opened, closed or failing in other threads never change that. "
     "Asking for the active cache while not sharing raises and changes nothing.",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings of threads that open, nest and close blocks, with exceptions and interrupts at any point of the contractions inside, and thread exit and identity reuse.",
     "One test opens one block per pool thread and compares cache sizes; nesting across threads, failing exits, and queries outside a block are never exercised under controlled interleavings.",
     [SH], [("per-thread stack of caches", SH), ("context manager restores the stack in a finally", SH)],
     ["currently_sharing()", "get_sharing_cache()", "the dict passed to or yielded by shared_intermediates()"],
     [("sharing stack", "per-thread stack of open caches", SH)])

prop("C03", "Shared work is executed once per cache",
     "With a given sharing cache active, a backend operation (tensordot, transpose, einsum) or host-to-backend transfer that already completed on the very same arrays with the same parameters is not executed again; for einsum steps this holds modulo renaming of indices and reordering of (distinct) operands. "
     "This also holds when the cache is resumed in a later block, nested, or handed to another thread once the first call returned; an operation that failed is not remembered and is executed again when next needed. "
     "The per-operation counts of a cache can be read at any time, also while other threads add to it.",
     ["histories", "schedules", "fault_sequences"],
     "All histories of contractions on one cache across blocks and threads, with failures injected into any backend operation.",
     "Tests compare cache sizes after one or two calls in a single thread; they never observe the actual backend calls, failed operations, or reads racing with writers.",
     [SH, CO], [("memoize before/after backend call", SH), ("canonical einsum key", SH)],
     ["calls that reach the backend module", "count_cached_ops()"])

prop("C04", "Cached arrays live exactly as long as their cache",
     "While a sharing cache is alive no array object that one of its entries was computed from or returns is released, so an entry can never be matched by a different array. "
     "Once the block has exited and the user has dropped the cache and their own references, the library keeps none of the operands, intermediates or results alive - also when a contraction in the block failed or was interrupted - and contractions outside any block keep nothing alive.",
     ["histories", "fault_sequences"],
     "All histories of contractions, array deletions, block exits and cache drops, with failures at any backend operation or interrupt point.",
     "test_sharing_nesting checks release for one hand-written nesting with two results; operand retention, failing blocks and conversions to other backends are not checked.",
     [SH, CO, "opt_einsum/backends"], [("operands saved in the cache", SH), ("cache dropped when the block exits", SH)],
     ["weak references to operands and results"])

prop("C05", "Expression calls are correct under any history and interleaving",
     "Calling a contraction expression - with or without constant operands - returns exactly the full contraction of the constants with the arrays given to that call, on the requested backend, and fills `out` if given. "
     "This holds for any sequence of calls on one expression with different arrays, sizes and backends, for calls made concurrently from several threads, and after earlier calls or explicit constant evaluations that failed or were interrupted at any point.",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings of concurrent calls and constant evaluations on a shared expression, all backend sequences, and failures/interrupts at every point.",
     "Tests call each expression from one thread, once per backend, and never fail the lazy constant evaluation or race two first calls.",
     [CO, "opt_einsum/backends"], [("lazy per-backend constant evaluation", CO), ("per-backend compiled expression cache", CO)],
     ["return value of ContractExpression.__call__", "out array"],
     [("evaluated constants / remaining contraction list", "state published by the lazy evaluation", CO)])

prop("C06", "Constant parts of an expression are computed once per backend",
     "After a call of an expression with constants has completed on a backend, no later call on that backend repeats the leading constant-only contractions (those performed before the first step that needs a non-constant array), nor transfers a constant to the device again. "
     "A failed or interrupted evaluation does not count as completed: the next call performs the missing work.",
     ["histories", "schedules", "fault_sequences"],
     "All call sequences over several backends and threads, with failures injected into any constant contraction or transfer.",
     "Tests check private attributes after one call; no test counts the backend operations of later calls or fails an evaluation.",
     [CO, "opt_einsum/backends"], [("evaluated constants cached per backend", CO)],
     ["calls and transfers that reach the backend module"])

prop("C07", "A failing operation is reported and contained",
     "If a backend operation, transfer or user-supplied cost function raises during a contraction, path search or expression call, that same exception reaches the caller (it is not swallowed or replaced by a result), the operands are left unmodified and an `out` array is untouched unless the failing step was the last one. "
     "Afterwards the library behaves as if the failed call had not happened: repeating the call and any other call - in or outside sharing, on any backend, in any thread - succeeds with the right result.",
     ["fault_sequences", "crash_points", "histories"],
     "Every backend operation index and every interruptible point inside every call, in every surrounding history.",
     "No existing test injects a failure into a backend operation or interrupts a call.",
     [CO, SH, DI, "opt_einsum/backends"], [("no state is published before an operation succeeded", CO), ("memoization stores after success", SH)],
     ["exception type/identity at the caller", "operand and out buffers", "results of later calls"])

prop("C08", "Concurrent independent calls do not interfere",
     "Contractions, path searches and expression builds running concurrently in different threads return what each returns alone: the exact result of the contraction, and for the deterministic path optimizers the same path and the same reported costs. "
     "The randomized optimizers return under concurrency a valid complete contraction path whose reported cost is the true cost of that path.",
     ["schedules", "inputs"],
     "All interleavings of calls to the public API from several threads (distinct optimizer instances and expressions).",
     "Apart from one ThreadPool smoke test of sharing no test runs the API concurrently, and none controls the interleaving.",
     [CO, PA, PR, "opt_einsum/parser.py", "opt_einsum/blas.py", "opt_einsum/helpers.py"],
     [("search state is local to the call", PA), ("memoized helpers are pure", CO)],
     ["contract()", "contract_path()", "contract_expression()"])

prop("C09", "A random search always holds the best of all its trials",
     "At every return of a random-search optimizer - finished, out of time, or aborted by a failing trial - its cost and size lists hold exactly the results received so far in matching pairs, and its best flops, size and path belong to one recorded trial that no recorded trial beats under the chosen criterion (flops then size, or size then flops). "
     "The path returned and exposed is that trial's path; it never gets worse over repeated calls, whatever the executor, the completion order of trials and the clock do.",
     ["schedules", "histories", "fault_sequences"],
     "All trial outcomes (ties, huge and equal costs), completion orders, executors, time limits, clock jumps, failing trials and repeated calls.",
     "Tests run a few fixed seeds on real pools with whatever timing the machine gives and only compare two optimizers' best costs.",
     [PR], [("running minimum over consumed trials", PR)],
     ["optimizer.costs/sizes/best/path", "returned path"])

prop("C10", "Parallel search runs the same trials as serial search",
     "Without a time limit each call of a random-search optimizer evaluates exactly `max_repeats` further trials, with consecutive run numbers continuing where the recorded trials end, each recorded once - in serial and with any executor, worker count, pre-dispatch depth, completion order, and after calls that were aborted by a failing trial, a broken pool or a time limit. "
     "A trial's outcome depends only on its run number, the optimizer's settings and the index sets it is given (in their iteration order, which pickling or another string-hash seed may change), not on the state of the global random generator, earlier trials or which worker runs it, so that parallel and serial searches evaluate the same candidates.",
     ["schedules", "configurations", "histories", "fault_sequences"],
     "All combinations of executor, workers, pre_dispatch and max_repeats, all completion orders and trial/worker failures.",
     "Tests only use max_repeats below pre_dispatch or a time limit with real pools, and never count or compare individual trials.",
     [PR], [("run numbers derived from the recorded trials", PR), ("each trial reseeds from its run number", PR), ("lazy submission window", PR)],
     ["arguments of trial calls", "optimizer.costs/sizes"])

prop("C11", "The search time limit is honoured",
     "With `max_time` set a search call records at least one trial and stops as soon as a recorded trial finishes after the limit has elapsed: no further trial is recorded, awaited or submitted. "
     "Until then it does not stop early, and in any case it ends after `max_repeats` trials, also when the wall clock jumps backwards or trials stall; each call gets the full limit anew.",
     ["schedules", "fault_sequences", "histories"],
     "All trial durations, worker delays, clock jumps and call sequences.",
     "One test sets max_time=0.2 on a real clock and checks nothing about how many trials ran when.",
     [PR], [("deadline check after each consumed trial", PR)],
     ["number of trials recorded per call", "submissions to the executor", "simulated clock"])

prop("C12", "Search executors are used and released properly",
     "When a search call ends for any reason (completion, time limit, failing trial, broken pool, interrupt) every trial it submitted has either been consumed or been asked to cancel. "
     "During a call at most `pre_dispatch` submitted trials are outstanding, and that many (or all remaining) are submitted before the first result is awaited. "
     "While a pool is in use all trials run in it. A pool the optimizer created itself is shut down when the parallel setting changes or the optimizer is discarded, and a pool supplied by the user is never shut down.",
     ["schedules", "fault_sequences", "histories"],
     "All sequences of calls and parallel-setting changes over managed and supplied pools with failures at any submission or result.",
     "Tests switch pools once with real processes and check only private flags; no trial ever fails.",
     [PR], [("cancel outstanding futures at the end of a call", PR), ("managing-executor flag", PR)],
     ["submit/result/cancel/shutdown calls on the executor"])

prop("C13", "A path optimizer object can be reused safely",
     "Calling the same optimizer object again for the same contraction yields a valid complete path that is never worse than the one before, also after a call that failed or was interrupted; a stateful optimizer called for a different contraction refuses with ValueError and stays usable for its own. "
     "A dynamic-programming optimizer object returns for every contraction the same path as a fresh object, whatever it was used for before.",
     ["histories", "fault_sequences"],
     "All call sequences over several contractions on one object with failures or interrupts inside the search.",
     "Tests call an object at most twice with matching arguments and once with different ones; no failure is ever injected.",
     [PA, PR], [("first-call argument check", PA), ("best-so-far state", PA)],
     ["optimizer(inputs, output, size_dict)", "optimizer.path"])

prop("C14", "Path-optimizer registration is an append-only map",
     "Registering a path function succeeds at most once per name, names being compared case-insensitively; every other attempt, also a concurrent one or one for a built-in name, raises KeyError and changes nothing. "
     "From the moment a registration has succeeded the name (in any case) resolves to that function for every thread, and unknown names raise KeyError.",
     ["schedules", "histories"],
     "All interleavings of concurrent registrations and look-ups over colliding names.",
     "One test registers a single lower-case name sequentially.",
     [PA], [("registry dict with existence check", PA)],
     ["register_path_fn()", "get_path_fn()", "contract_path(optimize=name)"],
     [("path registry", "name to function", PA)])

prop("C15", "Backend resolution is stable under import failures and races",
     "Which backend functions serve a contraction depends only on what the backend module provides: a module that failed to import raises to that caller only and is used normally as soon as importing it succeeds; modules lacking einsum are served by tensordot/transpose, modules lacking transpose by the array method, and array types whose module has no tensordot fall back to numpy. "
     "Concurrent first uses of a backend, in any interleaving with failing imports and other backends, all get results from that backend.",
     ["fault_sequences", "schedules", "histories"],
     "All sequences of import outcomes, first uses and capability combinations, and all interleavings of concurrent first uses.",
     "Tests use installed, importable libraries sequentially, so each lookup is a warm success.",
     [DI, CO], [("lookup caches filled on success", DI)],
     ["has_einsum()", "has_tensordot()", "calls reaching the backend module", "contract(backend=...)"],
     [("function cache / capability caches", "per (function, backend)", DI)])

prop("C16", "A contraction holds only the intermediates it still needs",
     "While a contraction or expression call made outside sharing blocks runs, an intermediate array is let go once the step that consumes it is over: when a later step starts, the library no longer references any intermediate consumed by an earlier step of that call, so memory stays at what the path needs. "
     "(Arrays computed from an expression's constants alone may be kept by the expression, and an array whose memory a later view uses lives as long as that view.) "
     "This holds for every path and backend, for concurrent calls and after calls that failed or were interrupted.",
     ["histories", "schedules", "fault_sequences"],
     "All sequences of contractions and expression calls on any backend, all interleavings of threads, and failures or interrupts in earlier calls.",
     "Tests look at results; none observes which arrays are alive between two steps of a contraction.",
     [CO, "opt_einsum/backends"], [("operands are popped and dereferenced after each step", CO)],
     ["liveness of the arrays returned by backend calls, at the start of later backend calls"])

prop("C17", "Only the array library a call uses has to be importable",
     "Importing opt_einsum, finding paths from shapes, and contracting arrays of one library - directly, through expressions, with constants or sharing - work and give the same results when any other array library, numpy included, is absent, and when any other library but numpy fails while being imported. "
     "No call tries to import an array library other than numpy that it was not asked to use. "
     "A call whose own library cannot be imported raises that import's error, and works as soon as the import succeeds (also numpy installed later).",
     ["fault_sequences", "configurations", "histories"],
     "All sets of absent or broken libraries, all sequences of import failures and later successes, all histories of calls.",
     "The test environment has every library installed (or skips the test), so nothing runs with a library that is absent, broken or installed later.",
     [DI, CO, "opt_einsum/parser.py", "opt_einsum/backends"], [("lazy imports of array libraries", DI), ("numpy is optional", DI)],
     ["import opt_einsum", "contract()", "contract_path()", "contract_expression()", "import attempts"])

# ---- pure functions of their input: listed for completeness, not claimed ----
pure = "every valid input"
prop("C20", "contract equals einsum",
     "For every valid expression, operands and option combination contract returns the array numpy.einsum returns (up to floating point association).",
     ["inputs", "configurations"], pure, "Tests sample a few hundred equations.", [CO, PA, "opt_einsum/parser.py", "opt_einsum/blas.py"],
     [("pairwise evaluation along a path", CO)], ["contract()"])
prop("C21", "Every optimizer returns a complete executable path",
     "For every contraction each built-in optimizer returns a path whose steps only name available terms and that leaves exactly one term.",
     ["inputs", "configurations"], pure, "Tests sample equations.", [PA, PR], [("ssa/linear path construction", PA)], ["contract_path()"])
prop("C22", "'optimal' and 'dp' find minimum-cost paths",
     "'optimal' returns a path of minimal flop count among all pairwise paths within the memory limit, and 'dp' among those without outer products.",
     ["inputs"], pure, "Tests compare a few costs.", [PA], [("exhaustive search", PA)], ["contract_path()"])
prop("C23", "PathInfo reports the true costs of the path",
     "Reported flop counts, scalings, sizes and equations are those of the returned path on the given shapes.",
     ["inputs"], pure, "Tests compare printed samples.", [CO, "opt_einsum/helpers.py"], [("cost accumulation", CO)], ["contract_path()[1]"])
prop("C24", "memory_limit bounds intermediates",
     "With a memory limit the limit-aware optimizers build no pairwise intermediate larger than the limit unless they fall back to one all-terms contraction.",
     ["inputs", "configurations"], pure, "Tests sample equations.", [PA, CO], [("sieve on size", PA)], ["contract_path(memory_limit=)"])
prop("C25", "All input formats mean the same contraction",
     "Implicit/explicit output, ellipsis, interleaved, unicode and shapes-only inputs denote the same contraction as their canonical string, and invalid ones are rejected.",
     ["inputs"], pure, "Tests sample inputs.", ["opt_einsum/parser.py"], [("parser", "opt_einsum/parser.py")], ["parse_einsum_input()"])
prop("C26", "BLAS classification never changes a result",
     "Whether a step is evaluated by tensordot or einsum depends only on efficiency; results agree for every step.",
     ["inputs"], pure, "Tests sample steps.", ["opt_einsum/blas.py", CO], [("can_blas", "opt_einsum/blas.py")], ["contract(use_blas=)"])
prop("C27", "Path conversions are inverse",
     "Converting a path between linear and single-assignment form and back yields the same contraction tree.",
     ["inputs"], pure, "Tests sample paths.", [PA], [("ssa_to_linear/linear_to_ssa", PA)], ["ssa_to_linear()", "linear_to_ssa()"])
prop("C28", "Object arrays contract with only + and *",
     "The object backend yields the sum of products for every element type implementing addition and multiplication.",
     ["inputs"], pure, "Tests use one symbolic sample.", ["opt_einsum/backends/object_arrays.py"], [("python loop einsum", "opt_einsum/backends/object_arrays.py")], ["contract(backend='object')"])
prop("C29", "Index symbols are unique and valid",
     "The i-th index symbol is a distinct single non-surrogate character for every i, and conversion to backend-valid symbols preserves the contraction.",
     ["inputs"], pure, "Tests sample a few integers.", ["opt_einsum/parser.py"], [("get_symbol", "opt_einsum/parser.py")], ["get_symbol()"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
