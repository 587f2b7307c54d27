From b887052e8752e4ce9b721df96e976c8671c07738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 01/20] fix: honour out= and einsum options (dtype, order,
 casting) while sharing intermediates

---
 opt_einsum/sharing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index c9ee583..5d4dc9d 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -165,6 +165,7 @@ def einsum_cache_wrap(einsum: Any) -> Any:
 
         # hash modulo commutativity by computing a canonical ordering and names
         backend = kwargs.pop("backend", "numpy")
+        out = kwargs.pop("out", None)
         equation = args[0]
         inputs, output, operands = parse_einsum_input(args)
         inputs = inputs.split(",")
@@ -177,8 +178,17 @@ def einsum_cache_wrap(einsum: Any) -> Any:
         canonical_inputs = ",".join(input_ for input_, _ in canonical)
         canonical_equation = alpha_canonicalize(canonical_inputs + "->" + output)
 
-        key = "einsum", backend, canonical_equation, canonical_ids
-        return _memoize(key, einsum, equation, *operands, backend=backend)
+        # any other option, e.g. ``dtype``, can change the result as well
+        options = tuple(sorted((k, v) for k, v in kwargs.items() if v is not None))
+
+        key = "einsum", backend, canonical_equation, canonical_ids + options
+        result = _memoize(key, einsum, equation, *operands, backend=backend, **kwargs)
+
+        if out is None:
+            return result
+
+        out[()] = result
+        return out
 
     return cached_einsum
 
-- 
2.43.0


From 78874851f26d8243b8c23aabcd61b451e1dba9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 02/20] fix: allow interleaved input with optimize=False while
 sharing intermediates

---
 opt_einsum/sharing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index 5d4dc9d..f059a23 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -166,8 +166,9 @@ def einsum_cache_wrap(einsum: Any) -> Any:
         # hash modulo commutativity by computing a canonical ordering and names
         backend = kwargs.pop("backend", "numpy")
         out = kwargs.pop("out", None)
-        equation = args[0]
         inputs, output, operands = parse_einsum_input(args)
+        # the interleaved format has no equation string of its own
+        equation = args[0] if isinstance(args[0], str) else inputs + "->" + output
         inputs = inputs.split(",")
 
         _save_tensors(*operands)
-- 
2.43.0


From 5e80791a69a7dc536612cb10bf3a79fb7c726288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 03/20] fix: asking for the sharing cache outside a sharing
 block no longer turns sharing on

---
 opt_einsum/sharing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index f059a23..abbe3e2 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -37,7 +37,8 @@ def currently_sharing() -> bool:
 
 def get_sharing_cache() -> CacheType:
     """Return the most recent sharing cache -- thread specific."""
-    return _SHARING_STACK[threading.get_ident()][-1]
+    # use get() - a failed look up should not add an (empty) entry for this thread
+    return _SHARING_STACK.get(threading.get_ident(), [])[-1]
 
 
 def _add_sharing_cache(cache: CacheType) -> Any:
-- 
2.43.0


From 704c1373c29953b751f0591d8d8df035509edcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 04/20] fix: count_cached_ops can be used while other threads
 add to the cache

---
 opt_einsum/sharing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index abbe3e2..89b5a67 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -86,7 +86,8 @@ def count_cached_ops(cache: CacheType) -> CounterType[str]:
     """Returns a counter of the types of each op in the cache.
     This is useful for profiling to increase sharing.
     """
-    return Counter(key[0] for key in cache.keys())
+    # copy the keys first, other threads might be adding to the cache
+    return Counter(key[0] for key in list(cache))
 
 
 def _save_tensors(*tensors: ArrayType) -> None:
-- 
2.43.0


From 2032db2c1d8821eb1a94142a57a75f9d8dd2eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 05/20] fix: keep arrays converted to another backend alive
 while their conversion is cached

---
 opt_einsum/sharing.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index 89b5a67..07324e8 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -14,7 +14,7 @@ from typing import Counter as CounterType
 from opt_einsum.parser import alpha_canonicalize, parse_einsum_input
 from opt_einsum.typing import ArrayType
 
-CacheKeyType = Union[Tuple[str, str, int, Tuple[int, ...]], Tuple[str, int]]
+CacheKeyType = Union[Tuple[str, str, int, Tuple[int, ...]], Tuple[str, int], Tuple[Any, ...]]
 CacheType = Dict[CacheKeyType, ArrayType]
 
 __all__ = [
@@ -99,6 +99,21 @@ def _save_tensors(*tensors: ArrayType) -> None:
         cache["tensor", id(tensor)] = tensor
 
 
+class _ById:
+    """Hash ``obj`` by identity, and keep it alive to prevent its id from being recycled."""
+
+    __slots__ = ("obj",)
+
+    def __init__(self, obj: Any) -> None:
+        self.obj = obj
+
+    def __hash__(self) -> int:
+        return id(self.obj)
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _ById) and self.obj is other.obj
+
+
 def _memoize(key: CacheKeyType, fn: Any, *args: Any, **kwargs: Any) -> ArrayType:
     """Memoize ``fn(*args, **kwargs)`` using the given ``key``.
     Results will be stored in the innermost ``cache`` yielded by
@@ -212,7 +227,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array, constant=constant)
 
             # hash by id
-            key = to_backend.__name__, id(array), constant
+            key = to_backend.__name__, _ById(array), constant
             return _memoize(key, to_backend, array, constant=constant)
 
     else:
@@ -223,7 +238,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array)
 
             # hash by id
-            key = to_backend.__name__, id(array)
+            key = to_backend.__name__, _ById(array)
             return _memoize(key, to_backend, array)
 
     return cached_to_backend
-- 
2.43.0


From e0052b0198c689f43865d60e28a6720f0a2879e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 06/20] fix: publish the remaining contraction list before the
 evaluated constants

---
 opt_einsum/contract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 9ea929f..b2d06eb 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -781,8 +781,9 @@ class ContractExpression:
         except KeyError:
             new_ops, new_contraction_list = self(*tmp_const_ops, backend=backend, evaluate_constants=True)
 
-        self._evaluated_constants[backend] = new_ops
+        # n.b. once the evaluated constants are visible the contraction list must match them
         self.contraction_list = new_contraction_list
+        self._evaluated_constants[backend] = new_ops
 
     def _get_evaluated_constants(self, backend: str) -> List[Optional[ArrayType]]:
         """Retrieve or generate the cached list of constant operators (mixed
-- 
2.43.0


From 2e65959543f7483419e9efca249f17cfc48a41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 07/20] fix: do not swallow a KeyError raised while evaluating
 constants

---
 opt_einsum/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index b2d06eb..635bf0a 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -776,9 +776,9 @@ class ContractExpression:
         backend = parse_backend(tmp_const_ops, backend)
 
         # get the new list of operands with constant operations performed, and remaining contractions
-        try:
+        if backends.has_backend(backend):
             new_ops, new_contraction_list = backends.evaluate_constants(backend, tmp_const_ops, self)
-        except KeyError:
+        else:
             new_ops, new_contraction_list = self(*tmp_const_ops, backend=backend, evaluate_constants=True)
 
         # n.b. once the evaluated constants are visible the contraction list must match them
-- 
2.43.0


From 5a418d0cdbc9d36debdb5c3b58853c403da3c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 08/20] fix: register_path_fn refuses existing names
 case-insensitively and atomically

---
 opt_einsum/paths.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5c38c45..cf3650b 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -7,6 +7,7 @@ import itertools
 import operator
 import random
 import re
+import threading
 from collections import Counter, defaultdict
 from typing import Any, Callable, Dict, FrozenSet, Generator, List, Optional, Sequence, Set, Tuple, Union
 from typing import Counter as CounterType
@@ -1377,12 +1378,16 @@ _PATH_OPTIONS: Dict[str, PathSearchFunctionType] = {
 }
 
 
+_PATH_OPTIONS_LOCK = threading.Lock()
+
+
 def register_path_fn(name: str, fn: PathSearchFunctionType) -> None:
     """Add path finding function ``fn`` as an option with ``name``."""
-    if name in _PATH_OPTIONS:
-        raise KeyError(f"Path optimizer '{name}' already exists.")
+    with _PATH_OPTIONS_LOCK:
+        if name.lower() in _PATH_OPTIONS:
+            raise KeyError(f"Path optimizer '{name}' already exists.")
 
-    _PATH_OPTIONS[name.lower()] = fn
+        _PATH_OPTIONS[name.lower()] = fn
 
 
 def get_path_fn(path_type: str) -> PathSearchFunctionType:
-- 
2.43.0


From 7a3478c5cb9738a9cc10884125f10756b0d89d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 09/20] fix: parallel random search no longer skips trials once
 pre_dispatch jobs are queued

---
 opt_einsum/path_random.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 1376822..579e81e 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -135,10 +135,9 @@ class RandomOptimizer(paths.PathOptimizer):
         # the idea here is to submit at least ``pre_dispatch`` jobs *before* we
         # yield any results, then do both in tandem, before draining the queue
         for r in repeats:
-            if len(self._futures) < self.pre_dispatch:
-                self._futures.append(self._executor.submit(trial_fn, r, *args))
-                continue
-            yield self._futures.popleft().result()
+            if len(self._futures) >= self.pre_dispatch:
+                yield self._futures.popleft().result()
+            self._futures.append(self._executor.submit(trial_fn, r, *args))
 
         while self._futures:
             yield self._futures.popleft().result()
-- 
2.43.0


From 94a1437dc13ef4085443992cb650abac9597aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:18 +0000
Subject: [PATCH 10/20] fix: cancel outstanding trials when a parallel random
 search fails or is interrupted

---
 opt_einsum/path_random.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 579e81e..f5073c3 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -87,7 +87,7 @@ class RandomOptimizer(paths.PathOptimizer):
 
         self._repeats_start = 0
         self._executor: Any
-        self._futures: Any
+        self._futures: Any = deque()
 
     @property
     def path(self) -> PathType:
@@ -136,11 +136,17 @@ class RandomOptimizer(paths.PathOptimizer):
         # yield any results, then do both in tandem, before draining the queue
         for r in repeats:
             if len(self._futures) >= self.pre_dispatch:
-                yield self._futures.popleft().result()
+                yield self._next_result()
             self._futures.append(self._executor.submit(trial_fn, r, *args))
 
         while self._futures:
-            yield self._futures.popleft().result()
+            yield self._next_result()
+
+    def _next_result(self) -> Any:
+        # only forget about a future once its result has arrived
+        result = self._futures[0].result()
+        self._futures.popleft()
+        return result
 
     def _cancel_futures(self) -> None:
         if self._executor is not None:
@@ -161,6 +167,18 @@ class RandomOptimizer(paths.PathOptimizer):
         output: ArrayIndexType,
         size_dict: Dict[str, int],
         memory_limit: Optional[int] = None,
+    ) -> PathType:
+        try:
+            return self._search(inputs, output, size_dict)
+        finally:
+            # also if a trial failed or the search was interrupted
+            self._cancel_futures()
+
+    def _search(
+        self,
+        inputs: List[ArrayIndexType],
+        output: ArrayIndexType,
+        size_dict: Dict[str, int],
     ) -> PathType:
         self._check_args_against_first_call(inputs, output, size_dict)
 
@@ -198,7 +216,6 @@ class RandomOptimizer(paths.PathOptimizer):
             if (self.max_time is not None) and (time.time() > t0 + self.max_time):
                 break
 
-        self._cancel_futures()
         return self.path
 
     def __del__(self):
-- 
2.43.0


From 33d58fd6b08b42992a4b68dc0ce42364e2f1de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:18 +0000
Subject: [PATCH 11/20] fix: a BranchBound optimizer can be called again after
 an unfinished search

---
 opt_einsum/paths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index cf3650b..695038b 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -397,6 +397,9 @@ class BranchBound(PathOptimizer):
         """
         self._check_args_against_first_call(inputs_, output_, size_dict)
 
+        # progress made by a previous, possibly unfinished, search should not prune this one
+        self.best_progress.clear()
+
         inputs: Tuple[FrozenSet[str]] = tuple(map(frozenset, inputs_))  # type: ignore
         output: FrozenSet[str] = frozenset(output_)
 
-- 
2.43.0


From 6a5389065aca02ee79514cb4efa174330a077e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:18 +0000
Subject: [PATCH 12/20] fix: detect torch.tensordot before publishing the torch
 module

---
 opt_einsum/backends/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index f7f01f2..b701949 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -27,8 +27,8 @@ def _get_torch_and_device():
         import torch  # type: ignore
 
         device = "cuda" if torch.cuda.is_available() else "cpu"
-        _TORCH_DEVICE = torch, device
         _TORCH_HAS_TENSORDOT = hasattr(torch, "tensordot")
+        _TORCH_DEVICE = torch, device
 
     return _TORCH_DEVICE
 
-- 
2.43.0


From 4582ae5c049a7970dd5999ce6ea6c6e05c180eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:18 +0000
Subject: [PATCH 13/20] fix: an AttributeError while importing a backend does
 not mean it lacks a function

---
 opt_einsum/backends/dispatch.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/backends/dispatch.py b/opt_einsum/backends/dispatch.py
index dd71642..d8376ae 100644
--- a/opt_einsum/backends/dispatch.py
+++ b/opt_einsum/backends/dispatch.py
@@ -34,14 +34,19 @@ _aliases = {
 }
 
 
+class _MissingFunctionError(AttributeError):
+    """A backend library could be imported but lacks a function."""
+
+
 def _import_func(func: str, backend: str, default: Any = None) -> Any:
     """Try and import ``{backend}.{func}``.
     If library is installed and func is found, return the func;
     otherwise if default is provided, return default;
     otherwise raise an error.
     """
+    lib = importlib.import_module(_aliases.get(backend, backend))
+
     try:
-        lib = importlib.import_module(_aliases.get(backend, backend))
         return getattr(lib, func) if default is None else getattr(lib, func, default)
     except AttributeError:
         error_msg = (
@@ -49,7 +54,7 @@ def _import_func(func: str, backend: str, default: Any = None) -> Any:
             "https://optimized-einsum.readthedocs.io/en/latest/backends.html "
             "for details on which functions are required for which contractions."
         )
-        raise AttributeError(error_msg.format(backend, func))
+        raise _MissingFunctionError(error_msg.format(backend, func))
 
 
 # manually cache functions as python2 doesn't support functools.lru_cache
@@ -95,7 +100,7 @@ def has_einsum(backend: str) -> bool:
         try:
             get_func("einsum", backend)
             _has_einsum[backend] = True
-        except AttributeError:
+        except _MissingFunctionError:
             _has_einsum[backend] = False
 
         return _has_einsum[backend]
@@ -112,7 +117,7 @@ def has_tensordot(backend: str) -> bool:
         try:
             get_func("tensordot", backend)
             _has_tensordot[backend] = True
-        except AttributeError:
+        except _MissingFunctionError:
             _has_tensordot[backend] = False
 
         return _has_tensordot[backend]
-- 
2.43.0


From 99e36d1251d6579cfc8c0946c47a27981195ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:16 +0000
Subject: [PATCH 14/20] fix: allow a scalar (zero-dimensional) out array for
 tensordot steps

---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 635bf0a..098dcaa 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -692,7 +692,7 @@ def _core_contract(
                 new_view = _transpose(new_view, axes=transpose, backend=backend)
 
                 if handle_out:
-                    out[:] = new_view  # type: ignore
+                    out[()] = new_view  # type: ignore
 
         else:
             # Call einsum
-- 
2.43.0


From 7d98237f263c68623e74271d0115ebb46cbead88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:19 +0000
Subject: [PATCH 15/20] fix: record a new best path together with its cost

An optimizer interrupted between the separate assignments kept the cost of a path it
did not have: later calls then pruned every path and failed or returned a worse one.
---
 opt_einsum/path_random.py | 5 ++---
 opt_einsum/paths.py       | 8 +++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index f5073c3..c2d6000 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -208,9 +208,8 @@ class RandomOptimizer(paths.PathOptimizer):
             found_new_best = self.better(cost, size, self.best["flops"], self.best["size"])
 
             if found_new_best:
-                self.best["flops"] = cost
-                self.best["size"] = size
-                self.best["ssa_path"] = ssa_path
+                # in one step, so that an interrupt never separates a path from its cost
+                self.best.update(flops=cost, size=size, ssa_path=ssa_path)
 
             # check if we have run out of time
             if (self.max_time is not None) and (time.time() > t0 + self.max_time):
diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 695038b..19f7e1c 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -409,9 +409,8 @@ class BranchBound(PathOptimizer):
         def _branch_iterate(path, inputs, remaining, flops, size):
             # reached end of path (only ever get here if flops is best found so far)
             if len(remaining) == 1:
-                self.best["size"] = size
-                self.best["flops"] = flops
-                self.best["ssa_path"] = path
+                # in one step, so that an interrupt never separates a path from its cost
+                self.best.update(size=size, flops=flops, ssa_path=path)
                 return
 
             def _assess_candidate(k1: FrozenSet[str], k2: FrozenSet[str], i: int, j: int) -> Any:
@@ -445,8 +444,7 @@ class BranchBound(PathOptimizer):
                     # terminate path here, but check all-terms contract first
                     new_flops = flops + _compute_oversize_flops(inputs, remaining, output_, size_dict)
                     if new_flops < self.best["flops"]:
-                        self.best["flops"] = new_flops
-                        self.best["ssa_path"] = path + (tuple(remaining),)
+                        self.best.update(flops=new_flops, ssa_path=path + (tuple(remaining),))
                     return None
 
                 # set cost heuristic in order to locally sort possible contractions
-- 
2.43.0


From 1679252848f495607bb033360752888e0e0ec8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:35 +0000
Subject: [PATCH 16/20] fix: dynamic programming finds a path when a dimension
 is empty

---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 19f7e1c..a2eee26 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1195,7 +1195,8 @@ class DynamicProgramming(PathOptimizer):
         output = frozenset(symbol2int[c] for c in output_)
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, size_dict, 1)
+        # (an empty dimension must not turn the bound into zero)
+        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From e80f3d3f53d1060f46f2a0a0d676ac59150bc770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:21 +0000
Subject: [PATCH 17/20] fix: fill out arrays also for backends whose einsum
 ignores out

---
 opt_einsum/contract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 098dcaa..6fee950 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -697,10 +697,14 @@ def _core_contract(
         else:
             # Call einsum
             out_kwarg: Union[None, ArrayType] = None
-            if handle_out:
+            if handle_out and backend == "numpy":
                 out_kwarg = out
             new_view = _einsum(einsum_str, *tmp_operands, backend=backend, out=out_kwarg, **kwargs)
 
+            # other libraries might ignore or not accept ``out``
+            if handle_out and backend != "numpy":
+                out[()] = new_view  # type: ignore
+
         # Append new items and dereference what we can
         operands.append(new_view)
         del tmp_operands, new_view
-- 
2.43.0


From e6623b29f15ed7a027b8ec52f63efe449cce8297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:29 +0000
Subject: [PATCH 18/20] fix: allow a zero-dimensional out tensor with torch

---
 opt_einsum/backends/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index b701949..c8ae384 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -35,7 +35,7 @@ def _get_torch_and_device():
 
 def transpose(a, axes):
     """Normal torch transpose is only valid for 2D matrices."""
-    return a.permute(*axes)
+    return a.permute(tuple(axes))
 
 
 def einsum(equation, *operands, **kwargs):
-- 
2.43.0


From de1e1b361e5d28b8fc8030c30c9260d75474d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:10 +0000
Subject: [PATCH 19/20] fix: a reused path optimizer must notice a contraction
 modified in place

The optimizer kept references to the lists and dictionaries of its first
call and compared them with the arguments of later calls, so a caller
modifying its own objects between calls was never told that the
contraction had changed.
---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index a2eee26..b492cc3 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -60,7 +60,8 @@ class PathOptimizer:
         """Utility that stateful optimizers can use to ensure they are not
         called with different contractions across separate runs.
         """
-        args = (inputs, output, size_dict)
+        # n.b. copies, the caller might modify its own between calls
+        args = ([frozenset(i) for i in inputs], frozenset(output), dict(size_dict))
         if not hasattr(self, "_first_call_args"):
             # simply set the attribute as currently there is no global PathOptimizer init
             self._first_call_args = args
-- 
2.43.0


From d7b6fbe4ec9b8a284f902e50bc102c47eb137a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:24 +0000
Subject: [PATCH 20/20] fix: pair costs cached by BranchBound and optimal must
 not ignore hyper-indices

Whether contracting two terms removes an index they share depends on which
other terms are still present when the index appears on more than two terms,
so those results must not be cached by the two terms only.  A BranchBound
object called again could return a path worse than the one it had found.
---
 opt_einsum/paths.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index b492cc3..22bd5b2 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -9,7 +9,7 @@ import random
 import re
 import threading
 from collections import Counter, defaultdict
-from typing import Any, Callable, Dict, FrozenSet, Generator, List, Optional, Sequence, Set, Tuple, Union
+from typing import Any, Callable, Dict, FrozenSet, Generator, Iterable, List, Optional, Sequence, Set, Tuple, Union
 from typing import Counter as CounterType
 
 from opt_einsum.helpers import compute_size_by_dict, flop_count
@@ -185,6 +185,15 @@ def calc_k12_flops(
     return k12, cost
 
 
+def _find_hyper_indices(inputs: Iterable[FrozenSet[str]], output: FrozenSet[str]) -> FrozenSet[str]:
+    """Find the indices that appear on more than two terms (counting the output
+    as one). Whether a pairwise contraction removes one of these depends on
+    which other terms are still present and not just on the two terms.
+    """
+    counts = Counter(itertools.chain(output, *inputs))
+    return frozenset(ix for ix, count in counts.items() if count > 2)
+
+
 def _compute_oversize_flops(
     inputs: Tuple[FrozenSet[str]],
     remaining: List[ArrayIndexType],
@@ -234,6 +243,7 @@ def optimal(
     best_ssa_path = {"ssa_path": (tuple(range(len(inputs))),)}
     size_cache: Dict[FrozenSet[str], int] = {}
     result_cache: Dict[Tuple[ArrayIndexType, ArrayIndexType], Tuple[FrozenSet[str], int]] = {}
+    hyper = _find_hyper_indices(inputs_set, output_set)
 
     def _optimal_iterate(path, remaining, inputs, flops):
         # reached end of path (only ever get here if flops is best found so far)
@@ -250,7 +260,9 @@ def optimal(
             try:
                 k12, flops12 = result_cache[key]
             except KeyError:
-                k12, flops12 = result_cache[key] = calc_k12_flops(inputs, output_set, remaining, i, j, size_dict)
+                k12, flops12 = calc_k12_flops(inputs, output_set, remaining, i, j, size_dict)
+                if hyper.isdisjoint(inputs[i] & inputs[j]):
+                    result_cache[key] = k12, flops12
 
             # sieve based on current best flops
             new_flops = flops + flops12
@@ -406,6 +418,7 @@ class BranchBound(PathOptimizer):
 
         size_cache = {k: compute_size_by_dict(k, size_dict) for k in inputs}
         result_cache: Dict[Tuple[FrozenSet[str], FrozenSet[str]], Tuple[FrozenSet[str], int]] = {}
+        hyper = _find_hyper_indices(inputs, output)
 
         def _branch_iterate(path, inputs, remaining, flops, size):
             # reached end of path (only ever get here if flops is best found so far)
@@ -419,7 +432,9 @@ class BranchBound(PathOptimizer):
                 try:
                     k12, flops12 = result_cache[k1, k2]
                 except KeyError:
-                    k12, flops12 = result_cache[k1, k2] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                    k12, flops12 = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                    if hyper.isdisjoint(k1 & k2):
+                        result_cache[k1, k2] = k12, flops12
 
                 try:
                     size12 = size_cache[k12]
-- 
2.43.0

