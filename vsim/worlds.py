"""Which world decides which property, and which violations count for it."""

from . import core


def api_relevant(prop, v):
    c = v["cls"]
    k = v.get("kind")
    if c in ("deadlock", "no-progress"):
        return True
    res = ("value", "type", "dtype", "out", "exception", "shape")
    if prop == "C01":
        return c in res and v.get("sharing") and not v.get("imports")
    if prop == "C02":
        return c in ("stack", "cache.idle", "cache.foreign") or (c == "exception" and k in ("enter", "exit"))
    if prop == "C03":
        return c in ("dup", "count")
    if prop == "C04":
        return c in ("freed", "leak")
    if prop == "C05":
        return (c in res or c == "served") and k in ("call", "mkexpr", "evalc")
    if prop == "C06":
        return c == "const-repeat"
    if prop == "C07":
        if c in ("swallowed", "replaced", "operand-modified", "out-touched"):
            return True
        return (c in res or c == "path") and (v.get("faulted") or v.get("recovery"))
    if prop == "C08":
        return c == "path" or (c in res and v.get("multi"))
    if prop == "C16":
        return c == "kept"
    if prop == "C15":
        return c in ("import-error", "capability", "served", "swallowed", "replaced") or c in res
    return False


class Api:
    real = ["opt_einsum: all of it", "numpy arithmetic", "CPython threads (one released at a time)"]
    stub = ["cupy, torch, tensorflow, jax, mars and capability-limited array libraries (numpy-backed stand-ins)", "thread scheduler", "object addresses (id)", "imports of array libraries"]

    def __init__(self):
        from . import plans, stubs

        self.plans = plans
        stubs.install()

    def gen_plan(self, prop, seed):
        return self.plans.gen_plan(prop, seed)

    def run(self, prop, plan, sched, faults, expect, profile=False):
        from . import api

        return api.ApiWorld(plan, sched, faults, profile, prop, expect).run()

    def prepare(self, prop, plan, fork):
        """Serial profile and stand-alone expectations: (result, expect, profile)."""
        from . import api

        expect = {}
        alone = {}
        for ops in plan["threads"]:
            for op in ops:
                if op["o"] == "path" and not api.is_random(op):
                    r = fork(lambda: api.alone(op))
                    if "harness_error" in r:
                        return r, None, None
                    alone[str(op["u"])] = r["r"]
        expect["alone"] = alone
        r = fork(lambda: self.run(prop, plan, None, (), expect, True))
        if "harness_error" in r or "discard" in r:
            return r, None, None
        expect["ncalls"] = {str(k[1]): len(v) for k, v in r["profile"] if k[0] == "b"}
        expect["steps"] = r["steps"]
        expect["served"] = r.pop("served")
        prof = r.pop("profile")
        return r, expect, prof

    def variants(self, prop, plan, prof, count, seed):
        return self.plans.gen_variants(prop, plan, prof, count, seed)

    def nontrivial(self, prop, r):
        return bool(r["values"]) and bool(r["preempt"] or r["fired"] or r["recycled"])

    relevant = staticmethod(api_relevant)


_CACHE = {}


def get(prop):
    if prop in ("C09", "C10", "C11", "C12"):
        from .search import Search as W
    elif prop == "C13":
        from .reuse import Reuse as W
    elif prop == "C17":
        from .deps import Deps as W
    elif prop == "C14":
        from .registry import Registry as W
    else:
        W = Api
    if W not in _CACHE:
        _CACHE[W] = W()
    return _CACHE[W]


RULE = {}
