"""The reuse world: optimizer objects called again and again, with failures and interrupts (C13)."""

import gc
import hashlib
import random

from . import boot, core, plans
from .api import user_cost
from .core import CUR, EXC, Sim, SimAbort

EXCS = ["RuntimeError", "MemoryError", "ValueError", "OSError", "KeyError", "TypeError", "AttributeError", "KeyboardInterrupt"]


def user_fn(*a, **k):
    """A cost function supplied by the user: the simulator decides whether a call of it fails."""
    sim = CUR.sim
    if sim is None:
        return user_cost(*a, **k)
    return sim.backend_call("user", "cost_fn", user_cost, a, k)


def dp_user(oe):
    base = getattr(oe.paths, "_dp_compare_flops", None)
    if base is None:
        return "flops"

    def minimize(*a, **k):
        sim = CUR.sim
        if sim is None:
            return base(*a, **k)
        return sim.backend_call("user", "minimize", base, a, k)

    return minimize


def mk(oe, op):
    kw = dict(op["kw"])
    if op["k"] == "dp":
        if kw.get("minimize") == "user":
            kw["minimize"] = dp_user(oe)
        return oe.DynamicProgramming(**kw)
    if kw.get("cost_fn") == "user":
        kw["cost_fn"] = user_fn
    return (oe.BranchBound if op["k"] == "bb" else oe.RandomGreedy)(**kw)


def parts(net):
    terms, out = net["eq"].split("->")
    terms = terms.split(",")
    sizes = {}
    for t, sh in zip(terms, net["shapes"]):
        for ch, d in zip(t, sh):
            sizes[ch] = d
    return terms, out, sizes


def call(oe, opt, net, ml, via, held=None):
    if via == "contract_path":
        return oe.contract_path(net["eq"], *[tuple(s) for s in net["shapes"]], shapes=True, optimize=opt, memory_limit=ml)[0]
    terms, out, sizes = parts(net)
    inputs = [frozenset(t) for t in terms]
    if via == "inplace" and held is not None:
        # the caller's own list and dict, rewritten between the calls
        held[0][:] = inputs
        held[1].clear()
        held[1].update(sizes)
        inputs, sizes = held
    return opt(inputs, frozenset(out), sizes, ml)


def norm(path):
    return [tuple(sorted(int(x) for x in st)) for st in path]


def invalid(path, n):
    left = n
    for st in path:
        if not st or len(set(st)) != len(st) or min(st) < 0 or max(st) >= left:
            return "step %s of %s names a missing term" % (st, path)
        left -= len(st) - 1
    if left != 1:
        return "%s leaves %d terms" % (path, left)
    return None


def costs(path, net, shared=False):
    """(flops, largest intermediate) of a linear path, computed here.

    Summing over an index of one term only counts as an inner product in the cost reported to the
    user but not (`shared`) in the one the searches go by.
    """
    terms, out, sizes = parts(net)
    terms = [frozenset(t) for t in terms]

    def prod(k):
        v = 1
        for x in k:
            v *= sizes[x]
        return v

    flops = size = 0
    for st in path:
        picked = [terms[i] for i in st]
        terms = [t for i, t in enumerate(terms) if i not in st]
        rest = frozenset(out).union(*terms)
        both = frozenset().union(*picked)
        new = both & rest
        inner = both - new
        if shared and len(st) == 2:
            inner = (picked[0] & picked[1]) - rest
        flops += prod(both) * (max(1, len(st) - 1) + (1 if inner else 0))
        size = max(size, prod(new))
        terms.append(new)
    return flops, size


def alone(op, new, nets):
    """What a fresh object returns for this call, in a process of its own."""
    oe = boot.load()
    boot.seed_globals(7)
    return {"r": norm(call(oe, mk(oe, new), nets[op["net"]], new.get("ml"), op.get("via")))}


class ReuseWorld:
    def __init__(self, plan, sched, faults, profile, expect):
        self.oe = boot.load()
        self.plan = plan
        self.expect = expect or {}
        self.sim = Sim(plan, {"kind": "serial"}, faults, profile, self.expect.get("steps"))
        self.sim.world = self
        self.rseed = (sched or {}).get("rseed", plan["cfg"]["rseed"])
        self.objs = {}
        self.values = 0
        self.refused = 0
        self.states = set()
        self.held = ([], {})

    def viol(self, cls, msg):
        self.sim.violation(cls, msg, self.sim.main)

    def run(self):
        sim = self.sim
        boot.seed_globals(self.rseed)
        gc.disable()
        core.Tracer.install(sim)
        CUR.sim = sim
        sim.cur = sim.main
        try:
            for op in self.plan["threads"][0]:
                getattr(self, "op_" + op["o"])(sim.main, op)
        except SimAbort:
            pass
        finally:
            CUR.sim = None
        if sim.capped and sim.profile is not None:
            return {"discard": "too long"}
        h = hashlib.sha256()
        for e in sim.log:
            h.update(repr(e).encode())
        fired = sum(n for k, n in sim.stats.items() if k.startswith("fault."))
        r = {
            "viol": sim.viol, "stats": sim.stats, "steps": sim.steps, "switches": 0, "preempt": 0, "values": self.values,
            "hash": h.hexdigest()[:24], "fired": fired, "refused": self.refused, "states": sorted(self.states), "sched": [],
            "fsites": sorted(sim.fsites),
        }
        if sim.profile is not None:
            r["profile"] = [[list(k), v if k[0] == "b" else [[f, ln, ks] for (f, ln), ks in v.items()]] for k, v in sim.profile.items()]
        return r

    def op_new(self, th, op):
        r = self.sim.call(th, op["u"], mk, self.oe, op)
        if r[0] == "exc":
            if not any(r[1] is e for e in th.fired):
                self.viol("reuse-exception", "creating an optimizer raised %r" % (r[1],))
            return
        # bound: None = no call yet, index = bound to that contraction, "?" = a first call failed
        self.objs[op["obj"]] = dict(op=op, opt=r[1], bound=None, tried=set(), best=None, path=None)

    def op_rand(self, th, op):
        random.seed(op["v"])

    def op_call(self, th, op):
        ob = self.objs.get(op["obj"])
        if ob is None:
            return
        sim = self.sim
        new = ob["op"]
        ni = op["net"]
        net = self.plan["nets"][ni]
        n = net["eq"].split("->")[0].count(",") + 1
        r = sim.call(th, op["u"], call, self.oe, ob["opt"], net, new.get("ml"), op.get("via"), self.held)
        fired = th.fired
        sim.ev("call", op["u"], r[0], str(r[1])[:200])
        self.states.add("%s/%s/%s" % (new["k"], "own" if ob["bound"] in (None, ni) else "other", r[0] if not fired else "fault"))
        self.values += 1
        stateful = new["k"] != "dp"
        other = stateful and ob["bound"] is not None and ob["bound"] != ni
        if r[0] == "exc":
            e = r[1]
            if any(e is x for x in fired):
                if stateful and ob["bound"] is None:
                    ob["tried"].add(ni)  # may or may not be bound now
                return
            if fired:
                if isinstance(e, ValueError) and other:
                    return
                self.viol("reuse-exception", "%r was injected but %s came out: %s" % (fired[0], type(e).__name__, str(e)[:200]))
                return
            if stateful and isinstance(e, ValueError):
                if other:
                    self.refused += 1
                    return
                if ob["bound"] is None and ob["tried"] - {ni}:
                    ob["bound"] = "?"  # bound by a failed call to one of the others
                    self.refused += 1
                    return
            if ob["bound"] == "?":
                pass
            self.viol("reuse-exception", "call %d on this object raised %s: %s (in %s)" % (op["u"], type(e).__name__, str(e)[:200], r[2]))
            return
        if fired:
            self.viol("reuse-swallowed", "%r was raised but the search returned %s" % (fired[0], r[1]))
            return
        if stateful and ob["bound"] == "?":
            ob["bound"] = ni
            other = False
        if other:
            self.viol("reuse-accepted", "an optimizer bound to another contraction returned %s" % (r[1],))
            return
        try:
            path = norm(r[1])
        except Exception as e:
            self.viol("reuse-path", "returned %r: %r" % (r[1], e))
            return
        bad = invalid(path, n)
        if bad:
            self.viol("reuse-path", bad)
            return
        if not stateful:
            want = self.expect.get("alone", {}).get(str(op["u"]))
            if want is not None and [list(p) for p in path] != [list(p) for p in want]:
                self.viol("reuse-fresh", "a used object returns %s, a fresh one %s" % (path, want))
            return
        ob["bound"] = ni
        try:
            exposed = norm(ob["opt"].path)
        except Exception as e:
            self.viol("reuse-path", "reading .path raised %r" % (e,))
            return
        if exposed != path:
            self.viol("reuse-path", "returned %s but exposes %s" % (path, exposed))
            return
        mini = new["kw"].get("minimize", "flops")
        limited = new["k"] == "bb" and new.get("ml") is not None
        keys = []
        for shared in (False, True):
            flops, size = costs(path, net, shared)
            if limited:
                keys.append((flops,) if mini == "flops" else ())
            else:
                keys.append((flops, size) if mini == "flops" else (size, flops))
        if ob["best"] is not None and all(k > b for k, b in zip(keys, ob["best"])):
            self.viol("reuse-worse", "cost %s after %s had been reached (%s after %s)" % (keys[0], ob["best"][0], path, ob["path"]))
            return
        ob["best"], ob["path"] = keys, path


class Reuse:
    def gen_plan(self, prop, seed):
        rng = random.Random("rplan/%s" % seed)
        cfg = {"rseed": rng.randrange(1 << 30), "scope": "full"}
        if rng.random() < 0.08:
            return self.gen_many(prop, rng, cfg)
        big = rng.random() < 0.3
        dps = rng.random() < 0.12  # only dynamic programming: larger contractions, many ties
        if dps:
            big = False
            nets = [plans.rand_network(rng, rng.randint(3, 8)) for _ in range(rng.randint(2, 4))]
            if rng.random() < 0.6:
                d = rng.choice([2, 3])
                for net in nets:
                    net["shapes"] = [[d] * len(s) for s in net["shapes"]]
        else:
            nets = [plans.rand_network(rng, rng.randint(3, 6 if big else 5), rng.choice([0.85, 0.85, 0.5]))]
        for _ in range(0 if dps else rng.choice([1, 2, 2])):
            z = rng.random()
            if z < 0.35:
                # the same terms with another size, or another output
                net = dict(nets[0], shapes=[list(s) for s in nets[0]["shapes"]])
                terms, out = net["eq"].split("->")
                if rng.random() < 0.6:
                    ch = rng.choice([c for c in terms if c != ","])
                    d = rng.randint(7, 9)
                    net["shapes"] = [[d if c == ch else x for c, x in zip(t, s)] for t, s in zip(terms.split(","), net["shapes"])]
                else:
                    ch = rng.choice([c for c in terms if c != ","])
                    out = out.replace(ch, "") if ch in out else out + ch
                    net["eq"] = terms + "->" + out
            elif z < 0.5:
                terms, out = nets[0]["eq"].split("->")
                order = list(range(len(nets[0]["shapes"])))
                rng.shuffle(order)
                t = terms.split(",")
                net = {"eq": ",".join(t[i] for i in order) + "->" + out, "shapes": [nets[0]["shapes"][i] for i in order]}
            else:
                net = plans.rand_network(rng, rng.randint(3, 5))
            if all(parts(net) != parts(x) and key(net) != key(x) for x in nets):
                nets.append(net)
        u = [0]

        def uid():
            u[0] += 1
            return u[0]

        ops = []
        nobj = rng.choice([1, 2, 2, 3])
        kinds = {}
        for o in range(nobj):
            k = "dp" if dps else rng.choice(["bb", "bb", "bb", "rg", "rg", "dp"])
            kinds[o] = k
            op = {"o": "new", "u": uid(), "obj": o, "k": k, "kw": {}, "ml": None}
            kw = op["kw"]
            if k == "bb":
                if rng.random() < 0.7 or big:
                    kw["nbranch"] = rng.choice([1, 2, 3])
                if rng.random() < 0.4:
                    kw["cutoff_flops_factor"] = rng.choice([1, 2, 4, 10])
                if rng.random() < 0.4:
                    kw["minimize"] = rng.choice(["flops", "size"])
                if rng.random() < 0.8:
                    kw["cost_fn"] = rng.choice(["user", "user", "user", "memory-removed-jitter"])
                if rng.random() < 0.3:
                    op["ml"] = rng.choice([4, 20, 60, 200, 1000])
            elif k == "rg":
                kw["max_repeats"] = rng.choice([1, 1, 2, 3, 5])
                if rng.random() < 0.5:
                    kw["minimize"] = rng.choice(["flops", "size"])
                if rng.random() < 0.8:
                    kw["cost_fn"] = rng.choice(["user", "user", "memory-removed-jitter"])
                if rng.random() < 0.4:
                    kw["temperature"] = rng.choice([0.0, 0.3, 5.0])
                if rng.random() < 0.3:
                    kw["nbranch"] = rng.choice([1, 2, 8])
            else:
                kw["minimize"] = rng.choice(["flops", "size", "write", "combo", "limit", "combo-2", "limit-500", "user", "user"])
                if rng.random() < 0.3:
                    kw["search_outer"] = True
                if rng.random() < 0.3:
                    kw["cost_cap"] = rng.choice([True, False, 10])
                if rng.random() < 0.3 and kw["minimize"] in ("flops", "size"):
                    op["ml"] = rng.choice([60, 200, 1000])
            ops.append(op)
        inplace = rng.random() < 0.3
        main = {o: rng.randrange(len(nets)) for o in range(nobj)}
        for _ in range(rng.randint(2, 3 + 2 * nobj) + (3 if dps else 0)):
            o = rng.randrange(nobj)
            if rng.random() < 0.06:
                ops.append({"o": "rand", "u": uid(), "v": rng.randrange(1000)})
            if rng.random() < 0.7 and kinds[o] != "dp":
                ni = main[o]
            else:
                ni = rng.randrange(len(nets))
            ops.append({"o": "call", "u": uid(), "obj": o, "net": ni})
            if rng.random() < 0.3:
                ops[-1]["via"] = "contract_path"
            elif inplace and rng.random() < 0.8:
                ops[-1]["via"] = "inplace"
        for o in range(nobj):
            ops.append({"o": "call", "u": uid(), "obj": o, "net": main[o]})
        return {"world": "reuse", "prop": prop, "cfg": cfg, "nets": nets, "pre": [], "threads": [ops]}

    def gen_many(self, prop, rng, cfg):
        """Many objects, each called a few times for a contraction of its own (indices on many terms)."""
        nets, ops, u = [], [], 0
        for o in range(rng.randint(10, 20)):
            net = plans.rand_network(rng, rng.randint(4, 6), rng.choice([0.25, 0.5, 0.85]))
            nets.append(net)
            kw = {"nbranch": rng.choice([2, 2, 2, 3]), "cutoff_flops_factor": rng.choice([1, 1, 4, 10]), "minimize": rng.choice(["flops", "size", "size", "size"])}
            if rng.random() < 0.3:
                kw["cost_fn"] = rng.choice(["user", "memory-removed-jitter"])
            u += 1
            ops.append({"o": "new", "u": u, "obj": o, "k": "bb", "kw": kw, "ml": None})
            for _ in range(3):
                u += 1
                ops.append({"o": "call", "u": u, "obj": o, "net": o})
        return {"world": "reuse", "prop": prop, "cfg": cfg, "nets": nets, "pre": [], "threads": [ops]}

    def prepare(self, prop, plan, fork):
        expect = {"alone": {}}
        news = {op["obj"]: op for op in plan["threads"][0] if op["o"] == "new"}
        for op in plan["threads"][0]:
            if op["o"] == "call" and news[op["obj"]]["k"] == "dp":
                r = fork(lambda: alone(op, news[op["obj"]], plan["nets"]))
                if "harness_error" in r:
                    return {"discard": "dp finds no path alone"}, None, None
                expect["alone"][str(op["u"])] = r["r"]
        core.Tracer.prepare(False, False)
        r = fork(lambda: self.run(prop, plan, None, [], expect, True))
        if "harness_error" in r or "discard" in r:
            return r, None, None
        expect["steps"] = r["steps"]
        return r, expect, r.pop("profile")

    def run(self, prop, plan, sched, faults, expect, profile=False):
        return ReuseWorld(plan, sched, [dict(f) for f in faults], profile, expect).run()

    def variants(self, prop, plan, prof, count, seed):
        rng = random.Random("rvar/%s" % seed)
        hot = core.Tracer.hot
        calls = {o["u"] for o in plan["threads"][0] if o["o"] == "call"}
        back, lines = {}, {}
        for k, v in prof:
            if k[1] not in calls:
                continue
            if k[0] == "b":
                back[k[1]] = len(v)
            else:
                for f, ln, ks in v:
                    lines.setdefault((f, ln), []).extend((k[1], x) for x in ks)
        hlines = sorted(x for x in lines if x in hot)
        alll = sorted(lines)
        ends = {}
        for pos in lines.values():
            for u, k in pos:
                ends[u] = max(ends.get(u, 0), k)
        out = []
        for _ in range(count):
            sched = {"kind": "serial"}
            if rng.random() < 0.3:
                sched["rseed"] = rng.randrange(1 << 30)
            faults = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                z = rng.random()
                if z < 0.45 and back:
                    u = rng.choice(sorted(back))
                    faults.append({"kind": "op", "u": u, "n": rng.randrange(back[u]), "exc": rng.choice(EXCS), "when": rng.choice(["before", "after"])})
                elif alll:
                    if rng.random() < 0.3 and ends:
                        u = rng.choice(sorted(ends))
                        k = rng.randrange(1, ends[u] + 1)
                    else:
                        near = hlines and rng.random() < 0.5
                        u, k = rng.choice(lines[rng.choice(hlines if near else alll)])
                        if near:
                            k += rng.choice([0, 1])
                    faults.append({"kind": "interrupt", "u": u, "k": k, "exc": "KeyboardInterrupt"})
            out.append((sched, faults))
        return out

    def nontrivial(self, prop, r):
        return r["values"] >= 2 and bool(r["fired"] or r["refused"])

    @staticmethod
    def relevant(prop, v):
        return v["cls"].startswith("reuse-") or v["cls"] == "no-progress"


def key(net):
    """What an optimizer sees of a contraction."""
    terms, out, sizes = parts(net)
    return ([frozenset(t) for t in terms], frozenset(out), sizes)
