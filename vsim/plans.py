"""Plan and variant generation for the API world (all plain data, all from one PRNG)."""

import random

from . import core, gen

DEVS = ["cupy", "torch", "tensorflow", "jax"]
EXCS = ["RuntimeError", "MemoryError", "ValueError", "OSError", "KeyError", "TypeError", "AttributeError"] * 2 + ["IndexError", "ZeroDivisionError", "OverflowError", "NotImplementedError", "AssertionError", "ImportError", "TimeoutError", "FloatingPointError", "RecursionError", "NameError", "BufferError", "SystemError", "PermissionError", "UnicodeError"]

BASE = dict(
    threads=[1, 1, 2, 2, 3],
    ops=(6, 16),
    slots=(3, 6),
    arr=1.5,
    dele=1.0,
    gc=0.1,
    enter=1.2,
    exit=0.9,
    query=0.3,
    badq=0.1,
    count=0.2,
    drop=0.2,
    contract=5.0,
    mkexpr=0.4,
    call=1.5,
    evalc=0.2,
    path=0.0,
    hasq=0.0,
    imp=0.0,
    start_shared=0.7,
    named=0.6,
    kw=0.1,
    wout=0.15,
    libs={"numpy": 10},
    tn=0.4,
    bcast=0.04,
    devcall=0.3,
    consts=0.7,
    fault=0.4,
    interrupt=0.4,
    trace=0.08,
    full=0.12,
    race=0.5,
    churn=0.08,
    foreign=0.03,
    echo=0.15,
    mod=0.2,
    own=0.3,
)

PROFILE = {
    "C01": dict(libs={"numpy": 10, "vs_full": 2, "mars": 1, "object": 1, "cupy": 1, "torch": 1, "tensorflow": 1, "jax": 0.5}, dele=1.6, arr=2.2, churn=0.25),
    "C02": dict(threads=[1, 2, 2, 3, 4], enter=3.0, exit=2.6, query=3.0, badq=1.2, contract=3.0, call=0.6, start_shared=0.3, slots=(2, 4), dele=0.3, arr=0.4),
    "C03": dict(own=0.1, libs={"numpy": 10, "vs_full": 2, "vs_noein": 1, "cupy": 1, "torch": 1}, threads=[1, 1, 2, 2, 3], named=0.9, dele=0.3, arr=0.5, count=1.0, contract=6.0, call=2.0, start_shared=0.95, slots=(2, 4), fault=0.4, devcall=0.5, echo=0.35),
    "C04": dict(libs={"numpy": 10, "vs_full": 2, "cupy": 1, "torch": 1, "tensorflow": 1}, threads=[1, 1, 1, 2, 2], dele=2.5, arr=2.5, drop=0.6, start_shared=0.6, fault=0.4, churn=0.2),
    "C05": dict(own=0.5, mod=0.5, churn=0.2, libs={"numpy": 10, "vs_full": 2, "vs_noein": 1, "cupy": 2, "torch": 2, "tensorflow": 1, "jax": 1}, threads=[1, 2, 2, 3], start_shared=0.15, enter=0.3, exit=0.4, contract=0.4, mkexpr=1.2, call=7.0, evalc=1.0, fault=0.5, devcall=0.5, consts=0.75, query=0, badq=0, count=0, drop=0),
    "C06": dict(libs={"numpy": 10, "vs_full": 2, "cupy": 2, "torch": 2, "tensorflow": 1, "jax": 1}, threads=[1, 1, 2, 3], start_shared=0.15, enter=0.3, exit=0.4, contract=0.2, mkexpr=1.0, call=7.0, evalc=0.8, fault=0.5, consts=1.0, devcall=0.5, query=0, badq=0, count=0, drop=0, dele=0.3, arr=0.5, maxconst=True),
    "C07": dict(mod=0.4, libs={"numpy": 10, "vs_full": 2, "vs_noein": 1, "cupy": 1, "torch": 1, "tensorflow": 1, "jax": 0.5, "object": 0.5}, start_shared=0.5, fault=1.0, wout=0.4, call=4.0, mkexpr=0.8, evalc=0.6, consts=0.7, path=0.8, pathfault=0.5),
    "C08": dict(own=0.4, mod=0.5, full=1.0, libs={"numpy": 10, "vs_full": 1, "torch": 1}, threads=[2, 2, 3, 4], start_shared=0.15, enter=0.2, exit=0.3, contract=3.0, mkexpr=0.8, call=1.5, evalc=0.1, path=6.0, fault=0.0, query=0, badq=0, count=0, drop=0, ops=(4, 9)),
    "C16": dict(mod=0.5, libs={"numpy": 10, "vs_full": 2, "vs_noein": 2, "cupy": 1, "torch": 2, "tensorflow": 1, "jax": 1, "object": 1}, threads=[1, 1, 2, 3], start_shared=0.1, enter=0.3, exit=1.0, contract=5.0, mkexpr=0.8, call=5.0, evalc=0.3, consts=0.35, fault=0.4, query=0, badq=0, count=0, drop=0, slots=(4, 7), nterms=(3, 6)),
    "C15": dict(mod=0.5, libs={"numpy": 2, "vs_full": 3, "vs_noein": 3, "vs_notr": 3, "vs_bare": 3, "vs_notd": 2, "mars": 2, "cupy": 1, "torch": 2, "tensorflow": 1, "jax": 1}, threads=[1, 2, 2, 3], start_shared=0.1, enter=0.2, exit=0.3, contract=5.0, mkexpr=0.5, call=2.0, evalc=0.3, hasq=2.0, imp=0.8, fault=0.15, tn=1.0, imports=0.75, multilib=True, wout=0.1, kw=0, foreign=0.1, query=0, badq=0, count=0, drop=0, ops=(4, 10)),
}

NOEIN = ("vs_noein", "vs_bare")


def settings(prop):
    d = dict(BASE)
    d.update(PROFILE.get(prop, {}))
    return d


def wchoice(rng, d):
    ks = list(d)
    return rng.choices(ks, [d[k] for k in ks])[0]


def gen_plan(prop, seed):
    rng = random.Random("plan/%s/%s" % (prop, seed))
    S = settings(prop)
    # swarm: switch features off at random
    if rng.random() < 0.5:
        for k in ("dele", "arr", "enter", "mkexpr", "call", "wout", "kw", "count", "evalc", "path", "gc", "query"):
            if rng.random() < 0.2:
                S[k] = 0
        if prop in ("C05", "C06"):
            S["call"], S["mkexpr"] = 7.0, 1.0
    nth = rng.choice(S["threads"])
    long = prop in ("C01", "C02", "C03", "C04", "C05") and rng.random() < 0.03
    burst = not long and nth == 1 and prop in ("C01", "C03", "C04", "C05", "C06") and rng.random() < 0.02
    if long:
        # a long life of few caches: one thread, hundreds of entries, early calls repeated late
        nth = 1
        S.update(ops=(60, 110), enter=0.1, exit=0.1, slots=(5, 8), arr=S["arr"] / 3, dele=S["dele"] / 3, start_shared=1.0, drop=0, named=1.0, churn=0.02)
    # operands looking at the same memory, often handed to a converting call
    views = rng.choice([["whole"], ["whole", "wholeT"], ["first", "T"], ["whole", "wholeT", "first", "T", "next", "step", "back", "bc"]]) if rng.random() < 0.2 else None
    if views and rng.random() < 0.5:
        S["devcall"] = 0.8
        S["call"] = max(S["call"], 3.0)
        S["libs"] = {"numpy": 1, "cupy": 1, "torch": 1} if prop in ("C01", "C05") else S["libs"]
    tn = rng.random() < S["tn"]
    bc = S["bcast"] if rng.random() < 0.3 else 0.0
    dts = rng.choice([("f8",), ("f8",), ("f8", "f4"), ("i8",), ("c16", "f8")])
    multilib = S.get("multilib") or rng.random() < 0.35
    if multilib:
        k = rng.randint(1, 3)
        libs = [wchoice(rng, S["libs"]) for _ in range(k)]
    else:
        libs = [wchoice(rng, S["libs"])]
    if any(lib in NOEIN for lib in libs):
        tn = True
    if any(lib != "numpy" for lib in libs):
        bc = 0.0
    if "object" in libs:
        dts = ("i8",)
    uni = gen.Universe(rng, rng.randint(*S["slots"]), tn=tn, bcast=bc, dts=dts, trace=S["trace"], rank=(1, 3) if rng.random() < 0.85 else (0, 2), zero="object" not in libs)
    slots = {}
    for n, d in uni.slots.items():
        slots[n] = dict(d)
        slots[n]["sh2"] = [uni.size2[str(i)] for i in d["sig"]]
        slots[n]["lib"] = rng.choice(libs)
        # every slot also as a plain numpy slot (for converting calls) and one of other sizes
        slots["n" + n[1:]] = dict(d, lib="numpy", sh2=slots[n]["sh2"])
    for n, d in uni.slots.items():
        slots["z" + n[1:]] = dict(d, lib="numpy", sh2=slots[n]["sh2"], alt=1)
    uni.slots = {n: slots[n] for n in slots}
    cfg = {
        "idseed": rng.randrange(1 << 30),
        "recycle": rng.choice([0.0, 0.5, 0.9, 1.0]),
        "rseed": rng.randrange(1 << 30),
        "names": ["w"] * nth if rng.random() < 0.5 else ["w%d" % i for i in range(nth)],
        "scope": "full" if rng.random() < S["full"] else "core",
        "share_recovery": rng.random() < 0.5,
    }
    if prop in ("C05", "C15") and rng.random() < 0.15:
        cfg["old_torch"] = 1
    if S.get("imports", 0) and rng.random() < S["imports"]:
        imp = {}
        for lib in set(libs) - {"numpy"}:
            imp[lib] = [rng.choice([None, "ImportError", "ModuleNotFoundError", "OSError", "AttributeError", "RuntimeError"]) for _ in range(rng.randint(0, 4))]
        cfg["imports"] = imp
    u = [0]

    def uid():
        u[0] += 1
        return u[0]

    def arr_op(name):
        d = slots[name]
        o = {"o": "arr", "u": uid(), "s": name, "seed": rng.randrange(1 << 30), "lib": d["lib"]}
        if d.get("alt"):
            o["alt"] = 1
        if d["lib"] == "numpy" and views and rng.random() < 0.7:
            o["vw"] = rng.choice(views)
        return o

    pre = []
    for n in sorted(slots):
        if n[0] == "a" or rng.random() < 0.8:
            pre.append(arr_op(n))
    exprs = {}
    made = []

    def a_slots(lib):
        return sorted(n for n in slots if n[0] == "a" and slots[n]["lib"] == lib)

    def kw_choices(ops):
        dts_ = {slots[x]["dt"] for x in ops}
        return [{"dtype": "c16"}, {"dtype": "c16"} if dts_ <= {"c16"} else ({"dtype": "f8"} if "c16" not in dts_ else {"dtype": "c16"}), {"order": "F"}, {"order": "C"}, {"casting": "same_kind"}]

    def mk_contract():
        lib = rng.choice(libs)
        names = a_slots(lib)
        if not names:
            lib = "numpy"
            names = sorted(n for n in slots if n[0] == "n")
        if lib == "numpy" and rng.random() < 0.3:
            names = names + sorted(n for n in slots if n[0] == "r")
        k = rng.randint(*S["nterms"]) if S.get("nterms") else rng.choice([1, 2, 2, 3, 3, 4, 5])
        t = tn or lib in NOEIN
        if t and lib in NOEIN and k == 1:
            k = 2
        p = uni.pick(k, tn=t, names=names, distinct=False)
        if p is None:
            return None
        perm = rng.choice([0, 0, 0.5])
        sp = gen.spec(rng, uni, *p, perm=perm)
        if lib in NOEIN:
            if len(sp["ops"]) == 1:
                return None
        if lib != "numpy":
            sp["fmt"] = "str"
        op = {"o": "contract", "u": uid(), "lib": lib}
        op.update(sp)
        if lib == "object":
            op["be"] = "object"
            if "->" not in op["eq"]:
                return None
        elif lib in NOEIN or rng.random() < 0.3:
            op["be"] = {"jax": "jax"}.get(lib, lib) if lib != "vs_notd" else None
            if op["be"] is None:
                del op["be"]
        n = len(op["ops"])
        z = rng.random()
        if z < 0.2 and n >= 2 and lib not in NOEIN:
            op["opt"] = gen.rand_path(rng, n)
        elif z < 0.28 and lib == "numpy":
            op["opt"] = False
            op.pop("be", None)
        else:
            op["opt"] = pick_opt(rng, n)
        if lib == "numpy" and op["opt"] is not False and rng.random() < S["foreign"]:
            op["be"] = rng.choice(["vs_full", "mars", "jax"])
            if not isinstance(op["opt"], list):
                op["opt"] = rng.choice(["auto", "greedy"])
            return op
        if rng.random() < 0.15 and lib not in NOEIN:
            op["blas"] = False
        if rng.random() < 0.1 and op["opt"] in ("auto", "greedy", "optimal", "branch-2", True) and lib not in NOEIN and n >= 3:
            op["mem"] = rng.choice(["max_input", 4, 9, -1])
        if lib == "numpy" and n >= 2 and rng.random() < S["kw"]:
            op["blas"] = False
            op["kw"] = rng.choice(kw_choices(op["ops"]))
        if rng.random() < S["wout"] and lib not in ("tensorflow", "jax") and op.get("fmt") == "str":
            op["wout"] = 1
        elif lib == "numpy" and not op.get("kw") and rng.random() < 0.25:
            # keep the result for later operations; one slot per signature
            rn = "r" + "_".join(map(str, op["out"]))
            if not bc and len(op["out"]) <= 3:
                dt = {"f8": "f8"}.get("f8")
                dts2 = sorted({slots[x]["dt"] for x in op["ops"]})
                dt = "c16" if "c16" in dts2 else ("f8" if "f8" in dts2 or ("f4" in dts2 and "i8" in dts2) else dts2[0])
                rn += "_" + dt
                if rn not in slots:
                    slots[rn] = {"sig": list(op["out"]), "sh": [uni.size[str(i)] for i in op["out"]], "dt": dt, "lib": "numpy"}
                    slots[rn]["sh2"] = [uni.size2[str(i)] for i in op["out"]]
                    uni.slots[rn] = slots[rn]
                if depth_ok(op):
                    op["r"] = rn
        return op

    def pairings():
        """The same two arrays contracted again and again over differently paired axes."""
        lib = rng.choice(libs)
        names = [x for x in a_slots(lib) if len(slots[x]["sh"]) >= 2 and min(slots[x]["sh"]) == max(slots[x]["sh"])]
        if not names or lib == "object":
            return []
        d = slots[names[0]]["sh"][0]
        a, b = rng.choice(names), rng.choice(names)
        if slots[a]["sh"][0] != slots[b]["sh"][0] or d < 1:
            return []
        ra, rb = len(slots[a]["sh"]), len(slots[b]["sh"])
        j = rng.randint(2, min(ra, rb)) if rng.random() < 0.85 else 1
        extra = [x for x in names if slots[x]["sh"][0] == d]
        res = []
        base = list(range(ra)), rng.sample(range(rb), j)
        for i in range(rng.randint(2, 4)):
            sa = list(base[0]) if rng.random() < 0.8 else rng.sample(range(ra), ra)
            con = rng.sample(range(ra), j) if rng.random() < 0.2 else rng.sample(sorted(base[0][:j]), j)
            pos = base[1] if rng.random() < 0.8 else rng.sample(range(rb), j)
            sb = [ra + x for x in range(rb)]
            for x, y in zip(con, pos):
                sb[y] = x
            sigs = [sa, sb]
            ops_ = [a, b]
            out = [x for x in sa + sb if (x in sa) != (x in sb)]
            if rng.random() < 0.3:
                rng.shuffle(out)
            if rng.random() < 0.2:
                sigs, ops_ = sigs[::-1], ops_[::-1]
            if rng.random() < 0.25 and lib not in NOEIN:
                # ... inside a larger contraction
                c = rng.choice(extra or [a])
                n = len(slots[c]["sh"])
                sc = (rng.sample(out, min(n, len(out))) + [20 + x for x in range(n)])[:n]
                sigs, ops_ = sigs + [sc], ops_ + [c]
                out = [x for x in out if x not in sc] + [x for x in sc if x >= 20]
            if slots[ops_[-1]]["sh"][0] != slots[a]["sh"][0]:
                continue
            o = {"o": "contract", "u": uid(), "lib": lib}
            m = dict(zip(sorted({x for t in sigs for x in t}), rng.sample(gen.LETTERS, 40) if rng.random() < 0.75 else rng.sample("abcABC", 6) + list("defghijDEFGHIJ")))
            o.update({"eq": ",".join("".join(m[x] for x in t) for t in sigs) + "->" + "".join(m[x] for x in out), "ops": ops_, "out": out, "fmt": "str", "sigs": sigs})
            if lib in NOEIN:
                o["be"] = lib
            o["opt"] = rng.choice(["auto", "greedy", "optimal"]) if len(ops_) == 2 else [[0, 1], [0, 1]]
            res.append(o)
        return res

    def own(o, p):
        if rng.random() < p:
            o["own"] = rng.randrange(1 << 30)
            o.pop("r", None)


    def depth_ok(op):
        # results of results grow: keep products within exact range
        for x in op["ops"]:
            if x[0] == "r":
                return False
        return True

    def mk_expr():
        lib = rng.choice(libs)
        if lib == "object":
            lib = "numpy"
        base = a_slots(lib)
        if not base:
            lib = "numpy"
        k = rng.randint(*S["nterms"]) if S.get("nterms") else rng.choice([2, 3, 3, 4, 4, 5])
        t = tn or lib in NOEIN
        # constants are distinct objects used once
        p = uni.pick(k, tn=t, names=[n for n in (base or sorted(x for x in slots if x[0] == "n"))], distinct=False)
        if p is None:
            return None
        ch, out = p
        n = len(ch)
        if n < 2:
            return None
        consts = {}
        if rng.random() < S["consts"]:
            hi = n - 1
            nc = rng.randint(1, hi) if not S.get("maxconst") or rng.random() < 0.4 else hi
            used = set()
            for i in rng.sample(range(n), nc):
                src = ch[i]
                # constants are numpy arrays (or of the expression's own library)
                cn = ("n" + src[1:]) if (lib in DEVS or rng.random() < 0.7) else src
                if cn in used:
                    continue
                used.add(cn)
                consts[str(i)] = cn
        e = "e%d" % len(exprs)
        sp = gen.spec(rng, uni, ch, out, inter=0.0, perm=rng.choice([0, 0.3]), both=True)
        if consts and "->" not in sp["eq"] and False:
            return None
        op = {"o": "mkexpr", "u": uid(), "e": e, "consts": consts}
        op.update(sp)
        op["opt"] = pick_opt(rng, n)
        if rng.random() < 0.15 and n >= 2 and lib not in NOEIN:
            op["opt"] = gen.rand_path(rng, n)
        if rng.random() < 0.15 and lib not in NOEIN:
            op["blas"] = False
        made.append(op)
        exprs[e] = {"lib": lib, "ops": list(ch), "consts": set(int(i) for i in consts), "cn": consts, "bc": bool(bc)}
        return op

    def twins():
        """An expression like an earlier one (same string and shapes), other constants, perhaps at the same addresses."""
        cand = [o for o in made if o["consts"] and o["e"] in exprs]
        if not cand:
            return []
        o = rng.choice(cand)
        z = rng.random()
        new = dict(o, u=uid(), consts=dict(o["consts"]))
        res = []
        e2 = o["e"]
        if z < 0.5:  # both live on
            e2 = new["e"] = "e%d" % len(exprs)
        else:  # the first one goes away
            c0 = mk_call(o["e"])
            res += [c0] * bool(c0) + [{"o": "delexpr", "u": uid(), "e": o["e"]}]
        for i, c in o["consts"].items():
            if z >= 0.5 or rng.random() < 0.5:
                res += [{"o": "del", "u": uid(), "s": c}, arr_op(c)]
            else:
                same = [x for x in sorted(slots) if x[0] != "r" and not slots[x].get("alt") and slots[x]["lib"] == slots[c]["lib"] and slots[x]["sh"] == slots[c]["sh"] and slots[x]["dt"] == slots[c]["dt"] and x not in new["consts"].values()]
                if same:
                    new["consts"][i] = rng.choice(same)
        if z < 0.15:
            k = [i for i in range(len(o["ops"])) if str(i) not in o["consts"]]
            if len(k) > 1 and len(o["consts"]) > 0:  # other positions are constant
                i = rng.choice(sorted(new["consts"]))
                c = new["consts"].pop(i)
                free = [j for j in k if slots[o["ops"][j]]["sh"] == slots[c]["sh"]]
                new["consts"][str(free[0]) if free else i] = c
        exprs[e2] = dict(exprs[o["e"]], consts=set(int(i) for i in new["consts"]), cn=new["consts"])
        res.append(new)
        made.append(new)
        for _ in range(rng.randint(1, 3)):
            c = mk_call(rng.choice([e2, e2, o["e"]]))
            if c:
                res.append(c)
        return res

    def mk_call(e=None):
        if not exprs:
            return None
        e = e or rng.choice(sorted(exprs))
        x = exprs[e]
        var = [n for i, n in enumerate(x["ops"]) if i not in x["consts"]]
        lib = x["lib"]
        op = {"o": "call", "u": uid(), "e": e}
        mode = rng.random()
        conv = lib in DEVS or lib == "numpy"
        constlib = {slots[c]["lib"] for c in x["cn"].values()}
        if conv and mode < S["devcall"] and constlib <= {"numpy"}:
            # numpy arguments on a converting backend
            op["ops"] = ["n" + n[1:] for n in var]
            op["lib"] = "numpy"
            op["be"] = rng.choice(([lib] * 3 if lib in DEVS else []) + DEVS)
        elif mode < S["devcall"] + 0.15 and constlib <= {"numpy"} and not x["bc"] and not x["consts"]:
            op["ops"] = ["z" + n[1:] for n in var]  # same ranks, other sizes
            op["lib"] = "numpy"
            if rng.random() < 0.5:
                op["be"] = "numpy"
        elif (lib == "numpy" or mode > 0.85) and constlib <= {"numpy"}:
            op["ops"] = ["n" + n[1:] for n in var]
            op["lib"] = "numpy"
            if rng.random() < 0.5:
                op["be"] = "numpy"
        else:
            op["ops"] = list(var)
            op["lib"] = lib
            if rng.random() < 0.5 and lib != "vs_notd":
                op["be"] = lib
        # arguments may be exchanged for other slots of the same signature and library
        op["ops"] = [rng.choice([m for m in sorted(slots) if m[0] == n[0] and m[0] != "r" and slots[m]["sig"] == slots[n]["sig"] and slots[m]["lib"] == slots[n]["lib"] and slots[m]["sh"] == slots[n]["sh"]]) for n in op["ops"]]
        if rng.random() < S["wout"] and op["lib"] not in ("tensorflow", "jax"):
            op["wout"] = 1
        return op

    def mk_evalc():
        cand = [e for e in sorted(exprs) if exprs[e]["consts"]]
        if not cand:
            return None
        e = rng.choice(cand)
        x = exprs[e]
        libs_ = {slots[c]["lib"] for c in x["cn"].values()}
        if libs_ <= {"numpy"}:
            be = rng.choice(["numpy"] + DEVS + ([x["lib"]] * 3 if x["lib"] != "vs_notd" else []))
        else:
            be = x["lib"] if x["lib"] != "vs_notd" else "numpy"
        return {"o": "evalc", "u": uid(), "e": e, "be": be}

    dpobj = {}

    nets, pops = [], []

    def mk_path():
        n = rng.choice([3, 4, 4, 5, 5, 6, 6, 7, 8])
        z = rng.random()
        keep = None
        if nets and z < 0.35:
            # the same network again, as it is or with other sizes or in another order (and maybe other settings)
            net = rng.choice(nets)
            n = len(net["shapes"])
            if rng.random() < 0.5:
                keep = rng.choice(pops)
                net = {"eq": keep["eq"], "shapes": keep["shapes"]}
                n = keep["n"]
            elif z < 0.12:
                sizes = {}
                net = {"eq": net["eq"], "shapes": [[sizes.setdefault(c, rng.randint(2, 6)) for c in t] for t in net["eq"].split("->")[0].split(",")]}
            elif z < 0.18:
                lhs, o = net["eq"].split("->")
                k = list(range(n))
                rng.shuffle(k)
                lhs = lhs.split(",")
                net = {"eq": ",".join(lhs[i] for i in k) + "->" + o, "shapes": [net["shapes"][i] for i in k]}
        else:
            net = rand_network(rng, n)
        nets.append(net)
        op = {"o": "path", "u": uid(), "n": n}
        op.update(net)
        z = rng.random()
        if z < 0.6:
            op["opt"] = rng.choice(["auto", "greedy", "branch-2", "branch-all" if n <= 5 else "branch-1", "dp", "auto-hq", "optimal" if n <= 4 else "greedy"])
            if op["opt"] != "dp" and op["opt"] != "auto-hq" and rng.random() < 0.2:
                op["mem"] = rng.choice(["max_input", 30, 200])
        elif z < 0.64:
            op["opt"] = "random-greedy"
        elif z < 0.85:
            op["obj"] = {"k": "rg", "kw": {"max_repeats": rng.randint(1, 4), "minimize": rng.choice(["flops", "size"]), "nbranch": rng.choice([1, 4, 8])}}
        elif z < 0.92:
            op["obj"] = {"k": "bb", "kw": {"nbranch": rng.choice([1, 2, 3]), "minimize": rng.choice(["flops", "size"])}}
        else:
            op["obj"] = {"k": "dp", "kw": {"minimize": rng.choice(["flops", "size", "write", "combo"])}}
            if rng.random() < 0.6:
                op["obj"] = dict(dpobj.setdefault("d", op["obj"]), sh="d")
        if keep is not None:
            # the same search again but for its memory limit
            for k in ("opt", "obj", "mem"):
                op.pop(k, None)
                if k in keep:
                    op[k] = keep[k]
            if op.get("opt") in ("auto", "greedy", "branch-1", "branch-2", "branch-all", "optimal") and rng.random() < 0.8:
                op.pop("mem", None)
                if "mem" not in keep or rng.random() < 0.5:
                    op["mem"] = rng.choice(["max_input", "max_input", 5, 30, 200])
        pops.append(op)
        if rng.random() < S.get("pathfault", 0.1):
            op.pop("opt", None)
            if op.get("obj", {}).get("k") not in ("rg", "bb"):
                op["obj"] = {"k": "greedy"}
            op["obj"]["cf"] = 1
        if rng.random() < 0.2:
            op["str"] = 1
        return op

    cnames = ["c0", "c1"]
    created = set()

    def mk_enter(t):
        op = {"o": "enter", "u": uid()}
        if rng.random() < S["named"]:
            op["c"] = rng.choice(cnames)
            op["new"] = 1
        elif rng.random() < 0.4:
            op["store"] = rng.choice(cnames)  # the yielded cache is kept, to be resumed
        return op

    threads = []
    race = None
    # expressions shared by all threads are made before they start
    nexp = rng.randint(1, 3) if S["call"] and S["mkexpr"] else 0
    for _ in range(nexp):
        o = mk_expr()
        if o:
            pre.append(o)
    for t in range(nth):
        ops = []
        depth = 0
        if rng.random() < S["start_shared"]:
            ops.append(mk_enter(t))
            depth += 1
        n = max(3, rng.randint(*S["ops"]) // (1 if nth == 1 else 2))
        if nth > 1 and S["race"]:
            # all threads begin with the same (first) use of something
            if t and race and threads[0] and threads[0][0].get("c") and rng.random() < 0.7:
                # ... under the same cache
                if not ops:
                    ops.append({"o": "enter", "u": uid(), "new": 1})
                    depth += 1
                ops[0] = {"o": "enter", "u": ops[0]["u"], "c": threads[0][0]["c"], "new": 1}
            if t == 0 and rng.random() < S["race"]:
                race = (mk_call() if rng.random() < S["call"] / (S["call"] + S["contract"]) else None) or mk_contract()
            if race:
                ops.append(dict(race, u=uid()))
                own(ops[-1], S["own"])
                if S["evalc"] and race["o"] == "call" and rng.random() < 0.2 and mk_evalc:
                    o = mk_evalc()
                    if o:
                        ops.append(o)
        while len(ops) < n:
            w = {k: S[k] for k in ("arr", "dele", "gc", "enter", "exit", "query", "badq", "count", "drop", "contract", "mkexpr", "call", "evalc", "path", "hasq", "imp") if S[k]}
            if depth == 0:
                w.pop("exit", None)
            if depth >= 3:
                w.pop("enter", None)
            k = wchoice(rng, w)
            o = None
            if t and rng.random() < S["echo"]:
                # what another thread does
                other = [x for x in threads[rng.randrange(t)] if x["o"] in ("contract", "call")]
                if other:
                    ops.append({k_: v for k_, v in rng.choice(other).items() if k_ != "r"})
                    ops[-1]["u"] = uid()
                    own(ops[-1], S["own"])
                    continue
            if burst and len(ops) > 3 and rng.random() < 0.15:
                ops.append({"o": "burst", "u": uid(), "n": rng.choice([150, 400, 1200]), "seed": rng.randrange(1 << 30), "kind": rng.choice(["contract", "contract", "expr"])})
                early = [x for x in ops[: len(ops)] if x["o"] in ("contract", "call")]
                if early:
                    ops.append(dict(rng.choice(early), u=uid()))
                continue
            if prop in ("C04", "C05", "C06") and made and rng.random() < 0.06:
                ops.extend(twins())
            if prop == "C01" and depth and uni.flat and rng.random() < 0.12:
                ops.extend(pairings())
            if (long or burst) and rng.random() < 0.2:
                early = [x for x in ops[: len(ops) // 2] if x["o"] in ("contract", "call")]
                if early:
                    ops.append(dict(rng.choice(early), u=uid()))
                    continue
            if k == "arr":
                o = arr_op(rng.choice([x for x in sorted(slots) if x[0] != "r"]))
            elif k == "dele":
                s = rng.choice(sorted(slots))
                ops.append({"o": "del", "u": uid(), "s": s})
                if rng.random() < 0.75 and s[0] != "r":
                    o = arr_op(s)
            elif k == "gc":
                o = {"o": "gc", "u": uid()}
            elif k == "enter":
                o = mk_enter(t)
                depth += 1
            elif k == "exit":
                o = {"o": "exit", "u": uid(), "how": rng.choice(["normal", "normal", "normal", "exc", "kbi", "sysexit", "genexit", "stop"])}
                depth -= 1
            elif k == "query":
                o = {"o": "query", "u": uid()}
            elif k == "badq":
                o = {"o": "badquery", "u": uid()}
            elif k == "count":
                o = {"o": "count", "u": uid()}
                if rng.random() < 0.7:
                    o["c"] = rng.choice(cnames)
            elif k == "drop":
                o = {"o": "dropcache", "u": uid(), "c": rng.choice(cnames)}
            elif k == "contract":
                o = mk_contract()
                if o and rng.random() < (0.5 if uni.flat else 0.25):
                    ops.append(o)
                    o = dict(o, u=uid())  # repeat it
                    z = rng.random()
                    if z < 0.1:
                        # ... with other options
                        kws = kw_choices(o["ops"])
                        if o["lib"] == "numpy" and len(o["ops"]) >= 2 and o.get("be") in (None, "numpy") and kws:
                            o["blas"] = False
                            o.pop("kw", None)
                            if rng.random() < 0.8:
                                o["kw"] = rng.choice(kws)
                            o.pop("r", None)
                    elif z < 0.2:
                        # ... on another backend
                        if o["lib"] == "numpy" and "kw" not in o and not o.get("wout") and o["opt"] is not False:
                            o["be"] = rng.choice(["numpy", "numpy", "vs_full", "mars", "jax"])
                            o.pop("r", None)
                    elif z < 0.3 and len({str(slots[x]["sh"]) for x in o["ops"]}) < len(o["ops"]):
                        # ... with equally shaped operands exchanged
                        by = {}
                        for i, x in enumerate(o["ops"]):
                            by.setdefault((str(slots[x]["sh"]), slots[x]["lib"]), []).append(i)
                        new = list(o["ops"])
                        for ix in by.values():
                            src = [o["ops"][i] for i in ix]
                            rng.shuffle(src)
                            for i, x in zip(ix, src):
                                new[i] = x
                        o["ops"] = new
                        o.pop("r", None)
                    elif z < 0.45 and "->" in o["eq"] and len(o["ops"]) > 1:
                        # ... with the operands in another order
                        pm = rng.sample(range(len(o["ops"])), len(o["ops"]))
                        lhs, rhs = o["eq"].split("->")
                        ts = lhs.split(",")
                        o["eq"] = ",".join(ts[i] for i in pm) + "->" + rhs
                        o["ops"] = [o["ops"][i] for i in pm]
                        o["sigs"] = [o["sigs"][i] for i in pm]
                        if isinstance(o["opt"], list) and len(o["opt"]) > 1:
                            o["opt"] = "auto"
                        elif rng.random() < 0.3 and o["lib"] not in NOEIN and len(pm) <= 4 and ops[-1]["opt"] is not False:
                            o["opt"] = ops[-1]["opt"] = [list(range(len(pm)))]
                        o.pop("r", None)
                    elif z < 0.75 and "->" in o["eq"] and "kw" not in o:
                        # ... on the same arrays with other labels
                        sg = gen.swap_one(rng, uni, o["ops"], o["out"], o["sigs"]) if rng.random() < 0.6 else None
                        sp = gen.spec(rng, uni, o["ops"], o["out"], implicit=0, inter=0, perm=1.0, sigs=sg)
                        o.update(sp)
            elif k == "mkexpr":
                o = mk_expr()
            elif k == "call":
                o = mk_call()
                if o and rng.random() < 0.35:
                    ops.append(o)
                    o = dict(o, u=uid())
                    own(o, S["own"] / 2)
            elif k == "evalc":
                o = mk_evalc()
            elif k == "path":
                o = mk_path()
            elif k == "hasq":
                lib = rng.choice([x for x in libs if x not in ("numpy", "object", "tensorflow", "cupy", "jax")] or ["vs_full"])
                o = {"o": "hasq", "u": uid(), "lib": lib, "q": rng.choice(["einsum", "tensordot"])}
            elif k == "imp":
                lib = rng.choice(libs)
                if lib != "numpy":
                    o = {"o": "imp", "u": uid(), "lib": lib, "state": rng.choice(["ok", "ok", "ImportError", "AttributeError"])}
            if o:
                ops.append(o)
                if o["o"] in ("contract", "call") and rng.random() < S["churn"] and "r" not in o:
                    # free an operand, make another array (likely at its address) and repeat the call
                    if rng.random() < S["mod"]:
                        ops.append({"o": "mod", "u": uid(), "s": rng.choice(o["ops"]), "seed": rng.randrange(1 << 30)})
                        ops.append(dict(o, u=uid()))
                        continue
                    for s in rng.sample(o["ops"], 1 if rng.random() < 0.7 else len(o["ops"])):
                        ops.append({"o": "del", "u": uid(), "s": s})
                        if s[0] != "r":
                            ops.append(arr_op(s))
                    ops.append(dict(o, u=uid()))
            else:
                n -= 1
        threads.append(ops)
    if not any(threads):
        return gen_plan(prop, "%s+" % seed)
    plan = {"world": "api", "prop": prop, "cfg": cfg, "slots": slots, "pre": pre, "threads": threads}
    return plan


def pick_opt(rng, n):
    o = rng.choice(gen.OPTS)
    return rng.choice(["branch-2", "greedy", "dp"]) if n > 5 and o in ("branch-all", "optimal", "auto", "auto-hq", True) else o


def rand_network(rng, n, pairs=0.85):
    """A connected-ish network of n terms, shapes only; `pairs`: how many indices join two terms."""
    nidx = rng.randint(n, 2 * n)
    syms = rng.sample(gen.LETTERS, min(nidx, 40))
    terms = [[] for _ in range(n)]
    for s in syms:
        k = 2 if rng.random() < pairs else rng.choice([1, 3])
        for t in rng.sample(range(n), min(k, n)):
            terms[t].append(s)
    for t in range(n):
        if not terms[t]:
            s = rng.choice(syms)
            terms[t].append(s)
    used = [s for s in syms if any(s in t for t in terms)]
    sizes = {s: rng.randint(2, 6) for s in used}
    out = [s for s in used if sum(s in t for t in terms) == 1 or rng.random() < 0.05]
    eq = ",".join("".join(t) for t in terms) + "->" + "".join(out)
    return {"eq": eq, "shapes": [[sizes[s] for s in t] for t in terms]}


# ---------------------------------------------------------------------------- variants
INTR_OPS = ("contract", "call", "evalc", "path", "mkexpr", "reg", "get", "use")


def gen_variants(prop, plan, prof, count, seed):
    """Schedules and faults for one plan, placed with the help of its serial profile."""
    rng = random.Random("var/%s/%s" % (prop, seed))
    S = settings(prop)
    nth = len(plan["threads"])
    ev = {}
    back = {}
    for k, v in prof:
        if k[0] == "b":
            back[k[1]] = v
        elif k[0] >= 0:
            ev[(k[0], k[1])] = v
    # events inside the threads' ops
    kinds = {op["u"]: op["o"] for t in plan["threads"] for op in t}
    tids = {op["u"]: ti for ti, t in enumerate(plan["threads"]) for op in t}
    lines = {}
    hot = core.Tracer.hot
    for (tid, u), evs in ev.items():
        for f, ln, ks in evs:
            lines.setdefault((tid, f, ln), []).extend((tid, u, k) for k in ks)
    total = sum(max(ks[-1] for _, _, ks in v) for v in ev.values() if v) + 3 * len(kinds)
    hlines = [x for x in sorted(lines) if x[1:] in hot]
    out = []
    for _ in range(count):
        sched = {"kind": "serial"}
        if nth > 1:
            z = rng.random()
            if z < 0.3:
                sched = {"kind": "random", "seed": rng.randrange(1 << 30), "gap": rng.choice([3, 8, 20, 60, 150])}
            elif z < 0.5:
                sched = {"kind": "pct", "seed": rng.randrange(1 << 30), "d": rng.choice([1, 2, 3]), "len": max(4, total)}
            else:
                pts = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    if hlines and rng.random() < 0.5:
                        p = rng.choice(lines[rng.choice(hlines)])
                        p = (p[0], p[1], p[2] + rng.choice([0, 1]))
                    elif lines and rng.random() < 0.85:
                        ln = rng.choice(sorted(lines))
                        p = rng.choice(lines[ln])
                    else:
                        u = rng.choice(sorted(tids))
                        p = (tids[u], u, 1)
                    pts.append([p[0], p[1], p[2], rng.choice([0, 0, 1, 2])])
                order = list(range(nth))
                rng.shuffle(order)
                sched = {"kind": "pause", "seed": rng.randrange(1 << 30), "points": pts, "order": order}
            if rng.random() < 0.12:
                sched["opcode"] = True
                if sched["kind"] == "random":
                    sched["gap"] *= 4
                elif sched["kind"] == "pct":
                    sched["len"] *= 6
                else:
                    for p in sched["points"]:
                        p[2] = rng.randrange(1, max(2, p[2] * 12))
        if rng.random() < 0.6:
            sched["ids"] = rng.randrange(1 << 30)
            sched["recycle"] = rng.choice([0.0, 0.5, 0.9, 1.0])
        faults = []
        if rng.random() < S["fault"] or (nth == 1 and prop != "C08"):
            for _ in range(rng.choice([1, 1, 1, 2])):
                if rng.random() < S["interrupt"]:
                    cand = [(t, u) for (t, u) in sorted(ev, key=str) if kinds.get(u) in INTR_OPS and ev[(t, u)]]
                    if cand and not sched.get("opcode"):
                        # uniform over distinct lines, so that rarely executed lines are hit too
                        lset = sorted({(e[0], e[1]) for (t, u) in cand for e in ev[(t, u)]})
                        hset = [x for x in lset if x in hot]
                        near = hset and rng.random() < 0.4
                        ln = rng.choice(hset if near else lset)
                        pos = [(u, k) for (t, u) in cand for f, l_, ks in ev[(t, u)] if (f, l_) == ln for k in ks]
                        u, k = rng.choice(pos)
                        if near:
                            k += rng.choice([0, 1])
                        faults.append({"kind": "interrupt", "u": u, "k": k, "exc": "KeyboardInterrupt"})
                else:
                    cand = [u for u in sorted(back, key=str) if u in kinds and back[u]]
                    if cand:
                        u = rng.choice(cand)
                        n = rng.randrange(len(back[u]))
                        faults.append({"kind": "op", "u": u, "n": n, "exc": rng.choice(EXCS + ["KeyboardInterrupt"]), "when": rng.choice(["before", "before", "after"])})
        out.append((sched, faults))
    return out
