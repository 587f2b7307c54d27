"""The dependency world: opt_einsum where array libraries - numpy included - are absent, broken or
installed later (C17).

Every run imports opt_einsum afresh.  An import finder decides, per attempt, whether a library is
there, missing, or fails while it is imported.  The arrays come from small libraries written in
plain Python, so that whole contractions run without numpy."""

import hashlib
import importlib
import importlib.abc
import importlib.machinery
import itertools
import random
import sys
import types

from . import boot, core, plans
from .core import EXC

LIBS = {
    # name: functions its module offers
    "vs_pa": ("einsum", "tensordot", "transpose"),
    "vs_pb": ("tensordot", "transpose"),
    "vs_pc": ("einsum", "tensordot"),
    "vs_pe": ("tensordot",),
    "torch": ("einsum", "tensordot"),
}
# installed in many environments, never needed here
OTHERS = ("cupy", "tensorflow", "jax", "jaxlib", "theano", "dask", "autograd", "mars", "sparse", "ctf")
BROKEN = ["ImportError", "OSError", "RuntimeError", "AttributeError", "KeyError", "ValueError", "TypeError", "ModuleNotFoundError"]


# --------------------------------------------------------------------------- arrays in plain Python
class Tensor:
    def __init__(self, shape, flat):
        self.shape = tuple(shape)
        self.flat = list(flat)

    @property
    def ndim(self):
        return len(self.shape)

    def ndimension(self):
        return len(self.shape)

    def _at(self, loc):
        p = 0
        for i, d in zip(loc, self.shape):
            p = p * d + i
        return self.flat[p]

    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], int):
            axes = tuple(axes[0])
        ix = "abcdefghijklmnopqrstuvwxyz"[: len(self.shape)]
        return brute(ix + "->" + "".join(ix[a] for a in axes), [self], type(self))

    permute = transpose

    def __setitem__(self, key, val):
        if key not in ((), Ellipsis) or type(val) is not type(self) or val.shape != self.shape:
            raise TypeError("cannot assign %r at %r" % (val, key))
        self.flat[:] = val.flat


def brute(eq, arrays, cls):
    lhs, out = eq.split("->")
    terms = lhs.split(",")
    if len(terms) != len(arrays):
        raise ValueError("operands")
    sizes = {}
    for t, a in zip(terms, arrays):
        if len(t) != len(a.shape):
            raise ValueError("rank")
        for c, d in zip(t, a.shape):
            if sizes.setdefault(c, d) != d:
                raise ValueError("shape mismatch")
    inner = [c for c in sizes if c not in out]
    flat = []
    for co in itertools.product(*[range(sizes[c]) for c in out]):
        loc = dict(zip(out, co))
        acc = 0
        for ci in itertools.product(*[range(sizes[c]) for c in inner]):
            loc.update(zip(inner, ci))
            v = 1
            for t, a in zip(terms, arrays):
                v *= a._at([loc[c] for c in t])
            acc += v
        flat.append(acc)
    return cls([sizes[c] for c in out], flat)


def _einsum(eq, *arrays, **kw):
    if len(arrays) == 1 and isinstance(arrays[0], (tuple, list)):
        arrays = arrays[0]
    return brute(eq, list(arrays), type(arrays[0]))


def _tensordot(a, b, axes=2, dims=None):
    axes = axes if dims is None else dims
    if isinstance(axes, int):
        axes = (tuple(range(a.ndim - axes, a.ndim)), tuple(range(axes)))
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(65 + i) for i in range(b.ndim)]
    for i, j in zip(*axes):
        lb[j] = la[i]
    out = [c for i, c in enumerate(la) if i not in axes[0]] + [c for j, c in enumerate(lb) if j not in axes[1]]
    return brute("".join(la) + "," + "".join(lb) + "->" + "".join(out), [a, b], type(a))


def _transpose(a, axes):
    return a.transpose(*axes)


CLS = {n: type("Tensor", (Tensor,), {"__module__": n}) for n in LIBS}


def module(name):
    m = types.ModuleType(name)
    for f in LIBS[name]:
        setattr(m, f, {"einsum": _einsum, "tensordot": _tensordot, "transpose": _transpose}[f])
    m.Tensor = CLS[name]
    if name == "torch":
        m.cuda = types.SimpleNamespace(is_available=lambda: False)
    return m


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, world):
        self.w = world

    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root not in self.w.state:
            return None
        w = self.w
        n = w.attempts.get(root, 0)
        w.attempts[root] = n + 1
        w.asked.append(root)
        st = w.state[root]
        for f in w.faults:
            if f["kind"] == "import" and f["u"] == w.uid and f["lib"] == root and f["n"] == len([x for x in w.asked if x == root]) - 1:
                st = f["exc"]
        w.ev.append(("import", root, st))
        if st == "ok":
            if root in LIBS:
                return importlib.machinery.ModuleSpec(name, self)
            return None
        if st == "missing":
            e = ModuleNotFoundError("No module named %r" % name, name=name)
        else:
            e = EXC.get(st, ModuleNotFoundError)("injected while importing %s" % name)
        w.raised.append((root, e))
        w.count("fault.import." + st)
        raise e

    def create_module(self, spec):
        return module(spec.name)

    def exec_module(self, m):
        pass


_CODE = {}


def precompile():
    """Compile the package once per shard (runs import it afresh, from these code objects)."""
    L = importlib.machinery.SourceFileLoader
    if _CODE:
        return
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "opt_einsum" and getattr(m, "__file__", None):
            _CODE[m.__file__] = compile(open(m.__file__, "rb").read(), m.__file__, "exec", dont_inherit=True)
    plain = L.get_code

    def get_code(self, name):
        c = _CODE.get(self.path)
        return c if c is not None else plain(self, name)

    L.get_code = get_code


class DepsWorld:
    def __init__(self, plan, faults, expect):
        self.plan = plan
        self.faults = faults
        self.expect = expect or {}
        self.viols = []
        self.ev = []
        self.stats = {}
        self.state = {n: "ok" for n in LIBS}
        self.state.update({n: "missing" for n in OTHERS})
        self.state.update(plan["cfg"]["state"])
        self.attempts, self.asked, self.raised = {}, [], []
        self.uid = None
        self.oe = None
        self.values = 0
        self.exprs = {}
        self.prof = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def viol(self, cls, msg):
        self.viols.append({"cls": cls, "msg": str(msg)[:500], "uid": self.uid, "tid": 0})

    def run(self):
        self.np = sys.modules["numpy"]
        saved = {k: m for k, m in sys.modules.items() if k.split(".")[0] == "numpy"}
        for k in list(sys.modules):
            if k.split(".")[0] == "opt_einsum" or k.split(".")[0] in self.state:
                sys.modules.pop(k, None)
        if self.state.get("numpy", "ok") != "ok":
            for k in saved:
                sys.modules.pop(k, None)
        self.saved = saved
        sys.meta_path.insert(0, Finder(self))
        random.seed(self.plan["cfg"]["rseed"])
        for op in self.plan["threads"][0]:
            self.uid = op["u"]
            self.asked, self.raised = [], []
            getattr(self, "op_" + op["o"])(op)
            for root in self.asked:
                self.prof[(op["u"], root)] = self.prof.get((op["u"], root), 0) + 1
            if self.viols:
                break
        h = hashlib.sha256(repr(self.ev).encode())
        fired = sum(n for k, n in self.stats.items() if k.startswith("fault."))
        return {
            "viol": self.viols, "stats": self.stats, "steps": len(self.ev), "switches": 0, "preempt": 0, "values": self.values,
            "hash": h.hexdigest()[:24], "fired": fired, "states": sorted({"%s:%s" % (e[1], e[2]) for e in self.ev if e[0] == "import"}), "sched": [],
            "without_numpy": "numpy" not in sys.modules, "prof": [[u, r, n] for (u, r), n in sorted(self.prof.items())],
        }

    # ------------------------------------------------------------------ calls
    def judge(self, what, fn, needs):
        """Run fn; returns its value, or None if it failed as it had to (or a violation was noted)."""
        try:
            r = fn()
        except BaseException as e:
            self.ev.append((self.uid, what, type(e).__name__))
            for root, x in self.raised:
                if root in needs and (e is x or self.missing_numpy(root, e)):
                    self.count("refused")
                    return None
            self.viol("deps-exc", "%s raised %s: %s (imports that failed: %s)" % (what, type(e).__name__, str(e)[:200], [r for r, _ in self.raised]))
            return None
        extra = [x for x in self.asked if x not in needs and x != "numpy"]
        if extra:
            self.viol("deps-imported", "%s tried to import %s" % (what, extra[0]))
            return None
        lost = [x for x in self.raised if x[0] in needs and x[0] != "numpy"]
        if lost:
            self.viol("deps-swallowed", "%s returned although importing %s failed with %r" % (what, lost[0][0], lost[0][1]))
            return None
        return (r,)

    @staticmethod
    def missing_numpy(root, e):
        return root == "numpy" and isinstance(e, ImportError)

    def op_load(self, op):
        def load():
            oe = importlib.import_module("opt_einsum")
            for m in ("contract", "parser", "paths", "path_random", "sharing", "blas", "helpers", "backends", "backends.dispatch"):
                importlib.import_module("opt_einsum." + m)
            return oe

        r = self.judge("import opt_einsum", load, ())
        if r:
            self.oe = r[0]

    def op_state(self, op):
        lib = op["lib"]
        if lib == "numpy":
            if op["v"] == "ok" and self.state.get("numpy") == "missing":
                self.state["numpy"] = "ok"
                sys.modules.update(self.saved)
            return
        self.state[lib] = op["v"]

    def op_path(self, op):
        if self.oe is None:
            return
        net = op["net"]

        def path():
            args, kw = path_args(self.oe, op, CLS.get(op.get("lib")))
            p, info = self.oe.contract_path(*args, **kw)
            return [sorted(int(x) for x in st) for st in p], int(info.opt_cost), str(info)

        r = self.judge("contract_path(optimize=%r)" % op["opt"], path, ())
        if r is None:
            return
        self.values += 1
        want = self.expect.get(str(op["u"]))
        if want is not None and [r[0][0], r[0][1]] != want:
            self.viol("deps-value", "path %s costing %s instead of %s" % (r[0][0], r[0][1], want))

    def arrays(self, lib, net, seed):
        rng = random.Random(seed)
        out = []
        for s in net["shapes"]:
            n = 1
            for d in s:
                n *= d
            out.append(CLS[lib](s, [rng.randint(-2, 3) for _ in range(n)]))
        return out

    def empty(self, lib, net):
        """An array for the result, filled with something else."""
        lhs, out = net["eq"].split("->")
        sizes = {c: d for t, s in zip(lhs.split(","), net["shapes"]) for c, d in zip(t, s)}
        sh = [sizes[c] for c in out]
        n = 1
        for d in sh:
            n *= d
        return CLS[lib](sh, [-7777] * n)

    def check(self, what, r, arrs, eq, lib):
        self.values += 1
        want = brute(eq, arrs, Tensor)
        if type(r) is not CLS[lib]:
            self.viol("deps-type", "%s returned a %s.%s for %s arrays" % (what, type(r).__module__, type(r).__name__, lib))
        elif r.shape != want.shape or r.flat != want.flat:
            self.viol("deps-value", "%s gave %s instead of %s" % (what, r.flat[:8], want.flat[:8]))

    def op_contract(self, op):
        if self.oe is None:
            return
        net, lib = op["net"], op["lib"]
        if lib == "numpy":
            return self.numpy_contract(op)
        arrs = self.arrays(lib, net, op["seed"])
        kw = {"optimize": op["opt"]}
        be = op.get("backend", "auto")
        if be != "auto":
            kw["backend"] = be
        needs = {lib} if be == "auto" else {be}
        if be not in ("auto", lib):
            # another library is asked for: only while that one cannot be imported
            if self.state.get(be) == "ok" or be in sys.modules:
                return
        for k in ("use_blas", "memory_limit"):
            if k in op:
                kw[k] = op[k]
        if op.get("wout") and be in ("auto", lib):
            kw["out"] = self.empty(lib, net)
        args = [net["eq"]] + arrs
        if op.get("inter"):
            lhs, out = net["eq"].split("->")
            args = []
            for t, a in zip(lhs.split(","), arrs):
                args += [a, [ord(c) for c in t]]
            args.append([ord(c) for c in out])

        def go():
            if op.get("share"):
                with self.oe.shared_intermediates():
                    self.oe.contract(*args, **kw)
                    return self.oe.contract(*args, **kw)
            return self.oe.contract(*args, **kw)

        r = self.judge("contract of %s arrays (backend=%s)" % (lib, be), go, needs)
        if r is None:
            return
        if be not in ("auto", lib):
            self.viol("deps-swallowed", "contract returned on backend %s, which cannot be imported" % be)
            return
        if "out" in kw and r[0] is not kw["out"]:
            self.viol("deps-value", "contract did not return the out array")
            return
        self.check("contract", r[0], arrs, net["eq"], lib)

    def numpy_contract(self, op):
        if self.state.get("numpy", "ok") != "ok":
            return
        net = op["net"]
        rng = self.np.random.RandomState(op["seed"] % 1000)
        arrs = [rng.randint(-2, 4, size=tuple(s)) for s in net["shapes"]]
        r = self.judge("contract of numpy arrays", lambda: self.oe.contract(net["eq"], *arrs, optimize=op["opt"]), ("numpy",))
        if r is None:
            return
        self.values += 1
        want = boot.orig("np.einsum")(net["eq"], *arrs)
        if not isinstance(r[0], (self.np.ndarray, self.np.generic)) or not self.np.array_equal(r[0], want):
            self.viol("deps-value", "contract of numpy arrays gave a wrong result")

    def op_mkexpr(self, op):
        if self.oe is None:
            return
        net, lib = op["net"], op["lib"]
        arrs = self.arrays(lib, net, op["seed"])
        consts = op["consts"]
        args = [arrs[i] if i in consts else tuple(net["shapes"][i]) for i in range(len(arrs))]
        r = self.judge("contract_expression", lambda: self.oe.contract_expression(net["eq"], *args, constants=list(consts), optimize=op["opt"]), ())
        if r is not None:
            self.exprs[op["e"]] = (r[0], net, lib, consts, arrs)

    def op_call(self, op):
        if op["e"] not in self.exprs:
            return
        ex, net, lib, consts, base = self.exprs[op["e"]]
        arrs = self.arrays(lib, net, op["seed"])
        for i in consts:
            arrs[i] = base[i]
        be = op.get("backend", "auto")
        kw = {} if be == "auto" else {"backend": lib}
        if op.get("wout"):
            kw["out"] = self.empty(lib, net)
        r = self.judge("expression call on %s arrays" % lib, lambda: ex(*[a for i, a in enumerate(arrs) if i not in consts], **kw), {lib})
        if r is not None:
            if "out" in kw and r[0] is not kw["out"]:
                self.viol("deps-value", "an expression did not return the out array")
                return
            self.check("expression", r[0], arrs, net["eq"], lib)


def path_args(oe, op, cls=None):
    """Arguments of a contract_path call (arrays of class cls if given and wanted, shapes otherwise)."""
    net, opt = op["net"], op["opt"]
    if op.get("obj") == "dp":
        opt = oe.DynamicProgramming(**op["okw"])
    elif op.get("obj") == "bb":
        opt = oe.BranchBound(**op["okw"])
    elif op.get("obj") == "rg":
        opt = oe.RandomGreedy(**op["okw"])
    kw = {"optimize": opt}
    if "memory_limit" in op:
        kw["memory_limit"] = op["memory_limit"]
    if "use_blas" in op:
        kw["use_blas"] = op["use_blas"]
    lhs, out = net["eq"].split("->")
    terms = lhs.split(",")
    shapes = [tuple(s) for s in net["shapes"]]
    arrs = shapes
    if op.get("lib") and cls is not None:
        arrs = [cls(s, []) for s in shapes]
    else:
        kw["shapes"] = True
    if op.get("fmt") == "ell":
        # one more dimension, hidden behind an ellipsis
        d = 2
        terms = ["..." + t for t in terms]
        out = "..." + out
        arrs = [(d,) + s for s in shapes] if arrs is shapes else [cls((d,) + s, []) for s in shapes]
    if op.get("fmt") == "inter":
        args = []
        for t, a in zip(terms, arrs):
            args += [a, tuple(ord(c) for c in t)]
        return args + [tuple(ord(c) for c in out)], kw
    if op.get("fmt") == "uni":
        m = {}
        f = lambda t: "".join(m.setdefault(c, oe.get_symbol(60 + 7 * len(m))) for c in t)
        terms, out = [f(t) for t in terms], f(out)
    return [",".join(terms) + "->" + out] + list(arrs), kw


OPTS = ["greedy", "optimal", "dp", "branch-all", "branch-2", "auto", "auto-hq", "random-greedy", "eager", "opportunistic"]


def small_net(rng):
    """Pairwise contractions any library with tensordot can do."""
    n = rng.randint(2, 4)
    terms = [[] for _ in range(n)]
    letters = rng.sample("abcdefghijklmnopqrstuvwxyz", 12)
    out = []
    for i in range(1, n):
        c = letters.pop()
        for t in (i, rng.randrange(i)):
            terms[t].append(c)
    if rng.random() < 0.4 and n > 2:
        c = letters.pop()
        for t in rng.sample(range(n), 2):
            terms[t].append(c)
    for _ in range(rng.randint(0, 3)):
        c = letters.pop()
        terms[rng.randrange(n)].append(c)
        out.append(c)
    sizes = {c: rng.randint(1, 3) for t in terms for c in t}
    for t in terms:
        rng.shuffle(t)
    rng.shuffle(out)
    return {"eq": ",".join("".join(t) for t in terms) + "->" + "".join(out), "shapes": [[sizes[c] for c in t] for t in terms]}


class Deps:
    def gen_plan(self, prop, seed):
        rng = random.Random("dplan/%s" % seed)
        state = {}
        if rng.random() < 0.75:
            state["numpy"] = "missing"
        for n in list(LIBS) + list(OTHERS):
            if rng.random() < 0.25:
                state[n] = rng.choice(["missing"] + BROKEN)
        u = [0]

        def uid():
            u[0] += 1
            return u[0]

        ops = [{"o": "load", "u": uid()}]
        libs = list(LIBS)
        ne = 0
        for _ in range(rng.randint(4, 16)):
            z = rng.random()
            if z < 0.18:
                # hyper-edges and larger ones as well: only the path is looked for
                net = plans.rand_network(rng, rng.randint(1, 6))
                op = {"o": "path", "u": uid(), "net": net, "opt": rng.choice(OPTS)}
                if rng.random() < 0.5:
                    op["fmt"] = rng.choice(["ell", "inter", "uni"])
                if rng.random() < 0.25:
                    op["lib"] = rng.choice(libs)
                if op["opt"] not in ("dp", "random-greedy") and rng.random() < 0.2:
                    op["memory_limit"] = rng.choice(["max_input", 8, 60, -1])
                if rng.random() < 0.15:
                    op["use_blas"] = False
                if rng.random() < 0.2:
                    op["obj"] = rng.choice(["dp", "bb", "rg"])
                    op.pop("memory_limit", None)
                    op["okw"] = {
                        "dp": {"minimize": rng.choice(["flops", "size", "write", "combo"])},
                        "bb": {"nbranch": rng.choice([1, 2, None]), "minimize": rng.choice(["flops", "size"])},
                        "rg": {"max_repeats": rng.randint(1, 4), "temperature": rng.choice([0.0, 1.0])},
                    }[op["obj"]]
                ops.append(op)
            elif z < 0.33:
                lib = rng.choice(libs + list(OTHERS) + ["numpy"])
                v = "ok" if lib in LIBS or lib == "numpy" else "missing"
                if rng.random() < 0.35 and lib != "numpy":
                    v = rng.choice(["missing"] + BROKEN)
                ops.append({"o": "state", "u": uid(), "lib": lib, "v": v})
            elif z < 0.7:
                lib = rng.choice(libs + ["numpy"])
                op = {"o": "contract", "u": uid(), "lib": lib, "net": small_net(rng), "opt": rng.choice(OPTS), "seed": rng.randrange(1 << 30)}
                if lib != "numpy":
                    if rng.random() < 0.3:
                        op["share"] = 1
                    if rng.random() < 0.2:
                        op["inter"] = 1
                    if rng.random() < 0.25:
                        op["wout"] = 1
                    if "einsum" in LIBS[lib] and rng.random() < 0.25:
                        op["use_blas"] = False
                    if "einsum" in LIBS[lib] and op["opt"] in ("greedy", "optimal", "branch-all", "branch-2", "auto") and rng.random() < 0.15:
                        op["memory_limit"] = rng.choice(["max_input", 2, 20])
                    if rng.random() < 0.3:
                        op["backend"] = lib
                    elif rng.random() < 0.25:
                        op["backend"] = rng.choice(libs + list(OTHERS))
                        if op["backend"] == "jaxlib":
                            op["backend"] = "jax"
                ops.append(op)
            elif z < 0.85 or not ne:
                lib = rng.choice(libs)
                net = small_net(rng)
                n = len(net["shapes"])
                consts = sorted(rng.sample(range(n), rng.randint(0, n - 1)))
                ops.append({"o": "mkexpr", "u": uid(), "e": ne, "lib": lib, "net": net, "consts": consts, "opt": rng.choice(OPTS), "seed": rng.randrange(1 << 30)})
                ops.append({"o": "call", "u": uid(), "e": ne, "seed": rng.randrange(1 << 30)})
                ne += 1
            else:
                ops.append({"o": "call", "u": uid(), "e": rng.randrange(ne), "seed": rng.randrange(1 << 30), "backend": rng.choice(["auto", "own"]), "wout": int(rng.random() < 0.3)})
        return {"world": "deps", "prop": prop, "cfg": {"state": state, "rseed": rng.randrange(1 << 30)}, "pre": [], "threads": [ops]}

    def prepare(self, prop, plan, fork):
        # what each path search returns with everything installed, in a process of its own
        def ref():
            oe = boot.load()
            out = {}
            for op in plan["threads"][0]:
                if op["o"] == "path" and op["opt"] != "random-greedy" and op.get("obj") != "rg":
                    random.seed(1)
                    args, kw = path_args(oe, dict(op, lib=None))
                    p, info = oe.contract_path(*args, **kw)
                    out[str(op["u"])] = [[sorted(int(x) for x in st) for st in p], int(info.opt_cost)]
            return out

        boot.load()
        precompile()
        expect = fork(ref)
        if "harness_error" in expect:
            return {"discard": expect["harness_error"]}, None, None
        r = fork(lambda: self.run(prop, plan, None, [], expect))
        return r, expect, r.get("prof")

    def run(self, prop, plan, sched, faults, expect, profile=False):
        return DepsWorld(plan, faults, expect).run()

    def variants(self, prop, plan, prof, count, seed):
        rng = random.Random("dvar/%s" % seed)
        prof = [p for p in prof or () if p[1] != "numpy"]
        out = []
        if not prof:
            return out
        for _ in range(min(count, 1 + 3 * len(prof))):
            fs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                u, lib, n = rng.choice(prof)
                fs.append({"kind": "import", "u": u, "lib": lib, "n": rng.randrange(n), "exc": rng.choice(BROKEN)})
            out.append(({"kind": "serial"}, fs))
        return out

    def nontrivial(self, prop, r):
        return r["values"] >= 1 and bool(r["fired"] or r["without_numpy"])

    @staticmethod
    def relevant(prop, v):
        return v["cls"].startswith("deps-")
