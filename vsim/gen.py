"""Generators: index universes, array slots and contraction specs (plain JSON data)."""

import random

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
UNI = "\u00e0\u00e1\u00e2\u00e3\u03b1\u03b2\u03b3\u03b4\u0431\u0432\u0433\u0434"


class Universe:
    """Indices with sizes and array slots with index signatures; subsets of slots are networks."""

    def __init__(self, rng, nslots, tn=False, rank=(1, 3), nidx=None, trace=0.08, bcast=0.0, sizes2=False, dts=("f8",), zero=True):
        self.rng = rng
        self.n = nidx or rng.randint(3, 6)
        z = rng.random()
        self.flat = z < 0.25
        if self.flat:
            self.n = rng.randint(3, 4)
            if rank == (1, 3):
                rank = (2, 3)
        self.idx = list(range(self.n))
        self.size = {str(i): rng.choice([2, 2, 3, 3, 4]) for i in self.idx}
        self.size2 = {str(i): rng.choice([2, 3, 4, 5]) for i in self.idx}
        if self.flat:  # all of one size: operands can be relabelled freely
            d = rng.choice([2, 2, 3])
            self.size = {str(i): d for i in self.idx}
        elif z < 0.33:  # an empty or a trivial axis
            self.size[str(rng.choice(self.idx))] = rng.choice([0, 1]) if zero else 1
        self.slots = {}
        for s in range(nslots):
            r = rng.randint(*rank)
            sig = rng.sample(self.idx, min(r, self.n))
            if len(sig) >= 2 and rng.random() < trace and not tn:
                sig[1] = sig[0]
            sh = [1 if rng.random() < bcast else self.size[str(i)] for i in sig]
            for a, i in enumerate(sig):  # a repeated index needs one size
                sh[a] = sh[sig.index(i)]
            self.slots["a%d" % s] = {"sig": sig, "sh": sh, "dt": rng.choice(dts)}

    def pick(self, k, tn=False, names=None, distinct=False):
        """Choose k slots and an output; returns (names, out) or None."""
        rng = self.rng
        pool = names or sorted(n for n in self.slots if n[0] == "a")
        for _ in range(30):
            ch = rng.sample(pool, min(k, len(pool))) if distinct else [rng.choice(pool) for _ in range(k)]
            cnt = {}
            ok = True
            for n in ch:
                sig = self.slots[n]["sig"]
                if tn and len(set(sig)) != len(sig):
                    ok = False
                for i in sig:
                    cnt[i] = cnt.get(i, 0) + 1
            if not ok:
                continue
            tot = 1
            for i in cnt:
                tot *= max(self.size[str(i)], self.size2[str(i)])
            if tot > 20000:
                continue
            if tn:
                if any(c > 2 for c in cnt.values()):
                    continue
                out = [i for i, c in cnt.items() if c == 1]
                rng.shuffle(out)
            else:
                # an output index needs its full size somewhere (broadcast dims stay internal)
                single = [i for i, c in cnt.items() if c == 1]
                out = [i for i in cnt if rng.random() < (0.8 if i in single else 0.25)]
                rng.shuffle(out)
            return ch, out
        return None


def spec(rng, uni, ch, out, uni_sym=0.1, implicit=0.1, inter=0.05, perm=0.0, both=False, sigs=None):
    """Turn chosen slots into an einsum call spec (symbols are drawn anew for every call)."""
    used = []
    sigs = sigs or [relabel(rng, uni, uni.slots[n], both) if rng.random() < perm else list(uni.slots[n]["sig"]) for n in ch]
    for sig in sigs:
        for i in sig:
            if i not in used:
                used.append(i)
    alphabet = list(LETTERS)
    if rng.random() < uni_sym:
        alphabet = list(UNI) + list("xyz")
    elif rng.random() < 0.15:
        # letters in both cases
        k = rng.randrange(20)
        alphabet = [c for x in LETTERS[k : k + (len(used) + 1) // 2] for c in (x, x.upper())]
        alphabet += [c for c in LETTERS if c not in alphabet][: max(0, len(used) - len(alphabet))]
    syms = rng.sample(alphabet, len(used))
    m = dict(zip(used, syms))
    terms = ["".join(m[i] for i in sig) for sig in sigs]
    fmt = "str"
    if rng.random() < implicit:
        allc = "".join(terms)
        outs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
        eq = ",".join(terms)
        inv = {v: k for k, v in m.items()}
        out = [inv[c] for c in outs]
    else:
        outs = "".join(m[i] for i in out)
        eq = ",".join(terms) + "->" + outs
        if rng.random() < inter:
            fmt = "inter"
    return {"eq": eq, "ops": list(ch), "out": list(out), "fmt": fmt, "sigs": sigs}


def swap_one(rng, uni, ch, out, sigs):
    """Exchange two labels of equal size in one operand, preferably two contracted ones."""
    sigs = [list(s) for s in sigs]
    cand = []
    for n, sig in enumerate(sigs):
        sh = uni.slots[ch[n]]["sh"]
        for a in range(len(sig)):
            for b in range(a):
                if sig[a] != sig[b] and sh[a] == sh[b] and uni.size[str(sig[a])] == uni.size[str(sig[b])]:
                    w = sum(x not in out and any(x in t for m, t in enumerate(sigs) if m != n) for x in (sig[a], sig[b]))
                    cand.append((w, n, a, b))
    if not cand:
        return sigs
    top = [c for c in cand if c[0] == 2]
    _, n, a, b = rng.choice(top if top and rng.random() < 0.8 else cand)
    sigs[n][a], sigs[n][b] = sigs[n][b], sigs[n][a]
    return sigs


def relabel(rng, uni, slot, both):
    """The labels of an operand, shuffled among axes of equal size."""
    sig = list(slot["sig"])
    groups = {}
    for a, i in enumerate(sig):
        groups.setdefault((slot["sh"][a], uni.size[str(i)], uni.size2[str(i)] if both else 0), []).append(a)
    for ax in groups.values():
        lab = [sig[a] for a in ax]
        rng.shuffle(lab)
        for a, x in zip(ax, lab):
            sig[a] = x
    return sig


OPTS = ["auto", "greedy", "optimal", "branch-2", "branch-all", "dp", "auto-hq", True]


def rand_path(rng, n):
    path = []
    while n > 1:
        k = 2 if (n < 3 or rng.random() < 0.85) else 3
        path.append(sorted(rng.sample(range(n), k)))
        n -= k - 1
    return path or [[0]]
