"""Random programs over the public interface."""
from __future__ import annotations

import copy
import math
import random

NAMES = ["a", "b", "c", "d", "e", "f", "g", "A", "Z", "_x", "a1", "a10", "a2", "lr:x", "m.n",
         "k-1", "x y", "µ", "b:c", "zz", "B", "0", "a:b", "name", "type", "value", "__n", "d:e:f"]
WORDS = ["s0", "s1", "s2", "red", "Blue", "x", "1", "True", "ab", "a b", "None", "µ", "", "0", "no", "1.5"]


class G:
    def __init__(self, seed, **opt):
        self.r = random.Random(seed)
        self.o = dict(nhp=(1, 6), discrete=False, cond=0.65, forb=(0, 4), rel=True, big=False,
                      prior=True, weights=True, meta=False, depth=2, zero=False, log=True,
                      maxdom=5, small=False, shapes=True, share=0.2, fam=0.12, odd="any")
        self.o.update(opt)
        self.steps = []
        self.hps = {}       # name -> spec of what we think is in the space
        self.cond = {}      # child -> term
        self.order = []

    # ---------------------------------------------------------- hyperparameters
    def names(self, n):
        if n > len(NAMES):
            return self.r.sample(NAMES + [f"h{j}" for j in range(40)], n)
        return self.r.sample(NAMES, n)

    def choices(self, n):
        r = self.r
        k = r.random()
        if self.o["odd"] and n <= 5 and r.random() < 0.08:
            return self.odd(n)
        if n > 40:
            return [f"w{j}" for j in range(n)] if k < 0.5 else list(range(n, 0, -1))
        if n > 7:
            if k < 0.4:
                return r.sample([f"w{j}" for j in range(40)], n)
            if k < 0.8:
                return r.sample(range(-10, 40), n)
            return r.sample([j / 4 for j in range(-10, 40)], n)
        if k < 0.07:
            # values that read the same
            return r.sample(["1", 1, "0.5", 0.5, "7", 7, "-2", -2][:n + n % 2], n)
        if k < 0.45:
            return r.sample(WORDS, n)
        if k < 0.7:
            return r.sample(range(-3, 12), n)
        if k < 0.8:
            return r.sample([0.25, 0.5, 1.5, -2.0, 3.0, 10.0, 0.125, 0.0], n)
        if k < 0.88 and n == 2:
            return r.choice([[True, False], [False, True]])
        pool = [1, 2, 0.5, "x", "y", "1", 7, "z", 0, ""]
        return r.sample(pool, n)

    def odd(self, n):
        """Values of any kind; without those that JSON cannot say, if so asked."""
        r = self.r
        pools = [[None, True, False, "a", 7], [True, 2, 0.5, 3, 4.0], [1, 2.5, 3, 0, -1.5],
                 [None, 1, 2, "x", 0.5], [[1, 2], [1], [], ["a", 2], [2, 1]],
                 [{"$dict": {}}, {"$dict": {"a": 1}}, {"$dict": {"a": 2}}, {"$dict": {"b": [1, 2]}}, None]]
        if self.o["odd"] == "any":
            pools += [[{"$tuple": [1, 2]}, {"$tuple": [2, 1]}, {"$tuple": []}, {"$tuple": ["a"]}, {"$tuple": [1]}],
                      [{"$thing": 1}, {"$thing": 2}, {"$frozen": 1}, {"$fn": 0}, {"$fn": 1}],
                      [{"$thing": 0}, {"$thing": 1}, {"$thing": 2}, {"$thing": 3}, {"$thing": 4}],
                      [{"$frozen": 3}, {"$frozen": 2}, None, 1, "x"]]
        return r.sample(r.choice(pools), n)

    def hp(self, name, kinds=None):
        r, o = self.r, self.o
        if kinds is None:
            kinds = ["cat"] * 5 + ["ord"] * 3 + ["uint"] * 3 + ["const"]
            if not o["discrete"]:
                kinds += ["ufloat"] * 2
                if o["prior"]:
                    kinds += ["nfloat", "bfloat"]
            if o["prior"]:
                kinds += ["nint", "bint"]
            if o["small"]:
                kinds = ["cat"] * 3 + ["ord"] * 2 + ["uint", "const"]
        t = r.choice(kinds)
        h = {"t": t, "name": name}
        if o["meta"] and r.random() < 0.5:
            h["meta"] = r.choice([{"k": 1}, {"a": "b", "c": [1, 2]}, {}])
            if h["meta"] == {}:
                h["meta"] = {"e": 0.5}
        if t == "cat":
            n = r.randint(1 if r.random() < 0.15 else 2, o["maxdom"])
            if self.wide and r.random() < 0.5:
                n = r.randint(6, 30) if r.random() < 0.93 else r.randint(130, 300)
            h["choices"] = self.choices(n)
            if r.random() < 0.5:
                h["default"] = r.choice(h["choices"])
            if o["weights"] and r.random() < 0.3:
                h["weights"] = [r.choice([1, 2, 0.5, 3]) for _ in range(n)]
                if o["zero"] and n > 1 and r.random() < 0.6:
                    z = r.randrange(n)
                    h["weights"][z] = 0
                    if "default" in h and h["default"] == h["choices"][z]:
                        h.pop("default")
        elif t == "ord":
            n = r.randint(1 if r.random() < 0.1 else 2, o["maxdom"])
            if self.wide and r.random() < 0.5:
                n = r.randint(6, 12)
            h["sequence"] = self.choices(n)
            if r.random() < 0.5:
                h["default"] = r.choice(h["sequence"])
        elif t == "const":
            h["value"] = r.choice([1, 0, "c", 2.5, True, -4]) if not o["odd"] or r.random() < 0.9 else self.odd(1)[0]
        elif t in ("uint", "nint", "bint"):
            log = o["log"] and r.random() < 0.25
            lo = r.choice([1, 2, 5]) if log else r.choice([-5, -1, 0, 1, 3, 100, -20, -100000])
            w = r.choice([1, 2]) if o["small"] else r.choice([1, 2, 3, 4, 6, 9, 15, 24])
            if o["big"] and r.random() < 0.3:
                w = r.choice([100, 1000, 10**6, 10**6 + r.randrange(10**6)] + [10**9] * (o["big"] == "huge"))
            h.update(lower=lo, upper=lo + w, log=log, default=r.randint(lo, lo + min(w, 12)))
            if t == "nint":
                h.update(mu=r.choice([float(r.randint(lo, lo + w)), lo + w * r.choice([0.3, 0.45, 0.61])]),
                         sigma=r.choice([1.0, 2.0, 5.0, 1.75, 0.9]))
            if t == "bint":
                h.update(alpha=r.choice([1.0, 2.0, 3.5, 1.25]), beta=r.choice([1.5, 2.0, 4.0, 1.1]))
        else:
            log = o["log"] and r.random() < 0.3
            lo, hi = r.choice([(0.125, 16.0), (1.0, 1024.0), (0.001, 1.0), (1e-6, 0.01), (3.0, 3000.0)]) if log else \
                r.choice([(0.0, 1.0), (-4.0, 4.0), (0.5, 2.5), (-1.0, 15.0), (-100.0, -36.0), (2.5, 2.75),
                          (0.0, 65536.0)])
            f = r.choice([0, 0.25, 0.5, 0.75, 1])
            d = round(lo + (hi - lo) * f, 10)
            h.update(lower=lo, upper=hi, log=log, default=d)
            if t == "nfloat":
                h.update(mu=round(lo + (hi - lo) * r.choice([0.25, 0.5]), 10),
                         sigma=r.choice([0.5, 1.0]) * (hi - lo) / 2)
            if t == "bfloat":
                h.update(alpha=r.choice([1.0, 2.0, 3.5, 1.25]), beta=r.choice([1.5, 2.0, 4.0, 1.1]))
        if "lower" in h and r.random() < 0.15:
            del h["default"]
        return h

    def value(self, h):
        """A legal value."""
        r = self.r
        t = h["t"]
        if t == "cat":
            return r.choice(h["choices"])
        if t == "ord":
            return r.choice(h["sequence"])
        if t == "const":
            return h["value"]
        if r.random() < 0.15:
            v = self.close(h)
            if v is not None:
                return v
        if t in ("uint", "nint", "bint"):
            return r.choice([h["lower"], h["upper"], r.randint(h["lower"], h["upper"]),
                             h.get("default", h["lower"])])
        lo, hi = h["lower"], h["upper"]
        return r.choice([lo, hi, h.get("default", hi),
                         round(lo + (hi - lo) * r.choice([0.25, 0.5, 0.375, 0.875]), 10)])

    def close(self, h):
        """A value that a condition or clause is about, or one next to it."""
        vs = []

        def collect(t):
            for c in t.get("cs", []):
                collect(c)
            if t.get("p") == h.get("name"):
                vs.extend(t["vs"] if "vs" in t else [t["v"]])
        for t in [*getattr(self, "cond", {}).values(), *getattr(self, "forbs", [])]:
            collect(t)
        lo, hi = h["lower"], h["upper"]
        whole = h["t"] in ("uint", "nint", "bint")
        vs = [v for v in vs if type(v) in ((int,) if whole else (int, float)) and lo <= v <= hi]
        if not vs:
            return None
        r = self.r
        v = r.choice(vs)
        if r.random() < 0.3:
            return v
        if whole:
            v += r.choice([-1, 1])
        else:
            v = round(v + (hi - lo) * r.choice([-1, 1]) * r.choice([1e-3, 1e-5, 1e-7]), 10)
        return min(max(v, lo), hi)

    def illegal(self, h):
        r = self.r
        t = h["t"]
        if t in ("cat", "ord", "const"):
            vals = h["choices"] if t == "cat" else h["sequence"] if t == "ord" else [h["value"]]
            pool = [v for v in ["zzz", 99, -77, 0.3, "", "S0", *([None, {"$dict": {"z": 1}}] if self.o["odd"] else [])]
                    if v not in vals]
            return r.choice(pool)
        if t in ("uint", "nint", "bint"):
            return r.choice([h["lower"] - 1, h["upper"] + 1, h["lower"] + 0.5, "a", h["upper"] + 10**6,
                             h["upper"] + 0.5, *([None] if self.o["odd"] else [])])
        w = h["upper"] - h["lower"]
        return r.choice([h["lower"] - 0.5 * w, h["upper"] + 0.5 * w, "a", h["upper"] + 0.001 * w,
                         h["lower"] - 0.001 * w])

    # ----------------------------------------------------------------- terms
    def atom(self, p):
        r = self.r
        h = self.hps[p]
        dom = h.get("choices") or h.get("sequence")
        ops = ["EQ", "NE", "IN"]
        if h["t"] not in ("cat", "const"):
            ops += ["LT", "GT", "LT", "GT"]
        op = r.choice(ops)
        if op == "IN":
            k = r.choice([1, 2, 3, 3, 8])
            vs = []
            for _ in range(k):
                v = self.value(h)
                if v not in vs:
                    vs.append(v)
            return {"op": "IN", "p": p, "vs": vs}
        return {"op": op, "p": p, "v": self.value(h)}

    def cond_term(self, parents, depth=None):
        r = self.r
        depth = self.o["depth"] if depth is None else depth
        if depth > 0 and r.random() < 0.45:
            n = r.choice([2, 2, 3, 3, 4, 6])
            return {"op": r.choice(["AND", "OR"]),
                    "cs": [self.cond_term(parents, depth - 1) for _ in range(n)]}
        return self.atom(r.choice(parents))

    def forb_atom(self, names):
        r = self.r
        p = r.choice(names)
        h = self.hps[p]
        if r.random() < 0.6:
            return {"op": "EQ", "p": p, "v": self.value(h)}
        vs = []
        for _ in range(r.randint(1, 3)):
            v = self.value(h)
            if v not in vs:
                vs.append(v)
        return {"op": "IN", "p": p, "vs": vs}

    def numeric(self, h):
        t = h["t"]
        if t in ("uint", "nint", "bint"):
            return True
        if t in ("cat", "ord"):
            d = h.get("choices") or h.get("sequence")
            return all(type(v) in (int, float) for v in d)
        if t == "const":
            return type(h["value"]) in (int, float)
        return t == "ufloat" and not h.get("log")

    def relation(self, names):
        num = [n for n in names if self.numeric(self.hps[n])]
        if len(num) < 2:
            return None
        a, b = self.r.sample(num, 2)
        fl = [n for n in (a, b) if self.hps[n]["t"] == "ufloat"]
        if fl and any(n in self.used for n in fl):
            return None
        self.used.update(fl)
        ops = ["RLT", "RGT", "REQ"]
        return {"op": self.r.choice(ops), "l": a, "r": b}

    def forb_term(self, names, depth=1):
        r = self.r
        if self.o["rel"] and r.random() < 0.25:
            t = self.relation(names)
            if t:
                return t
        if r.random() < 0.6 and depth > 0 and len(names) > 1:
            return {"op": "AND", "cs": [self.forb_term(names, depth - 1)
                                        for _ in range(r.randint(2, 3))]}
        return self.forb_atom(names)

    used: set
    wide = False

    def mutated(self, t):
        """A term that differs in little."""
        r = self.r
        t = copy.deepcopy(t)
        if t["op"] in ("AND", "OR"):
            w = r.random()
            if w < 0.4:
                t["op"] = "OR" if t["op"] == "AND" else "AND"
            elif w < 0.6 and len(t["cs"]) > 2:
                t["cs"].pop()
            else:
                j = r.randrange(len(t["cs"]))
                t["cs"][j] = self.mutated(t["cs"][j])
            return t
        h = self.hps[t["p"]]
        if t["op"] == "IN":
            return {"op": "EQ", "p": t["p"], "v": t["vs"][0]} if r.random() < 0.5 else \
                {"op": "IN", "p": t["p"], "vs": [self.value(h)]}
        twins = [v for v in h.get("choices") or h.get("sequence") or []
                 if str(v) == str(t["v"]) and v != t["v"]]
        if twins and r.random() < 0.7:
            t["v"] = twins[0]
        elif r.random() < 0.5:
            t["v"] = self.value(h)
        else:
            ops = ["EQ", "NE"] + (["LT", "GT"] if h["t"] not in ("cat", "const") else [])
            t["op"] = r.choice(ops)
        return t

    def family(self, names):
        """Several forbidden combinations that only differ in one value."""
        r = self.r
        ks = r.sample(names, min(len(names), r.randint(2, 3)))
        last = max(ks, key=lambda k: len(self.hps[k].get("choices") or self.hps[k].get("sequence") or []))
        bases = [[{"op": "EQ", "p": k, "v": self.value(self.hps[k])} for k in ks if k != last]
                 for _ in range(r.choice([1, 1, 2, 3]))]
        vs = []
        for _ in range(r.randint(2, 8)):
            v = self.value(self.hps[last])
            if v not in vs:
                vs.append(v)
        out = []
        for v in vs:
            cs = copy.deepcopy(r.choice(bases)) + [{"op": "EQ", "p": last, "v": v}]
            if r.random() < 0.2:
                r.shuffle(cs)
            out.append({"op": "AND", "cs": cs})
        return out

    # ----------------------------------------------------------------- a space
    def space(self, slot="s", name=None, meta=None, split=True, seed=None):
        r, o = self.r, self.o
        self.used = set()
        n = r.randint(*o["nhp"])
        shape = r.random() if o["shapes"] and n > 0 else 0.5
        self.wide = o.get("wide", 0) > r.random() or shape < 0.06
        chain = 0.06 <= shape < 0.12
        if 0.12 <= shape < 0.17:
            n = r.randint(8, 14)
        elif chain:
            n = r.randint(5, 8)
        elif shape > 0.993:
            n = r.randint(20, 36)
        names = self.names(n)
        self.hps = {k: self.hp(k) for k in names}
        self.topo = names[:]
        self.cond = {}
        for j, k in enumerate(names):
            if j and r.random() < (0.95 if chain else o["cond"]):
                cand = names[max(0, j - 2):j] if chain and r.random() < 0.9 else names[:j]
                u = r.random()
                if self.cond and u < o["share"]:
                    t = copy.deepcopy(r.choice(list(self.cond.values())))
                    self.cond[k] = t if u < 0.6 * o["share"] else self.mutated(t)
                else:
                    self.cond[k] = self.cond_term(cand)
        for j, k in enumerate(names[:-2]):
            d = self.hps[k].get("choices") or self.hps[k].get("sequence") or []
            tw = [v for v in d if type(v) is str and any(str(w) == v and w != v for w in d)]
            if tw and o["cond"] > 0 and r.random() < 0.5:
                v = r.choice(tw)
                w = [w for w in d if str(w) == v and w != v]
                for c, x in zip(r.sample(names[j + 1:], 2), (v, w[0])):
                    self.cond[c] = {"op": r.choice(["EQ", "EQ", "NE"]), "p": k, "v": x}
                break
        forbs = [self.forb_term(names) for _ in range(r.randint(*o["forb"]))] if names else []
        if len(names) > 1 and o["forb"][1] > 0 and r.random() < o["fam"]:
            forbs += self.family(names)
            r.shuffle(forbs)
        while forbs and not self.sampleable(forbs):
            forbs.pop()
        self.forbs = forbs
        if seed is None:
            seed = r.choice([0, 1, 2**32 - 1, *[r.randint(0, 2**31 - 1) for _ in range(5)]])
        self.steps.append(["new", slot, {"name": name, "meta": meta, "seed": seed}])
        self.emit_adds(slot, names, self.cond, forbs, split)
        return names

    def emit_adds(self, slot, names, cond, forbs, split=True):
        """Random batches that add everything (a default may forbid some)."""
        r = self.r
        forms = ["args", "list", "mixed", "nested", "gen"]
        hps = names[:]
        r.shuffle(hps)
        conds = list(cond)
        r.shuffle(conds)
        mode = r.random() if split and len(names) < 16 else 0.0
        if mode < 0.35:
            self.steps.append(["add", slot, {
                "hps": [self.hps[k] for k in hps],
                "conds": [{"c": k, "t": cond[k]} for k in conds], "form": r.choice(forms)}])
        elif mode < 0.7:
            self.steps.append(["add", slot, {"hps": [self.hps[k] for k in hps], "form": r.choice(forms)}])
            for k in conds:
                self.steps.append(["add", slot, {"conds": [{"c": k, "t": cond[k]}],
                                                 "form": r.choice(forms + ["old"])}])
        else:
            done, left = set(), conds[:]
            for k in hps:
                self.steps.append(["add", slot, {"hps": [self.hps[k]], "form": r.choice(forms + ["old"])}])
                done.add(k)
                for c in left[:]:
                    if c in done and parents(cond[c]) <= done and r.random() < 0.7:
                        self.steps.append(["add", slot, {"conds": [{"c": c, "t": cond[c]}]}])
                        left.remove(c)
            if left:
                self.steps.append(["add", slot, {"conds": [{"c": c, "t": cond[c]} for c in left]}])
        if forbs:
            if r.random() < 0.3:
                self.steps.append(["add", slot, {"forbs": forbs, "form": r.choice(forms)}])
            else:
                for f in forbs:
                    self.steps.append(["add", slot, {"forbs": [f], "form": r.choice(forms + ["old"])}])

    def default(self, h):
        if "default" in h:
            return h["default"]
        if h["t"] == "cat":
            w = h.get("weights")
            return h["choices"][w.index(max(w))] if w else h["choices"][0]
        return h["sequence"][0] if h["t"] == "ord" else h.get("value")

    def rarest(self):
        """A lower bound of the probability of any configuration (no priors)."""
        p = 1.0
        for h in self.hps.values():
            if h["t"] == "cat":
                w = h.get("weights") or [1] * len(h["choices"])
                p *= min(x for x in w if x > 0) / sum(w)
            elif h["t"] == "ord":
                p /= len(h["sequence"])
            elif h["t"] == "uint":
                p /= h["upper"] - h["lower"] + 1
        return p

    def sampleable(self, forbs):
        """Whether enough of the space is left: sampling rejects the rest."""
        r = random.Random(7)
        ok = 0
        for _ in range(60):
            x = {}
            for k in self.topo:
                if k in self.cond and not self.holds(self.cond[k], x):
                    continue
                h = self.hps[k]
                if h["t"] == "cat":
                    x[k] = r.choices(h["choices"], h.get("weights"))[0]
                elif h["t"] == "ord":
                    x[k] = r.choice(h["sequence"])
                elif h["t"] == "const":
                    x[k] = h["value"]
                else:
                    x[k] = drawn(r, h)
            ok += not any(self.fholds(f, x) for f in forbs)
        return ok >= 6

    def fholds(self, f, x):
        op = f["op"]
        if op == "AND":
            return all(self.fholds(c, x) for c in f["cs"])
        if op in ("RLT", "RGT", "REQ"):
            if f["l"] not in x or f["r"] not in x:
                return False
            a, b = x[f["l"]], x[f["r"]]
            return a < b if op == "RLT" else a > b if op == "RGT" else a == b
        if f["p"] not in x:
            return False
        return x[f["p"]] == f["v"] if op == "EQ" else x[f["p"]] in f["vs"]

    # ------------------------------------------------------- value assignments
    def holds(self, t, x):
        """Only to steer generation towards interesting assignments."""
        op = t["op"]
        if op == "AND":
            return all(self.holds(c, x) for c in t["cs"])
        if op == "OR":
            return any(self.holds(c, x) for c in t["cs"])
        if t["p"] not in x:
            return False
        v, h = x[t["p"]], self.hps[t["p"]]
        if op == "EQ":
            return v == t["v"]
        if op == "NE":
            return v != t["v"]
        if op == "IN":
            return v in t["vs"]
        key = h["sequence"].index if h["t"] == "ord" else (lambda z: z)
        return key(v) < key(t["v"]) if op == "LT" else key(v) > key(t["v"])

    def consistent(self):
        x = {}
        for k in self.topo:
            if k not in self.cond or self.holds(self.cond[k], x):
                x[k] = self.value(self.hps[k])
        return x

    def assignment(self):
        """Consistent, or spoiled in one or two places."""
        r = self.r
        x = self.consistent()
        u = r.random()
        if u < 0.45:
            return x
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(self.topo)
            w = r.random()
            if w < 0.35:
                x.pop(k, None)
            elif w < 0.75:
                x[k] = self.value(self.hps[k])
            elif w < 0.9:
                x[k] = self.illegal(self.hps[k])
        if u > 0.93:
            x = {k: self.value(self.hps[k]) for k in self.topo}
        items = list(x.items())
        r.shuffle(items)
        return dict(items)

    def legal_any(self):
        """Legal values on a random subset, conditions ignored."""
        r = self.r
        return {k: self.value(self.hps[k]) for k in self.topo if r.random() < 0.75}

    def bad_vector(self, h):
        r = self.r
        t = h["t"]
        if t in ("cat", "ord"):
            n = len(h.get("choices") or h.get("sequence"))
            return ["vec", r.choice([n, -1, 0.5, n + 3])]
        if t == "const":
            return ["vec", r.choice([2.0, -1.0, 0.5])]
        return ["vec", r.choice([1.5, -0.5, 2.0, 1.01, -0.01])]

    def vector_assignment(self):
        r = self.r
        x = self.consistent()
        u = r.random()
        if u < 0.45:
            return x
        k = r.choice(self.topo)
        w = r.random()
        if w < 0.3:
            x.pop(k, None)
        elif w < 0.6:
            x[k] = self.value(self.hps[k])
        else:
            x[k] = self.bad_vector(self.hps[k])
        return x


def drawn(r, h):
    """Roughly how a value of a numerical hyperparameter is drawn."""
    lo, hi = h["lower"], h["upper"]
    if "mu" in h:
        for _ in range(50):
            v = r.gauss(math.log(h["mu"]), math.log((lo + h["sigma"]) / lo)) if h["log"] else \
                r.gauss(h["mu"], h["sigma"])
            v = math.exp(min(v, 50)) if h["log"] else v
            if lo <= v <= hi:
                break
        else:
            v = h["mu"]
    else:
        u = r.betavariate(h["alpha"], h["beta"]) if "alpha" in h else r.random()
        v = math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo))) if h["log"] else lo + u * (hi - lo)
    return round(v) if h["t"] in ("uint", "nint", "bint") else v


def parents(t):
    if t["op"] in ("AND", "OR"):
        s = set()
        for c in t["cs"]:
            s |= parents(c)
        return s
    return {t["p"]}
