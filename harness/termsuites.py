"""Programs on conditions and forbidden clauses outside of spaces."""
from __future__ import annotations

import copy

from gen import G, parents  # noqa: F401
from suites import mix, suite


class TG(G):
    """Hyperparameters in slots, and terms on them."""

    def pool(self, n):
        r = self.r
        self.hps = {}
        names = self.names(n)
        for j, k in enumerate(names):
            self.hps[f"h{j}"] = self.hp(k)
        # the same name with another range, and the same hyperparameter again
        for j in range(r.choice([0, 0, 1, 2])):
            src = r.choice(sorted(self.hps))
            h = copy.deepcopy(self.hps[src]) if r.random() < 0.5 else self.hp(self.hps[src]["name"])
            self.hps[f"v{j}"] = h
        for s, h in self.hps.items():
            self.steps.append(["hp", s, {"hp": h}])
        self.slots = sorted(self.hps)
        self.terms = {}     # slot -> (kind, child, slots below), of what should be accepted
        self.count = 0

    def fresh(self):
        self.count += 1
        return f"t{self.count}"

    def known(self, k, child=None):
        return [s for s, t in self.terms.items() if t[0] == k and (child is None or t[1] == child)]

    def make(self, k, child=None, good=0.85):
        r = self.r
        s = self.fresh()
        ok = r.random() < good
        base = self.known(k, child)
        if base and r.random() < 0.45:
            n = r.choice([2, 2, 3, 4]) if ok else r.choice([1, 2, 3])
            if k == "forb" and r.random() < 0.1:
                n = 1
            cs = [r.choice(base) for _ in range(n)] if r.random() < 0.2 else r.sample(base, min(n, len(base)))
            o = {"k": k, "op": "AND" if k == "forb" else r.choice(["AND", "OR"]), "cs": cs}
            if not ok:
                w = r.random()
                if w < 0.3:
                    o["alien"] = [r.choice(["text", "none", "int"])]
                elif w < 0.6 and self.known("forb" if k == "cond" else "cond"):
                    o["cs"] = cs + [r.choice(self.known("forb" if k == "cond" else "cond"))]
                elif w < 0.9 and self.known(k):
                    o["cs"] = cs + [r.choice(self.known(k))]
            self.steps.append(["term", s, o])
            if ok and (k == "forb" or len(cs) > 1):
                self.terms[s] = (k, self.terms[cs[0]][1], set().union(*[self.terms[c][2] for c in cs]))
            return s
        p = r.choice([h for h in self.slots if h != child])
        if k == "forb" and r.random() < 0.3:
            q = r.choice(self.slots)
            o = {"k": k, "op": r.choice(["RLT", "RGT", "REQ"]), "l": p, "r": q}
            if not ok:
                o["alien"] = r.choice([["text"], ["none"], ["text", "int"]])
            self.steps.append(["term", s, o])
            if ok:
                self.terms[s] = (k, None, {p, q})
                self.rels[s] = (p, q)
            return s
        t = self.atom(p) if k == "cond" else self.forb_atom([p])
        o = {"k": k, **t}
        if k == "cond":
            o["c"] = child
        if r.random() < 0.2 and self.hps[p]["t"] not in ("cat", "ord", "const"):
            o["np"] = True
        if o["op"] == "IN":
            o["form"] = r.choice(["list", "tuple", "gen"])
            if r.random() < 0.2:
                o["vs"] = o["vs"] + [r.choice(o["vs"])]
        if not ok:
            w = r.random()
            o.pop("np", None)
            if w < 0.6:
                v = self.illegal(self.hps[p])
                if o["op"] == "IN":
                    o["vs"] = o["vs"] + [v] if r.random() < 0.5 else [v] + o["vs"]
                else:
                    o["v"] = v
            elif w < 0.8 and k == "cond":
                o["c"] = p
            elif k == "cond":
                o["op"] = r.choice(["LT", "GT"])
                o["v"] = self.value(self.hps[p])
                o.pop("vs", None)
        self.steps.append(["term", s, o])
        if ok:
            self.terms[s] = (k, child, {p})
        return s

    def again(self, s):
        """The same term once more, or almost."""
        r = self.r
        for st in self.steps:
            if st[0] == "term" and st[1] == s:
                break
        else:
            return None
        o = copy.deepcopy(st[2])
        s2 = self.fresh()
        w = r.random()
        if o["op"] in ("AND", "OR"):
            if w < 0.4:
                r.shuffle(o["cs"])
            elif w < 0.6 and o["k"] == "cond":
                o["op"] = "OR" if o["op"] == "AND" else "AND"
            elif w < 0.75:
                o["cs"].append(r.choice(o["cs"]))
            elif w < 0.9:
                j = r.randrange(len(o["cs"]))
                c = self.again(o["cs"][j])
                if c:
                    o["cs"][j] = c
        elif "l" in o:
            if w < 0.4:
                o["l"], o["r"] = o["r"], o["l"]
            elif w < 0.6:
                o["op"] = r.choice(["RLT", "RGT", "REQ"])
        elif o["op"] == "IN":
            if w < 0.3:
                r.shuffle(o["vs"])
            elif w < 0.6:
                h = self.hps[o["p"]]
                o["vs"] = [self.value(h) for _ in o["vs"]]
            elif w < 0.75:
                o["vs"] = o["vs"] + [r.choice(o["vs"])]
        else:
            if w < 0.3:
                o["v"] = self.value(self.hps[o["p"]])
                o.pop("np", None)
            elif w < 0.5:
                other = [h for h in self.slots if self.hps[h]["name"] == self.hps[o["p"]]["name"]]
                o["p"] = r.choice(other)
            elif w < 0.65 and o["k"] == "cond":
                o["c"] = r.choice(self.slots)
            elif w < 0.75 and o["k"] == "cond":
                o["op"] = r.choice(["EQ", "NE"])
        self.steps.append(["term", s2, o])
        return s2

    def comparable(self, p, q):
        return self.numeric(self.hps[p]) and self.numeric(self.hps[q])

    rels: dict

    def values(self, s):
        """Assignments on which the term can be evaluated, or nothing."""
        r = self.r
        k, child, below = self.terms[s]
        hs = sorted(below)
        if len({self.hps[h]["name"] for h in hs}) < len(hs):
            return None
        for t, (p, q) in self.rels.items():
            if {p, q} <= below and not self.comparable(p, q):
                return None
        return [{h: self.value(self.hps[h]) for h in hs if r.random() < 0.85} for _ in range(5)]


@suite("P29", 1500, 12000, ["term", "termeq", "termcopy", "termeval"], module="TermTrace")
def terms(seed):
    g = TG(mix(seed, "P29"), nhp=(2, 5), log=False, maxdom=4)
    r = g.r
    g.rels = {}
    g.pool(r.randint(2, 5))
    kids = r.sample(g.slots, min(2, len(g.slots)))
    for j in range(r.randint(8, 14)):
        if r.random() < 0.55:
            g.make("cond", r.choice(kids))
        else:
            g.make("forb")
    made = sorted(g.terms)
    if made:
        for j in range(4):
            s = r.choice(made)
            s2 = g.again(s)
            if s2:
                g.steps.append(["termeq", "", {"a": s, "b": s2}])
        for j in range(5):
            a, b = r.choice(made), r.choice(made)
            g.steps.append(["termeq", "", {"a": a, "b": b}])
        for s in r.sample(made, min(5, len(made))):
            xs = g.values(s)
            if xs is None:
                continue
            g.steps.append(["termeval", s, {"xs": xs, "shift": r.choice([0, 0, 2])}])
            g.steps.append(["termcopy", s, {"to": s + "c", "how": r.choice(["copy", "deepcopy", "pickle"]),
                                            "xs": xs}])
            g.steps.append(["termeq", "", {"a": s, "b": s + "c"}])
            g.steps.append(["termeval", s + "c", {"xs": xs}])
            g.steps.append(["termeval", s, {"xs": xs}])
    return {"module": "TermTrace", "steps": g.steps, "limit": 30}


# ------------------------------------------------------------ P30 the pcs formats
PNAMES = ["a", "b", "c", "d", "e", "A", "Z", "_x", "a1", "a10", "lr:x", "m.n", "k-1", "0", "a:b", "p%q",
          "x/y", "w*", "a+b", "in", "<x>", "ordinal", "categorical", "integer", "log", "my-categorical",
          "x!", "q?", "$s", "c;d", "@h", "realm"]
PWORDS = ["s0", "s1", "s2", "red", "Blue", "x", "1", "True", "ab", "None", "0", "no", "1.5", "a-b", "2nd",
          "categorical", "ordinal", "1e5", "x.y", "+3", "-7", "in", "<", "10-20", "i", "l", "log", "*"]


class PG(G):
    def names(self, n):
        return self.r.sample(PNAMES + [f"h{j}" for j in range(40)] if n > len(PNAMES) else PNAMES, n)

    def choices(self, n):
        r = self.r
        k = r.random()
        if n > 40:
            return [f"w{j}" for j in range(n)] if k < 0.5 else list(range(n, 0, -1))
        if n > 7:
            return r.sample([f"w{j}" for j in range(40)], n) if k < 0.6 else r.sample(range(-10, 40), n)
        if k < 0.7:
            return r.sample(PWORDS, n)
        if k < 0.85:
            return r.sample(range(-3, 12), n)
        if k < 0.93 or n != 2:
            return r.sample([0.25, 0.5, 1.5, -2.0, 3.0, 10.0, 0.125, 0.0], n)
        return [True, False]

    def cond_term(self, parents, depth=None):
        if depth is not None:
            return super().cond_term(parents, depth)
        # sometimes more than the formats can say
        if self.r.random() < 0.1:
            return super().cond_term(parents, 2)
        if self.old and self.r.random() < 0.9:
            return self.simple(parents, 2)
        if self.r.random() < 0.3:
            cs = [{"op": "AND", "cs": [super(PG, self).cond_term(parents, 0) for _ in range(self.r.choice([2, 2, 3]))]}
                  if self.r.random() < 0.6 else super(PG, self).cond_term(parents, 0)
                  for _ in range(self.r.choice([2, 2, 3]))]
            return {"op": "OR", "cs": cs}
        return super().cond_term(parents, 1)

    def simple(self, parents, depth):
        r = self.r
        if depth and r.random() < 0.3:
            return {"op": "AND", "cs": [self.simple(parents, depth - 1) for _ in range(r.choice([2, 2, 3]))]}
        p = r.choice(parents)
        h = self.hps[p]
        if r.random() < 0.5:
            return {"op": "EQ", "p": p, "v": self.value(h)}
        vs = []
        for _ in range(r.randint(1, 3)):
            v = self.value(h)
            if v not in vs:
                vs.append(v)
        return {"op": "IN", "p": p, "vs": vs}


def eq_atom(g, names):
    p = g.r.choice(names)
    return {"op": "EQ", "p": p, "v": g.value(g.hps[p])}


@suite("P30", 1300, 10000, ["pcs"])
def pcs_formats(seed):
    r0 = __import__("random").Random(mix(seed, "P30a"))
    old = r0.random() < 0.4
    own = r0.random() < 0.4
    g = PG(mix(seed, "P30"), nhp=(1, 6), cond=0.7, forb=(0, 4), meta=True, depth=1, maxdom=4,
           weights=r0.random() < 0.1, rel=r0.random() < 0.08, odd=False)
    g.old = old
    if own and r0.random() < 0.9:
        g.forb_atom = lambda names: eq_atom(g, names)
    if old and r0.random() < 0.9:
        # the older format has no ordinals
        base = g.hp
        g.hp = lambda name, kinds=None: base(name, kinds or ["cat"] * 4 + ["uint"] * 2 + ["ufloat", "const", "nint",
                                                                                          "bfloat"])
    g.space("s", name=g.r.choice([None, "name"]))
    for j in range(2):
        g.steps.append(["pcs", "s", {"how": "text" if own else "write", "old": old,
                                     "layout": g.r.choice([None, g.r.randrange(10**6)])}])
    g.steps.append(["alive", "", {}])
    return g
