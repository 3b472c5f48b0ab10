"""One program generator per property, and the clauses that decide it."""
from __future__ import annotations

import copy
import random

from gen import NAMES, G, parents

SUITES = {}


class Suite:
    def __init__(self, fn, quick, thorough, clauses, module="CSTrace"):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.clauses, self.module = clauses, module

    def program(self, seed):
        g = self.fn(seed)
        return {"module": self.module, "steps": g.steps, "limit": 30} if isinstance(g, G) else g

    def relevant(self, clause):
        if clause.startswith(("crash.", "hang.", "trace.", "add.spurious", "add.accepted")):
            return True
        return any(c == "*" or clause == c or clause.startswith(c + ".") for c in self.clauses)


def suite(pid, quick, thorough, clauses, module="CSTrace"):
    def deco(fn):
        SUITES.setdefault(pid, []).append(Suite(fn, quick, thorough, clauses, module))
        return fn
    return deco


def mix(seed, salt):
    return random.Random(f"{salt}/{seed}").getrandbits(48)


# ------------------------------------------------------------------ P01 activity
@suite("P01", 1400, 12000, ["active", "eval", "sample.valid", "check"])
def activity(seed):
    g = G(mix(seed, "P01"), nhp=(2, 7), cond=0.9, forb=(0, 1), depth=3)
    g.space("s")
    for j in range(5):
        x = g.consistent() if j < 3 else g.legal_any()
        g.steps.append(["active", "s", {"vals": x, "how": g.r.choice(["cfg", "vec"])}])
    for j in range(3):
        g.steps.append(["mk", "s", {"vals": g.assignment()}])
    g.steps.append(["eval", "s", {"batch": [g.legal_any() for _ in range(4)]}])
    g.steps.append(["sample", "s", {"n": 3}])
    return g


# ---------------------------------------------------------------- P02 validation
@suite("P02", 1600, 14000, ["check", "mk", "cfg"])
def validation(seed):
    g = G(mix(seed, "P02"), nhp=(1, 6), forb=(0, 5), big=True, fam=0.3)
    g.space("s")
    for j in range(8):
        g.steps.append(["mk", "s", {"vals": g.assignment(), "lax": g.r.random() < 0.15,
                                    "np": g.r.random() < 0.2}])
    for j in range(6):
        lax = g.r.random() < 0.15
        # what an inactive hyperparameter may have there if it may have something is left open
        x = g.legal_any() if lax else g.vector_assignment()
        g.steps.append(["mk", "s", {"vals": x, "mode": "vector", "lax": lax,
                                    "how": g.r.choice(["cfg", "util", "space", "rigorous"]),
                                    "shape": g.r.choice([None, None, "list", "column"])}])
    if g.r.random() < 0.3:
        x = g.consistent()
        x[stranger(g)] = 1
        g.steps.append(["mk", "s", {"vals": x}])
    return g


def stranger(g):
    """A name that is not in the space."""
    near = [f(k) for k in g.topo for f in (str.upper, str.strip, lambda k: k + " ", lambda k: k[:-1])]
    return g.r.choice([k for k in ["unknown name", "", "0", *near] if k not in g.topo])


# ------------------------------------------------------------------ P03 sampling
@suite("P03", 1400, 12000, ["sample", "cfg"])
def sampling(seed):
    g = G(mix(seed, "P03"), nhp=(1, 7), forb=(0, 5), big=True, zero=True, depth=3)
    g.space("s")
    for n in g.r.sample([None, 1, 2, 3, 7, 20, 0], 3):
        g.steps.append(["sample", "s", {"n": n, "seed": g.r.choice([None, 1, 77])}])
    g.steps.append(["sample", "s", {"n": g.r.choice([5, 40, 40, 5, 40, 5, 40, 5, 120, 300])}])
    return g


@suite("P03", 40, 400, ["sample", "cfg"])
def rare(seed):
    """Hardly anything is allowed, and most of what is drawn has to be rejected."""
    g = G(mix(seed, "P03r"))
    r = g.r
    g.steps.append(["new", "s", {"name": None, "meta": None, "seed": r.randint(0, 2**31 - 1)}])
    names = sorted(r.sample(NAMES, r.choice([3, 3, 4])))
    doms = {3: [11, 12, 14], 4: [6, 7, 8]}[len(names)]
    hps, forbs = [], []
    for k in names:
        n = r.choice(doms)
        if r.random() < 0.6:
            dom = list(range(1, n + 1))
            hps.append({"t": "uint", "name": k, "lower": 1, "upper": n})
        else:
            dom = [f"w{j}" for j in range(n)]
            hps.append({"t": r.choice(["cat", "ord"]), "name": k})
            hps[-1]["choices" if hps[-1]["t"] == "cat" else "sequence"] = dom
        d = hps[-1]["default"] = r.choice(dom)
        forbs.append({"op": "IN", "p": k, "vs": [v for v in dom if v != d]})
    g.steps.append(["add", "s", {"hps": hps}])
    if r.random() < 0.4:
        # all but one value of one given the others
        forbs = [{"op": "AND", "cs": [f, {"op": "IN", "p": names[-1], "vs": [hps[-1]["default"]]}]}
                 for f in forbs[:-1]] + [forbs[-1]]
    g.steps.append(["add", "s", {"forbs": forbs}])
    g.steps.append(["sample", "s", {"n": r.choice([None, 2, 4, 6])}])
    g.steps.append(["sample", "s", {"n": r.choice([3, 5])}])
    return g


# -------------------------------------------- P04 seeds and reachability of sampling
@suite("P04", 700, 5000, ["sample.reach", "sample.err", "sample.count", "seed"])
def reach(seed):
    g = G(mix(seed, "P04"), nhp=(1, 4), forb=(0, 3), discrete=True, maxdom=3, prior=False,
          zero=True, small=True, log=False, shapes=False)
    while True:
        g.steps = []
        g.space("s")
        n = int(40 / g.rarest()) + 1
        if n <= 4000:
            break
    g.steps.append(["reach", "s", {"ns": [n // 2, n - n // 2] if g.r.random() < 0.5 else [n]}])
    for how in g.r.sample(["same", "copy", "fresh", "both"], 2):
        g.steps.append(["seeded", "s", {"seed": g.r.choice([0, 1, g.r.randint(0, 10**6), 2**32 - 1]), "how": how,
                                        "sizes": [g.r.choice([1, 2, 5, 9]) for _ in range(2)]}])
    return g


@suite("P04", 500, 4000, ["seed"])
def seeds(seed):
    g = G(mix(seed, "P04b"), nhp=(1, 7), forb=(0, 3), zero=True)
    g.space("s")
    for how in ["same", "copy", "fresh", "both", "nopriors"]:
        g.steps.append(["seeded", "s", {"seed": g.r.choice([0, 1, g.r.randint(0, 10**6), 2**32 - 1]), "how": how,
                                        "sizes": [g.r.choice([1, 2, 5, 9]) for _ in range(3)]}])
    return g


# ---------------------------------------------------------------- P05 assignments
def origin(r, c, src):
    return ["origin", c, {"s": "s", "src": src, "seed": r.randint(0, 99),
                          "how": r.choice(["default", "deepcopy", "pickle", "values", "neigh", "rneigh",
                                           "deact"])}]


@suite("P05", 1400, 12000, ["set", "cfg", "origin.values"])
def assignments(seed):
    g = G(mix(seed, "P05"), nhp=(2, 7), cond=0.85, forb=(0, 3), depth=2)
    g.space("s")
    r = g.r
    g.steps.append(["sample", "s", {"n": None, "c": "x"}])
    g.steps.append(["mk", "s", {"vals": g.consistent(), "c": "y", "mode": r.choice(["values", "vector"])}])
    g.steps.append(origin(r, "z", r.choice("xy")))
    heads = [k for k in g.topo if any(k in parents(t) for t in g.cond.values())] or g.topo
    for j in range(14):
        k = r.choice(heads if r.random() < 0.6 else g.topo)
        u = r.random()
        v = g.value(g.hps[k]) if u < 0.85 else g.illegal(g.hps[k])
        c = r.choice(["x", "x", "y", "z", "z"])
        g.steps.append(["set", c, {"k": k if u < 0.97 else stranger(g), "v": v,
                                   "read": r.random() < 0.5, "np": r.random() < 0.2}])
    g.steps.append(["alive", "", {}])
    return g


# ---------------------------------------------------------------- P06 construction
@suite("P06", 800, 9000, ["space", "add.spurious", "add.accepted", "spaceeq", "eqperm"])
def construction(seed):
    g = G(mix(seed, "P06"), nhp=(1, 8), cond=0.7, forb=(0, 4), meta=True, depth=3)
    g.space("s", name=g.r.choice([None, "n"]), meta=g.r.choice([None, {"k": 1}]))
    names, cond, forbs = g.topo[:], dict(g.cond), list(g.forbs)
    nm = g.steps[0][2]
    # the same content in another order and other batches
    g.steps.append(["new", "t", {**nm, "seed": 5}])
    g.r.shuffle(names)
    g.r.shuffle(forbs)
    g.emit_adds("t", names, cond, forbs)
    g.steps.append(["eqspace", "s", {"s2": "t"}])
    if len(names) > 1 and g.r.random() < 0.5:
        # almost the same content
        g.steps.append(["new", "u", {**nm, "seed": 5}])
        hp = dict(g.hps)
        cond2, forbs2, names2 = dict(cond), list(forbs), list(names)
        w = g.r.random()
        if w < 0.3 and cond2:
            cond2.pop(g.r.choice(sorted(cond2)))
        elif w < 0.5 and forbs2:
            forbs2.pop()
        elif w < 0.75:
            k = g.r.choice(names2)
            for _ in range(20):
                h = g.hp(k, [g.hps[k]["t"]])
                if h != g.hps[k]:
                    break
            cond2 = {c: t for c, t in cond2.items() if k not in parents(t)}
            forbs2 = []
            g.hps[k] = h
        g.emit_adds("u", names2, cond2, forbs2)
        g.hps = hp
        g.steps.append(["eqspace", "s", {"s2": "u"}])
    g.steps.append(["alive", "", {}])
    return g


# --------------------------------------------------------------- P07 failed additions
@suite("P07", 1200, 10000, ["add", "space", "alive", "default"])
def failing(seed):
    g = G(mix(seed, "P07"), nhp=(2, 6), cond=0.6, forb=(0, 2))
    g.space("s")
    r = g.r
    free = [f"n{j}" for j in range(6)] + [n for n in NAMES if n not in g.topo]
    for j in range(6):
        b = {"hps": [], "conds": [], "forbs": [], "ghosts": [], "form": r.choice(["args", "list", "mixed", "gen"])}
        new = free.pop()
        fresh = g.hp(new)
        bad = r.choice(["exists", "dup", "child", "parent", "ambig", "cycle", "notfound", "default",
                        "cycle2", "none", "equal"])
        save = dict(g.hps)
        if r.random() < 0.6 or bad in ("dup",):
            b["hps"].append(fresh)
            g.hps[new] = fresh
            if r.random() < 0.5:
                p = r.choice(g.topo)
                b["conds"].append({"c": new, "t": g.atom(p)})
        tops = g.topo
        if bad == "exists":
            b["hps"].append(g.hp(r.choice(tops)))
        elif bad == "dup":
            b["hps"].append(g.hp(new))
        elif bad == "child":
            b["ghosts"].append(g.hp("ghost"))
            b["conds"].append({"c": "ghost", "t": g.atom(r.choice(tops))})
        elif bad == "parent":
            gh = g.hp("ghost")
            b["ghosts"].append(gh)
            g.hps["ghost"] = gh
            k = r.choice(tops)
            b["conds"].append({"c": k, "t": g.atom("ghost")})
        elif bad in ("ambig", "equal") and g.cond:
            k = r.choice(sorted(g.cond))
            t = copy.deepcopy(g.cond[k])
            if bad == "ambig":
                ps = [p for p in tops if p != k]
                t2 = g.cond_term(ps)
                if norm(t2) == norm(t):
                    t2 = {"op": "OR", "cs": [t2, g.atom(r.choice(ps))]}
                t = t2
            elif t["op"] in ("AND", "OR"):
                r.shuffle(t["cs"])
            b["conds"].append({"c": k, "t": t})
        elif bad in ("cycle", "cycle2"):
            roots = [k for k in tops if k not in g.cond]
            kids = sorted(g.cond)
            if kids and roots:
                b["conds"].append({"c": r.choice(roots), "t": g.atom(r.choice(kids))})
            elif len(roots) > 1:
                a, c = r.sample(roots, 2)
                b["conds"] += [{"c": a, "t": g.atom(c)}, {"c": c, "t": g.atom(a)}]
        elif bad == "notfound":
            gh = g.hp("ghost")
            b["ghosts"].append(gh)
            g.hps["ghost"] = gh
            b["forbs"].append({"op": "AND", "cs": [g.forb_atom(["ghost"]), g.forb_atom(tops)]})
        elif bad == "default":
            k = [k for k in tops if k not in g.cond]
            k = r.choice(k or tops)
            d = g.default(g.hps[k])
            if d is not None:
                b["forbs"].append({"op": "EQ", "p": k, "v": d})
        if r.random() < 0.3:
            b["forbs"].append(g.forb_atom(tops))
        if b["hps"] or b["conds"] or b["forbs"]:
            g.steps.append(["add", "s", b])
        # we do not know what went in: keep to what certainly is there
        g.hps = save
    g.steps.append(["alive", "", {"noset": True}])
    return g


def norm(t):
    if t["op"] in ("AND", "OR"):
        return (t["op"], frozenset(norm(c) for c in t["cs"]))
    if t["op"] == "IN":
        return ("IN", t["p"], frozenset(map(repr, t["vs"])))
    return (t["op"], t["p"], repr(t["v"]))


# ------------------------------------------------------------------ P08 defaults
@suite("P08", 1400, 12000, ["default", "add.accepted", "add.kind"])
def defaults(seed):
    g = G(mix(seed, "P08"), nhp=(1, 7), cond=0.75, forb=(0, 4), depth=3)
    g.space("s")
    g.steps.append(["alive", "", {}])
    return g


# ------------------------------------------------------------- P09 serialization
SER = ["dict", "dict2", "json", "yaml", "jsonfile", "yamlfile", "jsontext", "again"]


@suite("P09", 1000, 8000, [*SER])
def serialization(seed):
    g = G(mix(seed, "P09"), nhp=(1, 6), forb=(0, 4), meta=True, zero=True, depth=3, big=True, odd="json")
    r = g.r
    g.space("s", name=r.choice([None, "name", "µ"]), meta=r.choice([None, {"k": [1, "a"]}]))
    for how in r.sample(SER, 4):
        g.steps.append(["same", "s", {"how": how}])
    g.steps.append(["alive", "", {}])
    return g


# --------------------------------------------------------------- P10 one exchange
@suite("P10", 1000, 9000, ["neigh", "cfg"])
def one_exchange(seed):
    g = G(mix(seed, "P10"), nhp=(1, 6), cond=0.7, forb=(0, 4), big=True, wide=0.3, fam=0.4)
    g.space("s")
    r = g.r
    for c in "xy":
        g.steps.append(["sample", "s", {"n": None, "c": c}])
        g.steps.append(["neigh", "", {"c": c, "seed": r.randint(0, 10**6),
                                      "k": r.choice([None, 1, 2, 4, 6, 20]),
                                      "stdev": r.choice([None, 0.05, 0.5])}])
    g.steps.append(["alive", "", {}])
    return g


# --------------------------------------------------------------- P11 random neighbour
@suite("P11", 1000, 9000, ["rneigh", "cfg"])
def random_neighbour(seed):
    g = G(mix(seed, "P11"), nhp=(1, 5), cond=0.5, forb=(0, 2), maxdom=4)
    g.space("s")
    r = g.r
    for c in "xy":
        g.steps.append(["sample", "s", {"n": None, "c": c}])
        for _ in range(3):
            g.steps.append(["rneigh", "", {"c": c, "seed": r.randint(0, 10**6)}])
    g.steps.append(["alive", "", {}])
    return g


# ------------------------------------------------------------------------ P12 grid
@suite("P12", 1000, 8000, ["grid", "cfg"])
def grid(seed):
    g = G(mix(seed, "P12"), nhp=(0, 5), cond=0.7, forb=(0, 3), prior=False, maxdom=3, depth=2, shapes=False)
    g.space("s")
    steps = {}
    for k, h in g.hps.items():
        if h["t"] == "ufloat":
            steps[k] = g.r.choice([1, 2, 3, 4])
        elif h["t"] == "uint":
            # Also more steps than there are values
            steps[k] = g.r.choice([1, 2, 3, 4, 5, 7])
    g.steps.append(["grid", "s", {"steps": steps}])
    return g


# ------------------------------------------------------- P13 dropping inactive values
@suite("P13", 1400, 12000, ["deact"])
def deactivation(seed):
    g = G(mix(seed, "P13"), nhp=(1, 7), cond=0.85, forb=(0, 2), depth=3)
    g.space("s")
    for j in range(8):
        u = g.r.random()
        if u < 0.55:
            x = {k: g.value(g.hps[k]) for k in g.topo}
        elif u < 0.8:
            x = g.legal_any()
        else:
            x = g.assignment()
        how = g.r.choice(["dict", "dict", "vector", "cfg"])
        if how != "dict":
            x = {k: v for k, v in x.items() if legal(g.hps[k], v)}
        g.steps.append(["deact", "s", {"vals": x, "how": how}])
    return g


def legal(h, v):
    t = h["t"]
    if t in ("cat", "ord", "const"):
        vals = h.get("choices") or h.get("sequence") or [h["value"]]
        return v in vals
    if not isinstance(v, (int, float)) or not h["lower"] <= v <= h["upper"]:
        return False
    return t not in ("uint", "nint", "bint") or float(v).is_integer()


# ---------------------------------------------------------------- P14 imputation
@suite("P14", 1200, 10000, ["impute"])
def imputation(seed):
    g = G(mix(seed, "P14"), nhp=(1, 7), cond=0.85, forb=(0, 2))
    g.space("s")
    for c in "xyz":
        g.steps.append(["sample", "s", {"n": None, "c": c}])
        g.steps.append(["impute", "", {"c": c, "explicit": g.r.random() < 0.5}])
    g.steps.append(["alive", "", {}])
    return g


# -------------------------------------------------------------------- P15 nesting
@suite("P15", 1000, 8000, ["nest", "alive"])
def nesting(seed):
    g = G(mix(seed, "P15"), nhp=(1, 4), cond=0.6, forb=(0, 2), meta=True)
    r = g.r
    g.space("in", split=False)
    if r.random() < 0.3:
        # names that start with the prefix, or are it
        ren = r.choice(["pre", "pre:a", "pre:", ""])
        rename(g, g.topo[0], ren)
    inner = dict(g.hps)
    nhp = g.o["nhp"]
    g.o["nhp"] = (1, 3)
    g.space("s", split=False)
    g.o["nhp"] = nhp
    root = [k for k in g.topo]
    par = None
    if r.random() < 0.6:
        p = r.choice(root)
        par = {"p": p, "v": g.value(g.hps[p])}
    dl = r.choice([":", ":", "__", ".", ""])
    g.steps.append(["nest", "s", {"src": "in", "pre": r.choice(["pre", "m", "b"]), "del": dl, "par": par,
                                  "explicit": r.random() < 0.5}])
    if r.random() < 0.5:
        g.steps.append(["nest", "s", {"src": "in", "pre": r.choice(["q", "m", "pre"]), "del": dl,
                                      "par": None}])
    if r.random() < 0.6:
        g.steps.append(["new", "top", {}])
        g.steps.append(["nest", "top", {"src": "s", "pre": "t", "del": ":", "par": None}])
    g.steps.append(["sample", "s", {"n": 3}])
    g.steps.append(["sample", "in", {"n": 3}])
    g.steps.append(["alive", "", {}])
    return g


def rename(g, old, new):
    import json

    def f(o):
        if isinstance(o, dict):
            return {k: (new if k in ("name", "p", "c", "l", "r") and v == old else f(v))
                    for k, v in o.items()}
        if isinstance(o, list):
            return [f(x) for x in o]
        return o
    g.steps = [[s[0], s[1], f(s[2])] for s in g.steps]
    g.hps = {(new if k == old else k): f(v) for k, v in g.hps.items()}
    g.topo = [new if k == old else k for k in g.topo]


# ------------------------------------------------------------------ P16 priors
@suite("P16", 1000, 8000, ["nopriors", "alive"])
def priors(seed):
    g = G(mix(seed, "P16"), nhp=(1, 6), cond=0.7, forb=(0, 3), zero=True, meta=True, depth=3)
    g.space("s", name=g.r.choice([None, "n"]))
    g.steps.append(["nopriors", "s", {}])
    g.steps.append(["alive", "", {}])
    return g


# ----------------------------------------------------------- P17 evaluation paths
@suite("P17", 1200, 10000, ["eval"])
def evaluation(seed):
    g = G(mix(seed, "P17"), nhp=(2, 7), cond=0.85, forb=(1, 6), depth=3)
    g.space("s")
    g.steps.append(["eval", "s", {"batch": [g.legal_any() for _ in range(10)]}])
    return g


# ----------------------------------------------------------------------- P18 size
@suite("P18", 1000, 8000, ["size"])
def size(seed):
    g = G(mix(seed, "P18"), nhp=(0, 5), cond=0.5, forb=(0, 2), discrete=seed % 3 != 0, big="huge", wide=0.2,
          zero=True)
    if seed % 8 == 1:
        g.o.update(nhp=(8, 24), cond=0.3)
    g.space("s")
    g.steps.append(["size", "s", {}])
    return g


# --------------------------------------------- P19 configurations as mappings, equality
@suite("P19", 1000, 9000, ["cfgeq", "cfg", "mk.value", "origin"])
def mapping(seed):
    # a log scale does not keep all digits of a value
    g = G(mix(seed, "P19"), nhp=(1, 5), cond=0.6, forb=(0, 1), maxdom=3, log=False)
    r = g.r
    g.space("s")
    names, cond, forbs = g.topo[:], dict(g.cond), list(g.forbs)
    # another space with the same content
    g.steps.append(["new", "t", {**g.steps[0][2], "seed": 9}])
    g.emit_adds("t", names, cond, forbs)
    x = g.consistent()
    y = g.consistent() if r.random() < 0.5 else x
    z = dict(reversed(list(x.items())))
    for c, slot, v, mode in (("a", "s", x, "values"), ("b", "s", x, "vector"), ("c", "s", y, "values"),
                             ("d", "t", x, "values"), ("e", "t", z, "vector")):
        g.steps.append(["mk", slot, {"vals": v, "c": c, "mode": mode}])
    k = r.choice(g.topo)
    g.steps.append(["set", "b", {"k": k, "v": g.value(g.hps[k])}])
    g.steps.append(origin(r, "f", r.choice("ab")))
    for a, b in (("a", "f"), ("f", "b"), ("f", "d"), ("a", "b"), ("a", "c"), ("a", "d"), ("a", "e"), ("b", "c"), ("d", "e"), ("a", "a")):
        g.steps.append(["cfgeq", a, {"c2": b}])
    if k in x:
        g.steps.append(["set", "b", {"k": k, "v": x[k]}])
        g.steps.append(["cfgeq", "a", {"c2": "b"}])
    g.steps.append(["alive", "", {}])
    return g


# --------------------------------------------------- P20 nothing changes behind one's back
@suite("P20", 800, 7000, ["alive", "origin"])
def isolation(seed):
    g = G(mix(seed, "P20"), nhp=(2, 6), cond=0.7, forb=(0, 3))
    r = g.r
    g.space("s")
    for c in "xyz":
        g.steps.append(["sample", "s", {"n": r.choice([None, 3]), "c": c}])
    g.steps.append(["mk", "s", {"vals": g.consistent(), "c": "w"}])
    for c in "uv":
        g.steps.append(origin(r, c, r.choice("xyzw")))
    ops = [["neigh", "", {"c": r.choice("uvxyzw"), "seed": 3}], ["rneigh", "", {"c": r.choice("uvxyzw"), "seed": 4}],
           ["impute", "", {"c": r.choice("uvxyzw")}], ["deact", "s", {"vals": g.legal_any()}],
           ["sample", "s", {"n": 4}], ["nopriors", "s", {}], ["size", "s", {}],
           ["same", "s", {"how": r.choice(SER)}], ["same", "s", {"how": "deepcopy"}],
           ["eval", "s", {"batch": [g.legal_any() for _ in range(3)]}],
           ["active", "s", {"vals": g.consistent(), "how": "cfg"}]]
    r.shuffle(ops)
    for o in ops[:6]:
        g.steps.append(o)
        if r.random() < 0.5:
            k = r.choice(g.topo)
            g.steps.append(["set", r.choice("uvxyzw"), {"k": k, "v": g.value(g.hps[k])}])
        g.steps.append(["alive", "", {}])
    return g


# ------------------------------------------------------------------ P21 copies
@suite("P21", 800, 7000, ["deepcopy", "pickle", "copy"])
def copies(seed):
    g = G(mix(seed, "P21"), nhp=(1, 6), cond=0.7, forb=(0, 4), zero=True, meta=True, depth=3)
    g.space("s", name=g.r.choice([None, "n"]), meta=g.r.choice([None, {"k": 1}]))
    for how in ("deepcopy", "pickle", "copy"):
        g.steps.append(["same", "s", {"how": how}])
    g.steps.append(["alive", "", {}])
    return g

import hpsuites  # noqa: E402, F401
import termsuites  # noqa: E402, F401


# -------------------------------------------------------------- P31 the older names
@suite("P31", 500, 5000, ["*"])
def older_spaces(seed):
    fn = (validation, assignments, construction, failing, evaluation, activity)[seed % 6]
    g = fn(mix(seed, "P31"))
    for s in g.steps:
        if s[0] == "add":
            s[2]["form"] = "old"
    return {"module": "CSTrace", "steps": g.steps, "limit": 30, "older": True}


@suite("P31", 500, 5000, ["value", "vector", "order", "hpneigh", "draw", "density.err", "density.illegal",
                         "density.negative", "density.vector", "density.zero", "density.weights",
                         "density.shape"], module="HPTrace")
def older_hps(seed):
    fn = (hpsuites.values_vectors, hpsuites.hp_neighbours, hpsuites.draws, hpsuites.densities)[seed % 4]
    return {**fn(mix(seed, "P31b")), "older": True}


# ------------------------------------------------ P32 what the serialized form says
@suite("P32", 1000, 8000, ["byhand", "coders", "written", "alive"])
def serialized(seed):
    g = G(mix(seed, "P32"), nhp=(1, 6), forb=(0, 4), meta=True, zero=True, depth=3, big=True, odd="json")
    r = g.r
    g.space("s", name=r.choice([None, "name", "µ"]), meta=r.choice([None, {"k": [1, "a"]}]))
    g.steps.append(["written", "s", {"how": r.choice(["dict", "json", "yaml"])}])
    for _ in range(2):
        g.steps.append(["same", "s", {"how": "byhand", "seed": r.randrange(10**6)}])
    g.steps.append(["same", "s", {"how": "coders", "seed": r.randrange(10**6)}])
    g.steps.append(["alive", "", {}])
    return g


# --------------------------------------------------------- P33 values given as text
@suite("P33", 1000, 8000, ["fix", "alive"])
def as_text(seed):
    g = G(mix(seed, "P33"), nhp=(1, 7), forb=(0, 2), big=True, odd="json")
    r = g.r
    g.space("s")
    for _ in range(6):
        how = r.choice(["text", "mixed", "mixed", "given"])
        x = g.consistent() if r.random() < 0.5 else {k: g.value(g.hps[k]) for k in g.topo if r.random() < 0.7}
        vals = {k: [v, "text" if how == "text" or how == "mixed" and r.random() < 0.5 else "given"]
                for k, v in x.items()}
        for k in list(vals):
            if g.hps[k]["t"] in ("cat", "ord", "const") and r.random() < 0.04:
                vals[k] = [r.choice(["no such", "", 17, 0.125]), r.choice(["text", "given"])]
        more = {}
        if r.random() < 0.3:
            more["no such name"] = r.choice(["1", 1, "x"])
        if r.random() < 0.3 and len(vals) < len(g.topo):
            more[next(k for k in g.topo if k not in vals)] = None
        g.steps.append(["fix", "s", {"vals": vals, "more": more}])
    g.steps.append(["alive", "", {}])
    return g


# ------------------------------------------- P34 derived spaces live on their own
@suite("P34", 700, 6000, ["*"])
def lives(seed, pid="P34", hows=(*SER, "deepcopy", "deepcopy", "pickle", "pickle", "nopriors", "nopriors")):
    g = G(mix(seed, pid), nhp=(1, 5), cond=0.7, forb=(0, 2), depth=2, meta=True, odd="json")
    r = g.r
    g.space("s", name=r.choice([None, "n"]))
    base = (dict(g.hps), g.topo[:], dict(g.cond), list(g.forbs))
    worlds = {"s": base}
    free = [n for n in NAMES if n not in g.topo]
    r.shuffle(free)
    for t in "tu"[:r.choice([1, 2, 2])]:
        src = r.choice(sorted(worlds))
        how = r.choice(hows)
        if how == "nopriors":
            g.steps.append(["nopriors", src, {"into": t}])
        else:
            g.steps.append(["same", src, {"how": how, "into": t}])
        worlds[t] = tuple(copy.copy(x) for x in worlds[src])
        if how == "nopriors":
            for n, h in worlds[t][0].items():
                if h["t"][0] in "nb" or h.get("weights"):
                    worlds[t][0][n] = {**h, "uniform": True}
        if r.random() < 0.5:
            grow(g, src, worlds, free)
    for j in range(8):
        k = r.choice(sorted(worlds))
        g.hps, g.topo, g.cond, g.forbs = worlds[k]
        u = r.random()
        if u < 0.4:
            grow(g, k, worlds, free)
        elif u < 0.55:
            g.steps.append(["mk", k, {"vals": g.assignment(), "c": r.choice("abc")}])
        elif u < 0.7:
            g.steps.append(["sample", k, {"n": r.choice([None, 3, 5]), "c": r.choice("abc")}])
        elif u < 0.75:
            g.steps.append(["eval", k, {"batch": [g.legal_any() for _ in range(3)]}])
        elif u < 0.85:
            k2 = r.choice(sorted(worlds))
            g.steps.append(["eqspace", k, {"s2": k2}])
        else:
            g.steps.append(["size", k, {}])
    last = {s[1]: j for j, s in enumerate(g.steps) if s[0] == "add"}
    for j, s in enumerate(g.steps):
        if j < last.get(s[1], 0):
            # configurations are not used once their space has grown
            s[2].pop("c", None)
    g.steps.append(["alive", "", {"noset": True}])
    return g


@suite("P21", 350, 3000, ["*"])
def copies_live(seed):
    g = lives(seed, "P21b", ("deepcopy", "pickle"))
    end = g.steps.pop()
    g.steps.append(["seeded", g.r.choice(sorted({s[1] for s in g.steps if s[0] == "add"})),
                    {"how": "both", "seed": g.r.randrange(1000), "sizes": [2, 1]}])
    g.steps.append(end)
    return g


def grow(g, slot, worlds, free):
    """Something more in one of the spaces."""
    r = g.r
    g.hps, g.topo, g.cond, g.forbs = (copy.copy(x) for x in worlds[slot])
    b = {"hps": [], "conds": [], "forbs": [], "form": r.choice(["args", "list", "mixed", "gen"])}
    u = r.random()
    if u < 0.65 and free:
        # the same name may come to several of the spaces
        n = free.pop() if r.random() < 0.6 else free[-1]
        if n not in g.hps:
            h = g.hp(n)
            b["hps"].append(h)
            if g.topo and r.random() < 0.7:
                t = g.cond_term(g.topo)
                b["conds"].append({"c": n, "t": t})
                g.cond[n] = t
            g.hps[n] = h
            g.topo.append(n)
    else:
        roots = [k for k in g.topo if k not in g.cond]
        if len(roots) > 1 and u < 0.85:
            a = roots[-1]
            before = g.topo[:g.topo.index(a)]
            if before:
                t = g.cond_term(before)
                b["conds"].append({"c": a, "t": t})
                g.cond[a] = t
        else:
            g.used = set()
            f = g.forb_term(g.topo)
            if g.sampleable(g.forbs + [f]):
                b["forbs"].append(f)
                g.forbs.append(f)
    others = [k for k in worlds if k != slot]
    if others and not b["hps"] and r.random() < 0.4:
        # hyperparameters taken from a space with equal ones
        by = r.choice(others)
        if all(worlds[by][0].get(k, h) == h for k, h in g.hps.items()):
            b["by"] = by
    if b["hps"] or b["conds"] or b["forbs"]:
        g.steps.append(["add", slot, b])
        worlds[slot] = (g.hps, g.topo, g.cond, g.forbs)
