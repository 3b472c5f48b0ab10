"""Behaviours of the state machine in spec/CSMachine.tla, replayed into the code.

TLC explores what can be built from small catalogues of hyperparameters, conditions
and forbidden clauses and exports how each space was reached; programs repeat that
in the real code and then look at everything there is to see about such a space.
"""
from __future__ import annotations

import itertools
import json
import os
import random
import shutil
import tempfile

import model as M
import tlc
from encode import encode
from gen import G
from model import N, V, term


class Catalog:
    def __init__(self, seed, nhp=3, nforb=3, percond=2):
        g = self.g = G(seed, discrete=True, maxdom=3, small=True, prior=False, log=False, shapes=False,
                       zero=False, odd=False)
        r = g.r
        g.used = set()
        names = g.names(nhp)
        kinds = ["cat"] * 3 + ["ord"] * 2 + ["uint"] * 2
        g.hps = {}
        for k in names:
            h = g.hp(k, kinds if r.random() < 0.93 else ["const"])
            for key in ("choices", "sequence"):
                if key in h and len(h[key]) == 1:
                    h[key] = g.choices(2)
                    h.pop("weights", None)
            h["default"] = r.choice(h.get("choices") or h.get("sequence")
                                    or [h.get("default", h.get("value", h.get("lower")))])
            g.hps[k] = h
        g.topo = names
        self.hps = [g.hps[k] for k in names]
        self.conds = []
        for k in names:
            for _ in range(percond):
                ps = [p for p in names if p != k]
                self.conds.append({"c": k, "t": g.cond_term(ps, r.choice([0, 1, 1]))})
        self.forbs = []
        while len(self.forbs) < nforb:
            f = g.forb_term(names)
            if f not in self.forbs:
                self.forbs.append(f)
        enc, ids, codes = encode({
            "hps": [{"i": N(h["name"]), "h": M.describe_hp(h, h["default"])} for h in self.hps],
            "conds": [{"c": N(c["c"]), "t": term(c["t"])} for c in self.conds],
            "forbs": [term(f) for f in self.forbs]})
        enc.pop("names")
        self.encoded = enc
        self.name = {i: n for n, i in ids.items()}
        self.value = {n: {codes.of(v): v for v in self.domain(n)} for n in names}

    def domain(self, n):
        h = self.g.hps[n]
        return h.get("choices") or h.get("sequence") or (
            [h["value"]] if h["t"] == "const" else list(range(h["lower"], h["upper"] + 1)))

    def batch(self, items):
        at = {"hp": [], "cond": [], "forb": []}
        for a, k in sorted(items, key=lambda x: x[1]):
            at[a].append(k - 1)
        return {"hps": [self.hps[k] for k in at["hp"]], "conds": [self.conds[k] for k in at["cond"]],
                "forbs": [self.forbs[k] for k in at["forb"]]}

    def steps(self, hist):
        out = [["new", "s", {"seed": 3}]]
        for h in hist:
            a = h["arg"]
            if h["a"] == "add":
                out.append(["add", "s", self.with_ghosts(self.batch(a))])
            elif h["a"] == "make":
                out.append(["mk", "s", {"vals": {self.name[i]: self.value[self.name[i]][v] for i, v in a},
                                        "c": "x"}])
            else:
                n = self.name[a[0]]
                out.append(["set", "x", {"k": n, "v": self.value[n][a[1]], "read": True}])
        return out

    def with_ghosts(self, b):
        # conditions and clauses need objects for what is not (yet) in the space
        new = {h["name"] for h in b["hps"]}
        return {**b, "ghosts": [h for h in self.hps if h["name"] not in new]}


def explore(cats, cfg, workers="auto", args=(), env=None, timeout=600, laws=None):
    """Runs TLC on the machine.  Returns (behaviours, stats, output)."""
    d = tempfile.mkdtemp(prefix="cat-")
    try:
        if laws is not None:
            # one worker: the way to a state has to be the same in every run
            with open(os.path.join(tlc.SPEC, cfg)) as fh:
                text = fh.read()
            cfg, workers = os.path.join(d, "run.cfg"), 1
            with open(cfg, "w") as fh:
                fh.write(text + "INVARIANTS\n" + "\n".join(laws) + "\n")
        f = os.path.join(d, "catalogs.ndjson")
        with open(f, "w") as fh:
            for c in cats:
                fh.write(json.dumps(c.encoded) + "\n")
        out, stats, err = tlc.run_tlc("CSMachine", cfg=cfg, env={"CATALOG_FILE": f, **(env or {})},
                                      workers=workers, args=args, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    runs = []
    for line in out.splitlines():
        if line.startswith('"RUN '):
            runs.append(json.loads(json.loads(line)[4:]))
    if stats["rc"] != 0:
        raise tlc.TLCError(f"the specification breaks its own law, or cannot be run:\n{out[-5000:]}\n{err[-2000:]}")
    return runs, stats, out


# ------------------------------------------------------------- what to look at
class Probe:
    """One space that was reached, and what can be asked about it."""

    def __init__(self, cat, run, seed):
        self.c, self.run = cat, run
        self.r = random.Random(f"{seed}/{json.dumps(run['hist'], sort_keys=True)}")
        self.steps = cat.steps(run["hist"])
        inside = {a[1] - 1 for h in run["hist"] for a in h["arg"] if a[0] == "hp"}
        self.names = [cat.hps[k]["name"] for k in sorted(inside)]
        self.valid = [{cat.name[i]: cat.value[cat.name[i]][v] for i, v in sorted(x)}
                      for x in sorted(run["valid"])]

    def assignments(self, limit, full=False):
        doms = [list(self.c.domain(n)) + ([] if full else [None]) for n in self.names]
        out = [{n: v for n, v in zip(self.names, t) if v is not None} for t in itertools.product(*doms)]
        self.r.shuffle(out)
        return out[:limit]

    def valids(self, limit):
        v = self.valid[:]
        self.r.shuffle(v)
        return v[:limit]

    def any_set(self):
        n = self.r.choice(self.names)
        return {"k": n, "v": self.r.choice(list(self.c.domain(n))), "read": self.r.random() < 0.5}

    def add(self, *step):
        self.steps.append(list(step))

    # one method per property
    def p01(self):
        for x in self.assignments(14):
            self.add("active", "s", {"vals": x, "how": "cfg" if self.r.random() < 0.5 else "vec"})

    def p02(self):
        for x in self.assignments(24):
            self.add("mk", "s", {"vals": x, "mode": self.r.choice(["values", "vector"]),
                                 "how": self.r.choice(["cfg", "util", "space"])})
        for x in self.assignments(2):
            self.add("mk", "s", {"vals": x, "lax": True})

    def p03(self):
        for n in (None, 12):
            self.add("sample", "s", {"n": n})

    def p04(self):
        n = 40 * max(1, len(self.valid))
        p = 1.0
        for k in self.names:
            h = self.c.g.hps[k]
            w = h.get("weights") or [1] * len(self.c.domain(k))
            p *= min(w) / sum(w)
        self.add("reach", "s", {"ns": [max(n, int(40 / p) + 1)]})

    def p05(self):
        for x in self.valids(5):
            self.add("mk", "s", {"vals": x, "c": "x"})
            for _ in range(4):
                self.add("set", "x", self.any_set())

    def p06(self):
        # the same items in another order
        hist = self.run["hist"][:]
        items = [a for h in hist for a in h["arg"]]
        rank = {"hp": 0, "cond": 1, "forb": 2}
        self.r.shuffle(items)
        if self.r.random() < 0.5:
            items.sort(key=lambda a: rank[a[0]])
            groups = [[a] for a in items]
        else:
            groups = [items]
        self.add("new", "t", {"seed": 3})
        for g in groups:
            if g:
                self.add("add", "t", self.c.with_ghosts(self.c.batch(g)))
        self.add("eqspace", "s", {"s2": "t"})
        if items:
            # and without one of them
            self.add("new", "u", {"seed": 3})
            last = [a for a in items if a[0] != "hp"] or items
            gone = self.r.choice(last)
            left = [a for a in items if a != gone]
            if left:
                self.add("add", "u", self.c.with_ghosts(self.c.batch(left)))
            self.add("eqspace", "s", {"s2": "u"})

    def p07(self):
        rej = self.run["rej"][:]
        self.r.shuffle(rej)
        for a in rej[:6]:
            self.add("add", "s", {**self.c.with_ghosts(self.c.batch([a])),
                                  "form": self.r.choice(["args", "list", "old", "nested"])})
        every = [["hp", j + 1] for j in range(len(self.c.hps))] + \
            [["cond", j + 1] for j in range(len(self.c.conds))]
        for a in rej[6:8]:
            b = self.r.choice(every)
            self.add("add", "s", self.c.with_ghosts(self.c.batch([a, b] if a != b else [a])))
        self.add("alive", "", {})

    p08 = p07

    def p09(self):
        for how in self.r.sample(["dict", "json", "yaml" if M.HAVE_YAML else "json", "dict2"], 2):
            self.add("same", "s", {"how": how})

    def p10(self):
        for j, x in enumerate(self.valids(4)):
            self.add("mk", "s", {"vals": x, "c": "x"})
            self.add("neigh", "", {"c": "x", "seed": self.r.randrange(1000), "k": self.r.choice([None, 2, 9])})

    def p11(self):
        for x in self.valids(2):
            self.add("mk", "s", {"vals": x, "c": "x"})
            self.add("rneigh", "", {"c": "x", "seed": self.r.randrange(1000)})

    def p12(self):
        steps = {n: len(self.c.domain(n)) for n in self.names if self.c.g.hps[n]["t"] == "uint"}
        self.add("grid", "s", {"steps": steps})

    def p13(self):
        for x in self.assignments(10) + self.assignments(6, full=True):
            self.add("deact", "s", {"vals": x, "how": self.r.choice(["dict", "vector", "cfg"])})

    def p14(self):
        for x in self.valids(8):
            self.add("mk", "s", {"vals": x, "c": "x"})
            self.add("impute", "", {"c": "x"})

    def p15(self):
        self.add("new", "t", {"seed": 3})
        self.add("add", "t", {"hps": [{"t": "cat", "name": "host", "choices": ["on", "off", "?"]}]})
        self.add("nest", "t", {"src": "s", "pre": "n1"})
        self.add("nest", "t", {"src": "s", "pre": "n2", "par": {"p": "host", "v": "off"}})
        self.add("alive", "", {})

    def p16(self):
        self.add("nopriors", "s", {})
        self.add("alive", "", {})

    def p17(self):
        self.add("eval", "s", {"batch": self.assignments(16)})

    def p18(self):
        self.add("size", "s", {})

    def p19(self):
        vs = self.valids(4)
        for j, x in enumerate(vs):
            items = list(x.items())
            self.r.shuffle(items)
            self.add("mk", "s", {"vals": x, "c": f"a{j}"})
            self.add("mk", "s", {"vals": dict(items), "c": f"b{j}", "mode": "vector"})
        for i, j in itertools.product(range(len(vs)), repeat=2):
            self.add("cfgeq", f"a{i}", {"c2": f"b{j}"})

    def p20(self):
        x = self.valids(1)
        if x:
            self.add("mk", "s", {"vals": x[0], "c": "x"})
            self.add("mk", "s", {"vals": x[0], "c": "y"})
            self.add("neigh", "", {"c": "x", "seed": 1})
            self.add("rneigh", "", {"c": "x", "seed": 1})
            self.add("impute", "", {"c": "x"})
            self.add("set", "y", self.any_set())
        self.add("sample", "s", {"n": 5})
        self.add("grid", "s", {"steps": {n: 2 for n in self.names if self.c.g.hps[n]["t"] == "uint"}})
        self.add("nopriors", "s", {})
        self.add("same", "s", {"how": "dict"})
        self.add("alive", "", {})

    def p21(self):
        for how in ("copy", "deepcopy", "pickle"):
            self.add("same", "s", {"how": how})


def programs(pid, tier, seed, laws):
    """Programs from all states of some catalogues.  Also (states, transitions)."""
    few = tier == "quick"
    cats = [Catalog(f"{seed}/{j}") for j in range(5 if few else 60)]
    cats += [Catalog(f"{seed}/4/{j}", nhp=4, nforb=2, percond=1) for j in range(1 if few else 15)]
    runs, st, _ = explore(cats, "CSMachineExport.cfg", laws=laws)
    out = []
    for run in runs:
        p = Probe(cats[run["cat"] - 1], run, seed)
        if p.names or pid in ("P06", "P07", "P09", "P18"):
            getattr(p, pid.lower())()
            out.append({"module": "CSTrace", "steps": p.steps, "limit": 30})
    if pid in ("P05", "P06", "P07", "P20"):
        out += walks(cats, tier, seed)
    return out, st, len(cats)


def walks(cats, tier, seed):
    """Programs that are random behaviours of the machine."""
    n = 120 if tier == "quick" else 2000
    runs, _, _ = explore(cats, "CSMachineWalk.cfg", workers=1, env={"MAX_HIST": "26"},
                         args=["-simulate", f"num={n}", "-depth", "30", "-seed", str(seed)])
    out, seen = [], set()
    for run in runs:
        key = json.dumps([run["cat"], run["hist"][:-1]])
        if key not in seen:
            seen.add(key)
            steps = cats[run["cat"] - 1].steps(run["hist"]) + [["alive", "", {}]]
            out.append({"module": "CSTrace", "steps": steps, "limit": 30})
    return out


def parts(rs, limit=40_000_000):
    part, size = [], 0
    for r in rs:
        n = len(json.dumps(r[1]))
        if part and size + n > limit:
            yield part
            part, size = [], 0
        part.append(r)
        size += n
    if part:
        yield part
