"""Programs on single hyperparameters."""
from __future__ import annotations

import random

from gen import NAMES, WORDS
from suites import mix, suite


NONE = {"none": 1}
ODD = [[NONE, True, False, "a", 7], [True, 2, 0.5, 3, 4.0], [1, 2.5, 3, 0, -1.5],
       [NONE, 1, 2, "x", 0.5], [[1, 2], [1], [], ["a", 2], [2, 1]],
       [{"$dict": {}}, {"$dict": {"a": 1}}, {"$dict": {"a": 2}}, {"$dict": {"b": [1, 2]}}, NONE],
       [{"$thing": 1}, {"$thing": 2}, {"$frozen": 1}, {"$fn": 0}, {"$fn": 1}],
       [{"$thing": 0}, {"$thing": 1}, {"$thing": 2}, {"$thing": 3}, {"$thing": 4}],
       [{"$frozen": 3}, {"$frozen": 2}, NONE, 1, "x"]]


class HG:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.steps = []

    def add(self, *s):
        self.steps.append(list(s))

    def program(self):
        return {"module": "HPTrace", "steps": self.steps, "limit": 30}

    # ---------------------------------------------------------------- declaring
    def choices(self, n=None, tuples=True):
        r = self.r
        n = n or r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 30])
        k = r.random()
        if tuples and n <= 5 and r.random() < 0.12:
            return r.sample(r.choice(ODD), n)
        if n > 6:
            return r.sample([f"w{j}" for j in range(60)], n) if k < 0.4 else \
                r.sample(range(-10, 60), n) if k < 0.7 else r.sample([j / 4 for j in range(-10, 60)], n)
        if k < 0.35:
            return r.sample(WORDS, n)
        if k < 0.55:
            return r.sample(range(-3, 12), n)
        if k < 0.7:
            return r.sample([0.25, 0.5, 1.5, -2.0, 3.0, 10.0, 0.125, 0.0], n)
        if k < 0.8 and n == 2:
            return r.choice([[True, False], [False, True]])
        if k < 0.88 and tuples:
            return r.sample([{"tuple": [1, 2]}, {"tuple": [1]}, {"tuple": ["a", 2]}, {"tuple": []},
                             {"tuple": [2, 1]}, {"tuple": [1, 2, 3]}], n)
        if k < 0.93 and tuples:
            return r.sample([1, "x", {"tuple": [1, 2]}, {"tuple": ["x"]}, 2.5, "y"], n)
        return r.sample([1, 2, 0.5, "x", "y", "1", 7, "z", 0, ""], n)

    def weights(self, n, zero=True):
        r = self.r
        w = [r.choice([1, 2, 0.5, 3, 5, 1] + ([0] if zero else [])) for _ in range(n)]
        if not any(w):
            w[r.randrange(n)] = 1
        return w

    def hp(self, kinds=None, tuples=True, big=0.2, default=0.6, name=None):
        r = self.r
        t = r.choice(kinds or ["cat", "cat", "ord", "const", "uint", "uint", "ufloat", "ufloat",
                               "nint", "nfloat", "bint", "bfloat"])
        h = {"t": t, "name": name or r.choice(NAMES)}
        if r.random() < 0.3:
            h["meta"] = r.choice([{"k": 1}, {"a": "b", "c": [1, 2]}, {"e": 0.5}, {}])
        if t == "cat":
            h["choices"] = self.choices(tuples=tuples)
            n = len(h["choices"])
            if r.random() < 0.45:
                h["weights"] = self.weights(n)
            if r.random() < 0.2:
                h["astuple"] = True
        elif t == "ord":
            h["sequence"] = self.choices(tuples=tuples)
        elif t == "const":
            h["value"] = r.choice([1, 0, "c", 2.5, True, -4, "", 0.0, {"tuple": [1, 2]} if tuples else "t",
                                   r.choice(r.choice(ODD)) if tuples else 3])
            return h
        elif t in ("uint", "nint", "bint"):
            log = r.random() < 0.35
            lo = r.choice([1, 2, 5, 10, 1000]) if log else r.choice([-1000, -5, -1, 0, 1, 3, 100, 100000])
            w = r.choice([1, 2, 3, 4, 6, 9, 15, 30, 99, 48, 49, r.randint(10, 140)])
            if r.random() < big:
                w = r.choice([127, 128, 300, 1000, 10**4, 65536, 10**6])
            h.update(lower=lo, upper=lo + w, log=log)
            if t == "nint":
                h.update(mu=r.choice([lo, lo + w, lo + w / 2, lo + w // 3, lo + w + 2, max(lo - 1, 1 if log else lo - 1)]),
                         sigma=r.choice([1.0, 2.0, 5, 0.5]) if w < 100 else w / 4)
            if t == "bint":
                h.update(alpha=r.choice([1, 2, 3.5, 5]), beta=r.choice([1, 1.5, 2, 4]))
        else:
            log = r.random() < 0.4
            lo, hi = r.choice([(0.125, 16.0), (1.0, 1024.0), (0.001, 1.0), (1, 100), (1e-6, 10.0), (2.0, 3.0)]) if log else \
                r.choice([(0.0, 1.0), (-4.0, 4.0), (0.5, 2.5), (-1.0, 15.0), (0, 10), (-1000.0, 1e6), (0.0, 0.001)])
            h.update(lower=lo, upper=hi, log=log)
            w = hi - lo
            if t == "nfloat":
                h.update(mu=r.choice([lo, hi, lo + w / 2, lo + w / 4, hi + w / 4, lo if log else lo - w / 8]),
                         sigma=w * r.choice([0.125, 0.25, 0.5, 1]))
            if t == "bfloat":
                h.update(alpha=r.choice([1, 2, 3.5, 5]), beta=r.choice([1, 1.5, 2, 4]))
        if r.random() < default:
            h["default"] = self.value(h)
        return h

    def vals(self, h):
        return h.get("choices") or h.get("sequence") or ([h["value"]] if "value" in h else None)

    def value(self, h):
        r = self.r
        v = self.vals(h)
        if v is not None:
            return r.choice(v)
        lo, hi = h["lower"], h["upper"]
        if h["t"] in ("uint", "nint", "bint"):
            return r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), lo + 1, hi - 1])
        f = r.choice([0, 1, 0.25, 0.5, 0.375, 0.875, r.randrange(1, 1000) / 1000, 0.0625])
        return lo * (hi / lo) ** f if h.get("log") and 0 < f < 1 else (lo, lo + (hi - lo) * f, hi)[(f > 0) + (f >= 1)]

    def illegal(self, h):
        r = self.r
        vals = self.vals(h)
        if vals is not None:
            pool = [v for v in ["zzz", 99, -77, 0.3, "", "S0", {"none": 1}, "0", 2, 7.5, "w1 ", {"$dict": {"z": 1}},
                                {"$thing": 9}] if v not in vals]
            if vals and all(isinstance(v, str) for v in vals):
                pool += [v for v in [vals[0] + " ", vals[0].upper() + "x", vals[-1][:-1] + "~"] if v not in vals]
            return r.choice(pool)
        lo, hi = h["lower"], h["upper"]
        if h["t"] in ("uint", "nint", "bint"):
            return r.choice([lo - 1, hi + 1, lo + 0.5, "a", hi + 10**6, hi + 0.5, hi - 0.25, lo + 0.01,
                             {"none": 1}, {"nan": 1}, str(lo), hi + 1.0, lo - 0.6, -hi - 1e6])
        w = hi - lo
        return r.choice([lo - 0.5 * w, hi + 0.5 * w, "a", hi + 0.001 * w, lo - 0.001 * w, {"none": 1},
                         {"nan": 1}, str(lo), hi + 1e-6 * max(abs(hi), 1), 1e9, -1e9])

    def bad(self):
        """A declaration that must be refused, or nearly one."""
        r = self.r
        h = self.hp(default=0.3)
        t = h["t"]
        h.pop("via", None)
        k = r.random()
        if k < 0.06:
            h["name"] = r.choice([1, {"none": 1}, 2.5])
            return h
        if t == "const":
            return h
        if t in ("cat", "ord"):
            key = "choices" if t == "cat" else "sequence"
            what = r.choice(["dup", "empty", "default", "set", "weights", "weights", "dupnum"])
            if what == "dup":
                h[key] = h[key] + [r.choice(h[key])]
                h.pop("weights", None)
                if t == "cat" and r.random() < 0.5:
                    h["weights"] = self.weights(len(h[key]))
            elif what == "dupnum":
                h[key] = r.choice([[1, 1.0], [0, False, "x"], [True, 1], [2, "2"], [0.5, 0.25, 0.5]])
                h.pop("weights", None)
                h.pop("default", None)
            elif what == "empty":
                h[key] = []
                h.pop("weights", None)
                h.pop("default", None)
            elif what == "default":
                h["default"] = self.illegal(h)
                if h["default"] == {"none": 1}:
                    h["default"] = "zzz"
            elif what == "set" and t == "cat":
                if any(isinstance(v, (dict, list)) for v in h["choices"]):
                    h["choices"] = [1, 2, 3]
                    h.pop("weights", None)
                    h.pop("default", None)
                h["set"] = True
                h.pop("astuple", None)
            elif t == "cat":
                n = len(h["choices"])
                h["weights"] = r.choice([[1] * (n + 1), [1] * (n - 1), [0] * n, [-1] + [1] * (n - 1),
                                         [1] * (n - 1) + [-0.5], [0] * (n - 1) + [1], [2] * n])
                if not h["weights"] and n == 1:
                    h["weights"] = [0]
            return h
        what = r.choice(["swap", "equal", "default", "log", "param", "near"])
        lo, hi = h["lower"], h["upper"]
        if what == "swap":
            h["lower"], h["upper"] = hi, lo
        elif what == "equal":
            h["upper"] = lo
            if "default" in h:
                h["default"] = lo
        elif what == "default":
            h["default"] = self.illegal(h)
            while isinstance(h["default"], (str, dict)):
                h["default"] = self.illegal(h)
        elif what == "near":
            h["default"] = r.choice([lo, hi])
        elif what == "log":
            h["log"] = True
            h["lower"] = r.choice([0, -1, -5]) if t[1:] == "int" else r.choice([0.0, -1.0, -0.125])
            h["upper"] = r.choice([1, 5, 10]) if t[1:] == "int" else r.choice([1.0, 10.0])
            h.pop("default", None)
            if "mu" in h:
                h["mu"] = 1
        elif t[0] == "n":
            h["log"] = True
            h["lower"], h["upper"] = (1, 10) if t == "nint" else (1.0, 10.0)
            h["mu"] = r.choice([0, -1, -5.0, 0.5, 2])
            h.pop("default", None)
        elif t[0] == "b":
            h[r.choice(["alpha", "beta"])] = r.choice([0.5, 0, -1, 0.75, 1])
        return h


# -------------------------------------------------------- P22 values and vectors
@suite("P22", 900, 8000, ["value", "vector", "order"], module="HPTrace")
def values_vectors(seed):
    g = HG(mix(seed, "P22"))
    r = g.r
    for j in range(3):
        h = g.hp()
        g.add("decl", "h", {"hp": h})
        g.add("values", "h", {"vals": distinct([g.value(h) for _ in range(6)]), "np": r.random() < 0.3})
        vs = distinct([g.value(h) for _ in range(4)] + [g.illegal(h) for _ in range(4)])
        r.shuffle(vs)
        g.add("values", "h", {"vals": vs})
        g.add("vectors", "h", {"vecs": vectors(g, h)})
        if h["t"] == "ord":
            g.add("order", "h", {})
    return g.program()


def distinct(xs):
    out = []
    for x in xs:
        if not any(type(x) is type(y) and x == y for y in out):
            out.append(x)
    return out


def vectors(g, h):
    r = g.r
    t = h["t"]
    if t in ("uint", "nint", "bint"):
        n = h["upper"] - h["lower"] + 1
        vs = [["step", r.choice([0, n - 1, r.randrange(n), r.randrange(n), 1])] for _ in range(4)]
        # legality of vectors is up to a relative tolerance of 1e-5
        if max(abs(h["lower"]), abs(h["upper"])) < 5000:
            vs += [["at", r.choice([-0.25, 1.25, 1.5, -1.0, 2.0])], ["between", r.randrange(n - 1)]]
        return vs
    if t in ("ufloat", "nfloat", "bfloat"):
        return [["at", r.choice([0.0, 1.0, 0.5, 0.25, r.randrange(1000) / 1000])] for _ in range(4)] + \
            [["at", r.choice([-0.25, 1.25, 1.001, -0.001, -1e-4, 1.0001])] for _ in range(2)]
    n = len(g.vals(h))
    vs = [["step", r.choice([0, n - 1, r.randrange(n)])] for _ in range(3)]
    if t == "const":
        vs = [["step", 1], ["step", 0], ["step", 2]]
    elif r.random() < 0.5:
        vs.append(r.choice([["below", n], ["below", r.randint(1, n)], ["above", r.randrange(n)]]))
    return vs + [["step", r.choice([n, n + 1, -1, -2])] if t != "const" else ["step", -1],
                 ["between", r.choice([0, n - 1, -1])]]


# --------------------------------------------------------------- P23 neighbours
@suite("P23", 900, 8000, ["hpneigh"], module="HPTrace")
def hp_neighbours(seed):
    g = HG(mix(seed, "P23"))
    r = g.r
    for j in range(3):
        h = g.hp(big=0.35)
        g.add("decl", "h", {"hp": h})
        for _ in range(4):
            g.add("hpneigh", "h", {"v": g.value(h), "n": r.choice([1, 2, 3, 4, 5, 10, 20, 40, 150]),
                                   "std": r.choice([None, None, 0.2, 0.05, 0.5, 1.0, 0.01]),
                                   "seed": r.randrange(10**6)})
        if h["t"] in ("uint", "nint", "bint") and h["upper"] - h["lower"] <= 140 and r.random() < 0.4:
            # all the others
            n = h["upper"] - h["lower"]
            for v in r.sample(range(h["lower"], h["upper"] + 1), min(n + 1, 12)):
                g.add("hpneigh", "h", {"v": v, "n": n + r.choice([0, 0, 1, 9]), "std": None, "seed": 1})
        if h["t"] not in ("const",):
            g.add("badneigh", "h", {"u": r.choice([-0.5, 1.5, -1.0, 1.25]) if h["t"] not in ("cat", "ord")
                                    else r.choice([-1, 0.5, len(g.vals(h)), 1.25]), "n": r.choice([1, 3])})
    return g.program()


# --------------------------------------------------------------------- P24 draws
@suite("P24", 700, 6000, ["draw"], module="HPTrace")
def draws(seed):
    g = HG(mix(seed, "P24"))
    r = g.r
    h = g.hp(big=0.35)
    g.add("decl", "h", {"hp": h})
    for n in (None, r.choice([0, 1, 2, 5, 30]), r.choice([10, 64, 200])):
        g.add("draw", "h", {"n": n, "seed": r.randrange(10**6)})
    h = frequency_hp(g)
    g.add("decl", "f", {"hp": h})
    g.add("freq", "f", {"n": r.choice([4000, 12000]), "seed": r.randrange(10**6), "bins": r.choice([2, 3, 5, 8])})
    if r.random() < 0.15:
        h = frequency_hp(g, ["cat", "cat", "uint"])
        g.add("decl", "f", {"hp": h})
        g.add("freq", "f", {"n": 1500, "seed": r.randrange(10**6), "bins": 3, "one": True})
    return g.program()


def frequency_hp(g, kinds=None):
    """One whose frequencies are determined."""
    r = g.r
    while True:
        h = g.hp(kinds, tuples=False, big=0.6)
        t = h["t"]
        if t in ("cat", "ord"):
            if len(g.vals(h)) <= 12:
                return h
        elif t == "const":
            return h
        elif t == "uint":
            if not h["log"] and h["upper"] - h["lower"] < 20 or h["upper"] - h["lower"] >= 300 * (1 + 3 * h["log"]):
                return h
        elif t == "ufloat":
            return h
        elif t[0] == "n":
            if t == "nfloat" or not h["log"] and h["upper"] - h["lower"] >= 300:
                return h
        elif t[0] == "b":
            h["alpha"], h["beta"] = r.randint(1, 5), r.randint(1, 5)
            h.pop("default", None)
            if t == "bfloat" or (h["upper"] - h["lower"] >= 1000 and not h["log"]):
                return h


# ---------------------------------------------------------------- P25 declaring
@suite("P25", 900, 8000, ["decl"], module="HPTrace")
def declaring(seed):
    g = HG(mix(seed, "P25"))
    for j in range(6):
        h = g.hp(default=0.5) if g.r.random() < 0.4 else g.bad()
        g.add("decl", f"h{j}", {"hp": h})
    return g.program()


# ------------------------------------------------- P26 conversions, copies, equality
@suite("P26", 900, 8000, ["uniform", "float", "integer", "same", "copy", "hpeq"], module="HPTrace")
def conversions(seed):
    g = HG(mix(seed, "P26"))
    r = g.r
    h = g.hp()
    g.add("decl", "h", {"hp": h})
    t = h["t"]
    for form in r.sample(["copy", "shallow", "deep", "pickle"], 2):
        g.add("derive", "x", {"src": "h", "how": "same", "form": form})
        g.add("hpeq", "x", {"s2": "h"})
    if t not in ("ord", "const"):
        g.add("derive", "u", {"src": "h", "how": "uniform"})
        g.add("values", "u", {"vals": distinct([g.value(h) for _ in range(3)])})
        if r.random() < 0.5:
            g.add("derive", "u2", {"src": "u", "how": "uniform"})
            g.add("hpeq", "u", {"s2": "u2"})
    if t in ("uint", "nint", "bint"):
        g.add("derive", "f", {"src": "h", "how": "float"})
        g.add("values", "f", {"vals": distinct([g.value(h) for _ in range(3)])})
        if t == "uint" and r.random() < 0.5:
            g.add("derive", "i", {"src": "f", "how": "integer"})
    if t in ("ufloat", "nfloat", "bfloat"):
        g.add("derive", "i", {"src": "h", "how": "integer"})
    for j in range(2):
        g.add("derive", "k", {"src": "h", "how": "copy", "kw": changes(g, h)})
    o = similar(g, h)
    g.add("decl", "o", {"hp": o})
    g.add("hpeq", "h", {"s2": "o"})
    g.add("hpeq", "h", {"s2": "h"})
    g.add("decl", "p", {"hp": g.hp(name=h["name"])})
    g.add("hpeq", "h", {"s2": "p"})
    return g.program()


def changes(g, h):
    r = g.r
    t = h["t"]
    kw = {}
    for _ in range(r.randint(0, 2)):
        k = r.choice(["name", "default", "meta", "range", "prior"])
        if k == "name":
            kw["name"] = r.choice(NAMES)
        elif k == "meta":
            kw["meta"] = r.choice([{"k": 2}, {"z": [1]}, None, {}])
        elif k == "default" and t != "const":
            kw["default"] = g.value(h)
        elif k == "range":
            if t == "cat":
                kw["choices"] = h["choices"] + ["more"] if r.random() < 0.5 else h["choices"][::-1]
            elif t == "ord":
                kw["sequence"] = h["sequence"] + ["more"] if r.random() < 0.5 else h["sequence"][::-1]
            elif t == "const":
                kw["value"] = r.choice([5, "other", 0])
            else:
                kw["upper"] = h["upper"] + r.choice([1, 7])
        elif k == "prior":
            if t == "cat":
                kw["weights"] = g.weights(len(h["choices"])) if r.random() < 0.7 else None
            elif t in ("nint", "nfloat"):
                kw["sigma"] = h["sigma"] * 2
            elif t in ("bint", "bfloat"):
                kw["alpha"] = h["alpha"] + 1
            elif t in ("uint", "ufloat") and h["lower"] > 0:
                kw["log"] = not h["log"]
    return kw


def similar(g, h):
    """The same hyperparameter, with nothing, or one thing changed."""
    r = g.r
    o = dict(h)
    t = h["t"]
    k = r.choice(["none", "none", "name", "meta", "default", "order", "range", "prior", "scale", "log", "near", "near"])
    if k == "name":
        o["name"] = h["name"] + "x"
    elif k == "meta":
        o["meta"] = {"other": 1}
    elif k == "default" and t != "const":
        o["default"] = g.value(h)
    elif k == "order" and t in ("cat", "ord"):
        key = "choices" if t == "cat" else "sequence"
        p = list(range(len(h[key])))
        r.shuffle(p)
        o[key] = [h[key][j] for j in p]
        if h.get("weights"):
            o["weights"] = [h["weights"][j] for j in p] if r.random() < 0.7 else h["weights"]
        if "default" not in o and r.random() < 0.6:
            o["default"] = h[key][0]
    elif k == "scale" and h.get("weights"):
        o["weights"] = [2 * w for w in h["weights"]]
    elif k == "range" and "upper" in h:
        o["upper"] = h["upper"] + 1
    elif k == "range" and t == "const":
        o["value"] = 17
    elif k == "log" and "upper" in h and h["lower"] > 0:
        o["log"] = not h["log"]
    elif k == "near":
        # a little only
        e = 1 + r.choice([1e-3, 1e-4, 1e-6])
        if t == "cat":
            w = list(h.get("weights") or [1] * len(h["choices"]))
            # multiples of a quarter, see describe
            k = int(500 / sum(w))
            w = [x * k for x in w]
            w[r.randrange(len(w))] += 0.25
            o["weights"] = w
        else:
            for x in r.sample(["mu", "sigma", "alpha", "beta", "upper", "default"], 6):
                if isinstance(o.get(x), float):
                    o[x] *= e if x != "default" else 1 / e
                    break
    elif k == "prior":
        if t in ("nint", "nfloat"):
            o["sigma"] = h["sigma"] * 2
        elif t in ("bint", "bfloat"):
            o["beta"] = h["beta"] + 0.5
        elif t == "cat":
            o["weights"] = g.weights(len(h["choices"]))
    return o


# --------------------------------------------------- P27 short ways of declaring
@suite("P27", 700, 6000, ["decl"], module="HPTrace")
def short_ways(seed):
    g = HG(mix(seed, "P27"))
    r = g.r
    for j in range(6):
        h = g.hp(default=0.5) if r.random() < 0.7 else g.bad()
        h["via"] = "api"
        if r.random() < 0.35:
            h = short(g)
        g.add("decl", "h", {"hp": h})
        if r.random() < 0.3:
            g.add("draw", "h", {"n": 5, "seed": r.randrange(10**6)})
    return g.program()


def short(g):
    """What a dictionary can say: bounds, choices or a constant."""
    r = g.r
    h = g.hp(["cat", "const", "uint", "ufloat"])
    h["via"] = "short"
    for k in ("default", "weights", "meta", "astuple"):
        h.pop(k, None)
    h["log"] = False
    if h["t"] == "ufloat":
        h["lower"], h["upper"] = float(h["lower"]), float(h["upper"])
    if h["t"] == "const" and isinstance(h["value"], (dict, list)):
        h["value"] = "c"
    if r.random() < 0.15 and "lower" in h:
        h["lower"], h["upper"] = h["upper"], h["lower"]
    if r.random() < 0.1 and h["t"] == "cat":
        h["choices"] = r.choice([[], h["choices"] + h["choices"][:1]])
    return h


# ----------------------------------------------------------------- P28 densities
@suite("P28", 700, 6000, ["density"], module="HPTrace")
def densities(seed):
    g = HG(mix(seed, "P28"))
    r = g.r
    for j in range(4):
        h = g.hp()
        g.add("decl", "h", {"hp": h})
        vals = [g.value(h) for _ in range(6)]
        if h["t"] in ("uint", "ufloat", "nint", "nfloat", "bint", "bfloat"):
            lo, hi = h["lower"], h["upper"]
            vals += [lo, hi]
            w = hi - lo
            if not h["log"]:
                vals += [lo - w, hi + w]
            if "mu" in h and lo <= h["mu"] <= hi and h["t"] == "nfloat":
                vals.append(h["mu"])
        g.add("density", "h", {"vals": distinct(vals)})
        g.add("density", "h", {"vals": distinct(vals), "all": True})
    return g.program()
