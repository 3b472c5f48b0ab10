"""Runs a program that makes and uses conditions and forbidden clauses on their own.

Like execute.py; the recorded history is validated by spec/TermTrace.tla.
"""
from __future__ import annotations

import copy
import pickle
import signal

import numpy as np

import model as M
from encode import encode
from execute import Timeout, as_numpy
from model import COND, CS, FORB, NA, REL, V, fp_hp, kind

COPY = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}
NOTHING = {"k": "", "t": {"op": "UNKNOWN"}, "child": NA, "at": [], "parents": []}
ALIEN = {"text": "x", "none": None, "int": 3}


def fp(hp):
    return V(fp_hp(hp))


def read(x):
    """The term with fingerprints in place of its hyperparameters."""
    if isinstance(x, (CS.conditions.Condition, CS.conditions.Conjunction)):
        op = next((o for o, c in COND.items() if type(x) is c), "UNKNOWN")
        if op in ("AND", "OR"):
            return {"op": op, "cs": [read(c) for c in x.components]}
        if op == "IN":
            return {"op": op, "p": fp(x.parent), "vs": [V(v) for v in x.values]}
        return {"op": op, "p": fp(x.parent), "v": V(x.value)}
    op = next((o for o, c in FORB.items() if type(x) is c), "UNKNOWN")
    if op == "AND":
        return {"op": op, "cs": [read(c) for c in x.components]}
    if op == "IN":
        return {"op": op, "p": fp(x.hyperparameter), "vs": [V(v) for v in x.values]}
    if op == "EQ":
        return {"op": op, "p": fp(x.hyperparameter), "v": V(x.value)}
    return {"op": op, "l": fp(x.left), "r": fp(x.right)}


def observe(x):
    cond = isinstance(x, (CS.conditions.Condition, CS.conditions.Conjunction))
    conj = hasattr(x, "components")
    o = {"k": "cond" if cond else "forb", "t": read(x), "child": NA, "parents": [],
         "at": [read(d) for d in x.dlcs] if conj else [read(x)]}
    if cond:
        o["child"] = fp(x.child)
        o["parents"] = [fp(h) for h in (x.parents if conj else [x.parent])]
    return o


class TermRun:
    def __init__(self, program):
        self.p = M.decode(program)
        self.hp, self.sp = {}, {}
        self.t, self.desc = {}, {}
        self.ev = []

    def rec(self, **e):
        self.ev.append(e)

    def op_hp(self, s, o):
        sp = o["hp"]
        self.hp[s], self.sp[s] = M.build_hp(sp), sp
        d = M.spec_default(sp)
        h = M.describe_hp(sp, self.hp[s].default_value if d is M.UNKNOWN else d)
        self.rec(op="hp", s=s, h=h)

    # ------------------------------------------------------------------- making
    def make(self, o):
        k, op = o["k"], o["op"]
        table = COND if k == "cond" else FORB
        alien = [ALIEN[a] for a in o.get("alien", [])]
        conv = as_numpy if o.get("np") else lambda v: v
        if op in ("AND", "OR"):
            cs = [self.t[c] for c in o["cs"]]
            return table[op](*cs, *alien)
        if op in REL:
            hs = [self.hp[o["l"]], self.hp[o["r"]]]
            for j, a in enumerate(alien):
                hs[1 - j] = a
            return table[op](*hs)
        args = [self.hp[o["c"]]] if k == "cond" else []
        args.append(self.hp[o["p"]])
        if op == "IN":
            form = {"list": list, "tuple": tuple, "gen": lambda v: (x for x in v)}[o.get("form", "list")]
            return table[op](*args, form([conv(v) for v in o["vs"]]))
        return table[op](*args, conv(o["v"]))

    def op_term(self, s, o):
        err, obs = "", NOTHING
        if any(c not in self.t for c in o.get("cs", [])):
            return
        self.t.pop(s, None)
        try:
            x = self.make(o)
            obs = observe(x)
            self.t[s], self.desc[s] = x, o
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="term", s=s, k=o["k"], top=o["op"], c=o.get("c", ""), p=o.get("p", ""),
                 v=V(o["v"]) if "v" in o else NA, vs=[V(v) for v in o.get("vs", [])],
                 lft=o.get("l", ""), rgt=o.get("r", ""), cs=o.get("cs", []),
                 alien=bool(o.get("alien")), err=err, o=obs)

    def op_termeq(self, s, o):
        a, b = self.t.get(o["a"]), self.t.get(o["b"])
        if a is None or b is None:
            return
        r = dict(err="", eq=False, qe=False, ne=False, other=False, onparent=False)
        try:
            r["eq"], r["qe"] = bool(a == b), bool(b == a)
            r["ne"] = bool(a != b)
            r["other"] = any(bool(a == z) for z in (None, 1, "x", str(a)))
            if hasattr(a, "equivalent_condition_on_parent") and hasattr(b, "equivalent_condition_on_parent"):
                r["onparent"] = bool(a.equivalent_condition_on_parent(b))
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            r["err"] = kind(e)
        self.rec(op="termeq", a=o["a"], b=o["b"], **r)

    # ------------------------------------------------------------------- copying
    def atoms(self, s):
        d = self.desc[s]
        return [a for c in d["cs"] for a in self.atoms(c)] if d["op"] in ("AND", "OR") else [s]

    def under(self, s):
        out = []
        for a in self.atoms(s):
            d = self.desc[a]
            out += [d["l"], d["r"]] if d["op"] in REL else [d["p"]]
            if d["k"] == "cond":
                out.append(d["c"])
        return sorted(set(out))

    def place(self, x, names, shift):
        """Give the term positions in a vector."""
        pos = {n: len(names) - 1 - j + shift if shift else j for j, n in enumerate(names)}
        x.set_vector_idx(pos)
        return pos

    def vector(self, s, pos, vals):
        v = np.full(max(pos.values()) + 1, np.nan)
        for k, x in vals.items():
            hp = self.hp[k]
            if hp.name in pos:
                v[pos[hp.name]] = hp.to_vector(x)
        return v

    def ask(self, x, how, arg):
        f = {"value": ("satisfied_by_value", "is_forbidden_value"),
             "vector": ("satisfied_by_vector", "is_forbidden_vector"),
             "array": ("satisfied_by_vector_array", "is_forbidden_vector_array")}[how]
        g = getattr(x, f[0]) if hasattr(x, f[0]) else getattr(x, f[1])
        return g(arg)

    def by_value(self, x, xs):
        return [bool(self.ask(x, "value", {self.hp[k].name: v for k, v in vals.items()})) for vals in xs]

    def by_vector(self, x, s, pos, xs):
        return [bool(self.ask(x, "vector", self.vector(s, pos, vals))) for vals in xs]

    def by_array(self, x, s, pos, xs):
        arr = np.array([self.vector(s, pos, vals) for vals in xs]).T
        out = self.ask(x, "array", arr)
        assert out.shape == (len(xs),)
        return [bool(b) for b in out]

    def op_termcopy(self, s, o):
        if s not in self.t:
            return
        x = self.t[s]
        err, obs, eq, apart = "", NOTHING, False, False
        at = self.atoms(s)
        dup = len(set(at)) < len(at)
        try:
            y = COPY[o["how"]](x)
            obs = observe(y)
            eq = bool(x == y) and bool(y == x) and not x != y
            names = sorted({self.hp[h].name for h in self.under(s)})
            p = self.place(x, names, 0)
            q = self.place(y, names, 3)
            want = self.by_value(x, o["xs"])
            apart = y is not x and self.by_vector(x, s, p, o["xs"]) == want \
                and self.by_vector(y, s, q, o["xs"]) == want and self.by_array(x, s, p, o["xs"]) == want
            if not dup:
                self.t[o["to"]] = y
                self.desc[o["to"]] = self.desc[s]
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        if dup or err:
            self.t.pop(o["to"], None)
        self.rec(op="termcopy", s=s, s2=o["to"], err=err, o=obs, eq=eq, apart=apart, dup=dup)

    # ----------------------------------------------------------------- evaluating
    def op_termeval(self, s, o):
        if s not in self.t:
            return
        x, xs = self.t[s], o["xs"]
        names = sorted({self.hp[h].name for h in self.under(s)})
        out = []
        for how in ("value", "vector", "array"):
            err, r = "", []
            try:
                if how == "value":
                    r = self.by_value(x, xs)
                else:
                    pos = self.place(x, names, o.get("shift", 0))
                    r = (self.by_vector if how == "vector" else self.by_array)(x, s, pos, xs)
            except Timeout:
                raise
            except Exception as e:  # noqa: BLE001
                err = kind(e)
            out.append({"how": how, "err": err, "r": r})
        self.rec(op="termeval", s=s, out=out, xs=[[[k, V(v)] for k, v in vals.items()] for vals in xs])

    def run(self):
        for op, slot, o in self.p["steps"]:
            signal.setitimer(signal.ITIMER_REAL, self.p.get("limit", 20))
            n = len(self.ev)
            try:
                getattr(self, "op_" + op)(slot, o)
            except Timeout:
                del self.ev[n:]
                self.rec(op="hang", what=op)
                break
            except Exception as e:  # noqa: BLE001
                del self.ev[n:]
                self.rec(op="crash", what=op, _why=repr(e))
                break
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        return {"ev": self.ev}


def execute_terms(prog):
    return encode(TermRun(prog).run())[0]
