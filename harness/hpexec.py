"""Runs a program on single hyperparameters against the real code.

Like execute.py: steps are [operation, slot, arguments], the recorded history is
validated by spec/HPTrace.tla.
"""
from __future__ import annotations

import copy
import math
import pickle
import signal

import numpy as np

import model as M
import older
from encode import encode
from execute import Timeout
from model import CS, NA, NonInt, V, cv, kind

from ConfigSpace.api import distributions as AD

SCALE = 30000
Q = 65536
NUM = M.INTS + M.FLOATS


def choices_of(sp):
    vals = sp["choices"] if sp["t"] == "cat" else sp["sequence"] if sp["t"] == "ord" else [sp["value"]]
    return [value_of(v) for v in vals]


def value_of(v):
    # programs are kept as JSON, which has no tuples
    if isinstance(v, dict) and set(v) == {"tuple"}:
        return tuple(v["tuple"])
    if v == {"none": 1}:
        return None
    if v == {"nan": 1}:
        return float("nan")
    return M.decode(v)


def position(sp, v):
    """Where a number lies between the bounds, on its scale."""
    lo, hi = sp["lower"], sp["upper"]
    if sp.get("log"):
        return (math.log(v) - math.log(lo)) / (math.log(hi) - math.log(lo))
    return (v - lo) / (hi - lo)


def vector_at(sp, v):
    return position(sp, v)


def measure(sp, v):
    if sp["t"] not in NUM or not isinstance(v, (int, float)) or isinstance(v, bool):
        return 0
    try:
        p = position(sp, v)
    except (ValueError, ZeroDivisionError):
        return 0
    return round(SCALE * p) if -1 < p < 2 else 0


def half_step(sp, v):
    if sp["t"] not in M.INTS:
        return 1
    m = measure(sp, v)
    lo = measure(sp, v - 0.5) if not sp.get("log") or v - 0.5 > 0 else m
    return max(abs(measure(sp, v + 0.5) - m), abs(m - lo)) + 1


def meta_code(m):
    return V("meta " + cv(m))


def name_code(n):
    return V("name " + repr(n))


def kinds(vals):
    """The types of the choices, by name."""
    return [type(M.plain(v)).__name__ for v in vals]


def describe(sp):
    t = sp["t"]
    d = {"t": "int" if t in M.INTS else "float" if t in M.FLOATS else t,
         "pr": t[0] if t in NUM else "u", "log": bool(sp.get("log")), "lo": NA, "hi": NA,
         "mlo": 0, "mhi": SCALE, "ni": [], "en": False, "n": NA, "vals": [],
         "set": bool(sp.get("set")) or bool(sp.get("wset")), "w": [], "ws": False,
         "def": V(value_of(sp["default"])) if "default" in sp else NA, "dgiven": "default" in sp,
         "dint": True, "zero": V(0), "one": V(1), "mu": NA, "mmu": 0, "sg": NA, "al": NA, "be": NA,
         "a4": 4, "b4": 4, "ks": [], "name": name_code(sp["name"]), "named": isinstance(sp["name"], str),
         "meta": meta_code(sp.get("meta")), "clo": NA, "fhi": NA, "cn": NA, "rdef": NA}
    if t in ("cat", "ord", "const"):
        vals = choices_of(sp)
        d.update(vals=[V(v) for v in vals], ks=kinds(vals), n=len(vals))
        if sp.get("weights") is not None:
            d.update(ws=True, w=[int(4 * w) for w in sp["weights"]])
        return d
    lo, hi = sp["lower"], sp["upper"]
    d.update(lo=V(lo), hi=V(hi))
    if t in M.INTS:
        n = hi - lo + 1
        d.update(n=n, ni=NonInt(lo, hi))
        if n <= 40:
            d["en"] = True
            d["_all"] = [V(v) for v in range(lo, hi + 1)]
        dv = sp.get("default")
        d["dint"] = isinstance(dv, (int, float)) and float(dv).is_integer()
    else:
        clo, fhi = math.ceil(lo), math.floor(hi)
        d.update(clo=V(clo), fhi=V(fhi), cn=fhi - clo + 1)
    if t[0] == "n":
        d.update(mu=V(sp["mu"]), mmu=measure(sp, sp["mu"]), sg=V(sp["sigma"]))
    if t[0] == "b":
        d.update(al=V(sp["alpha"]), be=V(sp["beta"]), a4=int(4 * sp["alpha"]), b4=int(4 * sp["beta"]))
    return d


def build(sp):
    via = sp.get("via", "class")
    t = sp["t"]
    sp = dict(sp)
    for k in ("choices", "sequence"):
        if k in sp:
            sp[k] = choices_of(sp)
            if sp.get("set"):
                sp[k] = set(sp[k])
            elif sp.get("astuple"):
                sp[k] = tuple(sp[k])
    if sp.get("wset"):
        sp["weights"] = set(sp["weights"])
    if t == "const":
        sp["value"] = value_of(sp["value"])
    if "default" in sp:
        sp["default"] = value_of(sp["default"])
    if via == "short":
        if t == "cat":
            x = sp["choices"]
        elif t == "const":
            x = sp["value"]
        else:
            x = (sp["lower"], sp["upper"])
        return CS.ConfigurationSpace({sp["name"]: x})[sp["name"]]
    if via == "api" and t != "const":
        kw = {}
        if "default" in sp:
            kw["default"] = sp["default"]
        if sp.get("meta") is not None:
            kw["meta"] = sp["meta"]
        if t in ("cat", "ord"):
            if sp.get("weights") is not None:
                kw["weights"] = sp["weights"]
            if t == "ord":
                kw["ordered"] = True
            return CS.Categorical(sp["name"], sp["choices" if t == "cat" else "sequence"], **kw)
        if sp.get("log"):
            kw["log"] = True
        if t[0] == "n":
            kw["distribution"] = AD.Normal(sp["mu"], sp["sigma"])
        elif t[0] == "b":
            kw["distribution"] = AD.Beta(sp["alpha"], sp["beta"])
        f = CS.Integer if t in M.INTS else CS.Float
        return f(sp["name"], bounds=(sp["lower"], sp["upper"]), **kw)
    return M.build_hp(sp)


NOTHING = {"name": NA, "t": "", "pr": "", "log": False, "lo": NA, "hi": NA, "vals": [], "pw": [],
           "mu": NA, "sg": NA, "al": NA, "be": NA, "meta": NA, "n": NA, "def": NA, "mdef": 0,
           "tol": 0, "dlegal": False, "rdef": NA, "ks": [], "dty": False}


def observe(hp):
    """What a hyperparameter says about itself."""
    for t, c in M.CLS.items():
        if type(hp) is c:
            break
    else:
        return {**NOTHING, "t": "unknown"}
    dv = hp.default_value
    o = {**NOTHING, "name": name_code(hp.name),
         "t": "int" if t in M.INTS else "float" if t in M.FLOATS else t,
         "meta": meta_code(hp.meta), "def": V(dv), "dlegal": bool(np.all(hp.legal_value(dv))),
         "dty": M.good_type(hp, dv)}
    o["n"] = NA if hp.size == np.inf else int(hp.size)
    if t == "cat":
        o["vals"] = [V(v) for v in hp.choices]
        o["ks"] = kinds(hp.choices)
        o["pw"] = [round(1e6 * float(p)) for p in hp.probabilities]
    elif t == "ord":
        o["vals"] = [V(v) for v in hp.sequence]
        o["ks"] = kinds(hp.sequence)
    elif t == "const":
        o["vals"] = [V(hp.value)]
        o["ks"] = kinds([hp.value])
    else:
        sp = {"t": t, "lower": M.plain(hp.lower), "upper": M.plain(hp.upper), "log": hp.log}
        dv = M.plain(dv)
        o.update(pr=t[0], log=bool(hp.log), lo=V(hp.lower), hi=V(hp.upper), mdef=measure(sp, dv),
                 tol=half_step(sp, dv))
        o["rdef"] = V(min(max(round(dv), math.ceil(sp["lower"])), math.floor(sp["upper"])))
        if t[0] == "n":
            o.update(mu=V(hp.mu), sg=V(hp.sigma))
        if t[0] == "b":
            o.update(al=V(hp.alpha), be=V(hp.beta))
    return o


def spec_of(hp, src):
    """The description of a derived hyperparameter (only for choosing values)."""
    for t, c in M.CLS.items():
        if type(hp) is c:
            break
    sp = {"t": t, "name": hp.name, "default": M.plain(hp.default_value)}
    if t == "cat":
        sp["choices"] = list(hp.choices)
        sp["weights"] = list(hp.weights) if hp.weights is not None else None
    elif t == "ord":
        sp["sequence"] = list(hp.sequence)
    elif t == "const":
        sp["value"] = hp.value
    else:
        sp.update(lower=M.plain(hp.lower), upper=M.plain(hp.upper), log=hp.log)
        for a in ("mu", "sigma", "alpha", "beta"):
            if hasattr(hp, a):
                sp[a] = getattr(hp, a)
    return sp


def array_of(vals):
    """The array a user would make of the values."""
    if vals and all(type(v) is type(vals[0]) for v in vals) and not isinstance(vals[0], tuple) \
            and isinstance(vals[0], (int, float, str)):
        return np.array(vals)
    if all(type(v) in (int, float) for v in vals):
        return np.array(vals, dtype=float)
    a = np.empty(len(vals), dtype=object)
    for j, v in enumerate(vals):
        a[j] = v
    return a


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-6))


def equal(a, b):
    return len(a) == len(b) and all(M.plain(x) == M.plain(y) for x, y in zip(a, b))


def beta_cdf(x, a, b):
    """Of a beta distribution with integral parameters."""
    n = a + b - 1
    return sum(math.comb(n, j) * x**j * (1 - x) ** (n - j) for j in range(a, n + 1))


def normal_cdf(x):
    return 0.5 * (1 + math.erf(x / math.sqrt(2)))


class HpRun:
    def __init__(self, program):
        self.p = program
        self.h, self.sp = {}, {}
        self.ev = []
        M.OLDER[0] = False

    def view(self, s):
        return older.Hp(self.h[s]) if self.p.get("older") else self.h[s]

    def rec(self, **e):
        self.ev.append(e)

    # ----------------------------------------------------------------- declaring
    def op_decl(self, s, o):
        sp = o["hp"]
        err, obs = "", NOTHING
        try:
            hp = build(sp)
            obs = observe(hp)
            self.h[s], self.sp[s] = hp, sp
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
            self.h.pop(s, None)
        self.rec(op="decl", s=s, d=describe(sp), err=err, o=obs)

    def op_derive(self, s, o):
        src, how = o["src"], o["how"]
        if src not in self.h:
            return
        hp = self.h[src]
        before = repr(observe(hp))
        d = describe(self.sp[src])
        new, err, obs, eq, qe = None, "", NOTHING, False, False
        sp = dict(self.sp[src])
        try:
            if how == "uniform":
                new = hp.to_uniform()
            elif how == "float":
                new = hp.to_float()
            elif how == "integer":
                new = hp.to_integer()
            elif how == "same":
                form = o.get("form", "copy")
                new = (hp.copy() if form == "copy" else copy.copy(hp) if form == "shallow" else
                       copy.deepcopy(hp) if form == "deep" else pickle.loads(pickle.dumps(hp)))
            else:
                kw = dict(o["kw"])
                names = {"default": "default_value"}
                sp.update(kw)
                if "default" not in sp:
                    sp["default"] = M.plain(hp.default_value)
                if sp["t"] == "const":
                    sp.pop("default", None)
                d = describe(sp)
                for k in ("choices", "sequence"):
                    if k in kw:
                        kw[k] = [value_of(v) for v in kw[k]]
                new = hp.copy(**{names.get(k, k): value_of(v) for k, v in kw.items()})
            obs = observe(new)
            eq, qe = bool(new == hp), bool(hp == new)
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="derive", s=s, src=src, how=how, d=d, err=err, o=obs, eq=eq, qe=qe,
                 kept=repr(observe(hp)) == before)
        if err:
            self.h.pop(s, None)
        else:
            self.h[s], self.sp[s] = new, spec_of(new, sp)

    def op_hpeq(self, s, o):
        t = o["s2"]
        if s in self.h and t in self.h:
            a, b = self.h[s], self.h[t]
            self.rec(op="hpeq", s=s, s2=t, eq=bool(a == b), qe=bool(b == a), ne=bool(a != b))

    # --------------------------------------------------------- values and vectors
    def op_values(self, s, o):
        if s not in self.h:
            return
        hp, sp = self.view(s), self.sp[s]
        vals = [value_of(v) for v in o["vals"]]
        xs = [{"v": V(v), "m": measure(sp, v), "forms": []} for v in vals]
        legal = []
        for x, v in zip(xs, vals):
            f = {"how": "scalar", "lg": False, "err": "", "u": NA, "uc": NA, "ul": False, "b": NA, "ty": False}
            try:
                g = np.float64(v) if type(v) is float and o.get("np") else \
                    np.int64(v) if type(v) is int and o.get("np") else v
                f["lg"] = bool(hp.legal_value(g))
                if f["lg"]:
                    legal.append((x, v))
                    u = hp.to_vector(g)
                    b = hp.to_value(u)
                    f.update(u=self.pos(sp, u), uc=V(float(u)), ul=bool(hp.legal_vector(u)), b=V(b),
                             ty=M.good_type(self.h[s], b))
            except Timeout:
                raise
            except Exception as e:  # noqa: BLE001
                f["err"] = kind(e)
            x["forms"].append(f)
        ways = [("array", array_of)]
        if not any(isinstance(v, (tuple, list)) for v in (choices_of(sp) if sp["t"] not in NUM else [])):
            ways += [("list", list), ("tuple", tuple)]
        for how, conv in ways:
            fs = [{"how": how, "lg": False, "err": "", "u": NA, "uc": NA, "ul": False, "b": NA, "ty": False}
                  for _ in vals]
            try:
                lg = hp.legal_value(conv(vals))
                assert len(lg) == len(vals)
                for f, b in zip(fs, lg):
                    f["lg"] = bool(b)
                if legal:
                    us = hp.to_vector(conv([v for _, v in legal]))
                    assert len(us) == len(legal)
                    uls = hp.legal_vector(np.asarray(us))
                    bs = hp.to_value(np.asarray(us))
                    it = iter(zip(us, uls, bs))
                    for x, f in zip(xs, fs):
                        if x["forms"][0]["lg"]:
                            u, ul, b = next(it)
                            f.update(u=self.pos(sp, u), uc=V(float(u)), ul=bool(ul), b=V(b),
                                     ty=M.good_type(self.h[s], b))
            except Timeout:
                raise
            except Exception as e:  # noqa: BLE001
                for f in fs:
                    f["err"] = kind(e)
            for x, f in zip(xs, fs):
                x["forms"].append(f)
        self.rec(op="values", s=s, xs=xs)

    def pos(self, sp, u):
        u = float(u)
        if sp["t"] in NUM:
            return round(u * Q) if -1 <= u <= 2 else NA
        return int(u) if u.is_integer() else NA

    def op_vectors(self, s, o):
        """Vectors as ["step", k], ["between", k], ["below", k], ["above", k] or ["at", u]."""
        if s not in self.h:
            return
        hp, sp = self.view(s), self.sp[s]
        xs, us = [], []
        for what, k in o["vecs"]:
            if sp["t"] in M.INTS:
                if what == "at":
                    u, k = k, NA if k not in (0, 1) else int(k * (sp["upper"] - sp["lower"]))
                else:
                    u = vector_at(sp, sp["lower"] + k + (0.5 if what == "between" else 0))
                    k = NA if what == "between" else k
            elif sp["t"] in M.FLOATS:
                u = k if what == "at" else 0.5
                k = NA
            elif what in ("below", "above"):
                # as far from a whole number as the last digit allows
                u = float(np.nextafter(k, k - 1 if what == "below" else k + 1))
            else:
                u = float(k) if what != "between" else k + 0.5
                k = int(u) if u.is_integer() and u >= 0 else NA
            us.append(u)
            xs.append({"k": k, "u": round(u * Q) if sp["t"] in NUM else k, "forms": []})
        legal = []
        for x, u in zip(xs, us):
            f = {"how": "scalar", "lg": False, "err": "", "v": NA, "m": 0, "same": False, "ty": False}
            try:
                f["lg"] = bool(hp.legal_vector(u))
                if f["lg"]:
                    legal.append(u)
                    v = hp.to_value(u)
                    f.update(v=V(v), m=measure(sp, M.plain(v)), same=close(hp.to_vector(v), u),
                             ty=M.good_type(self.h[s], v))
            except Timeout:
                raise
            except Exception as e:  # noqa: BLE001
                f["err"] = kind(e)
            x["forms"].append(f)
        fs = [{"how": "array", "lg": False, "err": "", "v": NA, "m": 0, "same": False, "ty": False} for _ in us]
        try:
            lg = hp.legal_vector(np.array(us, dtype=float))
            for f, b in zip(fs, lg):
                f["lg"] = bool(b)
            if legal:
                vs = hp.to_value(np.array(legal))
                back = hp.to_vector(vs)
                it = iter(zip(vs, back, legal))
                for x, f in zip(xs, fs):
                    if x["forms"][0]["lg"]:
                        v, b, u = next(it)
                        f.update(v=V(v), m=measure(sp, M.plain(v)), same=close(b, u),
                                 ty=M.good_type(self.h[s], v))
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            for f in fs:
                f["err"] = kind(e)
        for x, f in zip(xs, fs):
            x["forms"].append(f)
        self.rec(op="vectors", s=s, xs=xs)

    # ---------------------------------------------------------------- neighbours
    def op_hpneigh(self, s, o):
        if s not in self.h:
            return
        hp = self.view(s)
        v, n, seed = value_of(o["v"]), o["n"], o["seed"]
        kw = {} if o.get("std") is None else {"std": o["std"]}
        err, out, again, forms, exact, own, ty = "", [], True, True, True, False, True
        try:
            got = hp.neighbors_values(v, n, seed=np.random.RandomState(seed), **kw)
            out = [V(x) for x in got]
            ty = all(M.good_type(self.h[s], x) for x in got)
            exact = len({repr(x) for x in got}) == len(got)
            own = any(M.plain(x) == v for x in got)
            again = equal(hp.neighbors_values(v, n, seed=np.random.RandomState(seed), **kw), got)
            vec = hp.neighbors_vectorized(hp.to_vector(v), n, seed=np.random.RandomState(seed), **kw)
            forms = len(vec) == len(got) and (len(vec) == 0 or (
                equal(hp.to_value(np.asarray(vec)), got) and bool(np.all(hp.legal_vector(np.asarray(vec))))))
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="hpneigh", s=s, v=V(v), n=n, err=err, out=out, again=again, forms=forms,
                 exact=exact, own=own, ty=ty)
        try:
            c = hp.get_num_neighbors(v)
            c, err = NA if c == np.inf else int(c), ""
        except Exception as e:  # noqa: BLE001
            c, err = NA, kind(e)
        self.rec(op="count", s=s, v=V(v), err=err, out=c)

    def op_badneigh(self, s, o):
        if s not in self.h:
            return
        hp = self.view(s)
        err = ""
        try:
            hp.neighbors_vectorized(o["u"], o["n"], seed=np.random.RandomState(0))
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="badneigh", s=s, err=err)

    # ------------------------------------------------------------------- drawing
    def op_draw(self, s, o):
        if s not in self.h:
            return
        hp = self.view(s)
        n, seed = o["n"], o["seed"]
        rs = np.random.RandomState
        err, out, scalar, again, forms, vl, ty = "", [], False, True, True, True, True
        try:
            if n is None:
                got = hp.sample_value(seed=rs(seed))
                scalar = not isinstance(got, np.ndarray)
                again = M.plain(hp.sample_value(seed=rs(seed))) == M.plain(got)
                u = hp.sample_vector(seed=rs(seed))
                vl = bool(hp.legal_vector(u))
                forms = (M.plain(hp.to_value(u)) == M.plain(got)
                         and M.plain(hp.rvs(random_state=rs(seed))) == M.plain(got)
                         and M.plain(hp.rvs(random_state=seed)) == M.plain(got))
                out = [V(got), V(hp.rvs(random_state=np.random.default_rng(seed)))]
                if not bool(hp.legal_value(got)):
                    forms = False
                out = out[:1]
                ty = M.good_type(self.h[s], got)
            else:
                got = hp.sample_value(n, seed=rs(seed))
                out = [V(x) for x in got]
                ty = all(M.good_type(self.h[s], x) for x in got)
                again = equal(hp.sample_value(n, seed=rs(seed)), got)
                u = hp.sample_vector(n, seed=rs(seed))
                vl = bool(np.all(hp.legal_vector(u)))
                forms = (equal(hp.to_value(u), got) and equal(hp.rvs(n, random_state=rs(seed)), got)
                         and equal(hp.rvs(n, random_state=seed), got)
                         and all(bool(b) for b in hp.legal_value(array_of([M.plain(x) for x in got]))))
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="draw", s=s, n=1 if n is None else n, err=err, out=out, scalar=scalar,
                 wantscalar=n is None, vlegal=vl, again=again, forms=forms, ty=ty)

    def op_freq(self, s, o):
        if s not in self.h:
            return
        hp, sp = self.view(s), self.sp[s]
        n = o["n"]
        t = sp["t"]
        err, cnt, w = "", [], []
        try:
            if o.get("one"):
                # one after the other from the same random state
                rs = np.random.RandomState(o["seed"])
                got = [M.plain(hp.sample_value(seed=rs)) for _ in range(n)]
            else:
                got = [M.plain(x) for x in hp.sample_value(n, seed=np.random.RandomState(o["seed"]))]
            if t not in NUM:
                vals = choices_of(sp)
                cnt = [sum(1 for g in got if g == v) for v in vals]
                w = [1] * len(vals)
            else:
                lo, hi = sp["lower"], sp["upper"]
                if t == "uint" and not sp.get("log") and hi - lo < 20:
                    cnt = [sum(1 for g in got if g == v) for v in range(lo, hi + 1)]
                    w = [1] * len(cnt)
                else:
                    b = o["bins"]
                    if t in M.INTS:
                        # only ranges that are large against the number of bins
                        cuts = [0.0] + [position(sp, self.edge(sp, j / b)) for j in range(1, b)] + [1.0]
                    else:
                        cuts = [j / b for j in range(b + 1)]
                    ps = [position(sp, g) for g in got]
                    cnt = [sum(1 for p in ps if (cuts[j] <= p < cuts[j + 1])
                               or (j == b - 1 and cuts[j + 1] <= p <= 1 + 1e-12))
                           for j in range(b)]
                    cdf = self.cdf(sp)
                    w = [round(1000 * (cdf(cuts[j + 1]) - cdf(cuts[j]))) for j in range(b)]
                    # thousandths are too coarse for rare bins
                    while len(w) > 1 and min(w) < 20:
                        j = w.index(min(w))
                        k = j + 1 if j == 0 else j - 1
                        w[k] += w[j]
                        cnt[k] += cnt[j]
                        del w[j], cnt[j]
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="freq", s=s, n=n, err=err, cnt=cnt, w=w)

    def edge(self, sp, p):
        """The half integer next to a position."""
        lo, hi = sp["lower"], sp["upper"]
        v = lo * (hi / lo) ** p if sp.get("log") else lo + (hi - lo) * p
        return math.floor(v) + 0.5

    def cdf(self, sp):
        t = sp["t"]
        if t[0] == "u":
            return lambda p: p
        if t[0] == "b":
            return lambda p: beta_cdf(min(max(p, 0.0), 1.0), int(sp["alpha"]), int(sp["beta"]))
        # the spread is that at the lower bound
        m, sd = position(sp, sp["mu"]), position(sp, sp["lower"] + sp["sigma"])
        a, z = normal_cdf((0 - m) / sd), normal_cdf((1 - m) / sd)
        return lambda p: (normal_cdf((p - m) / sd) - a) / (z - a)

    # ------------------------------------------------------------------ densities
    def op_density(self, s, o):
        if s not in self.h:
            return
        hp, sp = self.view(s), self.sp[s]
        t = sp["t"]
        vals = [value_of(v) for v in o["vals"]]
        allv = False
        if o.get("all"):
            if t in M.INTS and sp["upper"] - sp["lower"] < 40:
                vals, allv = list(range(sp["lower"], sp["upper"] + 1)), True
            elif t not in NUM:
                vals, allv = choices_of(sp), True
        mode = None
        if t[0] == "n":
            mode = min(max(sp["mu"], sp["lower"]), sp["upper"])
            mode = position(sp, mode)
        elif t[0] == "b":
            mode = (sp["alpha"] - 1) / (sp["alpha"] + sp["beta"] - 2) if sp["alpha"] + sp["beta"] > 2 else None
        xs, err, mx = [], "", 0.0
        try:
            mx = float(hp.get_max_density())
            pv = hp.pdf_values(array_of(vals))
            assert len(pv) == len(vals)
            for v, p in zip(vals, pv):
                legal = bool(hp.legal_value(v))
                pu = float(hp.pdf_vector(np.array([float(hp.to_vector(v))]))[0]) if legal else 0.0
                dist = 0
                exact = False
                if legal and mode is not None:
                    x = position(sp, v)
                    dist = round(10**6 * (x - mode))
                    exact = abs(x - mode) < 1e-12
                xs.append({"v": V(v), "pv": V(float(p)), "pu": V(pu), "qv": min(round(1e6 * float(p)), 10**8),
                           "dist": dist, "mode": exact})
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="density", s=s, err=err, zero=V(0.0), max=V(mx), all=allv, xs=xs)

    def op_order(self, s, o):
        if s not in self.h or self.sp[s]["t"] != "ord":
            return
        hp = self.view(s)
        err, xs = "", []
        try:
            vals = choices_of(self.sp[s])
            for v in vals:
                p = hp.get_order(v)
                xs.append({"v": V(v), "pos": int(p), "at": V(hp.get_value(p)),
                           "less": [j + 1 for j, w in enumerate(vals) if hp.check_order(v, w)]})
        except Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = kind(e)
        self.rec(op="order", s=s, err=err, xs=xs)

    # ------------------------------------------------------------------- running
    def run(self):
        for op, slot, o in self.p["steps"]:
            signal.setitimer(signal.ITIMER_REAL, self.p.get("limit", 20))
            n = len(self.ev)
            try:
                getattr(self, "op_" + op)(slot, o)
            except Timeout:
                del self.ev[n:]
                self.rec(op="hang", what=op)
                break
            except Exception as e:  # noqa: BLE001
                del self.ev[n:]
                self.rec(op="crash", what=op, _why=repr(e))
                break
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        return {"ev": self.ev}


def execute_hp(prog):
    return encode(HpRun(prog).run())[0]
