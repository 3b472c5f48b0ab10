"""Building real objects from plain descriptions, and observing them.

Everything here goes through the public interface of ConfigSpace.  Observations
wrap names in N and values in V; `encode.py` turns those into integers.
"""
from __future__ import annotations

import os
import sys
import warnings
from dataclasses import dataclass

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import glob  # noqa: E402
import importlib.util  # noqa: E402

import numpy as np  # noqa: E402

try:
    import yaml  # noqa: F401
except ImportError:
    # not a dependency of ConfigSpace, take the one of the tooling
    for _d in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/yaml"):
        _s = importlib.util.spec_from_file_location(
            "yaml", _d + "/__init__.py", submodule_search_locations=[_d])
        sys.modules["yaml"] = importlib.util.module_from_spec(_s)
        _s.loader.exec_module(sys.modules["yaml"])
HAVE_YAML = "yaml" in sys.modules

import older  # noqa: E402

import ConfigSpace as CS  # noqa: E402
from ConfigSpace import exceptions as X  # noqa: E402

assert os.path.realpath(CS.__file__).startswith(os.path.realpath(REPO_SRC)), CS.__file__

NA = -1
ILL = -2
OLDER = [False]     # whether to look through the older names


class N:
    """A hyperparameter name."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = str(n)

    def __repr__(self):
        return f"N({self.n!r})"


class V:
    """A value."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = plain(v)

    def __repr__(self):
        return f"V({self.v!r})"


def plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist() if v.ndim else plain(v.item())
    if isinstance(v, np.generic):
        return v.item()
    return v


def kind(exc):
    table = [
        (X.ForbiddenValueError, "FORBID"),
        (X.IllegalValueError, "ILLEGAL"),
        (X.IllegalVectorizedValueError, "ILLEGAL"),
        (X.ActiveHyperparameterNotSetError, "NOTSET"),
        (X.InactiveHyperparameterSetError, "INACTIVE"),
        (X.ChildNotFoundError, "CHILD"),
        (X.ParentNotFoundError, "PARENT"),
        (X.HyperparameterNotFoundError, "NOTFOUND"),
        (X.AmbiguousConditionError, "AMBIG"),
        (X.HyperparameterAlreadyExistsError, "EXISTS"),
        (X.CyclicDependancyError, "CYCLE"),
        (X.NoPossibleNeighborsError, "NONEIGH"),
    ]
    for c, k in table:
        if isinstance(exc, c):
            return k
    if isinstance(exc, KeyError):
        return "KEY"
    if isinstance(exc, ValueError):
        return "VALUE"
    if isinstance(exc, TypeError):
        return "TYPE"
    return "EXC:" + type(exc).__name__


# ------------------------------------------------------------------------ values
@dataclass
class Thing:
    """A value of the user's own, which cannot be hashed."""

    a: int


@dataclass(frozen=True)
class Frozen:
    a: int


def act():
    return None


def act2():
    return None


SPECIAL = {"$tuple": lambda x: tuple(x), "$dict": dict, "$thing": Thing, "$frozen": Frozen,
           "$fn": lambda x: act2 if x else act}
UNKNOWN = object()


def decode(p):
    """A program is kept as JSON, which cannot say every value."""
    if isinstance(p, dict):
        if len(p) == 1:
            (k, x), = p.items()
            if k in SPECIAL:
                return SPECIAL[k](x)
        return {k: decode(x) for k, x in p.items()}
    if isinstance(p, list):
        return [decode(x) for x in p]
    return p


# --------------------------------------------------------------- hyperparameters
CLS = {
    "cat": CS.CategoricalHyperparameter,
    "ord": CS.OrdinalHyperparameter,
    "const": CS.Constant,
    "uint": CS.UniformIntegerHyperparameter,
    "ufloat": CS.UniformFloatHyperparameter,
    "nint": CS.NormalIntegerHyperparameter,
    "nfloat": CS.NormalFloatHyperparameter,
    "bint": CS.BetaIntegerHyperparameter,
    "bfloat": CS.BetaFloatHyperparameter,
}
INTS = ("uint", "nint", "bint")
FLOATS = ("ufloat", "nfloat", "bfloat")


def build_hp(sp):
    t = sp["t"]
    kw = {}
    if sp.get("meta") is not None:
        kw["meta"] = sp["meta"]
    if t == "cat":
        if "default" in sp:
            kw["default_value"] = sp["default"]
        if sp.get("weights") is not None:
            kw["weights"] = sp["weights"]
        return CLS[t](sp["name"], sp["choices"], **kw)
    if t == "ord":
        if "default" in sp:
            kw["default_value"] = sp["default"]
        return CLS[t](sp["name"], sp["sequence"], **kw)
    if t == "const":
        return CLS[t](sp["name"], sp["value"], **kw)
    kw["lower"], kw["upper"] = sp["lower"], sp["upper"]
    if sp.get("log"):
        kw["log"] = True
    if "default" in sp:
        kw["default_value"] = sp["default"]
    if t in ("nint", "nfloat"):
        kw["mu"], kw["sigma"] = sp["mu"], sp["sigma"]
    if t in ("bint", "bfloat"):
        kw["alpha"], kw["beta"] = sp["alpha"], sp["beta"]
    return CLS[t](sp["name"], **kw)


def cv(v):
    """A canonical, equality preserving text of a value."""
    v = plain(v)
    if isinstance(v, (bool, int)):
        return f"n{int(v)}" if abs(int(v)) < 10**12 else f"n{float(v):.12g}"
    if isinstance(v, float):
        return f"n{v:.10g}" if v != int(v) or abs(v) >= 1e12 else f"n{int(v)}"
    if isinstance(v, str):
        return "s" + v
    if isinstance(v, dict):
        return "{" + ",".join(sorted(f"{cv(k)}:{cv(x)}" for k, x in v.items())) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(cv(x) for x in v) + "]"
    return repr(v)


def spec_default(sp):
    """The default a user gets, when the documentation fixes it."""
    if "default" in sp:
        return sp["default"]
    t = sp["t"]
    if t == "cat":
        w = sp.get("weights")
        return sp["choices"][0] if w is None else sp["choices"][w.index(max(w))]
    if t == "ord":
        return sp["sequence"][0]
    if t == "const":
        return sp["value"]
    return UNKNOWN


def fp_spec(sp, default, uniform=False, name=None):
    t = sp["t"]
    nm = sp["name"] if name is None else name
    meta = sp.get("meta")
    if t == "cat":
        w = sp.get("weights")
        if w is None or uniform:
            w = [1] * len(sp["choices"])
        s = float(sum(w))
        body = [[cv(c), f"{x / s:.9g}"] for c, x in zip(sp["choices"], w)]
    elif t == "ord":
        body = [cv(c) for c in sp["sequence"]]
    elif t == "const":
        body = cv(sp["value"])
    else:
        body = [cv(sp["lower"]), cv(sp["upper"]), bool(sp.get("log"))]
        if uniform:
            t = "u" + t[1:]
        elif t in ("nint", "nfloat"):
            body += [cv(float(sp["mu"])), cv(float(sp["sigma"]))]
        elif t in ("bint", "bfloat"):
            body += [cv(float(sp["alpha"])), cv(float(sp["beta"]))]
    return repr((t, nm, body, cv(default), cv(meta)))


def fp_hp(hp):
    for t, c in CLS.items():
        if type(hp) is c:
            break
    else:
        return repr(type(hp))
    if t == "cat":
        p = [float(x) for x in hp.probabilities]
        body = [[cv(c), f"{x:.9g}"] for c, x in zip(hp.choices, p)]
    elif t == "ord":
        body = [cv(c) for c in hp.sequence]
    elif t == "const":
        body = cv(hp.value)
    else:
        body = [cv(hp.lower), cv(hp.upper), bool(hp.log)]
        if t in ("nint", "nfloat"):
            body += [cv(float(hp.mu)), cv(float(hp.sigma))]
        elif t in ("bint", "bfloat"):
            body += [cv(float(hp.alpha)), cv(float(hp.beta))]
    return repr((t, hp.name, body, cv(hp.default_value), cv(hp.meta)))


def values_of(sp):
    """The values of a hyperparameter that lists them."""
    t = sp["t"]
    return sp["choices"] if t == "cat" else sp["sequence"] if t == "ord" else [sp["value"]]


def digits(n):
    """A number that may be large: digits of base 1000, the least first."""
    out = []
    while n:
        n, d = divmod(n, 1000)
        out.append(d)
    return out


def describe_hp(sp, default):
    """The declared hyperparameter, as the specification sees it."""
    t = sp["t"]
    h = {
        "t": {"cat": "cat", "ord": "ord", "const": "const"}.get(
            t, "int" if t in INTS else "float"
        ),
        "vals": [], "w0": [], "lo": 0, "hi": 0, "ni": [], "en": False, "nd": [],
        "def": V(default), "du": V(default),
        "fp": V(fp_spec(sp, default)), "fpu": V(fp_spec(sp, default, uniform=True)),
    }
    if t in ("cat", "ord", "const"):
        vals = values_of(sp)
        h.update(k="d", vals=[V(v) for v in vals], n=len(vals), nd=digits(len(vals)))
        if t == "cat" and sp.get("weights"):
            h["w0"] = [V(v) for v, w in zip(vals, sp["weights"]) if w == 0]
    else:
        h.update(k="r", lo=V(sp["lower"]), hi=V(sp["upper"]))
        if t in INTS:
            n = sp["upper"] - sp["lower"] + 1
            h["n"] = n if n < 2**20 else 2**20
            h["nd"] = digits(n)
            h["ni"] = NonInt(sp["lower"], sp["upper"])
            if n <= 40:
                h["en"] = True
                h["_all"] = [V(v) for v in range(sp["lower"], sp["upper"] + 1)]
        else:
            h["n"] = NA
    return h


class NonInt:
    """All codes of values in a range that are not integers."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


# ---------------------------------------------------- conditions and forbidden terms
COND = {"EQ": CS.EqualsCondition, "NE": CS.NotEqualsCondition, "LT": CS.LessThanCondition,
        "GT": CS.GreaterThanCondition, "IN": CS.InCondition,
        "AND": CS.AndConjunction, "OR": CS.OrConjunction}
FORB = {"EQ": CS.ForbiddenEqualsClause, "IN": CS.ForbiddenInClause,
        "AND": CS.ForbiddenAndConjunction, "RLT": CS.ForbiddenLessThanRelation,
        "RGT": CS.ForbiddenGreaterThanRelation, "REQ": CS.ForbiddenEqualsRelation}
REL = ("RLT", "RGT", "REQ")


def build_cond(child, t, get):
    op = t["op"]
    if op in ("AND", "OR"):
        return COND[op](*[build_cond(child, c, get) for c in t["cs"]])
    if op == "IN":
        return CS.InCondition(get(child), get(t["p"]), list(t["vs"]))
    return COND[op](get(child), get(t["p"]), t["v"])


def build_forb(t, get):
    op = t["op"]
    if op == "AND":
        return CS.ForbiddenAndConjunction(*[build_forb(c, get) for c in t["cs"]])
    if op == "IN":
        return CS.ForbiddenInClause(get(t["p"]), list(t["vs"]))
    if op == "EQ":
        return CS.ForbiddenEqualsClause(get(t["p"]), t["v"])
    return FORB[op](get(t["l"]), get(t["r"]))


def term(t):
    """A described term, ready for encoding."""
    op = t["op"]
    if op in ("AND", "OR"):
        return {"op": op, "cs": [term(c) for c in t["cs"]]}
    if op == "IN":
        return {"op": op, "p": N(t["p"]), "vs": [V(v) for v in t["vs"]]}
    if op in REL:
        return {"op": op, "l": N(t["l"]), "r": N(t["r"])}
    return {"op": op, "p": N(t["p"]), "v": V(t["v"])}


def read_cond(c):
    for op, cls in COND.items():
        if type(c) is cls:
            break
    else:
        return {"op": "UNKNOWN", "p": N(""), "v": NA}
    if op in ("AND", "OR"):
        return {"op": op, "cs": [read_cond(x) for x in c.components]}
    if op == "IN":
        return {"op": op, "p": N(c.parent.name), "vs": [V(v) for v in c.values]}
    return {"op": op, "p": N(c.parent.name), "v": V(c.value)}


def read_forb(f):
    for op, cls in FORB.items():
        if type(f) is cls:
            break
    else:
        return {"op": "UNKNOWN", "p": N(""), "v": NA}
    if op == "AND":
        return {"op": op, "cs": [read_forb(x) for x in f.components]}
    if op == "IN":
        return {"op": op, "p": N(f.hyperparameter.name), "vs": [V(v) for v in f.values]}
    if op == "EQ":
        return {"op": op, "p": N(f.hyperparameter.name), "v": V(f.value)}
    return {"op": op, "l": N(f.left.name), "r": N(f.right.name)}


# ----------------------------------------------------------------- observations
def good_type(hp, v):
    if isinstance(hp, (CS.UniformIntegerHyperparameter, CS.NormalIntegerHyperparameter,
                       CS.BetaIntegerHyperparameter)):
        return isinstance(v, (int, np.integer)) and not isinstance(v, bool)
    if isinstance(hp, (CS.UniformFloatHyperparameter, CS.NormalFloatHyperparameter,
                       CS.BetaFloatHyperparameter)):
        return isinstance(v, (float, int, np.number))
    # the choice itself, not only something equal to it like 1.0 or True for 1
    for c in hp.choices if isinstance(hp, CS.CategoricalHyperparameter) else \
            hp.sequence if isinstance(hp, CS.OrdinalHyperparameter) else [hp.value]:
        if plain(c) is plain(v) or plain(c) == plain(v):
            return type(plain(c)) is type(plain(v))
    return True


def obs_cfg(cfg):
    space = cfg.config_space
    items = list(cfg.get_dictionary().items() if OLDER[0] else cfg.items())
    arr = np.asarray(cfg.get_array(), dtype=float)
    at = list(space.at)
    return {
        "x": [[N(k), V(v)] for k, v in items],
        "vn": [N(at[i]) for i in range(len(arr)) if not np.isnan(arr[i])],
        "ct": [N(k) for k in space.keys() if k in cfg and cfg.get(k, UNKNOWN) is not UNKNOWN],
        "ln": len(cfg),
        "bt": bool(all(good_type(space[k], v) for k, v in items)),
    }


EMPTY_CFG = {"x": [], "vn": [], "ct": [], "ln": NA, "bt": False}


def name_meta(name, meta):
    return NA if name is None and meta is None else V(f"{name!r}|{cv(meta)}")


def obs_space(space):
    o = {"err": "", "ord": [], "at": [], "ix": [], "ln": 0, "nm": NA, "fps": [], "roots": [],
         "nonroots": [], "conds": [], "forbs": [], "pa": [], "ch": [], "pc": [], "cc": [],
         "deferr": "", "def": EMPTY_CFG}
    if OLDER[0]:
        space = older.Space(space, len(space) % 2 == 1)
    try:
        keys = list(space.keys())
        assert keys == [k for k, _ in space.items()] == list(space)
        assert all(k in space for k in keys)
        vals = list(space.values())
        o["ord"] = [N(k) for k in keys]
        o["at"] = [N(k) for k in space.at]
        o["ix"] = [int(space.index_of[k]) + 1 for k in keys]
        o["ln"] = len(space)
        o["nm"] = name_meta(space.name, space.meta)
        o["fps"] = [V(fp_hp(h) if h.name == k and space[k] is h else "misplaced")
                    for k, h in zip(keys, vals)]
        o["roots"] = [N(k) for k in space.unconditional_hyperparameters]
        o["nonroots"] = [N(k) for k in space.conditional_hyperparameters]
        o["conds"] = [{"c": N(c.child.name), "t": read_cond(c)} for c in space.conditions]
        o["forbs"] = [read_forb(f) for f in space.forbidden_clauses]
        o["pa"] = [[N(k), [N(h.name) for h in space.parents_of[k]]] for k in keys]
        o["ch"] = [[N(k), [N(h.name) for h in space.children_of[k]]] for k in keys]
        o["pc"] = [[N(k), [read_cond(c) for c in space.parent_conditions_of[k]]] for k in keys]
        o["cc"] = [[N(k), [{"c": N(c.child.name), "t": read_cond(c)}
                           for c in space.child_conditions_of[k]]] for k in keys]
    except Exception as e:  # noqa: BLE001
        o["err"] = kind(e)
        return o
    try:
        o["def"] = obs_cfg(space.get_default_configuration())
    except Exception as e:  # noqa: BLE001
        o["deferr"] = kind(e)
    return o
