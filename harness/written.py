"""Serialized spaces, read and written independently of the code under test."""
from __future__ import annotations

import copy
import io
import json
import random

import model as M
from model import CS, N, V, plain

TYPE = {"cat": "categorical", "ord": "ordinal", "const": "constant", "uint": "uniform_int",
        "ufloat": "uniform_float", "nint": "normal_int", "nfloat": "normal_float",
        "bint": "beta_int", "bfloat": "beta_float"}
ATOM = {"EQ": "EQ", "NE": "NEQ", "LT": "LT", "GT": "GT", "IN": "IN", "AND": "AND", "OR": "OR"}
REL = {"RLT": "LT", "RGT": "GT", "REQ": "EQ"}


# --------------------------------------------------------------------- by hand
def hp_dict(h, r):
    d = {"type": TYPE[h["t"]], "name": h["name"]}
    for k in ("choices", "sequence", "value", "lower", "upper", "mu", "sigma", "alpha", "beta"):
        if k in h:
            d[k] = copy.deepcopy(h[k])
    if "log" in h and (h["log"] or r.random() < 0.5):
        d["log"] = bool(h["log"])
    for k in ("weights", "meta"):
        if h.get(k) is not None or (r.random() < 0.3 and (k == "meta" or h["t"] == "cat")):
            d[k] = copy.deepcopy(h.get(k))
    if "default" in h:
        d[r.choice(["default", "default_value"]) if h["default"] is not None else "default_value"] = h["default"]
    if "lower" in h and r.random() < 0.4:
        d["q"] = None
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def cond_dict(child, t, r):
    d = {"child": child, "type": ATOM[t["op"]]}
    if t["op"] in ("AND", "OR"):
        d["conditions"] = [cond_dict(child, c, r) for c in t["cs"]]
        if r.random() < 0.3:
            del d["child"]
        return d
    d["parent"] = t["p"].n
    if t["op"] == "IN":
        d["values"] = [v.v for v in t["vs"]]
        if r.random() < 0.3:
            d["values"] = tuple(d["values"])
    else:
        d["value"] = t["v"].v
    return d


def forb_dict(t, r):
    op = t["op"]
    if op == "AND":
        return {"type": "AND", "clauses": [forb_dict(c, r) for c in t["cs"]]}
    if op in REL:
        d = {"left": t["l"].n, "right": t["r"].n}
        if r.random() < 0.5:
            return {"type": "RELATION", "lambda": REL[op], **d}
        return {**d, "type": "RELATION_" + REL[op]}
    if op == "IN":
        return {"name": t["p"].n, "type": "IN", "values": [v.v for v in t["vs"]]}
    return {"name": t["p"].n, "type": "EQUALS", "value": t["v"].v}


def by_hand(sp, specs, seed):
    r = random.Random(seed)
    d = {"hyperparameters": [hp_dict(specs[n], r) for n in sp],
         "conditions": [cond_dict(c.child.name, M.read_cond(c), r) for c in sp.conditions],
         "forbiddens": [forb_dict(M.read_forb(f), r) for f in sp.forbidden_clauses]}
    if r.random() < 0.5:
        d = {k: v for k, v in d.items() if v}
    r.shuffle(d.get("conditions", []))
    for k, v in (("name", sp.name), ("meta", sp.meta)):
        if v is not None or r.random() < 0.3:
            d[k] = v
    if r.random() < 0.3:
        d["json_format_version"] = r.choice([0.1, 0.2, 0.3])
    return d


def read_by_hand(sp, specs, seed):
    d = by_hand(sp, specs, seed)
    form = seed % 3
    if form == 0:
        before = copy.deepcopy(d)
        new = CS.ConfigurationSpace.from_serialized_dict(d)
        if d != before:
            raise RuntimeError("reading changed the serialized form")
        return new
    d = json.loads(json.dumps(d))
    if form == 1:
        return CS.ConfigurationSpace.from_json(io.StringIO(json.dumps(d)))
    if M.HAVE_YAML:
        import yaml
        return CS.ConfigurationSpace.from_yaml(io.StringIO(yaml.safe_dump(d)))
    return CS.ConfigurationSpace.from_serialized_dict(d)


# --------------------------------------------------------------------- what was written
def read_cond(d):
    op = {v: k for k, v in ATOM.items()}[d["type"]]
    if op in ("AND", "OR"):
        return {"op": op, "cs": [read_cond(c) for c in d["conditions"]]}
    if op == "IN":
        return {"op": op, "p": N(d["parent"]), "vs": [V(v) for v in d["values"]]}
    return {"op": op, "p": N(d["parent"]), "v": V(d["value"])}


def read_forb(d):
    t = d["type"]
    if t == "AND":
        return {"op": "AND", "cs": [read_forb(c) for c in d["clauses"]]}
    if t.startswith("RELATION_"):
        op = {v: k for k, v in REL.items()}[t.removeprefix("RELATION_")]
        return {"op": op, "l": N(d["left"]), "r": N(d["right"])}
    if t == "IN":
        return {"op": "IN", "p": N(d["name"]), "vs": [V(v) for v in d["values"]]}
    return {"op": {"EQUALS": "EQ"}[t], "p": N(d["name"]), "v": V(d["value"])}


EMPTY = {"ord": [], "fps": [], "conds": [], "forbs": [], "nm": M.NA}


def describe(d):
    """A serialized space as the specification sees it."""
    t_of = {v: k for k, v in TYPE.items()}
    fps = []
    for h in d["hyperparameters"]:
        spec = {**h, "t": t_of[h["type"]]}
        fps.append(V(M.fp_spec(spec, plain(spec.get("default_value", spec.get("value"))))))
    return {"ord": [N(h["name"]) for h in d["hyperparameters"]], "fps": fps,
            "conds": [{"c": N(c["child"]), "t": read_cond(c)} for c in d["conditions"]],
            "forbs": [read_forb(f) for f in d["forbiddens"]],
            "nm": M.name_meta(d["name"], d["meta"])}


def write(sp, how):
    if how == "dict":
        return sp.to_serialized_dict()
    buf = io.StringIO()
    if how == "json":
        sp.to_json(buf)
        return json.loads(buf.getvalue())
    if not M.HAVE_YAML:
        return sp.to_serialized_dict()
    import yaml
    sp.to_yaml(buf)
    return yaml.load(buf.getvalue(), yaml.Loader)


# --------------------------------------------------------------------- custom coders
def custom(sp, seed):
    """Every type in turn written under a name, and in a form, of one's own."""
    r = random.Random(seed)
    enc, dec = {}, {"hyperparameters": {}, "conditions": {}, "forbiddens": {}}
    used = []
    for t, cls in M.CLS.items():
        if r.random() < 0.5:
            def e(hp, encode, t=t):
                used.append(t)
                return {"mine": [hp.name, M.fp_hp(hp)], "hp": hp}

            def f(d, space, decode, t=t):
                assert set(d) == {"mine", "hp"}
                used.append("-" + t)
                return copy.copy(d["hp"])
            # also a name that other kinds of things have
            name = r.choice(["my " + t, "EQ", TYPE[t]])
            if name in dec["hyperparameters"] or (name == TYPE[t] and r.random() < 0.5):
                name = "my " + t
            enc[cls] = (name, e)
            dec["hyperparameters"][name] = f
    for op, cls in M.COND.items():
        if r.random() < 0.4:
            name = r.choice(["my " + op, ATOM[op]])
            enc[cls], dec["conditions"][name] = coder(op, name, used)
    for op, cls in M.FORB.items():
        if r.random() < 0.4:
            own = {"AND": "AND", "IN": "IN", "EQ": "EQUALS", **{k: "RELATION_" + v for k, v in REL.items()}}[op]
            name = r.choice(["my " + op, own])
            enc[cls], dec["forbiddens"][name] = coder(op, name, used, forb=True)
    d = sp.to_serialized_dict(encoders=enc)
    for k in list(dec):
        if not dec[k] and r.random() < 0.5:
            del dec[k]
    new = CS.ConfigurationSpace.from_serialized_dict(d, decoders=dec)
    if sorted(u for u in used if u[0] != "-") != sorted(u[1:] for u in used if u[0] == "-"):
        raise RuntimeError("a coder was not used")
    want = sum(type(h) in enc for h in sp.values())
    if sum(u in M.CLS for u in used) != want:
        raise RuntimeError("a coder was not used")
    return new


def coder(op, name, used, forb=False):
    def e(t, encode):
        used.append(op)
        if op in ("AND", "OR"):
            return {"parts": [encode(c, encode) for c in t.components][::-1]}
        if forb:
            return {"t": M.read_forb(t)}
        return {"t": M.read_cond(t), "c": t.child.name}

    def f(d, space, decode):
        used.append("-" + op)
        if op in ("AND", "OR"):
            cls = (M.FORB if forb else M.COND)[op]
            return cls(*[decode(c, space, decode) for c in d["parts"][::-1]])
        t = {k: (v.n if isinstance(v, N) else v.v if isinstance(v, V) else
                 [x.v for x in v] if isinstance(v, list) else v) for k, v in d["t"].items()}
        return M.build_forb(t, space.__getitem__) if forb else M.build_cond(d["c"], t, space.__getitem__)
    return (name, e), f
