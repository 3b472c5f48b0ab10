"""The pcs formats: what they can say, and writing them by hand."""
from __future__ import annotations

import random

import model as M
from model import read_cond, read_forb

from ConfigSpace.read_and_write import pcs as OLD
from ConfigSpace.read_and_write import pcs_new as NEW

SYM = {"EQ": "==", "NE": "!=", "LT": "<", "GT": ">"}


def image(h, default):
    """The declaration that is left: values of lists are text, no priors, no meta."""
    t = h["t"]
    if t == "const":
        return {"t": "cat", "name": h["name"], "choices": [str(h["value"])], "default": str(h["value"])}
    if t in ("cat", "ord"):
        k = "choices" if t == "cat" else "sequence"
        return {"t": t, "name": h["name"], k: [str(v) for v in h[k]], "default": str(M.plain(default))}
    return {"t": "u" + t[1:], "name": h["name"], "lower": h["lower"], "upper": h["upper"],
            "log": h.get("log"), "default": M.plain(default)}


def text_of(sp, specs, old):
    """A space as text, the way one would write it by hand."""
    out = []
    for n, h in specs.items():
        im = image(h, sp[n].default_value)
        t = im["t"]
        if t in ("cat", "ord"):
            if old and t == "ord":
                raise TypeError
            word = "" if old else "categorical " if t == "cat" else "ordinal "
            out.append(f"{n} {word}{{{', '.join(M.values_of(im))}}} [{im['default']}]")
        else:
            rng = f"[{im['lower']}, {im['upper']}] [{im['default']}]"
            if old:
                out.append(f"{n} {rng}{'i' if t == 'uint' else ''}{'l' if im['log'] else ''}")
            else:
                out.append(f"{n} {'integer' if t == 'uint' else 'real'} {rng}{' log' if im['log'] else ''}")
    for c in sp.conditions:
        out += cond_text(c.child.name, read_cond(c), old)
    for f in sp.forbidden_clauses:
        out.append("{" + ", ".join(f"{a['p'].n}={a['v'].v}" for a in flat(read_forb(f))) + "}")
    return "\n".join(out)


def flat(t):
    if t["op"] == "AND":
        return [a for c in t["cs"] for a in flat(c)]
    if t["op"] != "EQ":
        raise TypeError
    return [t]


def atom_text(t, old):
    p = t["p"].n
    if t["op"] == "IN" or (old and t["op"] == "EQ"):
        vs = t["vs"] if t["op"] == "IN" else [t["v"]]
        return f"{p} in {{{', '.join(str(v.v) for v in vs)}}}"
    if old:
        raise TypeError
    return f"{p} {SYM[t['op']]} {t['v'].v}"


def cond_text(child, t, old):
    if t["op"] not in ("AND", "OR"):
        return [f"{child} | {atom_text(t, old)}"]
    if old:
        if t["op"] == "OR":
            raise TypeError
        return [x for c in t["cs"] for x in cond_text(child, c, old)]
    parts = []
    for c in t["cs"]:
        if c["op"] == "AND" and t["op"] == "OR":
            if any(a["op"] in ("AND", "OR") for a in c["cs"]):
                raise TypeError
            parts.append(" && ".join(atom_text(a, old) for a in c["cs"]))
        elif c["op"] in ("AND", "OR"):
            raise TypeError
        else:
            parts.append(atom_text(c, old))
    return [f"{child} | " + (" || " if t["op"] == "OR" else " && ").join(parts)]


def layout(lines, seed):
    """The same lines in another order, with comments and blanks."""
    if seed is None:
        return lines
    r = random.Random(seed)
    kinds = {}
    for x in lines:
        # conditions of one child stay in order
        kinds.setdefault("|" in x, []).append(x)
    r.shuffle(kinds.get(False, []))
    out = []
    while any(kinds.values()):
        k = r.choice([k for k, v in kinds.items() if v])
        x = kinds[k].pop(0)
        if r.random() < 0.3:
            x = "  " + x
        if r.random() < 0.3:
            x = x.replace(", ", r.choice([",", " ,  "]))
        if r.random() < 0.2:
            x = x.replace("{", "{ ").replace("}", " }")
        if r.random() < 0.3:
            x += r.choice(["  ", " # comment", "#{a=b}", "\n"])
        if r.random() < 0.2:
            out.append(r.choice(["", "# a | b in {x}", "Conditionals:", "   "]))
        out.append(x)
    return out
