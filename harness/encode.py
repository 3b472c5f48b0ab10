"""Turns an observed history into one the specification can read.

Names become the rank of the name, values become integers such that equal values
have the same code and numbers keep their order.
"""
from __future__ import annotations

from model import NA, N, NonInt, V

REL_TOL = 1e-9
ABS_TOL = 3e-13


def _collect(o, names, vals):
    if isinstance(o, N):
        names.add(o.n)
    elif isinstance(o, V):
        vals.append(o.v)
    elif isinstance(o, dict):
        for k, v in o.items():
            _collect(v, names, vals)
    elif isinstance(o, (list, tuple)):
        for v in o:
            _collect(v, names, vals)


class Codes:
    def __init__(self, vals):
        nums, texts, others = set(), set(), {}
        for v in vals:
            if isinstance(v, (bool, int, float)):
                nums.add(v)
            elif isinstance(v, str):
                texts.add(v)
            else:
                others[repr(v)] = v
        self.num = {}
        code = 0
        prev = None
        self.kinds = []  # (code, representative)
        for v in sorted(v for v in nums if v == v):
            if prev is not None and abs(v - prev) <= REL_TOL * max(abs(v), abs(prev)) + ABS_TOL:
                pass
            elif prev is None:
                pass
            else:
                code += 1
            if prev is None or code != self.kinds[-1][0]:
                self.kinds.append((code, []))
            self.kinds[-1][1].append(v)
            self.num[v] = code
            prev = v
        base = code + 1
        self.text = {t: base + i for i, t in enumerate(sorted(texts))}
        base += len(texts)
        self.other = {r: base + i for i, r in enumerate(sorted(others))}
        base += len(others)
        self.nan = base

    def of(self, v):
        if isinstance(v, (bool, int, float)):
            return self.nan if v != v else self.num[v]
        if isinstance(v, str):
            return self.text[v]
        return self.other[repr(v)]

    def nonint(self, lo, hi):
        out = []
        for code, vs in self.kinds:
            if vs[0] >= lo and vs[-1] <= hi and not any(
                isinstance(v, int) or float(v).is_integer() for v in vs
            ):
                out.append(code)
        return out


def encode(history):
    """history: {"ev": [...]}; returns (encoded history, names, codes)."""
    names, vals = set(), []
    _collect(history, names, vals)
    order = sorted(names)
    ids = {n: i + 1 for i, n in enumerate(order)}
    codes = Codes(vals)

    def enc(o):
        if isinstance(o, N):
            return ids[o.n]
        if isinstance(o, V):
            return codes.of(o.v)
        if isinstance(o, NonInt):
            return codes.nonint(o.lo, o.hi)
        if isinstance(o, dict):
            return {k: enc(v) for k, v in o.items() if not k.startswith("_")}
        if isinstance(o, (list, tuple)):
            return [enc(v) for v in o]
        if isinstance(o, bool) or isinstance(o, str):
            return o
        if isinstance(o, int):
            assert abs(o) < 2**31, o
            return o
        raise TypeError(f"cannot encode {o!r}")

    out = enc(history)
    out["names"] = order
    return out, ids, codes
