"""Runs a program of either kind and encodes its history."""
from __future__ import annotations

import multiprocessing as mp
import os
import sys
import time
import traceback

from encode import encode
from execute import execute


def run_program(prog):
    try:
        return run(prog)
    except Exception:  # noqa: BLE001
        # something came back that cannot even be recorded
        traceback.print_exc(file=sys.stderr)
        return encode({"ev": [{"op": "crash", "what": "recording"}]})[0]


def run(prog):
    if prog.get("module", "CSTrace") == "HPTrace":
        from hpexec import execute_hp
        return execute_hp(prog)
    if prog.get("module") == "TermTrace":
        from termexec import execute_terms
        return execute_terms(prog)
    return encode(execute(prog))[0]


HANGS = 8


def hangs(history):
    return history is not None and any(e.get("op") == "hang" for e in history["ev"])


def run_all(fn, items, history, tier, start=None):
    """All results in order.  A tree in which calls never return is given up early, and the
    quick tier does not wait for one in which everything has become slow."""
    budget = 240 if tier == "quick" else float("inf")
    t0 = time.time()
    out, hung = {}, 0
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1), start) as pool:
        todo = list(enumerate(items))
        it = pool.imap_unordered(_Several(fn), [todo[a:a + 4] for a in range(0, len(todo), 4)])
        while len(out) < len(items):
            left = t0 + budget - time.time()
            try:
                got = it.next(timeout=max(0.1, left) if budget < float("inf") else None)
            except mp.TimeoutError:
                print(f"note: {len(items) - len(out)} of {len(items)} programs were not run within {budget} s")
                break
            out.update(got)
            hung += sum(hangs(history(r)) for _, r in got)
            if hung >= HANGS:
                print(f"note: {hung} programs did not end, {len(items) - len(out)} of {len(items)} were not run")
                break
        pool.terminate()
    return [(i, out[i]) for i in sorted(out)]


class _Several:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, xs):
        return [(i, self.fn(x)) for i, x in xs]
