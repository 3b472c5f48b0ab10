"""Runs of the state machine of the specification: its laws, and replays of its
behaviours into the code."""
from __future__ import annotations

import machine

LAWS = {
    "P01": ["ActivityUnique"], "P02": ["ValidityAgrees"], "P03": ["SamplingSound"], "P04": ["SamplingSound"],
    "P05": ["AssignmentSound"], "P06": ["WellFormed", "OrderIrrelevant"], "P07": ["AdditionAtomic"],
    "P08": ["DefaultSound"], "P09": ["EqualityExact"], "P10": ["ExchangesSound"], "P11": ["NeighboursSound"],
    "P12": ["GridSound"], "P13": ["DeactivationSound"], "P14": ["ImputationSound"], "P15": ["NestingSound"],
    "P16": ["NoPriorsSound"], "P17": ["TermsLocal"], "P18": ["SizeSound"], "P19": ["EqualityExact"],
    "P20": ["WellFormed"], "P21": ["EqualityExact"],
}


def one(prog):
    from runner import run_program
    return run_program(prog)


def model_check(pid, tier, seed, validate, relevant):
    if pid not in LAWS:
        return None
    progs, st, ncat = machine.programs(pid, tier, seed, LAWS[pid])
    from runner import run_all
    ran = run_all(one, progs, lambda h: h, tier)
    progs, hs = [progs[i] for i, _ in ran], [h for _, h in ran]
    viol = {}
    states, trans = st["distinct"], st["generated"]
    for part in machine.parts(list(zip(progs, hs))):
        bad, s = validate([h for _, h in part], "CSTrace", 3000)
        states += s["distinct"]
        trans += s["generated"]
        for tid, l, clauses in bad:
            for c in clauses:
                if relevant(c):
                    viol.setdefault(c, []).append(("machine", part[tid - 1][0], l))
    return {"states": states, "transitions": trans, "traces": len(progs), "violations": viol,
            "coverage": {"machine_catalogues": ncat, "machine_states": st["distinct"],
                         "machine_transitions": st["generated"], "laws": LAWS[pid],
                         "machine_events": sum(len(h["ev"]) for h in hs)}}
