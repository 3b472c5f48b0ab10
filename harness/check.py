"""Decides one property: python check.py <property>.

Generates programs, runs them against the code in /repo, and has TLC validate the
recorded histories against the specification.
"""
from __future__ import annotations

import fnmatch
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import tlc  # noqa: E402

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))


def bounded():
    # a request for endless memory is an error in one program, not the end of the check
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def job(args):
    pid, si, seed = args
    try:
        from suites import SUITES
        from runner import run_program

        su = SUITES[pid][si]
        prog = su.program(seed)
        return si, seed, run_program(prog), None
    except Exception:  # noqa: BLE001
        return si, seed, None, traceback.format_exc()


def validate_all(histories, module, timeout):
    """Like tlc.validate, but isolates histories that cannot be evaluated."""
    try:
        return tlc.validate(histories, module, timeout=timeout)
    except tlc.TLCError as e:
        if len(histories) == 1:
            return [(1, 0, ["trace.unreadable"])], {"generated": 0, "distinct": 0, "error": str(e)}
        m = max(1, len(histories) // 8)
        bad, st = [], {"generated": 0, "distinct": 0}
        unreadable = 0
        for a in range(0, len(histories), m):
            if unreadable >= 3:
                break
            b, s = validate_all(histories[a:a + m], module, timeout)
            bad += [(t + a, l, c) for t, l, c in b]
            unreadable += any("trace.unreadable" in c for _, _, c in b)
            for k in ("generated", "distinct"):
                st[k] += s[k]
        return bad, st


def batches(rs, limit=40_000_000):
    """TLC holds a whole trace file in memory."""
    part, size = [], 0
    for r in rs:
        n = len(json.dumps(r[2]))
        if part and size + n > limit:
            yield part
            part, size = [], 0
        part.append(r)
        size += n
    if part:
        yield part


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    from suites import SUITES

    su = SUITES[pid]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    todo = []
    for si, s in enumerate(su):
        n = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        todo += [(pid, si, seed * 10_000_000 + j) for j in range(n)]
    from runner import run_all
    res = [r for _, r in run_all(job, todo, lambda r: r[2], tier, bounded)]
    broken = [r for r in res if r[3]]
    if broken:
        print(broken[0][3], file=sys.stderr)
        print(f"harness failure in {len(broken)} programs, first: suite {broken[0][0]} seed {broken[0][1]}",
              file=sys.stderr)
        sys.exit(2)
    t1 = time.time()

    states = trans = nev = 0
    viol, other = {}, {}
    modules = {}
    for r in res:
        modules.setdefault(su[r[0]].module, []).append(r)
    for module, rs in modules.items():
        for part in batches(rs):
            bad, st = validate_all([r[2] for r in part], module, timeout=3000)
            states += st["distinct"]
            trans += st["generated"]
            nev += sum(len(r[2]["ev"]) for r in part)
            if "error" in st:
                print(st["error"][-3000:], file=sys.stderr)
            for tid, l, clauses in bad:
                r = part[tid - 1]
                for c in clauses:
                    if su[r[0]].relevant(c):
                        viol.setdefault(c, []).append((r[0], r[1], l))
                    else:
                        other.setdefault(c, []).append((r[0], r[1], l))
    print(f"{pid}: {len(res)} programs, {nev} events, {states} states, "
          f"execution {t1 - t0:.1f}s, validation {time.time() - t1:.1f}s")
    for c, w in sorted(other.items()):
        print(f"note: clause {c} broken in {len(w)} histories (decided by another property's check)")

    extra = {}
    from model_runs import model_check
    mc = None if os.environ.get("VERIF_MACHINE") == "0" else model_check(
        pid, tier, seed, validate_all, su[0].relevant)
    if mc:
        states += mc["states"]
        trans += mc["transitions"]
        extra = mc.get("coverage", {})
        for c, w in mc["violations"].items():
            viol.setdefault(c, []).extend(w)
    mtraces = mc["traces"] if mc else 0

    first = {}
    for r in res:
        first.setdefault(r[0], r[1])
    known = load_known(pid)
    nviol = 0
    shown = set()
    rdir = os.path.join(EVID, "replays")
    for c, w in sorted(viol.items()):
        hit = [k for k in known if fnmatch.fnmatch(c, k["clause"])]
        if hit:
            if hit[0]["what"] not in shown:
                shown.add(hit[0]["what"])
                print(f"KNOWN-FINDING: property={pid} {hit[0]['what']}")
            continue
        nviol += len(w)
        os.makedirs(rdir, exist_ok=True)
        si, sd, l = w[0]
        path = os.path.join(rdir, f"{pid}-{c.replace('/', '_')}.json")
        if isinstance(si, int):
            prog = su[si].program(sd)
        else:
            prog = sd
        with open(path, "w") as f:
            json.dump({"property": pid, "clause": c, "event": l,
                       "module": su[si].module if isinstance(si, int) else prog.get("module", "CSTrace"),
                       "program": prog}, f, indent=1)
        print(f"clause {c} broken in {len(w)} histories, first: suite {si} event {l}")
        print(f"VIOLATION property={pid} replay={path}")
    ev = {
        "property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": len(res) + mtraces,
            "events": nev,
            "samples": [{"suite": si, "seed": sd, "program": su[si].program(sd)["steps"]}
                        for si, sd in first.items()],
            **extra},
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    sys.exit(1 if nviol else 0)


def load_known(pid):
    out = []
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=" + pid + " "):
                _, _, rest = line.split(" ", 2)
                clause, what = rest.strip().split(" ", 1)
                out.append({"clause": clause.removeprefix("clause="), "what": what})
    return out


if __name__ == "__main__":
    main()
