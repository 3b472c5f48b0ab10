"""python replay.py <replay file>: runs the program again and shows what breaks."""
from __future__ import annotations

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import tlc  # noqa: E402
from runner import run_program  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    prog = r.get("program", r)
    h = run_program(prog)
    bad, _ = tlc.validate([h], r.get("module", "CSTrace"))
    for s in prog["steps"]:
        print(json.dumps(s))
    for _, l, clauses in bad:
        print(f"event {l}: {', '.join(clauses)}")
        print(json.dumps(h["ev"][l - 1])[:4000])
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
