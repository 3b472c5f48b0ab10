"""Running TLC."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run_tlc(module, cfg=None, env=None, args=(), timeout=800, mem="6g", workers="auto", outfile=None):
    """Returns (stdout, stats); raises TLCError when TLC itself failed."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, capture_output=True,
                           text=True, timeout=timeout)
        out = p.stdout
        if outfile:
            with open(outfile, "w") as f:
                f.write(out)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"generated": int(m[-1][0]), "distinct": int(m[-1][1])} if m else {}
    stats["rc"] = p.returncode
    return out, stats, p.stderr


def validate(histories, module="CSTrace", timeout=800, keep=None):
    """Checks encoded histories.  Returns ([(tid, l, [clauses])], stats)."""
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        f = keep or os.path.join(d, "trace.ndjson")
        with open(f, "w") as fh:
            for h in histories:
                fh.write(json.dumps(h) + "\n")
        out, stats, err = run_tlc(module, env={"TRACE_FILE": f}, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = []
    for line in out.splitlines():
        if line.startswith('"BAD '):
            o = json.loads(json.loads(line)[4:])
            bad.append((o["tid"], o["l"], sorted(o["clauses"])))
    want = sum(len(h["ev"]) + 1 for h in histories)
    if stats["rc"] != 0 or stats.get("distinct") != want:
        raise TLCError(f"rc={stats['rc']} distinct={stats.get('distinct')} want={want}\n{out[-6000:]}\n{err[-2000:]}")
    return sorted(bad), stats
