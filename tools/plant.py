"""Turn a definition of a planted bug into /verif/seeded/<id>/ and try it.

    plant.py DEF.py [ID ...] [--checks=P01,P02] [--no-checks] [--jobs=N]

DEF.py calls bug(id, property, needs, what, edits, demo), where edits is a list
of (file, old, new) and demo the text of demo.py.  Everything happens in a scratch copy of /repo: the
tests are run there, the demonstration is run on both trees, and the checks are
run with the copy's sources.  The folder is only written when the bug counts.
"""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("PLANT_REPO", "/repo"))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, env=None, timeout=1200):
    return subprocess.run(
        cmd, cwd=cwd, env={**os.environ, **(env or {})}, timeout=timeout,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )


def plant(defs: dict, args: list[str], print) -> int:
    ident = defs["ID"]
    scratch = Path(tempfile.mkdtemp(prefix=f"bug-{ident}-", dir="/tmp"))
    copy = scratch / "repo"
    try:
        shutil.copytree(REPO, copy, symlinks=True)
        for name, old, new in defs["EDITS"]:
            f = copy / name
            text = f.read_bytes().decode()
            if "\r\n" in text:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if text.count(old) != 1:
                print(f"{ident}: {name}: {text.count(old)} occurrences of {old!r}")
                return 2
            f.write_bytes(text.replace(old, new).encode())
        diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True).stdout
        folder = scratch / "seeded"
        folder.mkdir()
        (folder / "patch.diff").write_bytes(diff)
        (folder / "demo.py").write_text(defs["DEMO"].lstrip("\n"))
        (folder / "demo.sh").write_text(DEMO_SH)
        (folder / "demo.sh").chmod(0o755)
        (folder / "meta.json").write_text(
            json.dumps(
                {"property": defs["PROPERTY"], "needs": defs["NEEDS"],
                 "what_it_breaks": defs["WHAT"]}, indent=2) + "\n")

        # lines that our own fixes added do not count
        first = "9f9b5e3"
        for name in {e[0] for e in defs["EDITS"]}:
            orig = run(["git", "show", f"{first}:{name}"], REPO).stdout.splitlines()
            gone = [
                line[1:] for line in run(["git", "diff", "-U0", "--", name], copy).stdout.splitlines()
                if line.startswith("-") and not line.startswith("---")
            ]
            new = [g for g in gone if g.strip() and g not in orig]
            if new:
                print(f"{ident}: note: lines not of the original: {new}")

        env = {"PYTHONDONTWRITEBYTECODE": "1"}
        good = run(["bash", str(folder / "demo.sh")], REPO, env, 300)
        bad = run(["bash", str(folder / "demo.sh")], copy, env, 300)
        print(f"{ident}: demo unchanged={good.returncode} planted={bad.returncode}"
              f" ({bad.stdout.strip().splitlines()[-1:] })")
        ok = good.returncode == 0 and bad.returncode != 0
        if good.returncode:
            print(good.stdout[-1500:])

        tests = run(
            [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4",
             "--timeout=120", "-x", "test"], copy,
            {"PYTHONPATH": f"{copy}/src", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
             **env})
        tail = tests.stdout.strip().splitlines()[-1]
        print(f"{ident}: tests {tail}")
        if tests.returncode:
            print("\n".join(line for line in tests.stdout.splitlines() if line.startswith("FAILED")))
        ok = ok and tests.returncode == 0
        if not ok:
            print(f"{ident}: DOES NOT COUNT")
            return 1

        target = VERIF / "seeded" / ident
        if target.exists():
            shutil.rmtree(target)
        shutil.copytree(folder, target)

        if "--no-checks" in args:
            return 0
        checks = [defs["PROPERTY"]]
        for a in args:
            if a.startswith("--checks="):
                checks = a.split("=")[1].split(",")
        for pid in checks:
            r = run(
                ["bash", str(VERIF / "bin/check.sh"), pid], VERIF,
                {"VERIF_REPO_SRC": str(copy / "src"), "VERIF_TIER": "quick",
                 "VERIF_SEED": "1", "VERIF_EVIDENCE": str(scratch / "ev")})
            v = re.findall(r"VIOLATION property=\S+.*", r.stdout)
            print(f"{ident}: check {pid}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'missed'}"
                  f" {v[:1]}")
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
            else:
                print("\n".join("   | " + line for line in r.stdout.splitlines() if "VIOLATION" not in line)[:700])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main() -> int:
    args = [a for a in sys.argv[1:] if a.startswith("--")]
    path, *ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs: list[dict] = []

    def bug(id, property, needs, what, edits, demo):
        bugs.append(dict(ID=id, PROPERTY=property, NEEDS=needs, WHAT=what,
                         EDITS=edits, DEMO=demo))

    exec(compile(Path(path).read_text(), path, "exec"), {"bug": bug})
    bugs = [b for b in bugs if not ids or b["ID"].split("-")[0] in ids]
    jobs = next((int(a.split("=")[1]) for a in args if a.startswith("--jobs=")), 2)

    def one(b):
        out: list[str] = []
        try:
            plant(b, args, lambda *xs: out.append(" ".join(map(str, xs))))
        except Exception as e:
            out.append(f"{b['ID']}: {e!r}")
        print("\n".join(out), flush=True)

    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, bugs))
    return 0


if __name__ == "__main__":
    sys.exit(main())
