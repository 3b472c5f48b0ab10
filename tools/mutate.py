"""Small changes of /repo that its tests do not notice, and whether the checks do.

    mutate.py make OUT.json [--per-file=N] [--seed=S] [FILE ...]   list mutants
    mutate.py test OUT.json [--jobs=N]                             run the tests on each
    mutate.py check OUT.json [--jobs=N] [--scale=X]                run the checks on those that survive
    mutate.py both OUT.json [--jobs=N] [--scale=X]                 one after the other

Everything happens in scratch copies.  Results are kept in OUT.json.  MUT_BASE and
MUT_VERIF name copies to use instead of /repo and this directory.
"""
from __future__ import annotations

import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get("MUT_BASE", "/repo"))
VERIF = Path(os.environ.get("MUT_VERIF", Path(__file__).resolve().parent.parent))
PY = "/opt/venv/bin/python"
SKIP = {"__version__.py", "types.py", "__init__.py", "exceptions.py", "functional.py"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(path: Path):
    src = path.read_bytes().decode()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(kind, n, new):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append({"file": str(path.relative_to(REPO)), "line": n.lineno, "kind": kind,
                        "span": [a, b], "old": raw[a:b].decode(), "new": new})

    def visit(n, quiet=False):
        if isinstance(n, (ast.Raise, ast.Assert)) or isinstance(n, ast.If) and "TYPE_CHECKING" in text(n.test):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in ("__repr__", "__str__", "_repr"):
                return
            for d in n.body:
                visit(d)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add("cmp", n, f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add("bool", n, "(" + op.join(f"({text(v)})" for v in n.values) + ")")
            for k in range(len(n.values)):
                rest = [f"({text(v)})" for j, v in enumerate(n.values) if j != k]
                add("drop", n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            add("not", n, f"({text(n.operand)})")
        if isinstance(n, ast.BinOp):
            if type(n.op) in BIN:
                add("arith", n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})")
            if isinstance(n.op, ast.BitAnd):
                add("arith", n, f"({text(n.left)} | {text(n.right)})")
            if isinstance(n.op, ast.BitOr):
                add("arith", n, f"({text(n.left)} & {text(n.right)})")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add("const", n, str(not n.value))
            elif type(n.value) is int:
                add("const", n, str(n.value + 1))
                if n.value == 1:
                    add("const", n, "0")
        if isinstance(n, (ast.If, ast.IfExp)):
            add("iftrue", n.test, "True")
            add("iffalse", n.test, "False")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)):
            add("delete", n, "pass")
        if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
            add("delete", n, "pass")
        if isinstance(n, ast.Call):
            f = text(n.func)
            if f.endswith(".copy") and not n.args:
                add("nocopy", n, f[:-5])
            if f in ("copy.copy", "copy.deepcopy", "sorted", "list", "tuple", "abs", "float", "int", "round",
                     "np.round", "np.rint", "set") and len(n.args) >= 1:
                add("unwrap", n, f"({text(n.args[0])})")
            for a, b in (("all", "any"), ("min", "max"), ("np.all", "np.any"), ("np.floor", "np.ceil"),
                         ("np.log", "np.log2"), ("range", "list"), ("np.zeros", "np.ones")):
                if f == a:
                    add("call", n.func, b)
                elif f == b and b != "list":
                    add("call", n.func, a)
            for k in n.keywords:
                if k.arg and k.arg not in ("dtype", "default", "strict"):
                    rest = [text(x) for x in n.args] + [
                        (f"{x.arg}={text(x.value)}" if x.arg else f"**{text(x.value)}")
                        for x in n.keywords if x is not k]
                    add("kwarg", n, f"{f}({', '.join(rest)})")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add("slice", n, text(n.value))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            for g in n.generators:
                for c in g.ifs:
                    add("iftrue", c, "True")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.AnnAssign) and c is n.annotation:
                continue
            visit(c)

    for n in tree.body:
        visit(n)
    return out


def copy_tree():
    d = Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
    for x in ("src", "test", "pyproject.toml"):
        s = REPO / x
        shutil.copytree(s, d / x) if s.is_dir() else shutil.copy(s, d / x)
    return d


def apply(d: Path, m):
    raw = (REPO / m["file"]).read_bytes()
    a, b = m["span"]
    new = m["new"].encode()
    (d / m["file"]).write_bytes(raw[:a] + new + raw[b:])


def restore(d: Path, m):
    shutil.copy(REPO / m["file"], d / m["file"])


local = threading.local()
lock = threading.Lock()
dirs: list[Path] = []


def mine():
    if not hasattr(local, "d"):
        local.d = copy_tree()
        dirs.append(local.d)
    return local.d


def test_one(m):
    d = mine()
    apply(d, m)
    try:
        r = subprocess.run(
            [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=60", "test"],
            cwd=d, env={**os.environ, "PYTHONPATH": f"{d}/src", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
                        "PYTHONDONTWRITEBYTECODE": "1"},
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
        m["tests"] = "pass" if r.returncode == 0 else "fail"
    except subprocess.TimeoutExpired:
        m["tests"] = "timeout"
    finally:
        restore(d, m)


ORDER = [f"P{i:02d}" for i in (2, 6, 9, 22, 25, 26, 29, 30, 17, 1, 3, 10, 7, 12, 13, 15, 16, 19, 20, 21, 23, 24, 27,
                               28, 5, 8, 11, 14, 18, 4, 32, 33, 34, 31)]
FIRST = {"pcs": ["P30"], "conditions": ["P29", "P17"], "forbidden": ["P29", "P17"], "dictionary": ["P32", "P09"],
         "util": ["P33", "P10", "P12", "P13", "P14", "P11"], "configuration.py": ["P19", "P05"],
         "hyperparameters/": ["P22", "P25", "P26", "P23", "P24", "P28"], "api/": ["P27"]}


def check_one(m, scale):
    d = mine()
    apply(d, m)
    m["caught"] = []
    order = [p for k, ps in FIRST.items() if k in m["file"] for p in ps]
    order += [p for p in ORDER if p not in order]
    try:
        for pid in order:
            r = subprocess.run(
                ["bash", str(VERIF / "bin/check.sh"), pid], cwd=VERIF,
                env={**os.environ, "VERIF_REPO_SRC": str(d / "src"), "VERIF_SCALE": str(scale),
                     "VERIF_MACHINE": "0", "VERIF_EVIDENCE": str(d / "ev")},
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                m["caught"] = [pid, re.findall(r"clause (\S+) broken", r.stdout)[:4]]
                break
            if r.returncode != 0:
                m.setdefault("odd", []).append([pid, r.returncode, r.stdout[-600:]])
    finally:
        restore(d, m)


def main():
    what, out, *rest = sys.argv[1:]
    opt = dict(a[2:].split("=") for a in rest if a.startswith("--"))
    files = [a for a in rest if not a.startswith("--")]
    if what == "make":
        ms = []
        r = random.Random(int(opt.get("seed", 1)))
        for f in sorted((REPO / "src/ConfigSpace").rglob("*.py")):
            if f.name in SKIP or files and not any(x in str(f) for x in files):
                continue
            x = mutants(f)
            r.shuffle(x)
            n = int(opt.get("per-file", 10**6))
            print(f.name, len(x), min(n, len(x)))
            ms += x[:n]
        r.shuffle(ms)
        json.dump(ms, open(out, "w"), indent=1)
        print(len(ms))
        return
    ms = json.load(open(out))
    todo = [m for m in ms if what != "check" and "tests" not in m
            or what != "test" and m.get("tests") == "pass" and "caught" not in m]
    done = [0]

    def one(m):
        try:
            if "tests" not in m:
                test_one(m)
            if what != "test" and m["tests"] == "pass":
                check_one(m, float(opt.get("scale", 0.2)))
        except Exception as e:  # noqa: BLE001
            m["error"] = repr(e)
        with lock:
            done[0] += 1
            if "caught" in m:
                print(m["file"].split("/")[-1], m["line"], m["kind"], repr(m["old"][:80]), "->", repr(m["new"][:80]),
                      m.get("caught") or "MISSED", flush=True)
            if done[0] % 10 == 0 or done[0] == len(todo):
                json.dump(ms, open(out, "w"), indent=1)

    with ThreadPoolExecutor(int(opt.get("jobs", 4))) as ex:
        list(ex.map(one, todo))
    json.dump(ms, open(out, "w"), indent=1)
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
    print(len(todo), "done;", sum(m.get("tests") == "pass" for m in ms), "pass the tests;",
          sum(bool(m.get("caught")) for m in ms), "caught")


if __name__ == "__main__":
    main()
