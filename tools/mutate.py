"""Mutation campaign: every simple syntactic mutant of /repo/fv3gfs/util is run against the checks of its file.

usage: mutate.py OUT.jsonl [--workers N] [--files a.py,b.py] [--list]
Resumable: mutants already in OUT.jsonl are skipped. Works on copies under /tmp only.
"""
import argparse
import ast
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/fv3gfs/util"
CHECKS = {
    "communicator.py": "C05 C23 C03 C08 C07 C01 C02 C21",
    "partitioner.py": "C05 C06 C07 C19 C15 C13",
    "boundary.py": "C05 C01 C02",
    "rotate.py": "C01 C02",
    "_boundary_utils.py": "C09 C05 C03 C01",
    "quantity.py": "C10 C09 C23 C17 C19",
    "_corners.py": "C11",
    "buffer.py": "C12 C21",
    "zarr_monitor.py": "C14 C13",
    "_legacy_restart.py": "C15",
    "io.py": "C16", "_xarray.py": "C16",
    "nudging.py": "C17",
    "_timing.py": "C18",
    "initialization/sizer.py": "C19", "initialization/allocator.py": "C19 C23",
    "_capture_stream.py": "C22",
    "testing/dummy_comm.py": "C20",
    "time.py": "C15", "utils.py": "C10 C12 C17 C19 C23",
    "constants.py": "C05 C10 C19 C01", "types.py": "C12",
}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//", ast.Pow: "*"}


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, op):
        a, b = pos(n)
        out.append((n.lineno, op, raw[a:b].decode(), new, (raw[:a] + new.encode() + raw[b:])))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    annotations = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                annotations |= {id(x) for x in ast.walk(a)}
        if isinstance(n, ast.Raise):
            annotations |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.JoinedStr):
            annotations |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in annotations:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f"{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({src(n.left)}) {BIN[type(n.op)]} ({src(n.right)})", "binop")
        elif isinstance(n, ast.BoolOp):
            word = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + word.join(f"({src(v)})" for v in n.values) + ")", "boolop")
            for v in n.values:
                add(n, src(v), "boolop-one")
        elif isinstance(n, ast.UnaryOp):
            add(n, f"({src(n.operand)})", "unary")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, (int, float)):
                add(n, f"({n.value} + 1)", "const+")
                add(n, f"({n.value} - 1)", "const-")
            elif n.value is None:
                pass
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
        elif isinstance(n, ast.While):
            add(n.test, "False", "cond")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            v = getattr(n, "value", None)
            if isinstance(v, ast.Call) and src(v.func).startswith(("logger.", "logging.", "warnings.")):
                continue
            if not isinstance(v, (ast.Yield, ast.YieldFrom, ast.Constant)):
                add(n, "pass", "delete")
            if isinstance(n, ast.AugAssign):
                add(n, f"{src(n.target)} = {src(n.value)}", "aug")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for k in range(len(n.args) - 1):
                    a, b = pos(n)
                    x0, x1 = pos(n.args[k])
                    y0, y1 = pos(n.args[k + 1])
                    new = raw[a:x0] + raw[y0:y1] + raw[x1:y0] + raw[x0:x1] + raw[y1:b]
                    add(n, new.decode(), "swapargs")
            for kw in n.keywords:
                if kw.arg is not None:
                    a, b = pos(n)
                    k0, k1 = pos(kw)
                    rest = raw[k1:b].lstrip()
                    head, tail = raw[a:k0], raw[k1:b]
                    if rest.startswith(b","):
                        tail = rest[1:]
                    add(n, (head + tail).decode(), "dropkw")
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if name in ("list", "tuple", "sorted", "reversed", "copy", "deepcopy", "asarray", "ascontiguousarray", "array", "dict") and len(n.args) == 1:
                add(n, f"({src(n.args[0])})", "unwrap")
            if name in ("min", "max"):
                add(n.func, "max" if name == "min" else "min", "minmax")
        elif isinstance(n, ast.Slice):
            if n.lower is not None or n.upper is not None:
                pass
        elif isinstance(n, ast.With):
            pass
    seen, res = set(), []
    for line, op, old, new, data in out:
        if data == raw or data in seen:
            continue
        try:
            compile(data, path, "exec")
        except SyntaxError:
            continue
        seen.add(data)
        res.append((line, op, old, new, data))
    return res


def run(item):
    rel, line, op, old, new, data, key = item
    w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        subprocess.run(f"cp -a /repo/. {w}/", shell=True, check=True)
        with open(f"{w}/fv3gfs/util/{rel}", "wb") as f:
            f.write(data)
        rec = {"key": key, "file": rel, "line": line, "op": op, "old": old[:200], "new": new[:200], "result": "SURVIVED", "notes": []}
        for c in CHECKS[rel].split():
            env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE_DIR=w + "/ev", VERIF_FAILFAST="1", VERIF_WORKERS=str(A.each),
                       VERIF_TIER="quick")
            try:
                r = subprocess.run(["nice", "-n", "19", f"{ROOT}/check.sh", c], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                rec["notes"].append(f"{c} TIMEOUT")
                continue
            if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                rec["result"] = c
                what = [l for l in r.stdout.splitlines() if l.startswith("  what")]
                rec["what"] = (what or [""])[0][:250]
                break
            if r.returncode != 0:
                rec["notes"].append(f"{c} rc={r.returncode} {r.stderr[-300:]}")
        return rec
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--each", type=int, default=2)
    ap.add_argument("--files")
    ap.add_argument("--list", action="store_true")
    A = ap.parse_args()
    done = set()
    if os.path.exists(A.out):
        done = {json.loads(l)["key"] for l in open(A.out)}
    todo = []
    for rel in (A.files.split(",") if A.files else CHECKS):
        if not os.path.exists(f"{SRC}/{rel}"):
            continue
        ms = mutants(f"{SRC}/{rel}")
        for line, op, old, new, data in ms:
            key = hashlib.sha1(rel.encode() + data).hexdigest()[:12]
            if key not in done:
                todo.append((rel, line, op, old, new, data, key))
        if A.list:
            print(rel, len(ms))
    print(len(todo), "mutants")
    if not A.list:
        with concurrent.futures.ThreadPoolExecutor(A.workers) as ex, open(A.out, "a") as f:
            for fut in concurrent.futures.as_completed([ex.submit(run, t) for t in todo]):
                rec = fut.result()
                f.write(json.dumps(rec) + "\n")
                f.flush()
