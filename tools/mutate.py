#!/usr/bin/env python3
"""Developer aid: systematic mutants of /repo that pass the stable tests, against the checks.

usage: mutate.py gen FILE OUT.json      list mutants of slate/FILE that pass the stable tests
       mutate.py run OUT.json RES.json C01,C02,... [--full]   run the checks (native leg only without --full)"""

import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SKIP = {"__repr__", "_getch_nt"}

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}


def variants(n):
    """Replacement expressions for an expression node."""
    if isinstance(n, ast.Compare):
        for i, op in enumerate(n.ops):
            ops = list(n.ops)
            ops[i] = CMP[type(op)]()
            yield ast.Compare(n.left, ops, n.comparators)
        yield ast.Constant(True)
        yield ast.Constant(False)
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
        yield ast.BinOp(n.left, BIN[type(n.op)](), n.right)
        yield n.left
    elif isinstance(n, ast.BoolOp):
        yield ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)
        for v in n.values:
            yield v
    elif isinstance(n, ast.UnaryOp):
        yield n.operand
    elif isinstance(n, ast.IfExp):
        yield n.body
        yield n.orelse
    elif isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, int):
            yield ast.Constant(v + 1)
            yield ast.Constant(v - 1)
        elif isinstance(v, float):
            yield ast.Constant(v * 1.05)
        elif isinstance(v, str):
            yield ast.Constant(v[:-1] if v else "x")
        elif v is None:
            yield ast.Constant(0)
    elif isinstance(n, ast.Call):
        if n.keywords:
            for i in range(len(n.keywords)):
                yield ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1 :])
        if len(n.args) == 2:
            yield ast.Call(n.func, n.args[::-1], n.keywords)
        if len(n.args) == 1 and isinstance(n.func, (ast.Name, ast.Attribute)):
            yield n.args[0]
        if isinstance(n.func, ast.Attribute):
            yield n.func.value
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        yield n.value
    elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
        yield ast.Tuple(n.elts[::-1], n.ctx)


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def emit(n, text, what):
        a, b = pos(n)
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append({"line": n.lineno, "old": raw[a:b].decode(), "new": text, "what": what, "src": new})

    def walk(n, infstr=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in SKIP:
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.stmt):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return
            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Assign)):
                emit(n, "pass", "deleted")
            if isinstance(n, (ast.Continue,)):
                emit(n, "break", "break")
            if isinstance(n, ast.If):
                t = ast.unparse(n.test)
                emit(n.test, "True", "if True")
                emit(n.test, "False", "if False")
                emit(n.test, f"not ({t})", "if not")
        if isinstance(n, ast.expr) and not infstr:
            for v in variants(n):
                try:
                    emit(n, "(" + ast.unparse(v) + ")", type(n).__name__)
                except Exception:
                    pass
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    if isinstance(n, ast.JoinedStr):
                        if isinstance(c, ast.FormattedValue):
                            walk(c.value, True)
                        continue
                    walk(c, infstr)

    walk(tree)
    seen, res = set(), []
    for m in out:
        if m["src"] not in seen and m["src"] != src:
            seen.add(m["src"])
            res.append(m)
    return res


def scratch():
    tmp = tempfile.mkdtemp(prefix="mutate_")
    subprocess.run(["cp", "-a", "/repo", tmp + "/repo"])
    return tmp


def survive(args):
    rel, m = args
    sys.path.insert(0, HERE + "/tools")
    tmp = scratch()
    try:
        repo = tmp + "/repo"
        open(os.path.join(repo, rel), "w").write(m["src"])
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA", "tests"], cwd=repo, env=dict(os.environ, PYTHONPATH=repo), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return False
        passed = {l.split()[1].split("::")[-1] for l in r.stdout.splitlines() if l.startswith("PASSED")}
        return all(s.split("::")[-1] in passed for s in stable)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(args):
    rel, m, props, full = args
    tmp = scratch()
    try:
        repo = tmp + "/repo"
        open(os.path.join(repo, rel), "w").write(m["src"])
        log = []
        for p in props:
            cmd = ["python3-vt", "check.py", p] + ([] if full else ["--no-prove"])
            try:
                r = subprocess.run(cmd, cwd=HERE, capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_OUT=tmp, VERIF_JOBS="8" if full else "1"))
            except subprocess.TimeoutExpired:
                log.append(p + " timeout")
                continue
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 1 and v:
                return p + (" no-input" if v[0].endswith("found") else ""), log
            if r.returncode:
                log.append(f"{p} rc {r.returncode} {r.stdout[-200:]} {r.stderr[-200:]}")
        return None, log
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "gen":
        rel = "slate/" + sys.argv[2]
        ms = mutants("/repo/" + rel)
        with cf.ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(survive, [(rel, m) for m in ms]))
        keep = [dict(m, rel=rel) for m, o in zip(ms, ok) if o]
        json.dump(keep, open(sys.argv[3], "w"))
        print(rel, len(ms), "mutants,", len(keep), "pass the stable tests")
    else:
        ms = json.load(open(sys.argv[2]))
        props = sys.argv[4].split(",")
        full = "--full" in sys.argv
        res = []
        with cf.ThreadPoolExecutor(1 if full else 8) as ex:
            for m, (hit, log) in zip(ms, ex.map(judge, [(m["rel"], m, props, full) for m in ms])):
                res.append(dict(m, hit=hit, log=log))
                if hit is None or log:
                    print(m["rel"], m["line"], repr(m["old"][:70]), "->", repr(m["new"][:70]), hit, log, flush=True)
        json.dump(res, open(sys.argv[3], "w"))
        print("caught", sum(1 for r in res if r["hit"]), "of", len(res))


main()
