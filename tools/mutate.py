#!/usr/bin/env python3
"""mutate.py FILE(relative to repo) OUT.jsonl --props W01,.. [--runs N] [--tests web|none] [--funcs a,b] [--sample K] [--seed S]
Mutation campaign in scratch copies under /tmp/mut: one small syntactic change at a time, kept when the stable tests still
pass, then judged by the given checks.  Used to find blind spots; no check reads its output."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("out")
ap.add_argument("--props", required=True)
ap.add_argument("--runs", type=int, default=4000)
ap.add_argument("--tests", default="none")
ap.add_argument("--funcs", default="")
ap.add_argument("--lines", default="")
ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--par", type=int, default=8)
ap.add_argument("--only", default="")
a = ap.parse_args()
SRC = open(f"/repo/{a.file}").read()
tree = ast.parse(SRC)
lines = SRC.splitlines(keepends=True)
offs = [0]
for l in lines:
    offs.append(offs[-1] + len(l.encode()))
RAW = SRC.encode()


def span(n):
    return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset


def seg(n):
    s, e = span(n)
    return RAW[s:e].decode()


muts = []       # (line, func, desc, start, end, new)


def add(n, new, desc, fn):
    s, e = span(n)
    muts.append((n.lineno, fn, desc, s, e, new))


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}


def walk(node, fn):
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        fn = node.name
    if isinstance(node, ast.ClassDef):
        fn = node.name
    body = list(ast.iter_child_nodes(node))
    for c in body:
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
            continue      # docstring
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and "logger" in seg(c.value)[:12]:
            continue
        if isinstance(c, (ast.Import, ast.ImportFrom, ast.arguments)):
            continue
        if isinstance(c, ast.Raise):
            continue
        visit(c, fn)
        walk(c, fn)


def visit(n, fn):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        op = CMP[type(n.ops[0])]
        add(n, f"{seg(n.left)} {op} {seg(n.comparators[0])}", f"cmp {seg(n)} -> {op}", fn)
        if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            op = {"Lt": ">", "LtE": ">", "Gt": "<", "GtE": "<"}[type(n.ops[0]).__name__]
            add(n, f"{seg(n.left)} {op} {seg(n.comparators[0])}", f"cmp {seg(n)} -> {op}", fn)
    elif isinstance(n, ast.BoolOp):
        op = " or " if isinstance(n.op, ast.And) else " and "
        add(n, "(" + op.join(f"({seg(v)})" for v in n.values) + ")", f"bool {seg(n)[:50]} -> {op}", fn)
        for i in range(len(n.values)):
            o = " and " if isinstance(n.op, ast.And) else " or "
            add(n, "(" + o.join(f"({seg(v)})" for j, v in enumerate(n.values) if j != i) + ")", f"drop clause {seg(n.values[i])[:40]}", fn)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        add(n, f"({seg(n.operand)})", f"unnot {seg(n)[:40]}", fn)
    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        op = "-" if isinstance(n.op, ast.Add) else "+"
        if not isinstance(n.right, ast.Constant) or isinstance(n.right.value, int):
            add(n, f"{seg(n.left)}", f"drop right {seg(n)[:50]}", fn)
            if isinstance(n.right, ast.Constant) and isinstance(n.right.value, int):
                add(n, f"{seg(n.left)} {op} {seg(n.right)}", f"arith {seg(n)[:50]}", fn)
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        add(n, str(not n.value), f"const {n.value}", fn)
    elif isinstance(n, ast.Constant) and isinstance(n.value, int):
        add(n, str(n.value + 1), f"const {n.value}+1", fn)
        if n.value > 0:
            add(n, str(n.value - 1), f"const {n.value}-1", fn)
    elif isinstance(n, ast.Constant) and isinstance(n.value, bytes) and n.value:
        add(n, "b'~'", f"bytes {n.value!r}", fn)
    elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
        add(n.test, f"not ({seg(n.test)})", f"negate {seg(n.test)[:40]}", fn)
    elif isinstance(n, ast.IfExp):
        add(n, f"({seg(n.body)})", f"ifexp body {seg(n)[:40]}", fn)
        add(n, f"({seg(n.orelse)})", f"ifexp else {seg(n)[:40]}", fn)
    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
        add(n, "pass", f"drop stmt {seg(n)[:60]!r}", fn)
    elif isinstance(n, ast.Continue):
        add(n, "break", "continue->break", fn)
        add(n, "pass", "continue->pass", fn)
    elif isinstance(n, ast.Break):
        add(n, "continue", "break->continue", fn)
        add(n, "pass", "break->pass", fn)
    elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        add(n, "return None", f"return None for {seg(n)[:40]}", fn)
    elif isinstance(n, ast.Call):
        for i, k in enumerate(n.keywords):
            if k.arg and (i or n.args) :
                # drop one keyword argument
                parts = [seg(x) for x in n.args] + [f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}" for q in n.keywords if q is not k]
                add(n, f"{seg(n.func)}({', '.join(parts)})", f"drop kw {k.arg} in {seg(n)[:40]}", fn)
        nm = seg(n.func)
        for x, y in (("bisect_left", "bisect_right"), ("bisect_right", "bisect_left"), ("bisect_key_left", "bisect_key_right"), ("reversed", "list")):
            if nm.endswith(x):
                add(n.func, nm[:-len(x)] + y, f"{x}->{y}", fn)


walk(tree, "")
# statement-level removal of `if` guards: keep the body only / drop the whole statement
for n in ast.walk(tree):
    if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        muts.append((n.lineno, "", f"drop guard {seg(n.test)[:50]}", *span(n), "pass"))
fnof = {}
for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for ln in range(n.lineno, n.end_lineno + 1):
            fnof[ln] = n.name
muts = [(m[0], fnof.get(m[0], m[1]), *m[2:]) for m in muts]
uniq = {}
for m in muts:
    uniq[(m[3], m[4], m[5])] = m
muts = sorted(uniq.values())
if a.funcs:
    fs = set(a.funcs.split(","))
    muts = [m for m in muts if m[1] in fs]
if a.lines:
    lo, hi = map(int, a.lines.split("-"))
    muts = [m for m in muts if lo <= m[0] <= hi]
if a.only:      # re-judge the survivors of an earlier campaign
    keep = {(r["line"], r["desc"], r["new"]) for r in map(json.loads, open(a.only)) if r["res"] == "SURVIVED"}
    muts = [m for m in muts if (m[0], m[2], m[5]) in keep]
if a.sample:
    muts = random.Random(a.seed).sample(muts, min(a.sample, len(muts)))
print(len(muts), "mutants", flush=True)

BASE = "/tmp/mut"
q = queue.Queue()
for i in range(a.par):
    w = f"{BASE}/w{i}"
    if os.path.isdir(w):
        shutil.rmtree(w)
    os.makedirs(w)
    shutil.copytree("/repo/src", f"{w}/repo/src", ignore=shutil.ignore_patterns("__pycache__"))
    os.makedirs(f"{w}/verif")
    shutil.copytree("/verif/sim", f"{w}/verif/sim", ignore=shutil.ignore_patterns("__pycache__"))
    for f in ("check.py", "known_findings.json", "properties.jsonl", "MANIFEST.json"):
        shutil.copy(f"/verif/{f}", f"{w}/verif/{f}")
    q.put(w)
out = open(a.out, "w")
cnt = {}


def one(m):
    ln, fn, desc, s, e, new = m
    txt = RAW[:s] + new.encode() + RAW[e:]
    r = dict(line=ln, func=fn, desc=desc, new=new)
    try:
        compile(txt, "x", "exec")
    except SyntaxError:
        return None
    w = q.get()
    try:
        with open(f"{w}/repo/{a.file}", "wb") as f:
            f.write(txt)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=f"{w}/repo")
        if a.tests == "web":
            env["PYTHONPATH"] = f"{w}/repo/src/keri/db"
            try:
                p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                    "--confcutdir=/repo/tests/db", "--timeout=60", "/repo/tests/db/test_webdbing.py"], cwd=w, env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
                if p.returncode:
                    r["res"] = "tests"
                    return r
            except subprocess.TimeoutExpired:
                r["res"] = "tests"
                return r
            env.pop("PYTHONPATH")
        for p in a.props.split(","):
            c = subprocess.Popen([sys.executable, "check.py", p, "--runs", str(a.runs), "--workers", "1"], cwd=f"{w}/verif", env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            try:
                o, _ = c.communicate(timeout=900)
            except subprocess.TimeoutExpired:
                os.killpg(c.pid, 9)
                o, _ = c.communicate()
                r["res"] = f"TIMEOUT {p}"
                return r
            if c.returncode == 1 and "VIOLATION" in o:
                r["res"] = f"caught {p}"
                return r
            if c.returncode != 0:
                r["res"] = f"ERROR {p} rc={c.returncode} {o[-200:]}"
                return r
        r["res"] = "SURVIVED"
        return r
    finally:
        q.put(w)


with ThreadPoolExecutor(a.par) as ex:
    for r in ex.map(one, muts):
        if r is None:
            continue
        k = r["res"].split()[0]
        cnt[k] = cnt.get(k, 0) + 1
        out.write(json.dumps(r) + "\n")
        out.flush()
print(cnt)
