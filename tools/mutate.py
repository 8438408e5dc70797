#!/usr/bin/env python3
"""Mutation runs: tools/mutate.py PROP FILE FUNC[,FUNC..] [-n N] [--seed S] [--list]
Small changes of one function in a scratch copy, checked by the property's quick check; prints caught / missed."""
import argparse
import ast
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}


def span(src, node):
    lines = src.split("\n")
    off = [0]
    for q in lines:
        off.append(off[-1] + len(q.encode()) + 1)
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset


def py_mutants(src, funcs):
    b = src.encode()
    out = []

    def put(node, new, what):
        s, e = span(src, node)
        old = b[s:e].decode()
        if old != new:
            out.append((s, e, new, f"{node.lineno}: {old!r} -> {new!r} [{what}]"))

    def text(n):
        s, e = span(src, n)
        return b[s:e].decode()

    for f in ast.walk(ast.parse(src)):
        if not isinstance(f, ast.FunctionDef) or f.name not in funcs:
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                s, e = span(src, n.left)[1], span(src, n.comparators[0])[0]
                op = b[s:e].decode()
                for k, v in CMP.items():
                    if op.strip() == k:
                        out.append((s, e, op.replace(k, v), f"{n.lineno}: {text(n)!r} op {k} -> {v}"))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                s, e = span(src, n.left)[1], span(src, n.right)[0]
                op = b[s:e].decode()
                k = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/"}[type(n.op).__name__]
                v = {"+": "-", "-": "+", "*": "/", "/": "*"}[k]
                if op.count(k) == 1 and "**" not in op and "//" not in op:
                    out.append((s, e, op.replace(k, v), f"{n.lineno}: {text(n)!r} op {k} -> {v}"))
            elif isinstance(n, ast.BoolOp):
                s, e = span(src, n.values[0])[1], span(src, n.values[1])[0]
                op = b[s:e].decode()
                k = "and" if isinstance(n.op, ast.And) else "or"
                if k in op:
                    out.append((s, e, op.replace(k, "or" if k == "and" else "and"), f"{n.lineno}: {text(n)!r} {k} swapped"))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                s, e = span(src, n.left)[1], span(src, n.right)[0]
                op = b[s:e].decode()
                k = "&" if isinstance(n.op, ast.BitAnd) else "|"
                out.append((s, e, op.replace(k, "|" if k == "&" else "&"), f"{n.lineno}: {text(n)!r} {k} swapped"))
            elif isinstance(n, ast.Constant) and type(n.value) is int and n.end_lineno == n.lineno:
                put(n, str(n.value + 1), "const")
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                put(n, str(not n.value), "const")
            elif isinstance(n, ast.If):
                put(n.test, f"not ({text(n.test)})", "if") if "\n" not in text(n.test) else None
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and n is not f.body[-1]:
                if isinstance(n, ast.AugAssign) or isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                    put(n, "pass", "drop")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "log" not in text(n)[:4]:
                put(n, "pass", "drop")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.USub)):
                put(n, text(n.operand), "unary")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                put(n, f"bool({text(n.operand)})", "unary")
    return out


def c_mutants(src, funcs):
    out = []
    for fn in funcs:
        for m in re.finditer(r"^" + fn + r"\s*\(", src, re.M):
            i = src.find("{", m.start())
            if i < 0 or ";" in src[m.start():i]:
                continue
            j = src.index("\n}", i)
            body = src[i:j]
            clean = re.sub(r"/\*.*?\*/", lambda q: re.sub(r"[^\n]", " ", q.group()), body, flags=re.S)
            clean = re.sub(r"//[^\n]*", lambda q: " " * len(q.group()), clean)
            for q in re.finditer(r"(?<![-<>=!&|+])(<=|>=|==|!=|&&|\|\||<|>|\+=|-=|\+|\*|/|-|\||&)(?![=>+&|-])", clean):
                k = q.group()
                v = {"&&": "||", "||": "&&", "+": "-", "-": "+", "/": "*", "+=": "-=", "-=": "+=", "|": "&", "&": None, "*": None}.get(k, CMP.get(k))
                before = clean[:q.start()].rstrip()
                if k == "*" and re.search(r"[\w)\]] $", clean[:q.start()]) and clean[q.end():q.end() + 1] == " ":
                    v = "/"
                if k == "&" and re.search(r"[\w)\]] $", clean[:q.start()]) and clean[q.end():q.end() + 1] == " ":
                    v = "|"
                if not v or (k == "-" and before[-1:] in "(,=") or '"' in clean[clean.rfind("\n", 0, q.start()):q.start()]:
                    continue
                ln = src.count("\n", 0, i + q.start()) + 1
                out.append((i + q.start(), i + q.end(), v, f"{ln}: {src.splitlines()[ln-1].strip()!r} {k} -> {v}"))
            for q in re.finditer(r"(?<![\w.])\d+(?![\w.])", clean):
                ln = src.count("\n", 0, i + q.start()) + 1
                if '"' in src.splitlines()[ln - 1]:
                    continue
                out.append((i + q.start(), i + q.end(), str(int(q.group()) + 1), f"{ln}: {src.splitlines()[ln-1].strip()!r} {q.group()} -> +1"))
            for q in re.finditer(r"^[ \t]+[\w\->.\[\]]+ (=|\+=|\|=|&=) [^;{}]*;", clean, re.M):
                ln = src.count("\n", 0, i + q.start()) + 1
                out.append((i + q.start(), i + q.end(), ";", f"{ln}: drop {q.group().strip()!r}"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("file")
    ap.add_argument("funcs")
    ap.add_argument("-n", type=int, default=8)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--only", help="substring of the description")
    ap.add_argument("--jobs", default="4")
    a = ap.parse_args()
    path = "/repo/src/stcal/" + a.file
    src = open(path).read()
    ms = (c_mutants if a.file.endswith(".c") else py_mutants)(src, a.funcs.split(","))
    if a.only:
        ms = [m for m in ms if a.only in m[3]]
    random.Random(a.seed).shuffle(ms)
    print(f"{a.prop}: {len(ms)} mutants of {a.funcs}", flush=True)
    if a.list:
        for m in ms:
            print(m[3])
        return
    w = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/src", w + "/src")
        for s, e, new, what in ms[:a.n]:
            b = src.encode() if a.file.endswith(".py") else src
            t = (b[:s] + new.encode() + b[e:]).decode() if a.file.endswith(".py") else b[:s] + new + b[e:]
            open(w + "/src/stcal/" + a.file, "w").write(t)
            t0 = time.time()
            r = subprocess.run([PY, "run.py", a.prop, "--jobs", a.jobs], cwd=HERE, text=True, capture_output=True,
                               env=dict(os.environ, VERIF_REPO_SRC=w + "/src", VERIF_EVIDENCE=w))
            tail = [q for q in r.stdout.splitlines() if q.strip()]
            word = "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else f"MISSED rc={r.returncode}"
            print(f"{word:12s} {a.prop} {time.time()-t0:5.0f}s {what}" + ("" if word == "CAUGHT" else f"   | {tail[-1][:160] if tail else r.stderr[-200:]}"), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main()
