"""Mutation testing of the checks: python3 tools/mutate.py list N SEED OUT.json | tests OUT.json | checks OUT.json [seconds]

list samples N syntactic mutants of /repo's code, tests marks those the existing tests miss, checks runs the checks against
those (most relevant first, until one reports a violation).  Results accumulate in OUT.json, which is not committed.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("BASE", "/repo")
PKG = BASE + "/pyrichlet"
ORDER_W = "C01 C17 C05 C03 C04 C02 C06 C15 C13 C12 C14 C25 C26 C27 C28 C18 C20 C21 C08 C07 C16".split()
ORDER_U = "C24 C22 C11 C10 C21 C23 C20 C18 C16 C09 C12 C14 C07".split()
ORDER_B = "C08 C10 C11 C20 C21 C18 C23 C15 C14 C09 C13 C19 C12 C16 C25 C26 C27 C28 C07".split()
SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}


def mutants_of(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = src.encode()

    def pos(line, col):
        return off[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(a, b, new, kind, n):
        out.append(dict(path=os.path.relpath(path, BASE), a=a, b=b, old=raw[a:b].decode(), new=new, kind=kind, line=n.lineno))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            a = span(n.left)[1]
            b = span(n.right)[0]
            mid = raw[a:b].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//"}[type(n.op)]
            if mid.count(sym) == 1 and "#" not in mid:
                add(a, b, mid.replace(sym, SWAP[type(n.op)]), "binop", n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            add(a, b, " " + CMP[type(n.ops[0])] + " ", "compare", n)
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            m = raw[a:b].decode()
            add(a, b, m.replace("and", "or") if isinstance(n.op, ast.And) else m.replace("or", "and"), "bool", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            add(a, b, raw[span(n.operand)[0]:span(n.operand)[1]].decode(), "unary", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, b = span(n)
            add(a, b, str(not n.value), "const", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            a, b = span(n)
            add(a, b, repr(n.value + 1), "const", n)
            add(a, b, repr(n.value - 1) if n.value >= 1 else "0.5", "const", n)
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            a, b = span(n.target)[1], span(n.value)[0]
            m = raw[a:b].decode()
            add(a, b, m.translate(str.maketrans("+-*/", "-+/*")), "augop", n)
            a, b = span(n)
            add(a, b, "pass", "delete", n)
        elif isinstance(n, (ast.Assign, ast.Expr)) and n not in docs:
            a, b = span(n)
            add(a, b, "pass", "delete", n)
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            add(a, b, "False", "cond", n)
            if isinstance(n, ast.If):
                add(a, b, "True", "cond", n)
        elif isinstance(n, ast.Call) and n.keywords:
            k = n.keywords[-1]
            if k.arg and (n.args or len(n.keywords) > 1):
                prev = [span(x)[1] for x in n.args] + [pos(x.end_lineno, x.end_col_offset) for x in n.keywords[:-1]]
                a, b = max(prev), pos(k.end_lineno, k.end_col_offset)
                add(a, b, "", "keyword", n)
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    ok = []
    for m in out:
        new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                ok.append(m)
        except SyntaxError:
            pass
    return ok


def tree_with(m):
    W = tempfile.mkdtemp(prefix="mut-")
    shutil.copytree(BASE, W + "/repo", ignore=shutil.ignore_patterns(".git", "docs", "examples", "*.ipynb", "__pycache__"))
    p = W + "/repo/" + m["path"]
    raw = open(p, "rb").read()
    assert raw[m["a"]:m["b"]].decode() == m["old"], "stale mutant"
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    return W


def run_tests(m):
    W = tree_with(m)
    try:
        env = dict(os.environ, PYTHONPATH=W + "/repo", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "pyrichlet"], cwd=W + "/repo", env=env, capture_output=True, text=True, timeout=200)
            return "pass" if "32 passed" in r.stdout else "fail"
        except subprocess.TimeoutExpired:
            return "timeout"
    finally:
        shutil.rmtree(W)


def run_checks(m):
    W = tree_with(m)
    try:
        order = ORDER_W if "weight_models" in m["path"] else ORDER_U if ("_utils" in m["path"] or "/utils/" in m["path"]) else ORDER_B
        if not ("weight_models" in m["path"] or "_utils" in m["path"] and m["line"] < 50 or "_base" in m["path"] and 780 < m["line"] < 960):
            order = [p for p in order if p != "C07"]
        for p in order:
            try:
                r = subprocess.run([ROOT + "/check", p, "--scale", os.environ.get("SCALE", "1")], cwd=ROOT, env=dict(os.environ, VF_REPO=W + "/repo", VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return p + "?timeout"
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                return p
            if r.returncode:
                return p + "?%d" % r.returncode
        return "MISSED"
    finally:
        shutil.rmtree(W)


def save(ms, f):
    open(f + ".tmp", "w").write(json.dumps(ms, indent=0))
    os.replace(f + ".tmp", f)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "list":
        n, seed, f = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        ms = []
        for d, _, fs in os.walk(PKG):
            if "tests" in d or "_data" in d:
                continue
            for x in sorted(fs):
                if x.endswith(".py") and x not in ("_version.py", "__init__.py", "_loaders.py", "exceptions.py"):
                    ms += mutants_of(os.path.join(d, x))
        print(len(ms), "mutants")
        random.Random(seed).shuffle(ms)
        save(ms[:n], f)
    elif cmd == "tests":
        f = sys.argv[2]
        ms = json.load(open(f))
        todo = [m for m in ms if "tests" not in m]
        with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
            for i, (m, r) in enumerate(zip(todo, ex.map(run_tests, todo))):
                m["tests"] = r
                if i % 20 == 19:
                    save(ms, f)
        save(ms, f)
        print(sum(m["tests"] == "pass" for m in ms), "of", len(ms), "pass the tests")
    elif cmd == "checks":
        f = sys.argv[2]
        end = time.time() + float(sys.argv[3]) if len(sys.argv) > 3 else 1e18
        ms = json.load(open(f))
        for m in ms:
            if m.get("tests") == "pass" and "by" not in m and time.time() < end:
                t = time.time()
                m["by"] = run_checks(m)
                save(ms, f)
                print("%-9s %4.0f s %s:%d [%s] %r -> %r" % (m["by"], time.time() - t, os.path.basename(m["path"]), m["line"], m["kind"], m["old"][:60], m["new"][:40]), flush=True)
