#!/usr/bin/env python3
"""mutate.py OUT.json [seed] [per-file]: small changes to lines of the original
repository that the stable tests do not notice.  Input for mutcheck.py."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from multiprocessing.pool import ThreadPool
PY = "/opt/venv/bin/python"
FILES = [f"pycaption/{x}" for x in ("srt.py", "microdvd.py", "webvtt.py", "sami.py", "base.py", "geometry.py", "utils.py", "__init__.py", "dfxp/base.py",
                                    "dfxp/extras.py", "scc/__init__.py", "scc/specialized_collections.py", "scc/state_machines.py", "scc/translator.py")]
BASE = subprocess.run("git -C /repo log --format=%H --reverse | head -1", shell=True, capture_output=True, text=True).stdout.strip()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*"}


def original_lines(f):
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=40", f], capture_output=True, text=True).stdout
    return {i + 1 for i, l in enumerate(out.splitlines()) if l.lstrip("^").startswith(BASE[:38])}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(f):
    src = open(f"/repo/{f}").read()
    tree = ast.parse(src)
    ok = original_lines(f)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    res = []

    def put(n, new, what, end=None):
        if any(l not in ok for l in range(n.lineno, (end or n).end_lineno + 1)):
            return
        a = offs[n.lineno - 1] + n.col_offset
        z = offs[(end or n).end_lineno - 1] + (end or n).end_col_offset
        t = (b[:a] + new.encode() + b[z:]).decode()
        if t != src:
            res.append({"file": f, "line": n.lineno, "what": what, "old": b[a:z].decode()[:120], "new": new[:120], "text": t})
    docs = set()
    raising = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                raising.add(id(m))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in raising:
            continue
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__unicode__"):
            for m in ast.walk(n):
                raising.add(id(m))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in raising:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, f"{seg(src, n.left)} {CMP[type(n.ops[0])]} {seg(src, n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join(f"({seg(src, v)})" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + o2.join(f"({seg(src, v)})" for j, v in enumerate(n.values) if j != i) + ")", "drop-operand")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left, ast.JoinedStr):
            put(n, f"({seg(src, n.left)}) {OPS[type(n.op)]} ({seg(src, n.right)})", "arith")
            put(n, f"({seg(src, n.left)})", "drop-right")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"({seg(src, n.operand)})", "not")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            put(n, repr(n.value + 1), "const")
            if n.value:
                put(n, repr(n.value - 1), "const")
        elif isinstance(n, ast.If):
            put(n.test, "False", "if-never")
            put(n.test, "True", "if-always")
        elif isinstance(n, ast.IfExp):
            put(n, f"({seg(src, n.body)})", "ifexp")
            put(n, f"({seg(src, n.orelse)})", "ifexp")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if n.col_offset > 0:
                put(n, "pass", "delete")
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "delete")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "rstrip", "lstrip", "copy", "replace", "split", "sub") :
                if n.func.attr not in ("split", "sub"):
                    put(n, f"({seg(src, n.func.value)})", "drop-call")
            elif isinstance(n.func, ast.Name) and n.func.id in ("deepcopy", "int", "round", "sorted", "escape", "str", "min", "max", "reversed", "list") and n.args:
                put(n, f"({seg(src, n.args[0])})", "drop-call")
            for i, k in enumerate(n.keywords):
                if len(n.keywords) > 1 and k.arg:
                    parts = [seg(src, a) for a in n.args] + [f"{q.arg}={seg(src, q.value)}" if q.arg else f"**{seg(src, q.value)}" for j, q in enumerate(n.keywords) if j != i]
                    put(n, f"{seg(src, n.func)}({', '.join(parts)})", "drop-kw")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    return res


def tests(m, stable):
    w = tempfile.mkdtemp(prefix="mut")
    try:
        t = f"{w}/repo"
        subprocess.run(["cp", "-a", "/repo", t], check=True)
        open(f"{t}/{m['file']}", "w").write(m["text"])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        try:
            subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--disable-warnings", "-o", "junit_family=xunit2", f"--junitxml={w}/j.xml"],
                           cwd=t, env=env, capture_output=True, timeout=60)
            subprocess.run([PY, "/opt/vp/results.py", f"{w}/r.json", f"junit:{w}/j.xml"], cwd=t, env=env, capture_output=True)
            return not (stable - set(json.load(open(f"{w}/r.json"))["passed"]))
        except Exception:
            return False
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    out, seed, per = sys.argv[1], int((sys.argv + [0, 1])[2] or 1), int((sys.argv + [0, 0, 40])[3] or 40)
    rng = random.Random(seed)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    todo = []
    for f in FILES:
        ms = mutants(f)
        rng.shuffle(ms)
        print(f, len(ms), flush=True)
        todo += ms[:per]
    with ThreadPool(8) as p:
        keep = p.map(lambda m: tests(m, stable), todo, chunksize=1)
    sv = [m for m, k in zip(todo, keep) if k]
    json.dump(sv, open(out, "w"))
    print(len(todo), "tried", len(sv), "not noticed")
