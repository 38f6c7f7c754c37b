#!/opt/venv/bin/python
"""cov.py [props...]: which lines of pycaption, and which outcomes of its conditions, the recorded scenarios reach (single process, sampled)."""
import ast, importlib, os, sys, warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE + "/harness"); sys.path.insert(0, REPO)
os.environ.setdefault("VERIF_FAST", "3")
warnings.filterwarnings("ignore")
arcs, lines = {}, {}

def local(frame, ev, arg):
    f = frame.f_code.co_filename
    if ev == "line":
        lines.setdefault(f, set()).add(frame.f_lineno)
        k = id(frame)
        prev = last.get(k)
        if prev is not None:
            arcs.setdefault((f, prev), set()).add(frame.f_lineno)
        last[k] = frame.f_lineno
    elif ev == "return":
        prev = last.pop(id(frame), None)
        if prev is not None:
            arcs.setdefault((f, prev), set()).add(0)
    return local
last = {}
def glob(frame, ev, arg):
    if frame.f_code.co_filename.startswith(REPO + "/pycaption"):
        return local
    return None

if len(sys.argv) != 2:     # all: one process each, and put together
    import json, subprocess
    ps = sys.argv[1:] or [f"C{i:02d}" for i in range(1, 21)]
    run = [subprocess.Popen([sys.executable, __file__, p], stdout=open(f"/tmp/cov-{p}.json", "w")) for p in ps]
    for r in run:
        r.wait()
    for p in ps:
        d = json.load(open(f"/tmp/cov-{p}.json"))
        print(p, d["n"])
        for f, l in d["lines"].items():
            lines.setdefault(f, set()).update(l)
        for f, a, b in d["arcs"]:
            arcs.setdefault((f, a), set()).update(b)
props = [] if len(sys.argv) != 2 else sys.argv[1:] or [f"C{i:02d}" for i in range(1, 21)]
for p in props:
    m = importlib.import_module(p.lower())
    c = getattr(m, p)("quick", 1)
    c.work = "/tmp/covwork"; os.makedirs(c.work, exist_ok=True)
    c.model_check()
    sc = list(c.scenarios())
    step = max(1, len(sc) // int(os.environ.get("COV_N", "1500")))
    n, err = 0, ''
    for s in sc[::step]:
        sys.settrace(glob)
        try:
            type(c).execute(s); n += 1
        except Exception as e:
            err = repr(e)
        finally:
            sys.settrace(None); last.clear()
    import json
    json.dump({"n": [len(sc), n, err], "lines": {f: sorted(l) for f, l in lines.items()}, "arcs": [[f, a, sorted(b)] for (f, a), b in arcs.items()]}, sys.stdout)
    sys.exit()
for root, _, fs in os.walk(REPO + "/pycaption"):
    for f in sorted(fs):
        if not f.endswith(".py"): continue
        path = root + "/" + f
        src = open(path).read(); L = src.split("\n"); tree = ast.parse(src)
        infn = set()
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef,)):
                for st in ast.walk(fn):
                    if isinstance(st, ast.stmt) and st is not fn and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        infn.add(st.lineno)
        miss = sorted(l for l in infn if l not in lines.get(path, set()))
        for l in miss: print(f"MISS {path[len(REPO)+1:]}:{l}: {L[l-1].strip()}")
        for st in ast.walk(tree):
            if isinstance(st, (ast.If, ast.While)) and st.lineno in lines.get(path, set()):
                body = st.body[0].lineno
                # all lines of the test
                tl = range(st.test.lineno, st.test.end_lineno + 1)
                succ = set().union(*[arcs.get((path, t), set()) for t in tl]) - set(tl)
                if body not in succ or len(succ - {body}) == 0:
                    print(f"HALF {path[len(REPO)+1:]}:{st.lineno}: {L[st.lineno-1].strip()}  succ={sorted(succ)} body={body}")
