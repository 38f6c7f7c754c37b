#!/opt/venv/bin/python
"""Entry point of the checks:  run.py <property> [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.prop == "selftest":  # the tools the checks stand on
        import subprocess
        sys.path.insert(0, os.path.join(HERE, "harness"))
        import core
        ok = True
        for f in sorted(os.listdir(core.SPEC)):
            if f.endswith(".tla"):
                p = subprocess.run(["java", "-cp", core.TLA_CP, "tla2sany.SANY", f], cwd=core.SPEC,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    ok = False
                    print(p.stdout.decode())
        print("specification modules parse" if ok else "broken specification")
        sys.exit(0 if ok else 2)
    if os.environ.get("PYTHONHASHSEED") is None or "VERIF_CHILD" not in os.environ:
        env = dict(os.environ, PYTHONHASHSEED=str(a.seed % 4294967295), VERIF_CHILD="1",
                   PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
        env.pop("PYCAPTION_DEFAULT_LANG", None)
        env.pop("PYTHONPATH", None)
        os.execve(sys.executable, [sys.executable, os.path.join(HERE, "run.py")] + sys.argv[1:], env)
    sys.path.insert(0, os.path.join(HERE, "harness"))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    import warnings
    warnings.filterwarnings("ignore")
    mod = importlib.import_module(a.prop.lower())
    chk = getattr(mod, a.prop)(a.tier, a.seed)
    sys.exit(chk.run(a.replay))


if __name__ == "__main__":
    main()
