#!/usr/bin/env python3
"""mkseed.py SPEC.py : plant bugs.  SPEC.py defines SEEDS = [dict(id, property,
needs, breaks, edits=[(file, old, new)...], demo="python source")].
For each: scratch copy of /repo, edit, build, stable tests pass, demo 0 without /
non-zero with; on success writes /verif/seeded/<id>/."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=280):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {})))
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in m.SEEDS:
        if only and s["id"] not in only:
            continue
        work = tempfile.mkdtemp(prefix="seed")
        try:
            one(s, work, stable)
        finally:
            shutil.rmtree(work)


def one(s, work, stable):
    tree = os.path.join(work, "repo")
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    dst = os.path.join(work, "out")
    os.mkdir(dst)
    open(f"{dst}/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(f"{dst}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{dst}/demo.sh", 0o755)
    rc, out = sh(["bash", f"{dst}/demo.sh"], tree)
    if rc != 0:
        print(s["id"], "FAIL demo on unchanged tree", rc, out[-600:])
        return
    for f, old, new in s["edits"]:
        p = os.path.join(tree, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "FAIL edit", f, t.count(old), repr(old[:80]))
            return
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=tree, stdout=subprocess.PIPE, check=True).stdout.decode()
    open(f"{dst}/patch.diff", "w").write(diff)
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--disable-warnings", "--continue-on-collection-errors",
                  "-o", "junit_family=xunit2", f"--junitxml={work}/j.xml"], tree)
    sh([PY, "/opt/vp/results.py", f"{work}/r.json", f"junit:{work}/j.xml"], tree)
    missing = stable - set(json.load(open(f"{work}/r.json"))["passed"])
    if missing:
        print(s["id"], "FAIL tests", sorted(missing)[:6])
        return
    rc, out = sh(["bash", f"{dst}/demo.sh"], tree)
    if rc == 0:
        print(s["id"], "FAIL demo passes with the patch")
        return
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{dst}/meta.json", "w"), indent=1)
    final = f"/verif/seeded/{s['id']}"
    shutil.rmtree(final, ignore_errors=True)
    shutil.copytree(dst, final)
    print(s["id"], "ok;", "demo:", out.strip().splitlines()[-1][:150] if out.strip() else rc)


main()
