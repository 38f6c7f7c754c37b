#!/usr/bin/env python3
"""mutcheck.py IN.json OUT.json [fast]: which checks notice the changes of mutate.py.
Works on copies; VERIF_FAST samples the scenarios."""
import json, os, shutil, subprocess, sys
REL = {"srt.py": "C01 C02 C03 C04 C08 C20", "microdvd.py": "C01 C02 C03 C04 C08 C20", "webvtt.py": "C02 C01 C03 C04 C12 C11 C13 C08 C14 C20 C09",
       "dfxp/base.py": "C07 C12 C11 C03 C04 C13 C14 C01 C02 C08 C09 C10 C20", "dfxp/extras.py": "C07 C02 C03 C12 C11 C09 C14",
       "sami.py": "C11 C14 C04 C03 C01 C02 C08 C12 C09 C10 C20", "base.py": "C19 C02 C09 C10 C11 C07 C14 C08", "geometry.py": "C18 C13 C12 C09",
       "utils.py": "C20 C01 C04", "__init__.py": "C20", "scc/__init__.py": "C05 C16 C06 C15 C17 C10 C20",
       "scc/specialized_collections.py": "C05 C16 C06 C15 C10", "scc/state_machines.py": "C05 C16 C10", "scc/translator.py": "C05"}
src, dst = sys.argv[1:3]
fast = (sys.argv + ["6"])[3] if len(sys.argv) > 3 else "6"
W = f"/tmp/mc-{os.getpid()}"
os.makedirs(W)
shutil.copytree("/verif", f"{W}/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
os.makedirs(f"{W}/verif/evidence")
subprocess.run(["cp", "-a", "/repo", f"{W}/repo"], check=True)
res = []
try:
    for m in json.load(open(src)):
        p = f"{W}/repo/{m['file']}"
        orig = open(p).read()
        open(p, "w").write(m["text"])
        r = {k: v for k, v in m.items() if k != "text"}
        r["caught"], r["odd"] = None, []
        for c in REL[m["file"][len("pycaption/"):]].split():
            try:
                q = subprocess.run([f"{W}/verif/run.py", c, "--tier", "quick"], cwd=f"{W}/verif", capture_output=True, text=True, timeout=300,
                                   env=dict(os.environ, VERIF_REPO=f"{W}/repo", VERIF_FAST=fast, PYTHONDONTWRITEBYTECODE="1"))
            except subprocess.TimeoutExpired:
                r["odd"].append(c + ":timeout")
                continue
            if q.returncode == 1:
                r["caught"] = c
                break
            if q.returncode:
                r["odd"].append(f"{c}:{q.returncode}")
        open(p, "w").write(orig)
        res.append(r)
        json.dump(res, open(dst, "w"), indent=0)
        print(r["caught"], r["odd"], r["file"], r["line"], r["what"], repr(r["old"][:50]), "->", repr(r["new"][:50]), flush=True)
finally:
    shutil.rmtree(W)
