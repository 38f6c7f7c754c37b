#!/usr/bin/env python3
"""origin.py [ids]: whether each planted bug changes lines of the original repository."""
import os, re, subprocess, sys
BASE = "f7f1754a"
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
fixes = set(subprocess.run(["git", "rev-list", f"{BASE}..HEAD"], cwd="/repo", capture_output=True, text=True).stdout.split())
cache = {}
for i in ids:
    f, n, own, old, near = None, 0, 0, 0, []
    for l in open(f"/verif/seeded/{i}/patch.diff"):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            if f not in cache:
                b = subprocess.run(["git", "blame", "-l", "-s", "HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout
                cache[f] = [x.split(" ")[0].lstrip("^") for x in b.splitlines()]
        elif m := re.match(r"@@ -(\d+)", l):
            n = int(m.group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if any(cache[f][n - 1].startswith(x[:39]) for x in fixes):
                own += 1
            else:
                old += 1
            n += 1
        elif l.startswith("+") and not l.startswith("+++"):
            near += [any(cache[f][k].startswith(x[:39]) for x in fixes) for k in (n - 2, n - 1) if 0 <= k < len(cache[f])]
        elif l.startswith(" "):
            n += 1
    if own and not old:
        print(i, "ONLY OWN LINES")
    elif not old:
        print(i, "only insertions", "near own lines" if any(near) else "")
