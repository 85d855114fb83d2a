#!/usr/bin/env python3
"""trials.py [ID...]: applies each planted change to /repo's working tree, runs the quick check of its property, undoes the
change, and prints whether the check reports it.  Refuses to run when /repo is not clean."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
if git("status", "--porcelain", "-uno").stdout.strip():
    sys.exit("/repo is not clean")
missed = []
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    if git("apply", os.path.join(d, "patch.diff")).returncode:
        print("does not apply", i); continue
    t = time.time()
    try:
        p = subprocess.run(["python3", "check.py", prop], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    finally:
        git("checkout", "--", ".")
    ok = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
    print("caught" if ok else "MISSED" if p.returncode == 0 else f"ERROR {p.returncode}", i, f"{time.time()-t:.0f}s", flush=True)
    if p.returncode not in (0, 1):
        print(p.stdout[-1500:])
    if not ok:
        missed.append(i)
print("missed:", *missed)
