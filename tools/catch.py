#!/usr/bin/env python3
"""catch.py [ID..]: applies each planted bug to /repo, runs its property's quick check, undoes it. Not used by any check."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(f"{V}/seeded")):
    d = f"{V}/seeded/{i}"; m = json.load(open(f"{d}/meta.json"))
    r = subprocess.run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"])
    if r.returncode: print(i, "does not apply"); continue
    try:
        t = time.time()
        r = subprocess.run(["python3", "check.py", m["property"], "--tier", "quick"], cwd=V, capture_output=True, text=True)
        v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "violat" in l.lower()]
        print(i, m["property"], "CAUGHT" if r.returncode == 1 and f"VIOLATION property={m['property']} " in r.stdout else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", (v or r.stdout.strip().split("\n")[-3:])[0], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
