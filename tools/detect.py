#!/usr/bin/env python3
"""detect.py [id...]: applies each seeded change to /repo in turn, runs the check of its property, and undoes it."""
import json, os, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout, "/repo is not clean"
for i in ids:
    p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    try:
        subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
        t = time.time()
        r = subprocess.run(["python3", f"{V}/run.py", p, "--tier", "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        good = r.returncode == 1 and any(f"property={p} " in l for l in v)
        print("caught" if good else f"MISSED rc={r.returncode}", i, f"{time.time()-t:.0f}s", (v or r.stdout.splitlines()[-3:] or [""])[0][:160], flush=True)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
