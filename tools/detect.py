#!/usr/bin/env python3
"""Runs the quick check of each seeded change's property against it, in a scratch clone. usage: detect.py [ID...]"""
import json, os, subprocess, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S = os.path.join(V, "seeded")
R = "/tmp/detect/repo"
if not os.path.exists(R):
    os.makedirs("/tmp/detect", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", R])
subprocess.run(["git", "-C", R, "fetch", "-q"])
subprocess.run(["git", "-C", R, "checkout", "-q", "-f", "origin/HEAD"])
for b in sys.argv[1:] or sorted(os.listdir(S)):
    prop = json.load(open(f"{S}/{b}/meta.json"))["property"]
    r = subprocess.run(["git", "-C", R, "apply", f"{S}/{b}/patch.diff"])
    if r.returncode:
        print(b, "does not apply", flush=True)
        continue
    t = time.time()
    try:
        r = subprocess.run([sys.executable, f"{V}/check.py", prop], env=dict(os.environ, TOMSOLVER_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."])
    hit = any(l.startswith(f"VIOLATION property={prop}") for l in r.stdout.splitlines())
    why = [l for l in r.stdout.splitlines() if "FAIL" in l or "message" in l or "violation" in l.lower()]
    print(b, prop, "caught" if hit and r.returncode == 1 else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", (why[0][:160] if why else ""), flush=True)
