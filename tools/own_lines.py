#!/usr/bin/env python3
"""Lists the seeded changes that touch only lines added by our own commits in /repo (those do not count)."""
import os, re, subprocess
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
BASE = "24357c7"
anc = set(subprocess.run(["git", "-C", "/repo", "rev-list", BASE], capture_output=True, text=True).stdout.split())
cache = {}
def orig(f):
    if f not in cache:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout
        cache[f] = [any(a.startswith(l.split()[0].lstrip("^")) for a in anc) if l.startswith("^") else l.split()[0] in anc for l in out.splitlines()]
    return cache[f]
for b in sorted(os.listdir(S)):
    cur, changed, near = None, [], []
    old = 0
    for l in open(f"{S}/{b}/patch.diff", encoding="utf-8", errors="replace"):
        if l.startswith("--- a/"): cur = l[6:].strip()
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif (m := re.match(r"@@ -(\d+)", l)): old = int(m.group(1)); prev = None
        elif l.startswith("-"): changed.append(orig(cur)[old - 1] if old <= len(orig(cur)) else False); old += 1
        elif l.startswith("+"):
            near.append(orig(cur)[old - 2] if 1 < old <= len(orig(cur)) + 1 else True); near.append(orig(cur)[old - 1] if old <= len(orig(cur)) else True)
        else: old += 1
    s = f"{sum(changed)}/{len(changed)} changed original"
    if not changed: print(b, "insertion, neighbours original", f"{sum(near)}/{len(near)}")
    elif sum(changed) * 2 < len(changed) or not sum(changed): print(b, s)
