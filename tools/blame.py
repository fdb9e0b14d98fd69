#!/usr/bin/env python3
"""For every planted bug: do the lines its patch removes belong to the original repository (base commit), not to our fix commits?"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "ddee99c"
mine = set(l[:40] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", BASE + "..HEAD"], text=True).split())
for i in sorted(os.listdir(V + "/seeded")):
    f = None; old = 0; bad = tot = 0
    for l in open("%s/seeded/%s/patch.diff" % (V, i)):
        if l.startswith("--- "): f = l[6:].strip(); continue
        if l.startswith("+++ ") or l.startswith("diff") or l.startswith("index"): continue
        m = re.match(r"@@ -(\d+)", l)
        if m: old = int(m.group(1)); continue
        if l.startswith("-"):
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "-L", "%d,%d" % (old, old), "HEAD", "--", f], text=True).split()[0].lstrip("^")
            tot += 1; bad += any(h.startswith(b) for h in mine); old += 1
        elif l.startswith("+"): pass
        else: old += 1
    print(i, "removed %d, of which ours %d" % (tot, bad), "<<<" if bad else "")
