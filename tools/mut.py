#!/usr/bin/env python3
"""mut.py SPEC.py: try source mutations in a scratch copy and report which checks notice.
SPEC: MUTS = [(name, file, old, new, nth, [properties])]; nth: which occurrence (0-based)"""
import sys, os, subprocess, shutil, runpy
W = "/tmp/mutw"
spec = runpy.run_path(sys.argv[1])["MUTS"]
only = sys.argv[2:] 
for name, f, old, new, nth, props in spec:
    if only and name not in only:
        continue
    if os.path.exists(W):
        shutil.rmtree(W)
    shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("target", ".git"))
    p = os.path.join(W, f)
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < nth + 2:
        print(name, "PATTERN NOT FOUND", flush=True)
        continue
    s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, "w").write(s)
    env = dict(os.environ, SUDOKU_REPO=W)
    out = []
    for pr in props:
        r = subprocess.run(["/verif/check", pr, "quick"], env=env, capture_output=True, text=True, timeout=900)
        first = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        out.append("%s:%s %s" % (pr, {0: "quiet", 1: "CAUGHT"}.get(r.returncode, r.returncode), first[0].strip()[:150] if first else ""))
    print(name, "|", " || ".join(out), flush=True)
shutil.rmtree(W, ignore_errors=True)
