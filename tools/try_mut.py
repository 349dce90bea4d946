#!/usr/bin/env python3
"""try_mut.py CHECK FILE OLD NEW [FILE OLD NEW ...]: run a check against a scratch copy of /repo/src with a textual change."""
import sys, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="mut_")
try:
    shutil.copytree("/repo/src", d + "/src")
    a = sys.argv[2:]
    while a:
        f, o, n = a[:3]; a = a[3:]
        p = d + "/src/" + f; s = open(p).read()
        if s.count(o) != 1: sys.exit("pattern occurs %d times in %s" % (s.count(o), f))
        open(p, "w").write(s.replace(o, n))
    e = dict(os.environ, REFLECT_REPO=d, EVIDENCE_DIR=d)
    for ck in sys.argv[1].split(","):
        r = subprocess.run(["python3-vt", V + "/props/%s.py" % ck.lower(), "quick"], env=e, capture_output=True, text=True)
        L = (r.stdout + r.stderr).strip().splitlines()
        print("rc", r.returncode); print("\n".join(x[:400] for x in L[:6] + (["..."] + L[-3:] if len(L) > 9 else L[6:])))
finally: shutil.rmtree(d)
