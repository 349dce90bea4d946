#!/usr/bin/env python3
"""catch.py [ID...]: run the check of each planted bug's property on a scratch copy with the patch; prints caught / missed."""
import sys, os, subprocess, shutil, tempfile, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i; pid = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/src", tmp + "/src")
        a = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp, d + "/patch.diff"], cwd="/", capture_output=True, text=True)
        if a.returncode: a = subprocess.run(["patch", "-p1", "-s", "-d", tmp, "-i", d + "/patch.diff"], capture_output=True, text=True)
        t = time.time()
        r = subprocess.run(["python3-vt", V + "/props/%s.py" % pid.lower(), "quick"], env=dict(os.environ, REFLECT_REPO=tmp, EVIDENCE_DIR=tmp), capture_output=True, text=True)
        L = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%-32s %s rc=%d %5.0fs %s" % (i, "CAUGHT" if r.returncode == 1 and L else "MISSED", r.returncode, time.time() - t, L[0] if L else (r.stdout + r.stderr)[-300:]), flush=True)
        for l in r.stdout.splitlines():
            if l.startswith("failed obligation"): print("      ", l[:170])
    finally: shutil.rmtree(tmp)
