#!/usr/bin/env python3
"""seed.py SPEC.py...: make and confirm planted bugs. A spec file defines SEEDS, a list of dicts with ID, PROPERTY, EDITS [(file, old, new)], DEMO (C++ text of main program), NEEDS, BREAKS, SRCS (extra repo sources).
Builds /verif/seeded/<ID>/ and confirms: applies, builds, the stable tests pass, the demo passes without and fails with the patch."""
import sys, os, subprocess, shutil, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "src/reflect.cpp src/types/reflect/value.cpp src/types/reflect/type.cpp src/types/primitives.cpp " + " ".join("src/types/primitive_%s.cpp" % x for x in "void int bool long char short long_long float".split())
DEMO = r'''#!/bin/bash
# builds demo.cpp against the sources in the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
F="-std=c++11 -O0 -g0 -w -I$R/src -DREFLECT_USE_EXCEPTIONS=1 %(flags)s"
S="%(srcs)s"; O=""; P=""
for f in $S; do o=$T/$(echo "$f" | tr '/' '_').o; O="$O $o"; g++ $F -c "$R/$f" -o "$o" & P="$P $!"; done
g++ $F -c "$D/demo.cpp" -o "$T/demo.o" & P="$P $!"
for p in $P; do wait $p || { echo "demo does not build"; exit 98; }; done
g++ $F $O "$T/demo.o" -o "$T/demo" -pthread || exit 97
cd "$T" && timeout 120 ./demo
'''
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    f = tempfile.mktemp(suffix=".json"); r = sh("bash", "/opt/vp/test.sh", f)
    j = json.load(open(f)); os.unlink(f); return set(j["passed"])
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"])
want = [x for x in sys.argv[1:] if not x.endswith(".py")]
specs = []
for spec in sys.argv[1:]:
    if spec.endswith(".py"): g = {}; exec(open(spec).read(), g); specs += g["SEEDS"]
for ns in specs:
    i = ns["ID"]; d = V + "/seeded/" + i
    if want and i not in want: continue
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("git", "-C", "/repo", "worktree", "prune")
        shutil.copytree("/repo/src", tmp + "/src"); sh("git", "init", "-q", tmp); sh("git", "-C", tmp, "add", "-A"); sh("git", "-C", tmp, "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x")
        for f, o, n in ns["EDITS"]:
            p = tmp + "/src/" + f; s = open(p).read()
            if s.count(o) != 1: print(i, "PATTERN occurs", s.count(o), "times in", f, repr(o[:60])); break
            open(p, "w").write(s.replace(o, n))
        else:
            open(d + "/patch.diff", "w").write(sh("git", "-C", tmp, "diff").stdout)
            open(d + "/demo.cpp", "w").write(ns["DEMO"])
            open(d + "/demo.sh", "w").write(DEMO % dict(srcs=CORE + " " + ns.get("SRCS", ""), flags=ns.get("FLAGS", ""))); os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
            r0 = sh("bash", d + "/demo.sh", cwd="/repo")
            a = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
            try:
                ok = tests(); r1 = sh("bash", d + "/demo.sh", cwd="/repo")
            finally: sh("git", "-C", "/repo", "checkout", "--", ".")
            lost = stable - ok
            good = r0.returncode == 0 and r1.returncode not in (0, 97, 98, 99) and not lost and a.returncode == 0
            print(i, "OK" if good else "REJECTED", "| clean", r0.returncode, r0.stdout[-300:] if r0.returncode else "", "| patched", r1.returncode, r1.stdout.strip()[-200:], "| apply", a.returncode, a.stdout[:200], "| lost tests", sorted(lost)[:5])
            if not good and "--keep" not in sys.argv: shutil.rmtree(d)
    finally: shutil.rmtree(tmp)
sh("bash", "/opt/vp/build.sh")
