"""Nothing to build ahead of time: checks that the tools the checks use are present."""
import shutil, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import z3, symex, stl, llvmir
miss = [t for t in ("clang++-18", "g++", "cvc5", "/usr/lib/llvm-18/bin/opt") if not shutil.which(t)]
if miss: sys.exit("missing tools: %s" % miss)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence"), exist_ok=True)
print("setup ok: z3", z3.get_version_string())
