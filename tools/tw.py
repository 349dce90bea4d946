#!/usr/bin/env python3-vt
"""Build and run one witness program: tools/tw.py c01.cpp [extra repo sources]"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
c = Check("W")
print(std_witness(c, sys.argv[1], repo_srcs=CORE + tuple(sys.argv[2:]) if len(sys.argv) > 2 else None))
print(c.witness_runs, round(time.time() - c.t0, 1), "s")
