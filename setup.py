#!/usr/bin/env python3
"""Sanity of the tool chain: compiler with sanitizers and TBB are there. Every check builds what it needs itself."""
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
work = os.path.join(here, ".work")
os.makedirs(work, exist_ok=True)
with tempfile.TemporaryDirectory(dir=work) as d:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("#include <vector>\nint main(){std::vector<int> v(3);return v[0];}\n")
    p = subprocess.run(["g++", "-std=c++17", "-fsanitize=address,undefined", "-fopenmp", src, "-o", os.path.join(d, "a"), "-ltbb"])
    if p.returncode == 0:
        p = subprocess.run([os.path.join(d, "a")])
sys.exit(p.returncode)
