#!/usr/bin/env python3
"""Nothing needs to be built ahead: every check compiles its own harness. This verifies the tools."""
import shutil, subprocess, sys, os, tempfile
missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
if missing: print("missing", missing); sys.exit(1)
d = tempfile.mkdtemp()
try:
    open(d + "/t.cpp", "w").write("#include <mpfr.h>\n#include <gmpxx.h>\nint main(){mpfr_t x;mpfr_init2(x,53);mpfr_clear(x);mpq_class q(1,2);return q>1;}\n")
    r = subprocess.run(["g++", d + "/t.cpp", "-o", d + "/t", "-lmpfr", "-lgmpxx", "-lgmp"])
    sys.exit(r.returncode or subprocess.run([d + "/t"]).returncode)
finally: shutil.rmtree(d)
