#!/usr/bin/env python3
"""setup_cmd: checks that what every check needs is there. Checks build what
they run from /repo's working tree themselves."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("ninja", "python3", "go", "node") if not shutil.which(t)]
cxx = shutil.which("g++-12") or shutil.which("g++")
if not cxx:
    missing.append("g++-12")
if missing:
    print("missing tools:", missing)
    sys.exit(1)
os.makedirs(f"{HERE}/evidence", exist_ok=True)
os.makedirs(f"{HERE}/build", exist_ok=True)
r = subprocess.run([cxx, "-std=gnu++23", "-fcoroutines", "-fsyntax-only", "-x", "c++", "-"],
                   input="#include <coroutine>\n#include <expected>\nint main(){}\n", text=True)
sys.exit(r.returncode)
