#!/usr/bin/env python3
"""setup_cmd: nothing to install; verifies that the tools the checks need are present."""
import shutil, subprocess, sys
for t in ("g++", "git"):
    if not shutil.which(t):
        sys.exit("missing " + t)
subprocess.check_call(["g++", "-std=c++17", "-fsyntax-only", "-Iengine", "engine/pbt_main.cpp"])
print("ok")
