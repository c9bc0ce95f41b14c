#!/usr/bin/env python3
"""Checks that what the checks need is installed, and that the engine works. Nothing is installed."""
import os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "clang++", "git"):
    if shutil.which(t) is None:
        sys.exit("missing tool: " + t)
for d in ("build", "out", "evidence"):
    os.makedirs(os.path.join(VERIF, d), exist_ok=True)
print("setup: ok")
