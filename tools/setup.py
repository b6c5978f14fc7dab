#!/usr/bin/env python3
"""Checks that the tools the checks need are present and compiles the shared engine once."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
for t in ("clang++", "g++", "python3"):
    if not shutil.which(t): print("missing tool:", t); sys.exit(1)
b = build.Builder()
b.wait(b.engine() + b.sim())
print("ready")
