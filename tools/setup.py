#!/usr/bin/env python3
"""setup: checks that the tools are there and builds the native crate once"""
import os, sys, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for t in ("verus", "cargo"):
    if not shutil.which(t):
        print("missing tool", t)
        sys.exit(1)
import check
os.makedirs(check.BUILD, exist_ok=True)
log = []
exe, hooks = check.native_build(log)
print("native crate:", exe, "hooks" if hooks else "no hooks")
sys.exit(0 if exe else 1)
