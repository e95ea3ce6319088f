#!/usr/bin/env python3
"""Compiles the TLC overrides and checks the unbounded-integer operators against their definitions."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.BUILD, exist_ok=True)
w = tempfile.mkdtemp(dir=check.BUILD)
rc, out = check.TLC(w).run("BigIntSelfTest", "trace.cfg", workers=1)
shutil.rmtree(w, ignore_errors=True)
if rc != 0:
    print(out[-3000:])
sys.exit(1 if rc else 0)
