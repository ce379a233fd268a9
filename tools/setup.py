#!/usr/bin/env python3
"""Builds the harnesses once, so that the checks find warm build directories."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib
lib.build_crypto()
for f in ("build_net", "build_node"):
    if hasattr(lib, f):
        getattr(lib, f)()
print("ok")
