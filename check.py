#!/usr/bin/env python3
"""check.py <property>: decide one property of companyzero/zkc against its TLA+ specification."""
import glob, importlib, os, sys
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib")
sys.path.insert(0, LIB)
from vlib import main
REGISTRY = {}
for f in sorted(glob.glob(os.path.join(LIB, "c_*.py"))):
    REGISTRY.update(importlib.import_module(os.path.basename(f)[:-3]).CHECKS)
if __name__ == "__main__":
    sys.exit(main(REGISTRY))
