#!/usr/bin/env python3-vt
"""check.py <property>: decide one property on /repo's working tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    sys.exit(core.main(prop, mod.check, getattr(mod, "LEVEL", "model_checking")))
