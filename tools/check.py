#!/usr/bin/env python3
"""check.py <property>: decides one property for the current tree of /repo."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vlib

if __name__ == "__main__":
    for m in sorted(n[:-3] for n in os.listdir(HERE) if n.startswith("checks_") and n.endswith(".py")):
        fns = importlib.import_module(m).CHECKS
        if sys.argv[1] in fns:
            vlib.main(sys.argv[1], fns[sys.argv[1]])
    sys.exit("no check for " + sys.argv[1])
