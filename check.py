#!/opt/veriftools/pyvenv/bin/python3
"""check.py <PROPERTY> [--quick|--thorough]: decide one property on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.dont_write_bytecode = True
from core import *
import registry

if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in registry.CHECKS:
        print("usage: check.py <property> [--quick|--thorough]; properties: " + " ".join(registry.CHECKS))
        sys.exit(2)
    registry.main(sys.argv[1])
