#!/usr/bin/env python3-vt
"""Entry point of all checks: check.py <property id>."""
import os, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT + "/lib", ROOT + "/checks"]
import vlib


def main():
    pid = sys.argv[1]
    import registry
    try:
        registry.CHECKS[pid](pid)
    except vlib.HarnessError as e:
        print("ERROR: %s" % e)
        sys.exit(3)


if __name__ == "__main__":
    main()
