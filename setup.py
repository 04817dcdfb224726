#!/usr/bin/env python3-vt
"""Builds all instrumented binaries from /repo's working tree (checks rebuild what changed)."""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT + "/lib", ROOT + "/checks"]
import vlib, registry

try:
    exes, t = vlib.build(registry.all_targets())
    print("built %d targets in %.1fs" % (len(exes), t))
except vlib.HarnessError as e:
    # each check reports or works around what it cannot build
    print("note: not everything could be built: %s" % str(e)[:2000])
    vlib.build(registry.DRV)
vlib.build_python()
