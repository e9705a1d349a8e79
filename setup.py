#!/usr/bin/env python3
"""Build what every check shares (the dependencies of carron, compiled for the verifier)."""
import sys
sys.dont_write_bytecode = True
import engine

found, log, rc = engine.codegen(["regfile::reset"], 1500)
if rc != 0 or not found:
    print(log[-4000:])
    sys.exit(1)
print("ready: %d contract(s) compiled" % len(found))
