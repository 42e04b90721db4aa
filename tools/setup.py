#!/usr/bin/env python3
"""setup_cmd: verify the toolchain and that the harness builds (every check
builds for itself again; nothing is shared)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import lib
k = lib.Check("setup")
try:
    k.build()
    print("ok")
finally:
    k.close()
