"""Builds the harness once, so that the toolchain and the specifications are known to work."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
for v in ["full", "ship", "plain", "nostd"]:
    print(lib.cargo_build(v))
