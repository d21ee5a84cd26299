"""Builds everything once, so that a broken toolchain shows early. Checks rebuild what they need."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mon"))
import vlib
for profile in ("release", "checked"):
    print(vlib.build(profile))
print(vlib.build("release", "vhist"))
