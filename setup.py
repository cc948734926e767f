#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree, so that the first check starts warm (checks rebuild on their own)."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import vf
for f in sorted(os.listdir(vf.HARN)):
    if f.startswith("h_") and f.endswith(".cpp"):
        print("built", vf.build(f[:-4], lib=f != "h_common.cpp", extra=["-fsanitize=address", "-fno-omit-frame-pointer"] if f == "h_obj.cpp" else []))
