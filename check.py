#!/usr/bin/env python3
"""check.py <property id>: run one property's check (see MANIFEST.json)."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
import vf
prop = sys.argv[1]
mod = importlib.import_module(prop)
vf.main(prop, mod.LEVEL, mod.run)
