#!/usr/bin/env python3
"""check.py ID [quick|thorough]: runs the check of one property (see MANIFEST.json)."""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import vlib  # noqa: E402
prop = sys.argv.pop(1)
mod = importlib.import_module(prop.lower())
vlib.main(mod.run, prop)
