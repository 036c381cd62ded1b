#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]; see DESIGN.md."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import search  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
a = ap.parse_args()
sys.exit(search.run_check(a.property, a.tier, int(a.seed)))
