#!/usr/bin/env python3
"""Run one check: python3 run.py <property> [--tier quick|thorough] [--root DIR]."""

import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa.main import main  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--procs", type=int, default=None)
    ap.add_argument("--only", default=None, help="substring of the task label")
    ap.add_argument("--every", type=int, default=0, help="take every n-th family only")
    ap.add_argument("--verbose", action="store_true")
    sys.exit(main(ap.parse_args()))
