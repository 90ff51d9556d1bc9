#!/usr/bin/env python3
"""Decide one property:  check.py P01 [--tier quick|thorough] [--verbose]"""
import argparse, json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import decide

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--root", action="append")
    ap.add_argument("--mode")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    try:
        rc = decide.main(a)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
