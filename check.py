#!/usr/bin/env python3
"""Decide one property by static analysis of the current /repo tree.

usage: check.py --property C01 [--tier quick|thorough]
"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from sa import report
    mod = importlib.import_module(f"sa.rules.{a.property.lower()}")
    return report.run(a.property, a.tier, mod)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
