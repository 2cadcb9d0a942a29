#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import argparse, importlib, os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('pid')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a = ap.parse_args()
threading.stack_size(512 * 1024 * 1024)
rc = [2]


def main():
    import traceback
    try:
        from checks.base import Check
        m = importlib.import_module('checks.' + a.pid.lower())
        c = Check(a.pid, a.tier)
        m.run(c)
        rc[0] = c.finish()
    except Exception:
        traceback.print_exc()
        rc[0] = 2


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
