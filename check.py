#!/usr/bin/env python3
"""usage: check.py <property id> [...]   runs the static check(s) for the given properties"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import report


def go(pid):
    m = importlib.import_module("checks." + pid.lower())
    return m.run()


if __name__ == "__main__":
    ids = sys.argv[1:]
    if len(ids) == 1:
        report.main(lambda: go(ids[0]), ids[0])
    else:
        import subprocess
        from concurrent.futures import ThreadPoolExecutor
        if ids == ["all"]:
            d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
            ids = sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == "p" and f[1:3].isdigit())
        with ThreadPoolExecutor(6) as ex:
            rs = list(ex.map(lambda i: subprocess.run([sys.executable, __file__, i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), ids))
        rc = 0
        for i, r in zip(ids, rs):
            print("== %s exit %d\n%s" % (i, r.returncode, r.stdout.rstrip()))
            rc = max(rc, r.returncode)
        sys.exit(rc)
