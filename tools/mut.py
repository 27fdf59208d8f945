#!/usr/bin/env python3
"""development aid: run checks against textual mutants of a copy of the repository
usage: mut.py FILE.py [name...]   FILE defines M = [(name, checks, expect(1|0), [(file, old, new), ...]), ...]"""
import sys, os, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/repo")
ms = runpy.run_path(sys.argv[1])["M"]
sel = sys.argv[2:]


def one(m):
    name, checks, expect, edits = m
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        subprocess.check_call(["cp", "-a", BASE + "/src", BASE + "/CMakeLists.txt", d])
        if os.path.isdir(BASE + "/parser"):
            subprocess.check_call(["cp", "-a", BASE + "/parser", d])
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            nth = 0
            if isinstance(a, tuple):
                a, nth = a
            if s.count(a) <= nth:
                return (name, "NOAPPLY " + f, "")
            i = -1
            for _ in range(nth + 1):
                i = s.index(a, i + 1)
            s = s[:i] + b + s[i + len(a):]
            open(p, "w").write(s)
        out = []
        for c in checks.split():
            e = dict(os.environ, SCHNEK_REPO=d, VERIF_EVID=d + "/ev")
            r = subprocess.run([sys.executable, V + "/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
            out.append((c, r.returncode, r.stdout))
        ok = all(rc == expect for _, rc, _ in out) if expect == 0 else any(rc == 1 for _, rc, _ in out)
        return (name, ("ok  " if ok else "FAIL") + " expect %d: " % expect + " ".join("%s=%d" % (c, rc) for c, rc, _ in out), "" if ok else "\n".join(o[-1500:] for _, _, o in out))
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, [m for m in ms if not sel or m[0] in sel]):
        print("%-40s %s" % r[:2])
        if r[2]:
            print("      " + r[2].replace("\n", "\n      "))
