#!/usr/bin/env python3
"""replay.py <property> <unit> <replay file | hex>: evaluates the unit's contract on the real compiled code for one recorded input"""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, units as U
prop, name, what = sys.argv[1:4]
u = next(x for x in U.UNITS if x["prop"] == prop and x["name"] == name)
hexs = re.search(r"^input \(hex\): ([0-9a-f]*)$", open(what).read(), re.M).group(1) if os.path.exists(what) else what
os.makedirs(os.path.join(driver.ROOT, "build"), exist_ok=True)
work = tempfile.mkdtemp(prefix="replay_", dir=os.path.join(driver.ROOT, "build"))
try:
    c = driver.prepare("/repo", work)
    bad, out, path = driver.native_one(c, u, "quick", bytes.fromhex(hexs), "replay")
    print(out[-4000:])
    print("REPRODUCED" if bad else "not reproduced")
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(1 if bad else 0)
