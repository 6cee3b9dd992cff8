#!/usr/bin/env python3
"""Runs the harnesses natively at arbitrary points (a check of the harnesses, not of the properties).

    selftest.py POINTS [PROPERTY...]
"""
import os, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog, vrun

n = int(sys.argv[1])
for pid in sys.argv[2:] or catalog.PROPS:
    work = tempfile.mkdtemp(prefix="self_")
    nat = vrun.Native(work)
    cnt, seen = {}, set()
    jobs = catalog.PROPS[pid]["jobs"]
    for j in jobs:
        j.setdefault("params", {})
        if not j.get("generate"):
            nat.binary(j["harness"], j.get("config"), j.get("stubs") or {}, False)
    def one(a):
        j, p = a
        return j, p, nat.run(j, {}, point=p)
    with ThreadPoolExecutor(8) as ex:
        for j, p, (rc, out) in ex.map(one, [(j, p) for j in jobs if not j.get("generate") for p in range(n)]):
            cnt[rc] = cnt.get(rc, 0) + 1
            if rc not in (0, 3) and vrun.job_label(j) not in seen:
                seen.add(vrun.job_label(j))
                print(pid, vrun.job_label(j), "point", p, "exit", rc, out[-150:].replace("\n", " | "))
    print(pid, cnt, flush=True)
    shutil.rmtree(work)
