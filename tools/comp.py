#!/usr/bin/env python3
# Runs only the bounded companion of the given properties (for development).
import os, sys, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
for pid in sys.argv[1:]:
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="comp-")
    res = {}
    check.harness(pid, tmp, res)
    for n in res.get("notes", []): print("note:", n)
    for r in res.get("runs", []):
        print(pid, r["pkg"], "rc", r["rc"], r.get("evaluations"), r.get("distinct_nontrivial"), "violations", len(r["violations"] or []))
        for v in (r["violations"] or [])[:6]: print("  ", v["key"], "|", v["what"][:1200])
        if r["rc"] and not r["violations"]: print(r["tail"][-1500:])
    print("%.1f s" % (time.time() - t0))
    shutil.rmtree(tmp)
